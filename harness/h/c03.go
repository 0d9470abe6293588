package h

import (
	openapi "github.com/swaggest/openapi-go"

	"verif/harness/sym"
)

var paramIns = []string{"path", "query", "header", "cookie"}

// C03_Spec3 checks acceptance of operations with arbitrary parameters in OpenAPI 3.0.
func C03_Spec3() { acceptance(3) }

// C03_Spec31 checks acceptance of operations with arbitrary parameters in OpenAPI 3.1.
func C03_Spec31() { acceptance(31) }

func acceptance(ver int) {
	d := newDoc(ver)
	maxPH, maxPrm := 2, 2
	if sym.Tier() > 0 {
		maxPH, maxPrm = 2, 3
	}
	nph := sym.Choice("placeholders", maxPH+1)
	path := ""
	var ph []string
	for i := 0; i < nph; i++ {
		n := sym.Str("placeholder", 1+sym.Choice("len", 2), "abAin/")
		for k := 0; k < len(n); k++ {
			sym.Assume(n[k] != '/')
		}
		ph = append(ph, n)
		switch sym.Choice("regexp", 2) {
		case 0:
			path += "/{" + n + "}"
		case 1:
			path += "/{" + n + ":[0-9]+}"
		}
	}
	if nph == 0 {
		path = "/"
	}
	n := sym.Choice("params", maxPrm+1)
	var o opSpec
	for i := 0; i < n; i++ {
		o.Params = append(o.Params, prm{
			sym.Str("name", 1+sym.Choice("len", 2), "abAin"), paramIns[sym.Choice("in", 4)],
		})
	}
	want := acceptable(ph, o.Params)
	var err error
	if sym.Choice("via", 2) == 0 {
		err = d.add("get", path, o)
	} else {
		err = d.setup("get", path, o)
	}
	sym.Assert(sym.Iff(err == nil, want), "accepted iff path parameters match placeholders and no parameter is declared twice")
	if err == nil {
		sym.Cover("accepted")
		ops := d.ops()
		sym.Assert(len(ops) == 1, "accepted operation is in the document")
		ps := paramsOf(ops[0].op)
		sym.Assert(len(ps) == n, "all parameters are kept")
		for i := range ps {
			sym.Assert(ps[i].Name == o.Params[i].Name && ps[i].In == o.Params[i].In, "parameters are kept in order")
		}
	} else {
		sym.Cover("rejected")
		sym.Assert(len(d.ops()) == 0, "rejected operation is not in the document")
	}
}

// C03_Reference3 checks operations that also have a parameter reference in OpenAPI 3.0.
func C03_Reference3() { acceptanceRef(3) }

// C03_Reference31 checks operations that also have a parameter reference in OpenAPI 3.1.
func C03_Reference31() { acceptanceRef(31) }

// References are kept and do not take part in the comparison.
func acceptanceRef(ver int) {
	d := newDoc(ver)
	path, ph := "/x", []string(nil)
	for i := sym.Choice("placeholders", 3); i > 0; i-- {
		n := sym.Str("placeholder", 1, "ab")
		ph = append(ph, n)
		path += "/{" + n + "}"
	}
	var o opSpec
	n := sym.Choice("params", 4)
	for i := 0; i < n; i++ {
		o.Params = append(o.Params, prm{sym.Str("name", 1, "ab"), []string{"path", "query"}[sym.Choice("in", 2)]})
	}
	o.Ref = 1 + sym.Choice("reference", n+1)
	err := d.add("get", path, o)
	sym.Assert(sym.Iff(err == nil, acceptable(ph, o.Params)), "accepted iff path parameters match placeholders and no parameter is declared twice, references aside")
	if err == nil {
		op, ok := d.get("get", path)
		sym.Assert(ok, "accepted operation is in the document")
		ps := paramsOf(op)
		sym.Assert(len(ps) == n, "all parameters are kept")
		for i := range ps {
			sym.Assert(ps[i].Name == o.Params[i].Name && ps[i].In == o.Params[i].In, "parameters are kept in order")
		}
	}
}

// acceptable is the specification of parameter consistency.
func acceptable(ph []string, ps []prm) bool {
	ok := true
	for i, p := range ps {
		for _, q := range ps[:i] {
			ok = sym.And(ok, sym.Not(sym.And(p.Name == q.Name, p.In == q.In)))
		}
		if p.In == "path" {
			any := false
			for _, x := range ph {
				any = sym.Or(any, x == p.Name)
			}
			ok = sym.And(ok, any)
		}
	}
	for _, x := range ph {
		any := false
		for _, p := range ps {
			if p.In == "path" {
				any = sym.Or(any, x == p.Name)
			}
		}
		ok = sym.And(ok, any)
	}
	return ok
}

type two struct {
	A string
	B string
}

type three struct {
	A string
	B string
	C string
}

// C03_Reflect3 checks acceptance of reflected request structures in OpenAPI 3.0.
func C03_Reflect3() { acceptanceReflect(3) }

// C03_Reflect31 checks acceptance of reflected request structures in OpenAPI 3.1.
func C03_Reflect31() { acceptanceReflect(31) }

// The parameters come from one or two structures with arbitrary field mappings.
func acceptanceReflect(ver int) {
	d := newDoc(ver)
	nph := sym.Choice("placeholders", 3)
	path := ""
	var ph []string
	for i := 0; i < nph; i++ {
		n := sym.Str("placeholder", 1, "abA")
		ph = append(ph, n)
		path += "/{" + n + "}"
	}
	if nph == 0 {
		path = "/"
	}
	oc, err := d.refl().NewOperationContext("get", path)
	sym.Assert(err == nil, "context is created")
	var ps []prm
	fields := []string{"A", "B"}
	units := 1
	if sym.Tier() > 0 {
		units = 2
	}
	for u := 0; u < units; u++ {
		m := map[string]map[string]string{}
		for _, f := range fields {
			k := sym.Choice("in", 4)
			if k == 3 {
				continue
			}
			in := paramIns[k]
			n := sym.Str("name", 1, "abA")
			if m[in] == nil {
				m[in] = map[string]string{}
			}
			m[in][f] = n
			ps = append(ps, prm{n, in})
		}
		oc.AddReqStructure(two{}, func(cu *openapi.ContentUnit) {
			for in, mm := range m {
				cu.SetFieldMapping(openapi.In(in), mm)
			}
		})
	}
	want := acceptable(ph, ps)
	err = d.refl().AddOperation(oc)
	sym.Assert(sym.Iff(err == nil, want), "reflected operation is accepted iff path parameters match placeholders and no parameter is declared twice")
	if err == nil {
		sym.Cover("accepted")
		ops := d.ops()
		sym.Assert(len(ops) == 1, "accepted operation is in the document")
		got := paramsOf(ops[0].op)
		sym.Assert(len(got) == len(ps), "every declared parameter is in the operation")
		for _, p := range ps {
			cnt := 0
			for _, q := range got {
				if p.Name == q.Name && p.In == q.In {
					cnt++
				}
			}
			sym.Assert(cnt == 1, "declared parameter appears exactly once")
		}
	} else {
		sym.Cover("rejected")
		sym.Assert(len(d.ops()) == 0, "rejected operation is not in the document")
	}
}
