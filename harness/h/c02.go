package h

import (
	"errors"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// reg is the model of a registered operation.
type reg struct {
	m, p, snap string
}

type reqID struct {
	ID string `path:"id"`
}

type reqNone struct {
	Q string `query:"q"`
}

// C02_History3 checks histories of registrations in OpenAPI 3.0.
func C02_History3() { history(3) }

// C02_History31 checks histories of registrations in OpenAPI 3.1.
func C02_History31() { history(31) }

func history(ver int) {
	d := newDoc(ver)
	var model []reg
	steps := 2
	if sym.Tier() > 0 {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		m := sym.Str("method", 3, "gGeEtTpPuU")
		lm := ""
		if eqFoldLower(m, "get") {
			lm = "get"
		} else if eqFoldLower(m, "put") {
			lm = "put"
		}
		lit := sym.Str("lit", 1, "ab")
		path := "/" + lit
		clean := path
		ph := false
		switch sym.Choice("path", 4) {
		case 1:
			path += "/{id}"
			clean = path
			ph = true
		case 2:
			clean += "/{id}"
			path += "/{id:" + sym.Str("regexp", 1, "a-z0-9.") + "}"
			ph = true
		case 3:
			clean += "/{id}/x"
			path += "/{id:[0-9]+}/x"
			ph = true
		}
		declared := ph
		if sym.Choice("mismatch", 2) == 1 {
			declared = !ph
		}
		sum := sym.Str("summary", 1, "A-Z")
		var err error
		via := sym.Choice("via", 4)
		fail := false
		var before string
		exists := false
		for _, e := range model {
			if e.m == lm && e.p == clean {
				exists = true
			}
		}
		switch via {
		case 0:
			o := opSpec{Summary: sum}
			if declared {
				o.Params = []prm{{"id", "path"}}
			}
			err = d.add(m, path, o)
		case 1, 2:
			fail = via == 2
			if !exists {
				before = ""
			}
			err = setupSummary(d, m, path, sum, declared, fail)
		case 3:
			var oc openapi.OperationContext
			oc, err = d.refl().NewOperationContext(m, path)
			if err == nil {
				sym.Assert(oc.Method() == lm && oc.PathPattern() == clean, "context holds the clean method and path")
				oc.SetSummary(sum)
				if declared {
					oc.AddReqStructure(reqID{})
				} else {
					oc.AddReqStructure(reqNone{})
				}
				err = d.refl().AddOperation(oc)
			}
		}
		_ = before
		ok := lm != "" && declared == ph && !fail
		isSetup := via == 1 || via == 2
		if exists && !isSetup {
			ok = false
		}
		if ok {
			sym.Assert(err == nil, "valid registration is accepted")
			op, found := d.get(lm, clean)
			sym.Assert(found, "accepted operation is stored under its method and clean path")
			sym.Assert(summaryOf(op) == sum, "accepted operation is the given one")
			s := snap(op)
			if exists {
				for k := range model {
					if model[k].m == lm && model[k].p == clean {
						model[k].snap = s
					}
				}
				sym.Cover("updated by SetupOperation")
			} else {
				model = append(model, reg{lm, clean, s})
			}
		} else {
			sym.Assert(err != nil, "invalid or duplicate registration is rejected")
			if exists {
				sym.Cover("duplicate rejected")
			}
		}
		sym.Assert(len(d.ops()) == len(model), "number of operations in the document")
		for _, e := range model {
			op, found := d.get(e.m, e.p)
			sym.Assert(found, "registered operation is still there")
			sym.Assert(snap(op) == e.snap, "registered operation is unchanged")
		}
	}
}

var errSetup = errors.New("setup failed")

// setupSummary sets the summary and declares a parameter with SetupOperation.
func setupSummary(d *doc, m, path, sum string, declared, fail bool) error {
	if d.ver == 3 {
		return d.r3.Spec.SetupOperation(m, path, func(op *openapi3.Operation) error {
			op.WithSummary(sum)
			op.Parameters = nil
			if declared {
				op.Parameters = append(op.Parameters, openapi3.Parameter{Name: "id", In: openapi3.ParameterInPath}.ToParameterOrRef())
			}
			return nil
		}, func(op *openapi3.Operation) error {
			if fail {
				return errSetup
			}
			return nil
		})
	}
	return d.r31.Spec.SetupOperation(m, path, func(op *openapi31.Operation) error {
		op.WithSummary(sum)
		op.Parameters = nil
		if declared {
			op.Parameters = append(op.Parameters, openapi31.Parameter{Name: "id", In: openapi31.ParameterInPath}.ToParameterOrRef())
		}
		return nil
	}, func(op *openapi31.Operation) error {
		if fail {
			return errSetup
		}
		return nil
	})
}

// C02_TwoContexts3: contexts created before either is added still collide.
func C02_TwoContexts3() { twoContexts(3) }

// C02_TwoContexts31: contexts created before either is added still collide.
func C02_TwoContexts31() { twoContexts(31) }

func twoContexts(ver int) {
	d := newDoc(ver)
	l1, l2 := sym.Str("lit", 1, "a-c"), sym.Str("lit", 1, "a-c")
	m1, m2 := httpMethods[sym.Choice("m1", 8)], httpMethods[sym.Choice("m2", 8)]
	c1, err := d.refl().NewOperationContext(m1, "/"+l1+"/{id:[a-z]}")
	sym.Assert(err == nil, "first context")
	c2, err := d.refl().NewOperationContext(m2, "/"+l2+"/{id}")
	sym.Assert(err == nil, "second context")
	c1.AddReqStructure(reqID{})
	c2.AddReqStructure(reqID{})
	c1.SetSummary("one")
	c2.SetSummary("two")
	sym.Assert(d.refl().AddOperation(c1) == nil, "first operation is added")
	one, _ := d.get(m1, "/"+l1+"/{id}")
	s1 := snap(one)
	err = d.refl().AddOperation(c2)
	if l1 == l2 && m1 == m2 {
		sym.Assert(err != nil, "second operation for the same slot is rejected")
	} else {
		sym.Assert(err == nil, "operation for another slot is accepted")
		two, found := d.get(m2, "/"+l2+"/{id}")
		sym.Assert(found && summaryOf(two) == "two", "second operation is stored")
	}
	one, found := d.get(m1, "/"+l1+"/{id}")
	sym.Assert(found && snap(one) == s1, "first operation is unchanged")
	_, err = d.refl().NewOperationContext(m1, "/"+l1+"/{id:[0-9]+}")
	sym.Assert(err != nil, "context for a taken slot is refused")
}

// richOp is an operation with a member that both operations have, and maybe all other members.
func richOp(ver, member int, text string, all bool) (openapi3.Operation, openapi31.Operation) {
	var a openapi3.Operation
	var b openapi31.Operation
	has := func(k int) bool { return all || k == member }
	if has(0) {
		a.WithID(text)
		b.WithID(text)
	}
	if has(1) {
		a.WithSummary(text)
		b.WithSummary(text)
	}
	if has(2) {
		a.WithTags(text)
		b.WithTags(text)
	}
	if has(3) {
		a.WithDeprecated(true)
		b.WithDeprecated(true)
	}
	if has(4) {
		a.WithSecurity(map[string][]string{text: {text}})
		b.WithSecurity(map[string][]string{text: {text}})
	}
	if has(5) {
		a.RequestBodyEns().RequestBodyEns().WithContentItem(text, openapi3.MediaType{})
		b.RequestBodyEns().RequestBodyEns().WithContentItem(text, openapi31.MediaType{})
	}
	if has(6) {
		a.Responses.WithMapOfResponseOrRefValuesItem("200", openapi3.ResponseOrRef{Response: &openapi3.Response{Description: text}})
		b.ResponsesEns().WithMapOfResponseOrReferenceValuesItem("200", openapi31.ResponseOrReference{Response: &openapi31.Response{Description: text}})
	}
	if has(7) {
		a.WithParameters(openapi3.Parameter{Name: text, In: openapi3.ParameterInQuery}.ToParameterOrRef())
		b.WithParameters(openapi31.Parameter{Name: text, In: openapi31.ParameterInQuery}.ToParameterOrRef())
	}
	if has(8) {
		a.WithMapOfAnythingItem("x-"+text, text)
		b.WithMapOfAnythingItem("x-"+text, text)
	}
	if has(9) {
		a.WithDescription(text)
		b.WithDescription(text)
	}
	if has(10) {
		a.WithServers(openapi3.Server{URL: text})
		b.WithServers(openapi31.Server{URL: text})
	}
	return a, b
}

// C02_Alike: operations that look alike collide like any others, and members of the path item are kept.
func C02_Alike() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	method := httpMethods[sym.Choice("method", 8)]
	member := sym.Choice("member", 11)
	text := func() string { return sym.Str("text", 1, "ab") }
	t1, t2 := text(), text()
	a1, b1 := richOp(ver, member, t1, sym.Choice("all", 2) == 1)
	a2, b2 := richOp(ver, member, t2, sym.Choice("all", 2) == 1)
	item := sym.Choice("path item", 2) == 1
	if item && ver == 3 {
		pi := openapi3.PathItem{}
		pi.WithSummary("s").WithDescription("d").WithServers(openapi3.Server{URL: "u"}).WithMapOfAnythingItem("x-a", "b")
		d.r3.Spec.Paths.WithMapOfPathItemValuesItem("/p", pi)
	} else if item {
		pi := openapi31.PathItem{}
		pi.WithSummary("s").WithDescription("d").WithServers(openapi31.Server{URL: "u"}).WithMapOfAnythingItem("x-a", "b")
		d.r31.Spec.PathsEns().WithMapOfPathItemValuesItem("/p", pi)
	}
	var oc openapi.OperationContext
	via := sym.Choice("via", 2)
	var err error
	if via == 1 {
		oc, err = d.refl().NewOperationContext(method, "/p")
		sym.Assert(err == nil, "context is created")
	}
	if ver == 3 {
		err = d.r3.Spec.AddOperation(method, "/p", a1)
	} else {
		err = d.r31.Spec.AddOperation(method, "/p", b1)
	}
	sym.Assert(err == nil, "first operation is added")
	one, _ := d.get(method, "/p")
	before := snap(one)
	switch {
	case via == 1 && ver == 3:
		*oc.(openapi3.OperationExposer).Operation() = a2
		err = d.refl().AddOperation(oc)
	case via == 1:
		*oc.(openapi31.OperationExposer).Operation() = b2
		err = d.refl().AddOperation(oc)
	case ver == 3:
		err = d.r3.Spec.AddOperation(method, "/p", a2)
	default:
		err = d.r31.Spec.AddOperation(method, "/p", b2)
	}
	sym.Assert(err != nil, "operation for a taken slot is rejected, however alike it is")
	one, ok := d.get(method, "/p")
	sym.Assert(ok && snap(one) == before, "first operation is unchanged")
	if item {
		kept := false
		if ver == 3 {
			pi := d.r3.Spec.Paths.MapOfPathItemValues["/p"]
			kept = strv(pi.Summary) == "s" && strv(pi.Description) == "d" && len(pi.Servers) == 1 && pi.MapOfAnything["x-a"] == "b"
		} else {
			pi := d.r31.Spec.Paths.MapOfPathItemValues["/p"]
			kept = strv(pi.Summary) == "s" && strv(pi.Description) == "d" && len(pi.Servers) == 1 && pi.MapOfAnything["x-a"] == "b"
		}
		sym.Assert(kept, "members of the path item are kept")
		sym.Cover("path item")
	}
	if t1 == t2 {
		sym.Cover("alike")
	}
}

// C02_Spec: a document given to a reflector stays the document, whatever it has.
func C02_Spec() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := &doc{ver: ver, r3: &openapi3.Reflector{}, r31: &openapi31.Reflector{}}
	text := sym.Str("text", 1, "a-z")
	s3, s31 := &openapi3.Spec{}, &openapi31.Spec{}
	given := sym.Choice("given", 2) == 1
	existing := false
	if given {
		switch sym.Choice("member", 5) {
		case 1:
			s3.Openapi, s31.Openapi = "3.0."+text, "3.1."+text
		case 2:
			s3.Info.Title, s31.Info.Title = text, text
		case 3:
			s3.WithMapOfAnythingItem("x-a", text)
			s31.WithMapOfAnythingItem("x-a", text)
		case 4:
			s3.WithTags(openapi3.Tag{Name: text})
			s31.WithTags(openapi31.Tag{Name: text})
		}
		d.r3.Spec, d.r31.Spec = s3, s31
		if sym.Choice("existing", 2) == 1 {
			existing = true
			sym.Assert(d.add("get", "/p", opSpec{Summary: text}) == nil, "first operation is added")
		}
	}
	head := func() string {
		if ver == 3 {
			return d.r3.Spec.Openapi + d.r3.Spec.Info.Title + snap(d.r3.Spec.MapOfAnything) + snap(d.r3.Spec.Tags)
		}
		return d.r31.Spec.Openapi + d.r31.Spec.Info.Title + snap(d.r31.Spec.MapOfAnything) + snap(d.r31.Spec.Tags)
	}
	var before string
	if given {
		before = head()
	}
	oc, err := d.refl().NewOperationContext("GET", "/p")
	sym.Assert((err != nil) == existing, "context for a taken slot is refused")
	if err == nil {
		oc.SetSummary("mine")
		oc.AddReqStructure(reqNone{})
		sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	}
	other, err := d.refl().NewOperationContext("put", "/p")
	sym.Assert(err == nil, "context for another slot")
	other.SetSummary("other")
	sym.Assert(d.refl().AddOperation(other) == nil, "other operation is added")
	if given {
		sym.Assert(head() == before, "members of the document are kept")
		sym.Assert(ver == 3 && d.r3.Spec == s3 || ver == 31 && d.r31.Spec == s31, "the given document is still the document")
		sym.Cover("given")
	}
	want := "mine"
	if existing {
		want = text
		sym.Cover("existing")
	}
	one, found := d.get("get", "/p")
	sym.Assert(found && summaryOf(one) == want, "first operation is kept")
	two, found := d.get("put", "/p")
	sym.Assert(found && summaryOf(two) == "other", "other operation is kept")
	sym.Assert(len(d.ops()) == 2, "number of operations in the document")
	sym.Assert(d.add("GET", "/p", opSpec{Summary: "again"}) != nil, "operation for a taken slot is rejected")
}

// foreignOp is an operation context made by nobody.
type foreignOp struct{ openapi.OperationContext }

// C02_Foreign: an operation context of another kind of reflector is refused.
func C02_Foreign() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d, other := newDoc(ver), newDoc(34-ver)
	method := httpMethods[sym.Choice("method", 8)]
	sym.Assert(d.add("get", "/a", opSpec{Summary: "first"}) == nil, "first operation is added")
	path := []string{"/a", "/b"}[sym.Choice("path", 2)]
	oc, err := other.refl().NewOperationContext(method, path)
	sym.Assert(err == nil, "new operation context")
	if sym.Choice("structures", 2) == 1 {
		oc.AddReqStructure(reqNone{})
		oc.AddRespStructure(reqNone{})
	}
	if sym.Choice("wrapped", 2) == 1 {
		oc = foreignOp{oc}
	}
	oc.SetSummary(sym.Str("summary", 1, "a-z"))
	before := ""
	if ver == 3 {
		before = snap(d.r3.Spec)
		err = d.refl().AddOperation(oc)
		sym.Assert(snap(d.r3.Spec) == before, "refused operation changes nothing")
	} else {
		before = snap(d.r31.Spec)
		if sym.Choice("webhook", 2) == 1 {
			err = d.r31.AddWebhook(oc)
		} else {
			err = d.refl().AddOperation(oc)
		}
		sym.Assert(snap(d.r31.Spec) == before, "refused operation changes nothing")
	}
	sym.Assert(err != nil, "operation context of another kind of reflector is refused")
	sym.Cover("refused")
}
