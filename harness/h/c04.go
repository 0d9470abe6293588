package h

import (
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// resp is a version independent declared response.
type resp struct {
	key, desc string
	ref       bool
}

func (d *doc) responses(op any) map[string]resp {
	out := map[string]resp{}
	switch o := op.(type) {
	case openapi3.Operation:
		if o.Responses.Default != nil {
			out["default"] = r3(*o.Responses.Default)
		}
		for k, v := range o.Responses.MapOfResponseOrRefValues {
			out[k] = r3(v)
		}
	case openapi31.Operation:
		if o.Responses == nil {
			return nil
		}
		if o.Responses.Default != nil {
			out["default"] = r31(*o.Responses.Default)
		}
		for k, v := range o.Responses.MapOfResponseOrReferenceValues {
			out[k] = r31(v)
		}
	}
	return out
}

func r3(v openapi3.ResponseOrRef) resp {
	if v.ResponseReference != nil {
		return resp{desc: v.ResponseReference.Ref, ref: true}
	}
	if v.Response == nil {
		return resp{}
	}
	return resp{desc: v.Response.Description}
}

func r31(v openapi31.ResponseOrReference) resp {
	if v.Reference != nil {
		return resp{desc: v.Reference.Ref, ref: true}
	}
	if v.Response == nil {
		return resp{}
	}
	return resp{desc: v.Response.Description}
}

func withResponses(ver int, rs []resp) (openapi3.Operation, openapi31.Operation) {
	var a openapi3.Operation
	var b openapi31.Operation
	for _, r := range rs {
		x, y := openapi3.ResponseOrRef{}, openapi31.ResponseOrReference{}
		if r.ref {
			x.ResponseReference = &openapi3.ResponseReference{Ref: r.desc}
			y.Reference = &openapi31.Reference{Ref: r.desc}
		} else {
			x.Response = &openapi3.Response{Description: r.desc}
			y.Response = &openapi31.Response{Description: r.desc}
		}
		if r.key == "default" {
			a.Responses.Default = &x
			b.ResponsesEns().Default = &y
		} else {
			a.Responses.WithMapOfResponseOrRefValuesItem(r.key, x)
			b.ResponsesEns().WithMapOfResponseOrReferenceValuesItem(r.key, y)
		}
	}
	return a, b
}

// withRest adds members that are no responses.
func withRest(a *openapi3.Operation, b *openapi31.Operation, k int) {
	if k == 1 || k == 3 {
		x := "x-" + sym.Str("ext", 1, "a-z")
		a.Responses.WithMapOfAnythingItem(x, true)
		b.ResponsesEns().WithMapOfAnythingItem(x, true)
	}
	if k == 2 || k == 3 {
		a.WithMapOfAnythingItem("x-a", "b").WithTags("t")
		a.RequestBodyEns().RequestBodyEns().WithContentItem("text/plain", openapi3.MediaType{})
		b.WithMapOfAnythingItem("x-a", "b").WithTags("t")
		b.RequestBodyEns().RequestBodyEns().WithContentItem("text/plain", openapi31.MediaType{})
	}
}

// anyResponses declares arbitrary responses: an optional default one and up to n keyed ones.
func anyResponses(n int) []resp {
	var rs []resp
	for i, k := 0, sym.Choice("responses", n+1); i < k; i++ {
		r := resp{key: sym.Str("status", 1, "1-5"), desc: sym.Str("desc", 1, "a-z")}
		if sym.Choice("family", 2) == 1 {
			r.key += "XX"
		} else {
			r.key += sym.Str("status", 2, "0-9")
		}
		for _, q := range rs {
			sym.Assume(q.key != r.key)
		}
		r.ref = sym.Choice("ref", 2) == 1
		rs = append(rs, r)
	}
	if sym.Choice("default", 2) == 1 {
		rs = append(rs, resp{key: "default", desc: sym.Str("desc", 1, "a-z"), ref: sym.Choice("ref", 2) == 1})
	}
	return rs
}

func checkResponses(d *doc, op any, rs []resp) {
	got := d.responses(op)
	if len(rs) == 0 {
		sym.Cover("no content")
		sym.Assert(len(got) == 1, "operation without responses has one response")
		g, ok := got["204"]
		sym.Assert(ok && g.desc == "No Content" && !g.ref, "operation without responses has a 204 No Content response")
		return
	}
	sym.Cover("declared")
	sym.Assert(len(got) == len(rs), "number of documented responses")
	for _, r := range rs {
		g, ok := got[r.key]
		sym.Assert(ok && g.desc == r.desc && g.ref == r.ref, "declared response is documented as declared")
	}
}

// C04_Operation3 checks documented responses of added operations in OpenAPI 3.0.
func C04_Operation3() { addedResponses(3) }

// C04_Operation31 checks documented responses of added operations in OpenAPI 3.1.
func C04_Operation31() { addedResponses(31) }

func addedResponses(ver int) {
	d := newDoc(ver)
	m := httpMethods[sym.Choice("method", 8)]
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	rs := anyResponses(n)
	a, b := withResponses(ver, rs)
	withRest(&a, &b, sym.Choice("rest", 4))
	var err error
	via := sym.Choice("via", 2)
	if via == 1 {
		oc, e := d.refl().NewOperationContext(m, "/a")
		sym.Assert(e == nil, "context is created")
		if ver == 3 {
			*oc.(openapi3.OperationExposer).Operation() = a
		} else {
			*oc.(openapi31.OperationExposer).Operation() = b
		}
		err = d.refl().AddOperation(oc)
	} else if ver == 3 {
		err = d.r3.Spec.AddOperation(m, "/a", a)
	} else {
		if len(rs) == 0 && sym.Choice("nil", 2) == 1 {
			b.ResponsesEns()
		}
		err = d.r31.Spec.AddOperation(m, "/a", b)
	}
	sym.Assert(err == nil, "operation is added")
	op, ok := d.get(m, "/a")
	sym.Assert(ok, "operation is stored")
	checkResponses(d, op, rs)
}

// C04_Webhooks31 checks histories of webhook registrations.
func C04_Webhooks31() {
	d := newDoc(31)
	type hook struct {
		name, method, snap string
	}
	var model []hook
	steps := 2
	if sym.Tier() > 0 {
		steps = 3
	}
	first := 0
	if preset := sym.Choice("preset", 4); preset > 0 { // a webhook that was not added by AddWebhook
		w := openapi31.PathItemOrReference{}
		switch preset {
		case 1:
			w.ReferenceEns().WithRef("#/components/pathItems/a")
		case 2:
			w.PathItemEns().WithSummary("s")
		case 3:
			w.PathItemEns().WithPut(openapi31.Operation{})
		}
		d.r31.Spec.WithWebhooksItem("a", w)
		model = append(model, hook{"a", "", snap(w)})
		first = steps - 1
	}
	for i := first; i < steps; i++ {
		name := sym.Str("name", 1, "a-c/")
		if i == steps-1 && sym.Choice("long name", 2) == 1 {
			name += "/"
		}
		method := ""
		lm := ""
		if sym.Choice("kind", 2) == 0 {
			if i < steps-1 && sym.Tier() == 0 {
				lm = []string{"get", "head"}[sym.Choice("method", 2)]
			} else {
				lm = httpMethods[sym.Choice("method", 8)]
			}
			method = sym.Str("first", 1, string(lm[0])+string(lm[0]-32)) + lm[1:]
		} else {
			method = sym.Str("method", 3, "gGeEtT")
			if eqFoldLower(method, "get") {
				lm = "get"
			}
		}
		var rs []resp
		if i == steps-1 {
			rs = anyResponses(1)
		} else if sym.Choice("responses", 2) == 1 {
			rs = append(rs, resp{key: sym.Str("status", 1, "1-5") + "XX", desc: sym.Str("desc", 1, "a-z")})
		}
		a, b := withResponses(31, rs)
		if i == steps-1 {
			withRest(&a, &b, 3*sym.Choice("rest", 2))
		}
		sum := sym.Str("summary", 1, "A-Z")
		b.WithSummary(sum)
		var err error
		if sym.Choice("via", 2) == 0 {
			err = d.r31.Spec.AddWebhook(method, name, b)
		} else {
			oc, e := d.refl().NewOperationContext(method, name)
			err = e
			if e == nil {
				*oc.(openapi31.OperationExposer).Operation() = b
				err = d.r31.AddWebhook(oc)
			}
		}
		taken := false
		for _, h := range model {
			if h.name == name {
				taken = true
			}
		}
		if taken || lm == "" {
			sym.Cover("rejected")
			sym.Assert(err != nil, "taken webhook name or unknown method is rejected")
		} else {
			sym.Cover("accepted")
			sym.Assert(err == nil, "valid webhook is accepted")
			w, ok := d.r31.Spec.Webhooks[name]
			sym.Assert(ok && w.PathItem != nil && w.Reference == nil, "webhook is stored under its name")
			cnt := 0
			for _, x := range []struct {
				m string
				o *openapi31.Operation
			}{
				{"get", w.PathItem.Get}, {"put", w.PathItem.Put}, {"post", w.PathItem.Post}, {"delete", w.PathItem.Delete},
				{"options", w.PathItem.Options}, {"head", w.PathItem.Head}, {"patch", w.PathItem.Patch}, {"trace", w.PathItem.Trace},
			} {
				if x.o != nil {
					cnt++
					sym.Assert(x.m == lm, "webhook operation is stored at its method")
					sym.Assert(summaryOf(*x.o) == sum, "webhook operation is the given one")
					checkResponses(d, *x.o, rs)
				}
			}
			sym.Assert(cnt == 1, "webhook has one operation")
			model = append(model, hook{name, lm, snap(w)})
		}
		sym.Assert(len(d.r31.Spec.Webhooks) == len(model), "number of webhooks")
		for _, h := range model {
			w, ok := d.r31.Spec.Webhooks[h.name]
			sym.Assert(ok && snap(w) == h.snap, "registered webhook is unchanged")
		}
	}
	sym.Assert(len(d.ops()) == 0, "webhooks are not paths")
}
