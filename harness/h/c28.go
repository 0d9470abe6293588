package h

import (
	"encoding/json"
	"reflect"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

const presetGroups = 12

// preset is the operation text of one group of members set in advance.
func preset(k int, txt string) map[string]any {
	s := func(v any) map[string]any { return map[string]any{"200": v} }
	switch k {
	case 0:
		return map[string]any{"externalDocs": map[string]any{"url": txt}, "servers": []any{map[string]any{"url": txt}}}
	case 1:
		return map[string]any{"callbacks": map[string]any{"c": map[string]any{"{$x}": map[string]any{"get": map[string]any{"responses": map[string]any{"204": map[string]any{"description": txt}}}}}}}
	case 2:
		return map[string]any{"x-" + txt: map[string]any{"a": txt}, "summary": txt, "security": []any{map[string]any{txt: []any{}}}}
	case 3:
		return map[string]any{"parameters": []any{map[string]any{"name": txt, "in": "query", "schema": map[string]any{"type": "string"}}, map[string]any{"name": "h", "in": "header", "description": txt, "schema": map[string]any{"type": "integer"}}}}
	case 4:
		return map[string]any{"parameters": []any{map[string]any{"$ref": "#/components/parameters/" + txt}}}
	case 5:
		return map[string]any{"requestBody": map[string]any{"description": txt, "required": true, "x-a": txt, "content": map[string]any{"text/" + txt: map[string]any{"example": txt}}}}
	case 6:
		c := map[string]any{}
		for _, ct := range []string{ctJSON, ctForm, ctMultipart, "text/csv"} {
			c[ct] = map[string]any{"examples": map[string]any{"e": map[string]any{"value": txt}}, "x-m": txt}
		}
		return map[string]any{"requestBody": map[string]any{"content": c}}
	case 7:
		return map[string]any{"responses": s(map[string]any{"description": txt, "headers": map[string]any{"Z": map[string]any{"description": txt, "schema": map[string]any{"type": "string"}}}, "x-r": txt})}
	case 8:
		return map[string]any{"responses": s(map[string]any{"description": txt, "links": map[string]any{"l": map[string]any{"operationId": txt}}, "content": map[string]any{ctJSON: map[string]any{"examples": map[string]any{"e": map[string]any{"value": txt}}}, "text/x": map[string]any{"example": txt, "x-n": txt}}})}
	case 9:
		return map[string]any{"responses": map[string]any{"4XX": map[string]any{"description": txt}, "500": map[string]any{"$ref": "#/components/responses/" + txt}, "x-s": txt}}
	case 10:
		return map[string]any{"responses": map[string]any{"default": map[string]any{"description": txt, "content": map[string]any{ctJSON: map[string]any{"example": txt}}}}}
	case 11:
		return map[string]any{"tags": []any{txt}, "operationId": txt, "deprecated": true, "description": txt}
	}
	return map[string]any{}
}

// overlay adds the second operation text to the first one, members of the first one win, except for schemas.
func overlay(a, b map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range a {
		out[k] = v
	}
	for k, v := range b {
		x, ok := out[k]
		if !ok {
			out[k] = v
			continue
		}
		switch {
		case k == "parameters":
			out[k] = append(append([]any(nil), x.([]any)...), v.([]any)...)
		case k == "schema":
			out[k] = v
		default:
			xm, ok1 := x.(map[string]any)
			vm, ok2 := v.(map[string]any)
			if ok1 && ok2 {
				out[k] = overlay(xm, vm)
			}
		}
	}
	return out
}

func opText(v any) map[string]any {
	b, err := json.Marshal(v)
	sym.Assert(err == nil, "operation is encoded")
	var m map[string]any
	sym.Assert(json.Unmarshal(b, &m) == nil, "operation is an object")
	return m
}

func dig(m map[string]any, keys ...string) (map[string]any, bool) {
	for _, k := range keys {
		x, ok := m[k].(map[string]any)
		if !ok {
			return nil, false
		}
		m = x
	}
	return m, true
}

var presetReqs = []any{nil, plainJSON{}, plainBoth{}, fileBoth{}, forcedForm{}, rawFields{}, []plainJSON{}, walkNamed{}, openapi.WithContentType("text/csv")}

// C28_Preset sets members of the operation of a context in advance; the operation has them and all that structures declare.
func C28_Preset() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	txt := sym.Str("text", 1, "a-z")
	p := preset(sym.Choice("first", presetGroups), txt)
	two := sym.Choice("two", 2) == 1
	if two {
		k := sym.Choice("second", presetGroups)
		p = overlay(p, preset(k, txt))
	}
	nreq, nmethod := len(presetReqs), 3
	if two {
		nreq, nmethod = few(nreq, nreq, 3), few(2, 3, 1)
	}
	method := []string{"post", "get", "head"}[sym.Choice("method", nmethod)]
	req := sym.Choice("request", nreq)
	resp := sym.Choice("response", 6)
	webhook := ver == 31 && sym.Choice("webhook", 2) == 1
	build := func(set bool) (map[string]any, bool) {
		d := newDoc(ver)
		oc, err := d.refl().NewOperationContext(method, "/p")
		sym.Assert(err == nil, "new operation context")
		if set {
			b, err := json.Marshal(p)
			sym.Assume(err == nil)
			_, has := p["responses"]
			if ver == 3 {
				if !has {
					b, err = json.Marshal(overlay(p, map[string]any{"responses": map[string]any{}}))
					sym.Assume(err == nil)
				}
				op := oc.(openapi3.OperationExposer).Operation()
				sym.Assume(json.Unmarshal(b, op) == nil)
				p = opText(op)
			} else {
				op := oc.(openapi31.OperationExposer).Operation()
				sym.Assume(json.Unmarshal(b, op) == nil)
				p = opText(op)
			}
			// Decoding adds default styles, responses are required in 3.0.
			if !has {
				delete(p, "responses")
			}
		}
		if opt, ok := presetReqs[req].(func(*openapi.ContentUnit)); ok {
			oc.AddReqStructure(nil, opt)
		} else if presetReqs[req] != nil {
			oc.AddReqStructure(presetReqs[req])
		}
		switch resp {
		case 1:
			oc.AddRespStructure(customResp{})
		case 2:
			oc.AddRespStructure(customResp{}, func(cu *openapi.ContentUnit) { cu.IsDefault = true })
		case 3:
			oc.AddRespStructure(nil, openapi.WithContentType("text/x"))
		case 4:
			oc.AddRespStructure(describedJSON{})
		case 5:
			oc.AddRespStructure(struct {
				_ struct{} `description:"own"`
				A string   `json:"a"`
			}{})
		}
		if webhook {
			if err := d.r31.AddWebhook(oc); err != nil {
				return nil, false
			}
			return opText(d.r31.Spec.Webhooks["/p"].PathItem.Post), true
		}
		if err := d.refl().AddOperation(oc); err != nil {
			return nil, false
		}
		op, ok := d.get(method, "/p")
		sym.Assert(ok, "operation is stored")
		return opText(op), true
	}
	if webhook {
		sym.Assume(method == "post")
	}
	plain, ok := build(false)
	sym.Assert(ok, "operation is accepted")
	got, ok := build(true)
	dup := false
	if ps, has := p["parameters"].([]any); has && len(ps) > 0 {
		qs, _ := plain["parameters"].([]any)
		for _, x := range ps {
			for _, y := range qs {
				x, y := x.(map[string]any), y.(map[string]any)
				n, isName := x["name"].(string)
				dup = sym.Or(dup, isName && x["in"] == y["in"] && n == y["name"].(string))
			}
		}
		for i, x := range ps {
			for _, y := range ps[:i] {
				x, y := x.(map[string]any), y.(map[string]any)
				n, isName := x["name"].(string)
				m, isOther := y["name"].(string)
				dup = sym.Or(dup, isName && isOther && x["in"] == y["in"] && n == m)
			}
		}
	}
	sym.Assert(ok == !dup, "operation is rejected exactly if a parameter is declared twice")
	if !ok {
		sym.Cover("duplicate")
		return
	}
	if rs, has := p["responses"].(map[string]any); has && resp == 0 {
		real := false
		for _, k := range []string{"200", "4XX", "500", "default"} {
			_, ok := rs[k]
			real = real || ok
		}
		if real {
			delete(plain, "responses")
		}
	}
	want := overlay(p, plain)
	if resp == 3 {
		// Content that exists already needs no plain schema.
		for _, m := range []map[string]any{want, got} {
			if mt, ok := dig(m, "responses", "200", "content", "text/x"); ok {
				delete(mt, "schema")
			}
		}
	}
	sym.Assert(reflect.DeepEqual(got, want), "operation has what was set in advance and what structures declare")
	sym.Cover("kept")
}

// C28_References: references set in advance, parameters and the request body, are kept next to what structures declare.
func C28_References() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	method := []string{"post", "get"}[sym.Choice("method", 2)]
	oc, err := d.refl().NewOperationContext(method, "/p")
	sym.Assert(err == nil, "new operation context")
	name := "n" + sym.Str("name", 1, "a-z")
	pref, bref := "#/components/parameters/"+sym.Str("ref", 1, "a-z"), "#/components/requestBodies/"+sym.Str("ref", 1, "a-z")
	params, body := sym.Choice("parameters", 3), sym.Choice("body", 2) == 1
	if ver == 3 {
		o := oc.(openapi3.OperationExposer).Operation()
		for i := 0; i < params; i++ {
			o.Parameters = append(o.Parameters, openapi3.ParameterOrRef{ParameterReference: &openapi3.ParameterReference{Ref: pref}})
		}
		if body {
			o.RequestBody = &openapi3.RequestBodyOrRef{RequestBodyReference: &openapi3.RequestBodyReference{Ref: bref}}
		}
	} else {
		o := oc.(openapi31.OperationExposer).Operation()
		for i := 0; i < params; i++ {
			o.Parameters = append(o.Parameters, openapi31.ParameterOrReference{Reference: &openapi31.Reference{Ref: pref}})
		}
		if body {
			o.RequestBody = &openapi31.RequestBodyOrReference{Reference: &openapi31.Reference{Ref: bref}}
		}
	}
	in := []string{"query", "header", "cookie"}[sym.Choice("in", 3)]
	v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: reflect.TypeOf(""), Tag: reflect.StructTag(in + `:"` + name + `"`)}})).Interface()
	desc := sym.Str("description", sym.Choice("described", 2), "a-z")
	oc.AddReqStructure(v, func(cu *openapi.ContentUnit) { cu.Description = desc })
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	op, _ := d.get(method, "/p")
	o, _ := generic(op).(map[string]any)
	ps, _ := o["parameters"].([]any)
	sym.Assert(len(ps) == params+1, "number of parameters")
	for i, p := range ps {
		p, _ := p.(map[string]any)
		if i < params {
			sym.Assert(p["$ref"] == any(pref), "reference is kept")
		} else {
			sym.Assert(p["name"] == any(name) && p["in"] == any(in), "declared parameter is added")
		}
	}
	b, ok := dig(o, "requestBody")
	sym.Assert(ok == body, "request body is there if it was set")
	if body {
		sym.Assert(b["$ref"] == any(bref) && len(b) == 1, "reference of request body is kept")
	}
	sym.Cover("references")
}
