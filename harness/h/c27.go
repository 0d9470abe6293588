package h

import (
	"encoding/json"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// edit is a change of a prepared content entity.
type edit struct {
	action int
	text   string
}

const editActions = 8

func (e edit) apply(cor openapi.ContentOrReference) {
	switch e.action {
	case 1:
		cor.SetReference("#/" + e.text)
		return
	case 7:
		return
	}
	switch c := cor.(type) {
	case *openapi3.RequestBodyOrRef:
		b := c.RequestBodyEns()
		switch e.action {
		case 0:
			b.WithMapOfAnythingItem("x-"+e.text, 1)
		case 2:
			b.WithDescription(e.text)
		case 3:
			b.WithContentItem("x/"+e.text, openapi3.MediaType{})
		case 4:
			b.Content = nil
		case 5:
			b.WithRequired(false)
		case 6:
			*c = openapi3.RequestBodyOrRef{RequestBody: &openapi3.RequestBody{Description: &e.text}}
		}
	case *openapi3.ResponseOrRef:
		r := c.ResponseEns()
		switch e.action {
		case 0:
			r.WithMapOfAnythingItem("x-"+e.text, 1)
		case 2:
			r.Description = e.text
		case 3:
			r.WithContentItem("x/"+e.text, openapi3.MediaType{})
		case 4:
			r.Content = nil
		case 5:
			r.WithHeadersItem("H"+e.text, openapi3.HeaderOrRef{Header: &openapi3.Header{}})
		case 6:
			*c = openapi3.ResponseOrRef{Response: &openapi3.Response{Description: e.text}}
		}
	case *openapi31.RequestBodyOrReference:
		b := c.RequestBodyEns()
		switch e.action {
		case 0:
			b.WithMapOfAnythingItem("x-"+e.text, 1)
		case 2:
			b.WithDescription(e.text)
		case 3:
			b.WithContentItem("x/"+e.text, openapi31.MediaType{})
		case 4:
			b.Content = nil
		case 5:
			b.WithRequired(false)
		case 6:
			*c = openapi31.RequestBodyOrReference{RequestBody: &openapi31.RequestBody{Description: &e.text}}
		}
	case *openapi31.ResponseOrReference:
		r := c.ResponseEns()
		switch e.action {
		case 0:
			r.WithMapOfAnythingItem("x-"+e.text, 1)
		case 2:
			r.Description = e.text
		case 3:
			r.WithContentItem("x/"+e.text, openapi31.MediaType{})
		case 4:
			r.Content = nil
		case 5:
			r.WithHeadersItem("H"+e.text, openapi31.HeaderOrReference{Header: &openapi31.Header{}})
		case 6:
			*c = openapi31.ResponseOrReference{Response: &openapi31.Response{Description: e.text}}
		}
	}
}

// cunit is a content unit to customize.
type cunit struct {
	resp, dflt bool
	v          any
	ct, desc   string
	status     int
	key        string
	edits      bool
	edit       edit
	called     int
	seen       string
}

type customResp struct {
	A string `json:"a"`
	H string `header:"H"`
}

var customReqs = []any{plainJSON{}, plainBoth{}, fileBoth{}, rawFields{}, forcedJSON{}, []plainJSON{}, walkNamed{}, struct {
	Q string `query:"q"`
}{}, nil}

var customResps = []any{customResp{}, describedJSON{}, rawFields{}, []plainJSON{}, walkNamed{}, nil}

func anyCustomUnit(i int, resp, edits bool) *cunit {
	u := &cunit{resp: resp, edits: edits}
	if u.resp {
		u.v = customResps[sym.Choice("structure", few(i+1, len(customResps), 2))]
		switch sym.Choice("status", 4-2*i) + i {
		case 0:
			u.key = "200"
		case 1:
			u.dflt, u.key = true, "default"
		case 2:
			u.status, u.key = 404, "404"
		case 3:
			u.status, u.key = 4, "4XX"
		}
		u.ct = []string{"", "text/csv; a=b"}[sym.Choice("contentType", few(i+1, 2, 1))]
	} else {
		u.v = customReqs[sym.Choice("structure", few(i+1, len(customReqs), 3))]
		u.ct = []string{"", "text/csv", ctForm, ctJSON}[sym.Choice("contentType", few(i+1, 4, 2))]
	}
	if i == 0 {
		u.desc = sym.Str("description", sym.Choice("described", 2), "a-z")
	}
	if edits {
		u.edit = edit{sym.Choice("edit", few(i+1, editActions, 2)), sym.Str("text", 1, "a-z")}
	}
	return u
}

// declare adds the unit, customized or not.
func (u *cunit) declare(oc openapi.OperationContext, customize bool) {
	opts := []openapi.ContentOption{openapi.WithContentType(u.ct), openapi.WithHTTPStatus(u.status), func(cu *openapi.ContentUnit) {
		cu.IsDefault, cu.Description = u.dflt, u.desc
	}}
	if customize && u.edits {
		if u.edit.action == 1 {
			opts = append(opts, openapi.WithReference("#/"+u.edit.text))
		} else {
			opts = append(opts, openapi.WithCustomize(func(cor openapi.ContentOrReference) {
				u.called++
				u.seen = snap(cor)
				u.edit.apply(cor)
			}))
		}
	}
	if u.resp {
		oc.AddRespStructure(u.v, opts...)
	} else {
		oc.AddReqStructure(u.v, opts...)
	}
}

// amend makes the edit in a finished operation.
func (u *cunit) amend(op any) any {
	u.seen = "absent"
	change := func(cor openapi.ContentOrReference) {
		u.seen = snap(cor)
		u.edit.apply(cor)
	}
	switch o := op.(type) {
	case openapi3.Operation:
		switch {
		case !u.resp:
			if o.RequestBody != nil {
				change(o.RequestBody)
			}
		case u.dflt:
			change(o.Responses.Default)
		default:
			r := o.Responses.MapOfResponseOrRefValues[u.key]
			change(&r)
			o.Responses.MapOfResponseOrRefValues[u.key] = r
		}
		return o
	case openapi31.Operation:
		switch {
		case !u.resp:
			if o.RequestBody != nil {
				change(o.RequestBody)
			}
		case u.dflt:
			change(o.Responses.Default)
		default:
			r := o.Responses.MapOfResponseOrReferenceValues[u.key]
			change(&r)
			o.Responses.MapOfResponseOrReferenceValues[u.key] = r
		}
		return o
	}
	return op
}

func sameText2(a, b any) {
	x, err := json.Marshal(a)
	sym.Assert(err == nil, "customized operation is encoded")
	y, err := json.Marshal(b)
	sym.Assert(err == nil, "amended operation is encoded")
	sym.Assert(string(x) == string(y), "customization changes what is documented")
}

// C27_Customize customizes one or several units; the result is that of amending the operation without customization.
func C27_Customize() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	resp := sym.Choice("response", 2) == 1
	us := []*cunit{anyCustomUnit(0, resp, true)}
	method := "post"
	if sym.Choice("units", 2) == 0 {
		method = []string{"post", "get", "head"}[sym.Choice("method", 3)]
	} else {
		// Edits of one entity by two units do not commute.
		other := !resp || sym.Choice("other", 2) == 1
		sym.Assume(other || us[0].key == "200")
		if k := us[0].edit.action; sym.Tier() == 0 {
			sym.Assume((k == 0 || k == 1 || k == 4) && us[0].desc == "")
		}
		v := anyCustomUnit(1, other, sym.Choice("both", 2) == 1)
		sym.Assume(other != resp || us[0].key != v.key)
		if sym.Choice("order", 2) == 1 {
			us = []*cunit{v, us[0]}
		} else {
			us = append(us, v)
		}
	}
	a, opA := addBodies(ver, method, func(oc openapi.OperationContext) {
		for _, u := range us {
			u.declare(oc, true)
		}
	})
	seen := make([]string, len(us))
	called := make([]int, len(us))
	for i, u := range us {
		seen[i], called[i] = u.seen, u.called
	}
	b, opB := addBodies(ver, method, func(oc openapi.OperationContext) {
		for _, u := range us {
			u.declare(oc, false)
		}
	})
	for i, u := range us {
		if !u.edits {
			continue
		}
		opB = u.amend(opB)
		if u.edit.action == 1 {
			continue
		}
		if u.seen == "absent" {
			sym.Assert(called[i] == 0, "nothing to customize without a body")
			sym.Cover("no body")
			continue
		}
		sym.Assert(called[i] == 1, "customized once")
		sym.Assert(seen[i] == u.seen, "content is complete when it is customized")
		sym.Cover("customized")
	}
	sameText2(opA, opB)
	ca, cb := any(nil), any(nil)
	if ver == 3 {
		ca, cb = a.r3.Spec.Components, b.r3.Spec.Components
	} else {
		ca, cb = a.r31.Spec.Components, b.r31.Spec.Components
	}
	sym.Assert(snap(ca) == snap(cb), "components do not depend on customization")
	sym.Cover("same")
}

// C27_Chain has two units with one entity: the second one sees and keeps what the first one changed.
func C27_Chain() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	resp := sym.Choice("response", 2) == 1
	dflt := resp && sym.Choice("default", 2) == 1
	// A unit that comes later replaces a response that is a reference, a body stays.
	n := 4 + b2i(!resp)
	e := edit{[]int{0, 2, 3, 5, 1}[sym.Choice("edit", n)], sym.Str("text", 1, "a-z")}
	second := edit{[]int{0, 2, 3, 7, 1}[sym.Choice("second", n)], sym.Str("second", 1, "a-z")}
	none := any(nil)
	if !resp && sym.Choice("parameter", 2) == 1 {
		none = struct {
			Q string `query:"other"`
		}{}
	}
	calls := 0
	first := ""
	_, op := addBodies(ver, "post", func(oc openapi.OperationContext) {
		opt := func(cu *openapi.ContentUnit) { cu.IsDefault = dflt }
		f := openapi.WithCustomize(func(cor openapi.ContentOrReference) {
			calls++
			sym.Assert(calls == 1, "customizations are called in order")
			e.apply(cor)
			first = snap(cor)
		})
		g := openapi.WithCustomize(func(cor openapi.ContentOrReference) {
			calls++
			sym.Assert(calls == 2, "customizations are called in order")
			sym.Assert(snap(cor) == first, "second customization continues the first one")
			second.apply(cor)
		})
		if resp {
			oc.AddRespStructure(customResp{}, f, opt)
			oc.AddRespStructure(nil, g, opt)
		} else {
			oc.AddReqStructure(plainJSON{}, f)
			oc.AddReqStructure(none, g)
		}
	})
	sym.Assert(calls == 2, "both are customized once")
	_, plain := addBodies(ver, "post", func(oc openapi.OperationContext) {
		opt := func(cu *openapi.ContentUnit) { cu.IsDefault = dflt }
		if resp {
			oc.AddRespStructure(customResp{}, opt)
			oc.AddRespStructure(nil, opt)
		} else {
			oc.AddReqStructure(plainJSON{})
			oc.AddReqStructure(none)
		}
	})
	u := &cunit{resp: resp, dflt: dflt, key: "200", edit: e}
	plain = u.amend(plain)
	u.edit = second
	plain = u.amend(plain)
	sameText2(op, plain)
	sym.Cover("chain")
}
