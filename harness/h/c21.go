package h

import (
	"reflect"

	openapi "github.com/swaggest/openapi-go"

	"verif/harness/sym"
)

// twin is the same document in both versions.
type twin struct{ a, b *doc }

func newTwin() twin { return twin{newDoc(3), newDoc(31)} }

// add declares the same operation in both documents.
func (t twin) add(method, path string, f func(oc openapi.OperationContext)) bool {
	var errs [2]error
	for i, d := range []*doc{t.a, t.b} {
		oc, err := d.refl().NewOperationContext(method, path)
		if err == nil {
			f(oc)
			err = d.refl().AddOperation(oc)
		}
		errs[i] = err
	}
	sym.Assert((errs[0] == nil) == (errs[1] == nil), "operations are accepted or rejected alike")
	return errs[0] == nil
}

func sameView(a, b bview) {
	sym.Assert(a.ok == b.ok && a.found == b.found && a.ref == b.ref, "schema of content")
	sym.Assert(a.typ == b.typ && a.format == b.format, "type and format of content")
	sym.Assert(len(a.props) == len(b.props), "number of properties")
	for n, x := range a.props {
		y, ok := b.props[n]
		sym.Assert(ok && x == y && a.formats[n] == b.formats[n], "property of content")
	}
}

func sameViews(as, bs []bview, what string) {
	sym.Assert(len(as) == len(bs), what+": number of media types")
	for _, a := range as {
		n := 0
		for _, b := range bs {
			if a.ct == b.ct {
				n++
				sameView(a, b)
			}
		}
		sym.Assert(n == 1, what+": same media types")
	}
}

// same compares both documents.
func (t twin) same() {
	as, bs := t.a.ops(), t.b.ops()
	sym.Assert(len(as) == len(bs), "number of operations")
	for _, a := range as {
		n := 0
		for _, b := range bs {
			if a.method == b.method && a.path == b.path {
				n++
				t.sameOp(a.op, b.op)
			}
		}
		sym.Assert(n == 1, "same paths and methods")
	}
}

func (t twin) sameOp(a, b any) {
	p, q := pviews(a), pviews(b)
	sym.Assert(len(p) == len(q), "number of parameters")
	for i := range p {
		x, y := p[i], q[i]
		sym.Assert(x.name == y.name && x.in == y.in, "name and location of parameters")
		sym.Assert((x.required == 1) == (y.required == 1), "required parameters")
		sym.Assert(x.style == y.style && x.explode == y.explode, "style of parameters")
		sym.Assert((x.deprecated == 1) == (y.deprecated == 1), "deprecated parameters")
		sym.Assert(x.desc == y.desc, "description of parameters")
		sym.Assert(x.hasSchema == y.hasSchema && eqStrs(x.content, y.content), "schema or content of parameters")
		sym.Assert(x.typ == y.typ && x.format == y.format, "type and format of parameters")
		sym.Cover("parameter")
	}
	bp, dp := t.a.bodies(a)
	bq, dq := t.b.bodies(b)
	sym.Assert(dp == dq, "description of request body")
	sameViews(bp, bq, "request")
	if len(bp) > 0 {
		sym.Cover("body")
	}
	rp, rq := t.a.rviews(a), t.b.rviews(b)
	sym.Assert(len(rp) == len(rq), "number of responses")
	for k, x := range rp {
		y, ok := rq[k]
		sym.Assert(ok && x.inline == y.inline && x.ref == y.ref, "same response statuses")
		sym.Assert(x.desc == y.desc, "description of responses")
		sameViews(x.content, y.content, "response")
		sym.Assert(len(x.headers) == len(y.headers), "number of response headers")
		for n, h := range x.headers {
			g, ok := y.headers[n]
			sym.Assert(ok && g == h, "same response headers")
			sym.Cover("header")
		}
	}
	x, y := infoOf(a), infoOf(b)
	x.same(y, "information")
}

// anyField is a field of a request structure of any kind.
func anyField(i int) reflect.StructField {
	id := string(rune('0' + i))
	f := reflect.StructField{Name: "F" + id, Type: reflect.TypeOf("")}
	kind := []string{"query", "path", "header", "cookie", "form", "formData", "json", "file", "contentType", "both"}[sym.Choice("kind", 10)]
	name := sym.Str("name", 1, "a-c")
	tag := ""
	switch kind {
	case "file":
		f.Type = fileTypes[sym.Choice("file", few(len(fileTypes), 2, 4))]
		tag = `formData:"` + name + `"`
	case "contentType":
		f.Type = reflect.TypeOf(struct{}{})
		tag = `contentType:"text/` + name + `"`
	case "both":
		tag = `query:"` + name + `" json:"` + name + `" formData:"` + name + `"`
	case "json", "form", "formData":
		tag = kind + `:"` + name + `"`
		f.Type = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf([]*refJ(nil))}[sym.Choice("type", 2)]
	default:
		tag = kind + `:"` + name + `"`
		pt := ptypes[sym.Choice("type", 4+4*sym.Tier())]
		f.Type = pt.t
		c := []string{"", "csv", "ssv", "pipes", "multi", "json"}[sym.Choice("collectionFormat", few(6, 3, 6))]
		if c != "" {
			tag += ` collectionFormat:"` + c + `"`
		}
	}
	switch sym.Choice("required", 3) {
	case 1:
		tag += ` required:"true"`
	case 2:
		tag += ` required:"false"`
	}
	f.Tag = reflect.StructTag(tag)
	return f
}

// C21_Request declares a structure of arbitrary fields.
func C21_Request() {
	t := newTwin()
	sf := []reflect.StructField{anyField(0)}
	if sym.Choice("second", 2) == 1 {
		if sym.Tier() == 0 {
			sf = append(sf, reflect.StructField{Name: "G", Type: reflect.TypeOf(""), Tag: []reflect.StructTag{`query:"a"`, `json:"a"`, `formData:"a"`, `path:"a"`}[sym.Choice("other", 4)]})
		} else {
			sf = append(sf, anyField(1))
		}
	}
	method := []string{"post", "get", "HEAD", "brew"}[sym.Choice("method", 3+sym.Tier())]
	path := []string{"/p", "/p/{a:[a-z]+}", "/{a}/{b}"}[sym.Choice("path", 3)]
	if sym.Tier() == 0 {
		isPath := has([]string{sf[0].Tag.Get("path"), sf[len(sf)-1].Tag.Get("path")}, "a")
		sym.Assume(isPath || path == "/p" || method == "get" && len(sf) == 1)
	}
	ct := []string{"", ctForm, "text/plain"}[sym.Choice("contentType", few(3, 2, 3))]
	ok := t.add(method, path, func(oc openapi.OperationContext) {
		oc.AddReqStructure(reflect.New(reflect.StructOf(sf)).Interface(), openapi.WithContentType(ct))
	})
	if ok {
		sym.Cover("accepted")
	} else {
		sym.Cover("rejected")
	}
	t.same()
}

// C21_Response declares responses of any status and content.
func C21_Response() {
	t := newTwin()
	method := []string{"get", "head"}[sym.Choice("method", 2)]
	statuses := []int{0, 1, 5, 6, -1, 99, 200, 404, 1000}
	var us []runit
	n := 1 + sym.Choice("units", 2)
	for i := 0; i < n; i++ {
		u := anyRespUnit(i)
		u.isDefault = sym.Choice("default", 2) == 1
		u.status = statuses[sym.Choice("status", len(statuses))]
		if n == 2 && sym.Tier() == 0 {
			sym.Assume(u.status == 0 || u.status == 200 || u.status == 5 && !u.isDefault)
		}
		switch sym.Choice("contentType", few(3, 2, 3)) {
		case 1:
			u.ct = "text/x" + []string{"", " ; a=b"}[sym.Choice("parameters", 2)]
		case 2:
			u.ct = ctJSON
		}
		us = append(us, u)
	}
	t.add(method, "/p", func(oc openapi.OperationContext) {
		for _, u := range us {
			u := u
			oc.AddRespStructure(u.v, func(cu *openapi.ContentUnit) {
				cu.HTTPStatus, cu.IsDefault, cu.ContentType, cu.Format = u.status, u.isDefault, u.ct, u.format
			})
		}
	})
	t.same()
}

// C21_History registers operations at arbitrary methods and paths.
func C21_History() {
	t := newTwin()
	for i := 0; i < 2+sym.Tier(); i++ {
		m := sym.Str("method", 3, "gGeEtTpPuU")
		path := "/" + sym.Str("path", 1, "a-b")
		switch sym.Choice("placeholder", 3) {
		case 1:
			path += "/{" + sym.Str("placeholder", 1, "a-b") + "}"
		case 2:
			path += "/{a:" + sym.Str("regexp", 1, "a-z0-9.") + "}"
		}
		s := sym.Str("summary", 1, "a-z")
		st := sym.Choice("structure", 3)
		t.add(m, path, func(oc openapi.OperationContext) {
			oc.SetSummary(s)
			switch st {
			case 1:
				oc.AddReqStructure(reqNone{})
			case 2:
				oc.AddReqStructure(reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(""), Tag: `path:"a"`}})).Interface())
			}
			oc.AddSecurity("s", s)
			oc.SetTags(s)
		})
	}
	t.same()
}

// C21_Components documents named types.
func C21_Components() {
	t := newTwin()
	k := sym.Choice("type", len(refTypes))
	place := sym.Choice("place", nPlaces)
	u := use{t: refTypes[k].t, place: place, method: "post", path: "/a", field: sym.Str("field", 1, "a-z")}
	ok := t.add(u.method, u.path, u.declare)
	t.same()
	if !ok {
		return
	}
	a, b := t.a.comps(), t.b.comps()
	sym.Assert(len(a) == len(b), "number of components")
	for n, x := range a {
		y, ok := b[n]
		sym.Assert(ok, "same components")
		p, _ := x.(map[string]any)["properties"].(map[string]any)
		q, _ := y.(map[string]any)["properties"].(map[string]any)
		sym.Assert(len(p) == len(q), "number of component properties")
		for k := range p {
			_, ok := q[k]
			sym.Assert(ok, "same component properties")
		}
		sym.Cover("component")
	}
}

// C21_Customize customizes, references and enforces content.
func C21_Customize() {
	t := newTwin()
	v := []any{forcedJSON{}, forcedForm{}, forcedBoth{}, jsonBoth{}, jsonFile{}, allBoth{}, &ptrForced{}, rawFields{}, []plainJSON{}, map[string]plainJSON{}, describedJSON{}, nil, "", 1, walkNamed{}, outerParams{}, new(shadowParams)}[sym.Choice("structure", 17)]
	method := httpMethods[sym.Choice("method", 8)]
	desc := sym.Str("description", sym.Choice("described", 2), "a-z")
	ref := "#/x/" + sym.Str("ref", 1, "a-z")
	action := sym.Choice("action", 2)
	resp := sym.Choice("response", 2) == 1
	t.add(method, "/p", func(oc openapi.OperationContext) {
		opt := func(cu *openapi.ContentUnit) {
			cu.Description = desc
			if action == 1 {
				openapi.WithReference(ref)(cu)
			}
		}
		if resp {
			oc.AddRespStructure(v, opt)
		} else {
			oc.AddReqStructure(v, opt)
		}
	})
	t.same()
}

// C21_Parameter declares a parameter of any type, location and attributes.
func C21_Parameter() {
	t := newTwin()
	in := []string{"query", "path", "header", "cookie", "form"}[sym.Choice("in", 5)]
	name := sym.Str("name", 1, "a-z")
	pt := ptypes[sym.Choice("type", len(ptypes))]
	tag := ""
	mapped := in != "form" && sym.Choice("mapped", 2) == 1
	if !mapped {
		tag = in + `:"` + name + `"`
	}
	if c := []string{"", "csv", "ssv", "pipes", "multi", "json", "other"}[sym.Choice("collectionFormat", 7)]; c != "" {
		tag += ` collectionFormat:"` + c + `"`
	}
	switch sym.Choice("attributes", 3) {
	case 1:
		tag += ` required:"false"`
	case 2:
		tag += ` required:"true" description:"d" example:"1" minimum:"3"`
		if in != "form" {
			// A deprecated or nullable reference is wrapped in 3.0 only.
			tag += ` deprecated:"true" nullable:"true"`
		}
	}
	sf := []reflect.StructField{{Name: "A", Type: pt.t, Tag: reflect.StructTag(tag)}}
	path := "/p"
	if in == "path" {
		path += "/{" + name + "}"
	}
	t.add("post", path, func(oc openapi.OperationContext) {
		oc.AddReqStructure(reflect.New(reflect.StructOf(sf)).Interface(), func(cu *openapi.ContentUnit) {
			if mapped {
				cu.SetFieldMapping(openapi.In(in), map[string]string{"A": name})
			}
		})
	})
	t.same()
}
