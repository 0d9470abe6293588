package h

import (
	"errors"
	"net/http"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// part is a visited or expected schema.
type part struct {
	in, name string
	required bool
	typ      string
	props    []string
	nilS     bool
}

// visited turns a callback into a part.
func visited(in openapi.In, name string, s *jsonschema.SchemaOrBool, required bool) part {
	p := part{in: string(in), name: name, required: required}
	if s == nil {
		p.nilS = true
		return p
	}
	o := s.TypeObject
	if o == nil {
		return p
	}
	if o.Ref != nil {
		cs, _ := o.ExtraProperties["components"].(map[string]interface{})
		ss, _ := cs["schemas"].(map[string]jsonschema.SchemaOrBool)
		d, ok := ss[strings.TrimPrefix(*o.Ref, "#/components/schemas/")]
		sym.Assert(ok && d.TypeObject != nil, "reference of visited schema resolves")
		o = d.TypeObject
		sym.Cover("reference")
	}
	if o.Type != nil {
		if o.Type.SimpleTypes != nil {
			p.typ = string(*o.Type.SimpleTypes)
		}
		for _, t := range o.Type.SliceOfSimpleTypeValues {
			if t != "null" {
				p.typ += string(t)
			}
		}
	}
	for k := range o.Properties {
		p.props = append(p.props, k)
	}
	return p
}

type walker interface {
	WalkRequestJSONSchemas(method string, cu openapi.ContentUnit, cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error
	WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error
}

func newWalker(n int) walker {
	switch sym.Choice("reflector", n) {
	case 0:
		return openapi3.NewReflector()
	case 1:
		return openapi31.NewReflector()
	case 2:
		return &openapi3.Reflector{}
	}
	return &openapi31.Reflector{}
}

var errStop = errors.New("stop")

// walk checks that exactly the wanted parts are visited, or the walk stops with the error of the callback.
func walk(want []part, fails bool, f func(cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error) {
	stopAt := sym.Choice("stop", len(want)+1) - 1
	done, calls, mode := 0, 0, 0
	if stopAt < 0 {
		mode = sym.Choice("done", 2)
	}
	var got []part
	cb := func(in openapi.In, name string, s *jsonschema.SchemaOrBool, required bool) error {
		calls++
		sym.Assert(done == 0, "no callback after completion")
		if calls-1 == stopAt {
			return errStop
		}
		got = append(got, visited(in, name, s, required))
		return nil
	}
	var df func(oc openapi.OperationContext)
	if mode == 0 {
		df = func(oc openapi.OperationContext) {
			sym.Assert(oc != nil, "completion function receives the operation context")
			done++
		}
	}
	err := f(cb, df)
	sym.Assert(mode == 1 || done == 1, "completion function is called exactly once")
	if fails {
		sym.Cover("failed")
		sym.Assert(err != nil && calls == 0, "failure to reflect is reported")
		return
	}
	if stopAt >= 0 {
		sym.Cover("stopped")
		sym.Assert(errors.Is(err, errStop) && calls == stopAt+1, "error of the callback is returned")
		return
	}
	sym.Assert(err == nil, "walk succeeds")
	sym.Assert(len(got) == len(want), "number of visited schemas")
	for _, w := range want {
		n, equal := 0, 0
		for _, x := range want {
			if x.in == w.in && x.name == w.name && (w.in != "body" || x.typ == w.typ && len(x.props) == len(w.props)) {
				equal++
			}
		}
		for _, g := range got {
			if g.in != w.in || g.name != w.name {
				continue
			}
			if w.in == "body" && (g.typ != w.typ || len(g.props) != len(w.props)) {
				continue
			}
			n++
			sym.Assert(g.required == w.required, "required flag of visited schema")
			sym.Assert(!g.nilS && g.typ == w.typ, "type of visited schema")
			sym.Assert(len(g.props) == len(w.props), "properties of visited schema")
			for _, p := range w.props {
				sym.Assert(has(g.props, p), "property of visited schema")
			}
		}
		sym.Assert(n == equal, "every part is visited exactly once")
	}
	sym.Cover("walked")
}

// wfield is a field of a walked structure.
type wfield struct {
	kind string // query, path, header, cookie, form, formData, json, none
	name string
	req  bool
	t    reflect.Type
	typ  string
	no   bool // explicitly not required
}

func walkStruct(fs []wfield) any {
	var sf []reflect.StructField
	for i, f := range fs {
		t := ""
		if f.kind != "none" {
			t = f.kind + `:"` + f.name + `"`
		}
		if f.req {
			t += ` required:"true"`
		}
		if f.no {
			t += ` required:"false"`
		}
		sf = append(sf, reflect.StructField{Name: "F" + string(rune('0'+i)), Type: f.t, Tag: reflect.StructTag(t)})
	}
	return reflect.New(reflect.StructOf(sf)).Interface()
}

var wtypes = []struct {
	t   reflect.Type
	typ string
}{{reflect.TypeOf(""), "string"}, {reflect.TypeOf(int64(0)), "integer"}, {reflect.TypeOf([]string(nil)), "array"}}

// C16_Request walks request structures of arbitrary fields.
func C16_Request() {
	n := 1 + sym.Choice("fields", 2+sym.Tier())
	w := newWalker(few(n, 4, 2))
	method := []string{"POST", "GET", "put"}[sym.Choice("method", few(n, 3, 2))]
	body := method != "GET"
	kinds := []string{"query", "path", "header", "cookie", "form", "formData", "json", "none"}
	var fs []wfield
	dup := false
	hasForm, hasJSON := false, false
	for i := 0; i < n; i++ {
		f := wfield{kind: kinds[sym.Choice("kind", len(kinds))], name: sym.Str("name", 1, "a-zA-Z")}
		switch sym.Choice("required", few(n, 3, 2)) {
		case 1:
			f.req = true
		case 2:
			f.no = true
		}
		wt := wtypes[0]
		if n == 1 {
			wt = wtypes[sym.Choice("type", len(wtypes))]
		}
		f.t, f.typ = wt.t, wt.typ
		for _, q := range fs {
			switch {
			case f.kind == q.kind && (f.kind == "query" || f.kind == "path" || f.kind == "header" || f.kind == "cookie" || f.kind == "form"):
				dup = dup || f.name == q.name
			default:
				sym.Assume(f.name != q.name)
			}
		}
		hasForm = hasForm || f.kind == "form" || f.kind == "formData"
		hasJSON = hasJSON || f.kind == "json"
		fs = append(fs, f)
	}
	var want []part
	var props []string
	for _, f := range fs {
		switch f.kind {
		case "path":
			want = append(want, part{in: f.kind, name: f.name, required: true, typ: f.typ})
		case "query", "header", "cookie":
			want = append(want, part{in: f.kind, name: f.name, required: f.req, typ: f.typ})
		case "form":
			want = append(want, part{in: "query", name: f.name, required: f.req, typ: f.typ})
			if body {
				want = append(want, part{in: "formData", name: f.name, required: f.req, typ: f.typ})
			}
		case "formData":
			if body {
				want = append(want, part{in: "formData", name: f.name, required: f.req, typ: f.typ})
			}
		case "json":
			props = append(props, f.name)
		}
	}
	if hasJSON && !hasForm && body {
		want = append(want, part{in: "body", name: "body", typ: "object", props: props})
	}
	if dup {
		want = nil
	}
	cu := openapi.ContentUnit{Structure: walkStruct(fs)}
	if hasJSON || hasForm {
		switch sym.Choice("customize", 4) {
		case 1: // body by reference has no parts to visit
			openapi.WithReference("#/components/requestBodies/r")(&cu)
			var ps []part
			for _, p := range want {
				if p.in != "body" && p.in != "formData" {
					ps = append(ps, p)
				}
			}
			want = ps
		case 2: // another media type without schema
			cu.Customize = func(cor openapi.ContentOrReference) {
				switch b := cor.(type) {
				case *openapi3.RequestBodyOrRef:
					b.RequestBody.WithContentItem("text/plain", openapi3.MediaType{})
				case *openapi31.RequestBodyOrReference:
					b.RequestBody.WithContentItem("text/plain", openapi31.MediaType{})
				}
			}
		case 3:
			cu.Description = "d"
		}
	}
	walk(want, dup, func(cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error {
		return w.WalkRequestJSONSchemas(method, cu, cb, done)
	})
}

// C16_Response walks responses of every status and flag with arbitrary fields and customizations.
func C16_Response() {
	n := sym.Choice("fields", 3+sym.Tier())
	w := newWalker(few(n, 4, 2))
	u := runit{}
	u.status = []int{404, 0, 5, 1, 200, 204, 599}[sym.Choice("status", few(n, 7, 2))]
	if n < 2 || sym.Tier() > 0 {
		u.isDefault = sym.Choice("default", 2) == 1
	} else {
		u.isDefault = u.status == 0
	}
	var sf []reflect.StructField
	var want []part
	var props []string
	hasJSON := false
	headers := []string{"X-One", "x-two", "etag"}
	canonical := []string{"X-One", "X-Two", "Etag"}
	for i := 0; i < n; i++ {
		wt := wtypes[0]
		if n == 1 {
			wt = wtypes[sym.Choice("type", len(wtypes))]
		}
		t := ""
		switch sym.Choice("kind", 5) {
		case 4:
			t = `json:"-" contentType:"` + []string{"text/x", "text/y", "image/z"}[i] + `"`
			want = append(want, part{in: "body", name: "body", typ: "string"})
		case 0:
			name := sym.Str("name", 1, "a-z")
			for _, p := range props {
				sym.Assume(p != name)
			}
			props = append(props, name)
			hasJSON = true
			t = `json:"` + name + `"`
		case 1:
			t = `json:"-" header:"` + headers[i] + `"`
			p := part{in: "header", name: canonical[i], typ: wt.typ}
			switch sym.Choice("required", 3) {
			case 1:
				t += ` required:"true"`
				p.required = true
			case 2:
				t += ` required:"false"`
			}
			want = append(want, p)
		case 2:
			t = `json:"-"`
		case 3:
		}
		sf = append(sf, reflect.StructField{Name: "F" + string(rune('0'+i)), Type: wt.t, Tag: reflect.StructTag(t)})
	}
	if n > 0 || sym.Choice("structure", 2) == 1 {
		u.v = reflect.New(reflect.StructOf(sf)).Interface()
	}
	if hasJSON {
		want = append(want, part{in: "body", name: "body", typ: "object", props: props})
	}
	cu := openapi.ContentUnit{Structure: u.v, HTTPStatus: u.status, IsDefault: u.isDefault}
	switch sym.Choice("contentType", few(n, 3, 2)) {
	case 1:
		cu.ContentType = "text/plain"
		if !hasJSON {
			want = append(want, part{in: "body", name: "body", typ: "string"})
		}
	case 2:
		cu.ContentType = "application/json; charset=utf-8"
		if !hasJSON {
			want = append(want, part{in: "body", name: "body", typ: "string"})
		}
	}
	switch []int{0, 1, 5, 2, 3, 4}[sym.Choice("customize", few(n, 6, 3))] {
	case 5: // more parts with schemas
		yes, str3 := true, openapi3.SchemaTypeInteger
		cu.Customize = func(cor openapi.ContentOrReference) {
			switch r := cor.(type) {
			case *openapi3.ResponseOrRef:
				s := openapi3.SchemaOrRef{Schema: &openapi3.Schema{Type: &str3}}
				r.Response.WithContentItem("image/png", openapi3.MediaType{Schema: &s})
				r.Response.WithHeadersItem("x-more", openapi3.HeaderOrRef{Header: &openapi3.Header{Schema: &s, Required: &yes}})
			case *openapi31.ResponseOrReference:
				s := map[string]interface{}{"type": "integer"}
				r.Response.WithContentItem("image/png", openapi31.MediaType{Schema: s})
				r.Response.WithHeadersItem("x-more", openapi31.HeaderOrReference{Header: &openapi31.Header{Schema: s, Required: &yes}})
			}
		}
		want = append(want, part{in: "body", name: "body", typ: "integer"}, part{in: "header", name: "X-More", typ: "integer", required: true})
	case 1:
		openapi.WithReference("#/components/responses/r")(&cu)
		want = nil
	case 2: // media type without schema and header without schema
		cu.Customize = func(cor openapi.ContentOrReference) {
			switch r := cor.(type) {
			case *openapi3.ResponseOrRef:
				r.Response.WithContentItem("image/png", openapi3.MediaType{})
				r.Response.WithHeadersItem("X-Noschema", openapi3.HeaderOrRef{Header: &openapi3.Header{}})
			case *openapi31.ResponseOrReference:
				r.Response.WithContentItem("image/png", openapi31.MediaType{})
				r.Response.WithHeadersItem("X-Noschema", openapi31.HeaderOrReference{Header: &openapi31.Header{}})
			}
		}
	case 3: // header by reference
		cu.Customize = func(cor openapi.ContentOrReference) {
			switch r := cor.(type) {
			case *openapi3.ResponseOrRef:
				r.Response.WithHeadersItem("X-Ref", openapi3.HeaderOrRef{HeaderReference: &openapi3.HeaderReference{Ref: "#/components/headers/h"}})
			case *openapi31.ResponseOrReference:
				r.Response.WithHeadersItem("X-Ref", openapi31.HeaderOrReference{Reference: &openapi31.Reference{Ref: "#/components/headers/h"}})
			}
		}
	case 4:
		cu.Description = "d"
	}
	walk(want, false, func(cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error {
		return w.WalkResponseJSONSchemas(cu, cb, done)
	})
}

// few is a for small structures (and thorough checks), b otherwise.
func few(n, a, b int) int {
	if n < 2 || sym.Tier() > 0 {
		return a
	}
	return b
}

type walkInner struct {
	X string `json:"x"`
}

type walkNamed struct {
	Q string    `query:"q"`
	H []int     `header:"h" required:"true"`
	J string    `json:"j" required:"true"`
	N walkInner `json:"n"`
}

type walkForm struct {
	Q string        `query:"q"`
	F string        `formData:"f" required:"true"`
	N walkFormInner `formData:"n"`
}

type walkDeep struct {
	P walkInner `query:"p"`
	R *walkRec  `cookie:"r" collectionFormat:"json"`
}

type walkRec struct {
	Next *walkRec `json:"next"`
	V    string   `json:"v"`
}

type walkResp struct {
	H string     `header:"X-H" json:"-"`
	L []walkRec  `json:"l"`
	M *walkInner `json:"m"`
}

// C16_Named walks structures of named types, whose schemas are components, with field mapping.
func C16_Named() {
	w := newWalker(4)
	obj := func(in, name string, props ...string) part {
		return part{in: in, name: name, typ: "object", props: props}
	}
	name := sym.Str("name", 1, "a-z")
	cases := []struct {
		v    any
		want []part
		resp bool
		m    map[string]string
		in   openapi.In
	}{
		{v: walkNamed{}, want: []part{{in: "query", name: "q", typ: "string"}, {in: "header", name: "h", typ: "array", required: true}, obj("body", "body", "j", "n")}},
		{v: &walkNamed{}, want: []part{{in: "cookie", name: name, typ: "string"}, {in: "query", name: "q", typ: "string"}, {in: "header", name: "h", typ: "array", required: true}, obj("body", "body", "j", "n")}, m: map[string]string{"Q": name}, in: openapi.InCookie},
		{v: walkForm{}, want: []part{{in: "query", name: "q", typ: "string"}, {in: "formData", name: "f", typ: "string", required: true}, obj("formData", "n", "x")}},
		{v: walkDeep{}, want: []part{obj("query", "p", "x"), obj("cookie", "r", "next", "v")}},
		{v: walkFormRec{}, want: []part{{in: "formData", name: "v", typ: "string", required: true}, obj("formData", "next", "next", "v")}},
		{v: walkRec{}, want: []part{obj("body", "body", "next", "v")}},
		{v: walkResp{}, resp: true, want: []part{{in: "header", name: "X-H", typ: "string"}, obj("body", "body", "l", "m")}},
		{v: new(walkRec), resp: true, want: []part{obj("body", "body", "next", "v")}},
		{v: []walkInner{}, resp: true, want: []part{{in: "body", name: "body", typ: "array"}}},
		{v: "", resp: true, want: []part{{in: "body", name: "body", typ: "string"}}},
		{v: walkResp{}, resp: true, want: []part{{in: "header", name: http.CanonicalHeaderKey(name), typ: "string"}, obj("body", "body", "l", "m")}, m: map[string]string{"H": name}, in: openapi.InHeader},
	}
	c := cases[sym.Choice("case", len(cases))]
	cu := openapi.ContentUnit{Structure: c.v}
	if c.m != nil {
		cu.SetFieldMapping(c.in, c.m)
	}
	walk(c.want, false, func(cb openapi.JSONSchemaCallback, done func(oc openapi.OperationContext)) error {
		if c.resp {
			return w.WalkResponseJSONSchemas(cu, cb, done)
		}
		return w.WalkRequestJSONSchemas("PATCH", cu, cb, done)
	})
}

type walkFormRec struct {
	Next *walkFormRec `formData:"next"`
	V    string       `formData:"v" required:"true"`
}

type walkFormInner struct {
	X string `formData:"x"`
}

// C16_Multipart walks form fields next to an uploaded file.
func C16_Multipart() {
	w := newWalker(2)
	n := 1 + sym.Choice("fields", 2)
	fs := []wfield{{kind: "formData", name: "file", t: fileTypes[sym.Choice("file", len(fileTypes))]}}
	var names []string
	for i := 0; i < n; i++ {
		f := wfield{kind: []string{"formData", "form"}[sym.Choice("kind", 2)], name: sym.Str("name", 1, "a-z") + string(rune('0'+i)), t: wtypes[0].t}
		names = append(names, f.name)
		fs = append(fs, f)
	}
	visits := map[string]int{}
	err := w.WalkRequestJSONSchemas("POST", openapi.ContentUnit{Structure: walkStruct(fs)}, func(in openapi.In, name string, s *jsonschema.SchemaOrBool, required bool) error {
		if in == openapi.InFormData {
			visits[name]++
		}
		return nil
	}, nil)
	sym.Assert(err == nil, "walk succeeds")
	for _, name := range names {
		sym.Assert(visits[name] == 1, "form field of multipart body is visited exactly once")
	}
}
