package h

import (
	"mime/multipart"
	"reflect"
	"strings"

	jsonschema "github.com/swaggest/jsonschema-go"
	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// bview is a version independent view of one media type.
type bview struct {
	ct      string
	ok      bool
	typ     string
	format  string
	props   map[string]string // name to type
	formats map[string]string
	ref     string
	found   bool // reference resolves
}

func (d *doc) schema3(s *openapi3.SchemaOrRef, depth int) bview {
	if s == nil {
		return bview{}
	}
	if s.SchemaReference != nil {
		name := strings.TrimPrefix(s.SchemaReference.Ref, "#/components/schemas/")
		v := bview{ok: true, ref: name}
		if d.r3.Spec.Components == nil || d.r3.Spec.Components.Schemas == nil {
			return v
		}
		c, ok := d.r3.Spec.Components.Schemas.MapOfSchemaOrRefValues[name]
		if !ok || depth > 3 {
			return v
		}
		v = d.schema3(&c, depth+1)
		v.ref, v.found = name, true
		return v
	}
	v := bview{ok: true, props: map[string]string{}, formats: map[string]string{}}
	if s.Schema == nil {
		return v
	}
	if s.Schema.Type != nil {
		v.typ = string(*s.Schema.Type)
	}
	v.format = strv(s.Schema.Format)
	for k, p := range s.Schema.Properties {
		q := d.schema3(&p, depth+1)
		v.props[k] = q.typ
		v.formats[k] = q.format
	}
	return v
}

func (d *doc) schema31(s map[string]any, depth int) bview {
	if s == nil {
		return bview{}
	}
	if r, ok := s["$ref"].(string); ok {
		name := strings.TrimPrefix(r, "#/components/schemas/")
		v := bview{ok: true, ref: name}
		if d.r31.Spec.Components == nil {
			return v
		}
		c, ok := d.r31.Spec.Components.Schemas[name]
		if !ok || depth > 3 {
			return v
		}
		v = d.schema31(c, depth+1)
		v.ref, v.found = name, true
		return v
	}
	v := bview{ok: true, props: map[string]string{}, formats: map[string]string{}}
	v.typ = typeName(s["type"])
	v.format, _ = s["format"].(string)
	ps, _ := s["properties"].(map[string]any)
	for k, p := range ps {
		m, _ := p.(map[string]any)
		q := d.schema31(m, depth+1)
		v.props[k] = q.typ
		v.formats[k] = q.format
	}
	return v
}

// bodies lists media types of the request body.
func (d *doc) bodies(op any) (out []bview, desc string) {
	switch o := op.(type) {
	case openapi3.Operation:
		if o.RequestBody == nil || o.RequestBody.RequestBody == nil {
			return nil, ""
		}
		for ct, mt := range o.RequestBody.RequestBody.Content {
			v := d.schema3(mt.Schema, 0)
			v.ct = ct
			out = append(out, v)
		}
		return out, strv(o.RequestBody.RequestBody.Description)
	case openapi31.Operation:
		if o.RequestBody == nil || o.RequestBody.RequestBody == nil {
			return nil, ""
		}
		for ct, mt := range o.RequestBody.RequestBody.Content {
			v := d.schema31(mt.Schema, 0)
			v.ct = ct
			out = append(out, v)
		}
		return out, strv(o.RequestBody.RequestBody.Description)
	}
	return nil, ""
}

const (
	ctJSON      = "application/json"
	ctForm      = "application/x-www-form-urlencoded"
	ctMultipart = "multipart/form-data"
)

// bfield is a field of a request structure.
type bfield struct {
	json, form string // documented names
	formTag    string
	file       bool
	query      string
	ct         string // contentType tag
	t          reflect.Type
	typ        string
}

func (f bfield) tag() string {
	t := ""
	if f.json != "" {
		t += `json:"` + f.json + `" `
	}
	if f.form != "" {
		t += f.formTag + `:"` + f.form + `" `
	}
	if f.query != "" {
		t += `query:"` + f.query + `" `
	}
	if f.ct != "" {
		t += `contentType:"` + f.ct + `" `
	}
	return t
}

var fileTypes = []reflect.Type{
	reflect.TypeOf((*multipart.FileHeader)(nil)),
	reflect.TypeOf((*multipart.File)(nil)).Elem(),
	reflect.TypeOf([]*multipart.FileHeader(nil)),
	reflect.TypeOf([]multipart.File(nil)),
}

func anyBodyField(i int) bfield {
	f := bfield{t: reflect.TypeOf(""), typ: "string"}
	name := sym.Str("name", 1, "a-z") + string(rune('0'+i))
	switch sym.Choice("field", 8) {
	case 0:
		f.json = name
	case 1:
		f.form, f.formTag = name, "form"
	case 2:
		f.form, f.formTag = name, "formData"
	case 3:
		f.form, f.formTag, f.file = name, "formData", true
		k := sym.Choice("file", len(fileTypes))
		f.t = fileTypes[k]
		if k > 1 {
			f.typ = "array"
		}
	case 4:
		f.query = name
	case 5:
		f.json, f.query = name, name
	case 6:
		f.json, f.form, f.formTag = name, name+"f", "formData"
	case 7: // no tags
	}
	return f
}

func bodyStruct(fs []bfield) any {
	var sf []reflect.StructField
	for i, f := range fs {
		sf = append(sf, reflect.StructField{Name: "F" + string(rune('0'+i)), Type: f.t, Tag: reflect.StructTag(f.tag())})
	}
	return reflect.New(reflect.StructOf(sf)).Interface()
}

// wantBody is an expected media type with its properties.
type wantBody struct {
	ct     string
	fields []bfield
	form   bool
	str    bool
	format string
}

// bodyOf computes the documented media types of one structure.
func bodyOf(fs []bfield, method, ct string, force, forceJSON bool) []wantBody {
	hasJSON, hasForm, hasFile := false, false, false
	var raw []string
	for _, f := range fs {
		hasJSON = hasJSON || f.json != ""
		hasForm = hasForm || f.form != ""
		hasFile = hasFile || f.file
		if f.ct != "" {
			raw = append(raw, f.ct)
		}
	}
	allowed := true
	switch method {
	case "get", "head", "delete", "trace":
		allowed = force
	}
	var out []wantBody
	form := hasForm && allowed
	js := hasJSON && allowed && (!hasForm || forceJSON)
	formCT := ctForm
	if hasFile {
		formCT = ctMultipart
	}
	switch ct {
	case "":
		if form {
			out = append(out, wantBody{ct: formCT, fields: fs, form: true})
		}
		if js {
			out = append(out, wantBody{ct: ctJSON, fields: fs})
		}
		for _, r := range raw {
			out = append(out, wantBody{ct: r, str: true})
		}
	case ctJSON:
		if js {
			out = append(out, wantBody{ct: ctJSON, fields: fs})
		}
	case ctForm, ctMultipart:
		if form {
			out = append(out, wantBody{ct: formCT, fields: fs, form: true})
		}
	default:
		out = append(out, wantBody{ct: ct, str: true})
	}
	return out
}

func checkBodies(d *doc, op any, want []wantBody) {
	got, _ := d.bodies(op)
	sym.Assert(len(got) == len(want), "number of documented request media types")
	for _, w := range want {
		n := 0
		for _, b := range got {
			if b.ct != w.ct {
				continue
			}
			n++
			sym.Assert(b.ok && (b.ref == "" || b.found), "request body has a schema")
			if w.str {
				sym.Cover("string body")
				sym.Assert(b.typ == "string" && b.format == w.format && len(b.props) == 0, "other content type is documented as plain string")
				continue
			}
			m := 0
			for _, f := range w.fields {
				name := f.json
				if w.form {
					name = f.form
				}
				if name == "" {
					continue
				}
				m++
				t, ok := b.props[name]
				sym.Assert(ok, "field of request body is documented")
				sym.Assert(t == f.typ, "type of request body field")
				if f.file && w.form && f.typ == "string" {
					sym.Cover("file")
					sym.Assert(b.formats[name] == "binary", "uploaded file is binary")
				}
			}
			sym.Assert(len(b.props) == m, "request body has the declared fields only")
			if w.form {
				sym.Cover("form body")
			} else {
				sym.Cover("json body")
			}
		}
		sym.Assert(n == 1, "media type of the request structure is documented")
	}
	if len(want) == 0 {
		sym.Cover("no body")
	}
}

func addBodies(ver int, method string, add func(oc openapi.OperationContext)) (*doc, any) {
	d := newDoc(ver)
	oc, err := d.refl().NewOperationContext(method, "/p")
	sym.Assert(err == nil, "new operation context")
	add(oc)
	err = d.refl().AddOperation(oc)
	sym.Assert(err == nil, "operation is accepted")
	op, ok := d.get(method, "/p")
	sym.Assert(ok, "operation is stored")
	return d, op
}

// C14_Fields reflects structures of arbitrary fields for every method and content type.
func C14_Fields() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	method := httpMethods[sym.Choice("method", 8)]
	var fs []bfield
	for i, n := 0, 1+sym.Choice("fields", 2+sym.Tier()); i < n; i++ {
		fs = append(fs, anyBodyField(i))
	}
	ct := []string{"", ctJSON, ctForm, ctMultipart, "text/plain"}[sym.Choice("contentType", 5)]
	if len(fs) > 1 && sym.Tier() == 0 {
		sym.Assume(ct == "" || method == "post" || method == "get")
	}
	d, op := addBodies(ver, method, func(oc openapi.OperationContext) {
		oc.AddReqStructure(bodyStruct(fs), openapi.WithContentType(ct))
	})
	checkBodies(d, op, bodyOf(fs, method, ct, false, false))
}

type plainJSON struct {
	A string `json:"a"`
	Q string `query:"q"`
}

type plainForm struct {
	B string `form:"b"`
}

type plainFormData struct {
	B string `formData:"b"`
}

type plainBoth struct {
	A string `json:"a"`
	B string `formData:"b"`
}

type fileBoth struct {
	A string                `json:"a"`
	B *multipart.FileHeader `formData:"b"`
}

type forcedJSON struct{ plainJSON }

func (forcedJSON) ForceRequestBody() {}

type forcedForm struct{ plainForm }

func (forcedForm) ForceRequestBody() {}

type forcedBoth struct{ plainBoth }

func (forcedBoth) ForceRequestBody() {}

type jsonBoth struct{ plainBoth }

func (jsonBoth) ForceJSONRequestBody() {}

type jsonFile struct{ fileBoth }

func (jsonFile) ForceJSONRequestBody() {}

type allBoth struct{ plainBoth }

func (allBoth) ForceRequestBody()     {}
func (allBoth) ForceJSONRequestBody() {}

type urlBoth struct {
	A string `json:"a"`
	B string `form:"b"`
}

type jsonURL struct{ urlBoth }

func (jsonURL) ForceJSONRequestBody() {}

type oneBoth struct {
	A string `json:"a" form:"b" query:"c"`
}

type jsonOne struct{ oneBoth }

func (*jsonOne) ForceJSONRequestBody() {}

type allOne struct{ oneBoth }

func (allOne) ForceRequestBody()      {}
func (*allOne) ForceJSONRequestBody() {}

type ptrForced struct{ plainBoth }

func (*ptrForced) ForceRequestBody() {}

var (
	_ openapi.RequestBodyEnforcer     = forcedJSON{}
	_ openapi.RequestJSONBodyEnforcer = jsonBoth{}
)

var (
	fieldA  = bfield{json: "a", typ: "string"}
	fieldB  = bfield{form: "b", typ: "string"}
	fieldBF = bfield{form: "b", typ: "string", file: true}
)

// C14_Enforced reflects structures that enforce a request body or a JSON request body.
func C14_Enforced() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	method := httpMethods[sym.Choice("method", 8)]
	ct := []string{"", ctJSON, ctForm, ctMultipart, "text/plain"}[sym.Choice("contentType", 5)]
	ab := []bfield{fieldA, fieldB}
	one := []bfield{{json: "a", form: "b", typ: "string"}}
	cases := []struct {
		v                any
		fs               []bfield
		force, forceJSON bool
	}{
		{v: plainJSON{}, fs: ab[:1]},
		{v: &plainForm{}, fs: ab[1:]},
		{v: plainFormData{}, fs: ab[1:]},
		{v: plainBoth{}, fs: ab},
		{v: fileBoth{}, fs: []bfield{fieldA, fieldBF}},
		{v: forcedJSON{}, fs: ab[:1], force: true},
		{v: &forcedJSON{}, fs: ab[:1], force: true},
		{v: forcedForm{}, fs: ab[1:], force: true},
		{v: forcedBoth{}, fs: ab, force: true},
		{v: jsonBoth{}, fs: ab, forceJSON: true},
		{v: new(jsonBoth), fs: ab, forceJSON: true},
		{v: jsonFile{}, fs: []bfield{fieldA, fieldBF}, forceJSON: true},
		{v: allBoth{}, fs: ab, force: true, forceJSON: true},
		{v: &ptrForced{}, fs: ab, force: true},
		{v: ptrForced{}, fs: ab},
		{v: urlBoth{}, fs: ab},
		{v: jsonURL{}, fs: ab, forceJSON: true},
		{v: oneBoth{}, fs: one},
		{v: new(jsonOne), fs: one, forceJSON: true},
		{v: jsonOne{}, fs: one},
		{v: allOne{}, fs: one, force: true},
		{v: &allOne{}, fs: one, force: true, forceJSON: true},
	}
	c := cases[sym.Choice("struct", len(cases))]
	d, op := addBodies(ver, method, func(oc openapi.OperationContext) {
		oc.AddReqStructure(c.v, openapi.WithContentType(ct))
	})
	checkBodies(d, op, bodyOf(c.fs, method, ct, c.force, c.forceJSON))
}

// unit is a request structure with content type and format.
type unit struct {
	fs     []bfield
	ct     string
	format string
	v      any
}

func anyUnit(i int) unit {
	f := bfield{t: reflect.TypeOf(""), typ: "string"}
	name := sym.Str("name", 1, "a-z") + string(rune('0'+i))
	u := unit{}
	switch sym.Choice("unit", 7) {
	case 0:
		f.json = name
	case 1:
		f.form, f.formTag = name, "form"
	case 2:
		f.form, f.formTag = name, "formData"
	case 3:
		f.form, f.formTag, f.file, f.t = name, "formData", true, fileTypes[0]
	case 4:
		u.ct = "text/" + sym.Str("type", 1, "a-zA-Z")
		u.format = sym.Str("format", sym.Choice("format", 2), "a-z")
		return u
	case 5:
		f.ct = "image/" + sym.Str("type", 1, "a-zA-Z")
	case 6:
		f.query = name
	}
	u.fs = []bfield{f}
	u.v = bodyStruct(u.fs)
	return u
}

// C14_Several reflects several request structures with different media types.
func C14_Several() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	method := []string{"post", "get", "patch"}[sym.Choice("method", 3)]
	n := 2 + sym.Choice("units", 2)
	if sym.Tier() == 0 {
		sym.Assume(n == 2 || method == "post")
	}
	var us []unit
	var want []wantBody
	desc := ""
	for i := 0; i < n; i++ {
		u := anyUnit(i)
		us = append(us, u)
		for _, w := range bodyOf(u.fs, method, u.ct, false, false) {
			for _, x := range want {
				sym.Assume(x.ct != w.ct)
			}
			w.format = u.format
			want = append(want, w)
		}
	}
	if len(want) > 0 {
		desc = sym.Str("description", 1, "a-z")
	}
	d, op := addBodies(ver, method, func(oc openapi.OperationContext) {
		for i, u := range us {
			u := u
			oc.AddReqStructure(u.v, func(cu *openapi.ContentUnit) {
				cu.ContentType, cu.Format = u.ct, u.format
				if i == n-1 {
					cu.Description = desc
				}
			})
		}
	})
	checkBodies(d, op, want)
	_, got := d.bodies(op)
	sym.Assert(len(want) == 0 || got == desc, "description of request body")
}

type rawFields struct {
	_ string `contentType:"text/csv"`
	_ string `contentType:"image/png"`
	A string `json:"a"`
}

// C14_Mapping maps fields to form data and reflects collections and raw bodies.
func C14_Mapping() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	method := httpMethods[sym.Choice("method", 8)]
	ct := []string{"", ctForm, ctMultipart}[sym.Choice("contentType", 3)]
	m := map[string]string{}
	var fs []bfield
	var v any
	allowed := method == "put" || method == "post" || method == "patch" || method == "options"
	var want []wantBody
	switch sym.Choice("case", 4) {
	case 0: // mapping of fields without tags
		for i, n := 0, 1+sym.Choice("fields", 2); i < n; i++ {
			f := bfield{t: reflect.TypeOf(""), typ: "string"}
			if sym.Choice("file", 2) == 1 {
				f.file, f.t = true, fileTypes[0]
			}
			fs = append(fs, f)
		}
		v = bodyStruct(fs)
		for i := range fs {
			fs[i].form = sym.Str("name", 1, "a-z") + string(rune('0'+i))
			m["F"+string(rune('0'+i))] = fs[i].form
		}
		want = bodyOf(fs, method, ct, false, false)
	case 1: // raw body declared with contentType tags, next to JSON
		v = rawFields{}
		if ct == "" {
			want = []wantBody{{ct: "text/csv", str: true}, {ct: "image/png", str: true}}
			if allowed {
				want = append(want, wantBody{ct: ctJSON, fields: []bfield{fieldA}})
			}
		}
	case 2: // list
		v = []plainJSON{}
		d, op := addBodies(ver, method, func(oc openapi.OperationContext) { oc.AddReqStructure(v) })
		checkCollection(d, op, allowed, "array")
		return
	case 3: // map
		v = map[string]plainJSON{}
		d, op := addBodies(ver, method, func(oc openapi.OperationContext) { oc.AddReqStructure(v) })
		checkCollection(d, op, allowed, "object")
		return
	}
	d, op := addBodies(ver, method, func(oc openapi.OperationContext) {
		oc.AddReqStructure(v, func(cu *openapi.ContentUnit) {
			cu.ContentType = ct
			cu.SetFieldMapping(openapi.InFormData, m)
		})
	})
	checkBodies(d, op, want)
}

func checkCollection(d *doc, op any, allowed bool, typ string) {
	got, _ := d.bodies(op)
	if !allowed {
		sym.Assert(len(got) == 0, "no body for the method")
		return
	}
	sym.Assert(len(got) == 1 && got[0].ct == ctJSON && got[0].typ == typ, "collection is a JSON body")
	sym.Cover("collection")
}

// C14_Again uses one structure with different units.
func C14_Again() { again([]string{"requestBody"}, 0, 1, 2) }

// C14_Tagless: with ProcessWithoutTags fields without tags are part of JSON bodies and nowhere else.
func C14_Tagless() {
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	js := d.refl().JSONSchemaReflector()
	on := sym.Choice("option", 2) == 1
	js.DefaultOptions = append(js.DefaultOptions, func(rc *jsonschema.ReflectContext) { rc.ProcessWithoutTags = on })
	types := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf([]int(nil)), reflect.TypeOf(jsonTagged{})}
	name := sym.Str("name", 1, "a-z")
	tag := []string{"", "query", "header", "cookie", "json"}[sym.Choice("other", 5)]
	fields := []reflect.StructField{{Name: "U", Type: types[sym.Choice("type", len(types))]}}
	if tag != "" {
		fields = append(fields, reflect.StructField{Name: "T", Type: reflect.TypeOf(""), Tag: reflect.StructTag(tag + `:"` + name + `"`)})
	}
	v := reflect.New(reflect.StructOf(fields)).Interface()
	method := []string{"post", "get", "put", "delete"}[sym.Choice("method", 4)]
	oc, err := d.refl().NewOperationContext(method, "/p")
	sym.Assert(err == nil, "new operation context")
	oc.AddReqStructure(v)
	oc.AddRespStructure(v)
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	op, _ := d.get(method, "/p")
	o, _ := generic(op).(map[string]any)
	ps, _ := o["parameters"].([]any)
	param := tag != "" && tag != "json"
	sym.Assert(len(ps) == map[bool]int{true: 1}[param], "only tagged fields are parameters")
	hs, _ := dig(o, "responses", "200", "headers")
	sym.Assert(len(hs) == map[bool]int{true: 1}[tag == "header"], "only tagged fields are headers")
	check := func(m map[string]any, ok, body bool, what string) {
		sym.Assert(ok == (body && (on || tag == "json")), what+" is documented if there are fields of it")
		if !ok {
			return
		}
		if ref, ok := m["$ref"].(string); ok {
			m, _ = d.comps()[ref[len("#/components/schemas/"):]].(map[string]any)
		}
		props, _ := m["properties"].(map[string]any)
		_, has := props["U"]
		sym.Assert(has == on, what+" has the field without tag")
		if tag == "json" {
			_, has = props[name]
			sym.Assert(has, what+" has the tagged field")
		}
		sym.Cover(what)
	}
	m, ok := dig(o, "requestBody", "content", "application/json", "schema")
	check(m, ok, method == "post" || method == "put", "request body")
	m, ok = dig(o, "responses", "200", "content", "application/json", "schema")
	check(m, ok, true, "response body")
}
