package h

import (
	"mime/multipart"
	"reflect"
	"strings"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// pview is a version independent view of a documented parameter.
type pview struct {
	name, in     string
	required     int // -1 absent, 0 false, 1 true
	deprecated   int
	explode      int
	style        string
	desc         string
	hasSchema    bool
	content      []string
	contentIsSet bool
	typ          string
	format       string
}

func tri(b *bool) int {
	if b == nil {
		return -1
	}
	if *b {
		return 1
	}
	return 0
}

func strv(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func pviews(op any) []pview {
	var out []pview
	switch o := op.(type) {
	case openapi3.Operation:
		for _, p := range o.Parameters {
			q := p.Parameter
			v := pview{name: q.Name, in: string(q.In), required: tri(q.Required), deprecated: tri(q.Deprecated), explode: tri(q.Explode), style: strv(q.Style), desc: strv(q.Description), hasSchema: q.Schema != nil}
			if q.Schema != nil && q.Schema.Schema != nil {
				if q.Schema.Schema.Type != nil {
					v.typ = string(*q.Schema.Schema.Type)
				}
				v.format = strv(q.Schema.Schema.Format)
			}
			for k, c := range q.Content {
				v.content = append(v.content, k)
				v.contentIsSet = c.Schema != nil
			}
			out = append(out, v)
		}
	case openapi31.Operation:
		for _, p := range o.Parameters {
			q := p.Parameter
			v := pview{name: q.Name, in: string(q.In), required: tri(q.Required), deprecated: tri(q.Deprecated), explode: tri(q.Explode), desc: strv(q.Description), hasSchema: q.Schema != nil}
			if q.Style != nil {
				v.style = string(*q.Style)
			}
			v.typ = typeName(q.Schema["type"])
			v.format, _ = q.Schema["format"].(string)
			for k, c := range q.Content {
				v.content = append(v.content, k)
				v.contentIsSet = c.Schema != nil
			}
			out = append(out, v)
		}
	}
	return out
}

// typeName is the single non-null type of a simple schema.
func typeName(t any) string {
	switch t := t.(type) {
	case string:
		return t
	case []interface{}:
		s := ""
		for _, x := range t {
			if x, ok := x.(string); ok && x != "null" {
				s += x
			}
		}
		return s
	}
	return ""
}

type jsonTagged struct {
	A string `json:"a"`
}

type queryTagged struct {
	A string `query:"a"`
}

type bothTagged struct {
	A string `query:"a" header:"a" path:"a" cookie:"a" json:"b"`
}

// ptype is a type of a parameter field and what is expected of it.
type ptype struct {
	t      reflect.Type
	typ    string
	format string
	object bool // documented as deepObject
	json   string
}

var ptypes = []ptype{
	{t: reflect.TypeOf(""), typ: "string"},
	{t: reflect.TypeOf(int64(0)), typ: "integer", format: "int64"},
	{t: reflect.TypeOf((*bool)(nil)), typ: "boolean"},
	{t: reflect.TypeOf([]string(nil)), typ: "array"},
	{t: reflect.TypeOf(float32(0)), typ: "number", format: "float"},
	{t: reflect.TypeOf(map[string]int(nil)), typ: "object", object: true},
	{t: reflect.TypeOf(jsonTagged{}), json: "all"},
	{t: reflect.TypeOf((*jsonTagged)(nil)), json: "all"},
	{t: reflect.TypeOf(bothTagged{}), object: true},
	{t: reflect.TypeOf(queryTagged{}), object: true},
	{t: reflect.TypeOf(uint8(0)), typ: "integer"},
}

// pfield is a declared parameter field.
type pfield struct {
	in      string
	tagKey  string
	name    string
	req     int // -1 no tag, 0 false, 1 true
	dep     int
	coll    string
	desc    string
	suffix  string
	pt      ptype
	mapped  bool
	goName  string
	dropped bool
}

func (f pfield) tag() reflect.StructTag {
	var t string
	if !f.mapped {
		t = f.tagKey + `:"` + f.name + f.suffix + `"`
	}
	if f.coll != "" {
		t += ` collectionFormat:"` + f.coll + `"`
	}
	if f.req >= 0 {
		t += ` required:"` + []string{"false", "true"}[f.req] + `"`
	}
	if f.dep >= 0 {
		t += ` deprecated:"` + []string{"false", "true"}[f.dep] + `"`
	}
	if f.desc != "" {
		t += ` description:"` + f.desc + `"`
	}
	return reflect.StructTag(t)
}

func structOf(fs []pfield) any {
	var sf []reflect.StructField
	for i := range fs {
		sf = append(sf, reflect.StructField{Name: fs[i].goName, Type: fs[i].pt.t, Tag: fs[i].tag()})
	}
	return reflect.New(reflect.StructOf(sf)).Interface()
}

var locations = []string{"query", "path", "header", "cookie"}

// expect checks one documented parameter.
func (f pfield) expect(p pview) {
	if f.in == "path" {
		sym.Assert(p.required == 1, "path parameter is required")
	} else {
		sym.Assert((p.required == 1) == (f.req == 1), "parameter is required only if declared so")
	}
	sym.Assert((p.deprecated == 1) == (f.dep == 1), "deprecation of parameter")
	sym.Assert(p.desc == f.desc, "description of parameter")
	js := f.coll == "json" || f.pt.json == "all"
	if f.pt.t == reflect.TypeOf(bothTagged{}) || f.pt.t == reflect.TypeOf(queryTagged{}) {
		js = f.coll == "json"
	}
	if js {
		sym.Cover("json parameter")
		sym.Assert(!p.hasSchema && len(p.content) == 1 && p.content[0] == "application/json" && p.contentIsSet, "JSON-encoded parameter has JSON content instead of schema")
		return
	}
	sym.Assert(p.hasSchema && len(p.content) == 0, "parameter has a schema and no content")
	if f.pt.typ != "" {
		sym.Assert(p.typ == f.pt.typ, "type of parameter")
		sym.Assert(p.format == f.pt.format, "format of parameter")
	}
	style, explode := "", -1
	query, form := f.in == "query", f.in == "query" || f.in == "cookie"
	switch {
	case f.coll == "csv" && form:
		style, explode = "form", 0
	case f.coll == "ssv" && query:
		style, explode = "spaceDelimited", 0
	case f.coll == "pipes" && query:
		style, explode = "pipeDelimited", 0
	case f.coll == "multi" && form:
		style, explode = "form", 1
	}
	if f.pt.object && query {
		style, explode = "deepObject", 1
	}
	sym.Assert(p.style == style && p.explode == explode, "style and explode of parameter")
}

// paramMethod is the method of the operation, GET if empty.
var paramMethod string

// checkParams adds an operation with the structures and checks its parameters.
func checkParams(ver int, structs []any, units [][]pfield, options ...openapi.ContentOption) {
	d := newDoc(ver)
	path := "/p"
	dup := false
	var all []pfield
	for _, fs := range units {
		for _, f := range fs {
			if f.dropped {
				continue
			}
			for _, q := range all {
				if q.in == f.in && q.name == f.name {
					dup = true
				}
			}
			all = append(all, f)
		}
	}
	for _, f := range all {
		if f.in == "path" {
			path += "/{" + f.name + "}"
		}
	}
	if paramMethod == "" {
		paramMethod = "GET"
	}
	oc, err := d.refl().NewOperationContext(paramMethod, path)
	sym.Assert(err == nil, "new operation context")
	for _, s := range structs {
		oc.AddReqStructure(s, options...)
	}
	err = d.refl().AddOperation(oc)
	if dup {
		sym.Cover("duplicate")
		sym.Assert(err != nil, "parameter declared twice is rejected")
		return
	}
	sym.Assert(err == nil, "operation is accepted")
	op, ok := d.get(strings.ToLower(paramMethod), path)
	sym.Assert(ok, "operation is stored")
	ps := pviews(op)
	sym.Assert(len(ps) == len(all), "number of documented parameters")
	for _, f := range all {
		n := 0
		for _, p := range ps {
			if p.name == f.name && p.in == f.in {
				n++
				f.expect(p)
			}
		}
		sym.Assert(n == 1, "declared parameter is documented exactly once")
	}
	sym.Cover("accepted")
}

// C13_Single declares one parameter with all combinations of attributes.
func C13_Single() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	f := pfield{goName: "F0", req: -1, dep: -1}
	i := sym.Choice("in", 5)
	if i == 4 {
		f.in, f.tagKey = "query", "form"
	} else {
		f.in, f.tagKey = locations[i], locations[i]
	}
	f.pt = ptypes[sym.Choice("type", len(ptypes))]
	sym.Assume(f.pt.t != reflect.TypeOf(queryTagged{}) || f.tagKey == "query")
	f.coll = []string{"", "csv", "ssv", "pipes", "multi", "json"}[sym.Choice("collectionFormat", 6)]
	f.req = sym.Choice("required", 3) - 1
	f.name = sym.Str("name", 2, "a-zA-Z0-9_.-")
	if sym.Choice("attributes", 2) == 1 {
		f.dep = sym.Choice("deprecated", 2)
		f.desc = sym.Str("description", 2, "a-z")
		f.suffix = ",omitempty"
	}
	checkParams(ver, []any{structOf([]pfield{f})}, [][]pfield{{f}})
}

// C13_Multi declares several parameters with arbitrary, possibly equal names in one or several structures.
func C13_Multi() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	n := 2 + sym.Choice("more", 1+sym.Tier())
	var fs []pfield
	for i := 0; i < n; i++ {
		f := pfield{goName: "F" + string(rune('0'+i)), req: -1, dep: -1, pt: ptypes[0]}
		l := sym.Choice("in", 5)
		if l == 4 {
			f.in, f.tagKey = "query", "form"
		} else {
			f.in, f.tagKey = locations[l], locations[l]
		}
		if sym.Choice("required", 2) == 1 {
			f.req = 1
		}
		f.name = sym.Str("name", 1, "a-zA-Z_")
		fs = append(fs, f)
	}
	units := [][]pfield{fs}
	structs := []any{structOf(fs)}
	split := sym.Choice("split", 2) == 1
	if split {
		units = [][]pfield{fs[:1], fs[1:]}
		structs = []any{structOf(fs[:1]), structOf(fs[1:])}
	} else {
		// two properties of one object can not share a name
		for i := range fs {
			for _, f := range fs[:i] {
				sym.Assume(f.in != fs[i].in || f.tagKey == fs[i].tagKey)
			}
		}
	}
	var opts []openapi.ContentOption
	switch sym.Choice("contentType", 4) {
	case 1:
		opts = append(opts, openapi.WithContentType("application/json"))
	case 2:
		opts = append(opts, openapi.WithContentType("application/x-www-form-urlencoded"))
	case 3:
		opts = append(opts, openapi.WithContentType("multipart/form-data"))
	}
	checkParams(ver, structs, units, opts...)
}

// C13_Body declares a parameter next to fields of a body.
func C13_Body() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	f := pfield{goName: "F0", req: -1, dep: -1, pt: ptypes[[]int{0, 3, 5, 6}[sym.Choice("type", 4)]], name: sym.Str("name", 1, "a-z")}
	l := sym.Choice("in", 5)
	if l == 4 {
		f.in, f.tagKey = "query", "form"
	} else {
		f.in, f.tagKey = locations[l], locations[l]
	}
	tags := []string{`json:"b1"`, `formData:"b1"`, `contentType:"text/csv"`, `json:"b1" formData:"b1"`, `file`}
	b := reflect.StructField{Name: "B", Type: reflect.TypeOf("")}
	tag := tags[sym.Choice("body", len(tags))]
	if tag == "file" {
		b.Type, tag = reflect.TypeOf((*multipart.FileHeader)(nil)), `formData:"b1"`
	}
	b.Tag = reflect.StructTag(tag)
	p := reflect.StructField{Name: f.goName, Type: f.pt.t, Tag: f.tag()}
	var structs []any
	fs := []pfield{f}
	units := [][]pfield{fs}
	switch sym.Choice("order", 4) {
	case 0:
		structs = []any{reflect.New(reflect.StructOf([]reflect.StructField{b, p})).Interface()}
	case 1:
		structs = []any{reflect.New(reflect.StructOf([]reflect.StructField{p, b})).Interface()}
	case 2:
		structs = []any{reflect.New(reflect.StructOf([]reflect.StructField{b})).Interface(), structOf(fs)}
		units = [][]pfield{nil, fs}
	case 3:
		structs = []any{structOf(fs), reflect.New(reflect.StructOf([]reflect.StructField{b})).Interface()}
		units = [][]pfield{fs, nil}
	}
	var opts []openapi.ContentOption
	switch sym.Choice("contentType", 4) {
	case 1:
		opts = append(opts, openapi.WithContentType("application/json"))
	case 2:
		opts = append(opts, openapi.WithContentType("application/x-www-form-urlencoded"))
	case 3:
		opts = append(opts, openapi.WithContentType("multipart/form-data"))
	}
	paramMethod = []string{"POST", "DELETE"}[sym.Choice("method", 2)]
	checkParams(ver, structs, units, opts...)
}

// C13_Again uses one structure with different units.
func C13_Again() { again([]string{"parameters"}, 0, 1, 2) }

// C13_Mapping maps fields to parameters with arbitrary names, overriding or completing tags.
func C13_Mapping() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	loc := locations[sym.Choice("in", 4)]
	m := map[string]string{}
	var fs []pfield
	n := 1 + sym.Choice("fields", 2+sym.Tier())
	for i := 0; i < n; i++ {
		f := pfield{goName: "F" + string(rune('0'+i)), req: -1, dep: -1, pt: ptypes[sym.Choice("type", 3)]}
		name := sym.Str("name", 1, "a-zA-Z_")
		f.name = name
		switch sym.Choice("field", 5) {
		case 4: // form tag
			f.in, f.tagKey, f.name = "query", "form", name+"f"
		case 0: // mapped, no tag
			f.in, f.mapped = loc, true
			m[f.goName] = name
		case 1: // mapping overrides the tag of the same location
			f.in, f.tagKey, f.name = loc, loc, "tagged"
			m[f.goName] = name
		case 2: // tag of another location
			f.in = locations[(sym.Choice("other", 3)+1+indexOf(locations, loc))%4]
			f.tagKey = f.in
		case 3: // neither
			f.tagKey, f.dropped = "json", true
		}
		fs = append(fs, f)
	}
	s := structOf(fs)
	for i := range fs {
		if name, ok := m[fs[i].goName]; ok {
			fs[i].name = name
		}
	}
	again := sym.Choice("again", few(n, 3, 2))
	checkParams(ver, []any{s}, [][]pfield{fs}, func(cu *openapi.ContentUnit) {
		if again == 1 { // The last mapping of a location counts.
			cu.SetFieldMapping(openapi.In(loc), map[string]string{"F0": "earlier", "F1": "old"})
			if len(m) == 0 {
				cu.SetFieldMapping(openapi.In(loc), map[string]string{"Other": "other"})
			}
		}
		cu.SetFieldMapping(openapi.In(loc), m)
		if again == 2 { // No mapping at all changes nothing.
			cu.SetFieldMapping(openapi.In(loc), nil)
			cu.SetFieldMapping(openapi.In(loc), map[string]string{})
		}
	})
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

type innerParams struct {
	A string `query:"a" header:"a" cookie:"a"`
	B int64  `query:"b" header:"b" cookie:"b" required:"true"`
	_ string `query:"_"`
	c string `query:"c"` //nolint:unused
	D string `query:"-" header:"-" cookie:"-"`
	E string
}

type ptrParams struct {
	F *string `query:"f" header:"f" cookie:"f"`
}

type outerParams struct {
	innerParams
	*ptrParams
	G bool `query:"g" header:"g" cookie:"g"`
}

type shadowParams struct {
	innerParams
	H []string `query:"h" header:"h" cookie:"h" collectionFormat:"csv"`
}

type namedParams struct {
	Inner innerParams `query:"inner" header:"inner" cookie:"inner"`
	G     bool        `query:"g" header:"g" cookie:"g"`
}

// C13_Embedded declares parameters in embedded structures, with fields that are not parameters in between.
func C13_Embedded() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	loc := []string{"query", "header", "cookie"}[sym.Choice("in", 3)]
	a := pfield{name: "a", in: loc, req: -1, dep: -1, pt: ptypes[0], goName: "A"}
	b := pfield{name: "b", in: loc, req: 1, dep: -1, pt: ptypes[1], goName: "B"}
	f := pfield{name: "f", in: loc, req: -1, dep: -1, pt: ptypes[0], goName: "F"}
	g := pfield{name: "g", in: loc, req: -1, dep: -1, pt: ptype{typ: "boolean"}, goName: "G"}
	h := pfield{name: "h", in: loc, req: -1, dep: -1, coll: "csv", pt: ptypes[3], goName: "H"}
	inner := pfield{name: "inner", in: loc, req: -1, dep: -1, pt: ptype{object: true}, goName: "Inner"}
	cases := []struct {
		v  any
		fs []pfield
	}{
		{innerParams{}, []pfield{a, b}},
		{&innerParams{}, []pfield{a, b}},
		{(*innerParams)(nil), []pfield{a, b}},
		{outerParams{}, []pfield{a, b, f, g}},
		{&outerParams{ptrParams: &ptrParams{}}, []pfield{a, b, f, g}},
		{new(shadowParams), []pfield{a, b, h}},
		{namedParams{}, []pfield{inner, g}},
	}
	c := cases[sym.Choice("struct", len(cases))]
	fs := append([]pfield(nil), c.fs...)
	// all parameters of other locations are mapped away
	var others []string
	for _, l := range []string{"query", "header", "cookie"} {
		if l != loc {
			others = append(others, l)
		}
	}
	m := map[string]string{}
	for i := range fs {
		if sym.Choice("mapped", 2) == 1 {
			fs[i].name = sym.Str("name", 1, "i-z")
			m[fs[i].goName] = fs[i].name
		}
	}
	off := map[string]string{"A": "-", "B": "-", "F": "-", "G": "-", "H": "-", "Inner": "-"}
	checkParams(ver, []any{c.v}, [][]pfield{fs}, func(cu *openapi.ContentUnit) {
		cu.SetFieldMapping(openapi.In(loc), m)
		for _, l := range others {
			cu.SetFieldMapping(openapi.In(l), off)
		}
	})
}

// Types that contain themselves, with tags of several encodings.
type (
	recParam struct {
		Next *recParam `query:"next" header:"next" path:"next" cookie:"next" json:"nxt"`
		V    string    `query:"v" header:"v" path:"v" cookie:"v" json:"w"`
	}
	recList struct {
		L []recList           `query:"l" header:"l" path:"l" cookie:"l" json:"l"`
		M map[string]*recMut2 `query:"m" header:"m" path:"m" cookie:"m" json:"m"`
	}
	recMut2 struct {
		L recList `query:"l" header:"l" path:"l" cookie:"l" json:"l"`
	}
	recJSON struct {
		Next []*recJSON `json:"next"`
	}
	recSlice []recSlice
)

// C13_Recursive declares parameters of recursive types.
func C13_Recursive() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	types := []ptype{
		{t: reflect.TypeOf(recParam{}), object: true},
		{t: reflect.TypeOf(&recParam{}), object: true},
		{t: reflect.TypeOf(recList{}), object: true},
		{t: reflect.TypeOf(recJSON{}), json: "all"},
		{t: reflect.TypeOf(&recJSON{}), json: "all"},
		{t: reflect.TypeOf(recSlice{})},
	}
	loc := locations[sym.Choice("in", len(locations))]
	fs := []pfield{{in: loc, tagKey: loc, name: sym.Str("name", 1, "a-z"), req: sym.Choice("required", 3) - 1, dep: -1, pt: types[sym.Choice("type", len(types))], goName: "F"}}
	checkParams(ver, []any{structOf(fs)}, [][]pfield{fs})
}
