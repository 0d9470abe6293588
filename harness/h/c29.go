package h

import (
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"

	openapi "github.com/swaggest/openapi-go"

	"verif/harness/sym"
)

// whole is the document with references to component schemas replaced by the components.
func (d *doc) whole() any {
	var spec any
	if d.ver == 3 {
		spec = d.r3.Spec
	} else {
		spec = d.r31.Spec
	}
	m, _ := generic(spec).(map[string]any)
	comps := d.comps()
	delete(m, "components")
	return resolved(m, comps, 0)
}

func resolved(v any, comps map[string]any, depth int) any {
	switch v := v.(type) {
	case map[string]any:
		if r, ok := v["$ref"].(string); ok && strings.HasPrefix(r, compPrefix) {
			if depth == 5 {
				return "deeper"
			}
			c, found := comps[r[len(compPrefix):]]
			sym.Assert(found, "reference resolves")
			return resolved(c, comps, depth+1)
		}
		out := map[string]any{}
		for k, x := range v {
			out[k] = resolved(x, comps, depth)
		}
		return out
	case []any:
		var out []any
		for _, x := range v {
			out = append(out, resolved(x, comps, depth))
		}
		return out
	}
	return v
}

// alike adds an operation in two ways, both are accepted with equal documents or both are rejected.
func alike(ver int, method, path string, f, g func(oc openapi.OperationContext)) {
	var docs [2]*doc
	var errs [2]error
	for i, add := range []func(oc openapi.OperationContext){f, g} {
		d := newDoc(ver)
		oc, err := d.refl().NewOperationContext(method, path)
		sym.Assert(err == nil, "new operation context")
		add(oc)
		docs[i], errs[i] = d, d.refl().AddOperation(oc)
	}
	sym.Assert((errs[0] == nil) == (errs[1] == nil), "equivalent declarations are accepted or rejected alike")
	if errs[0] != nil {
		sym.Cover("rejected")
		return
	}
	sym.Assert(reflect.DeepEqual(docs[0].whole(), docs[1].whole()), "equivalent declarations give equal documents")
	sym.Cover("accepted")
}

// declField is a request field of any kind, of a few types.
func declField(i int) reflect.StructField {
	if sym.Tier() > 0 {
		return anyField(i)
	}
	f := reflect.StructField{Name: "F" + string(rune('0'+i)), Type: reflect.TypeOf("")}
	kind := []string{"query", "path", "header", "cookie", "form", "formData", "json", "file", "contentType", "both"}[sym.Choice("kind", 10)]
	name := sym.Str("name", 1, "a-c")
	tag := kind + `:"` + name + `"`
	switch kind {
	case "file":
		f.Type = fileTypes[sym.Choice("file", 2)]
		tag = `formData:"` + name + `"`
	case "contentType":
		f.Type = reflect.TypeOf(struct{}{})
		tag = `contentType:"text/` + name + `"`
	case "both":
		tag = `query:"` + name + `" json:"` + name + `" formData:"` + name + `"`
	case "json", "form", "formData":
		f.Type = []reflect.Type{f.Type, reflect.TypeOf([]*refJ(nil))}[sym.Choice("type", 2)]
	default:
		switch sym.Choice("type", 3) {
		case 1:
			f.Type = reflect.TypeOf([]int64(nil))
			tag += ` collectionFormat:"csv"`
		case 2:
			f.Type = reflect.TypeOf(refJ{})
			tag += ` collectionFormat:"json"`
		}
	}
	tag += []string{"", ` required:"true"`, ` description:"d"`}[sym.Choice("attribute", 3)]
	f.Tag = reflect.StructTag(tag)
	return f
}

// declFields are request fields of arbitrary kinds and the path that goes with them.
func declFields(n int) ([]reflect.StructField, string) {
	path := "/p"
	var sf []reflect.StructField
	for i := 0; i < n; i++ {
		f := declField(i)
		if p := f.Tag.Get("path"); p != "" && len(sf) == 0 {
			path += "/{" + p + "}"
		}
		sf = append(sf, f)
	}
	return sf, path
}

var otherFields = []reflect.StructTag{`query:"z"`, `json:"z"`, `formData:"z"`, `header:"z" required:"true"`}

// pointers are ways to pass a structure of a type.
func pointers(t reflect.Type, k int) any {
	v := reflect.New(t)
	switch k {
	case 0:
		return v.Elem().Interface()
	case 1:
		return v.Interface()
	case 2:
		return reflect.Zero(v.Type()).Interface()
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Interface()
}

// C29_Pointers passes values, pointers, nil pointers and pointers to pointers.
func C29_Pointers() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	sf, path := declFields(1)
	if sym.Choice("second", 2) == 1 {
		sf = append(sf, reflect.StructField{Name: "Z", Type: reflect.TypeOf(""), Tag: otherFields[sym.Choice("other", len(otherFields))]})
	}
	t := reflect.StructOf(sf)
	method := []string{"post", "get"}[sym.Choice("method", 2)]
	k := 1 + sym.Choice("pointer", 3)
	alike(ver, method, path,
		func(oc openapi.OperationContext) { oc.AddReqStructure(pointers(t, 0)) },
		func(oc openapi.OperationContext) { oc.AddReqStructure(pointers(t, k)) })
}

// C29_Embedded declares fields in an embedded structure.
func C29_Embedded() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	sf, path := declFields(1)
	z := reflect.StructField{Name: "Z", Type: reflect.TypeOf(""), Tag: otherFields[sym.Choice("other", len(otherFields))]}
	method := []string{"post", "get"}[sym.Choice("method", 2)]
	var flat, parts []reflect.StructField
	embed := func(fs ...reflect.StructField) reflect.StructField {
		return reflect.StructField{Name: "E", Anonymous: true, Type: reflect.StructOf(fs)}
	}
	switch sym.Choice("embed", 4) {
	case 0:
		flat, parts = []reflect.StructField{sf[0], z}, []reflect.StructField{embed(sf[0]), z}
	case 1:
		flat, parts = []reflect.StructField{z, sf[0]}, []reflect.StructField{z, embed(sf[0])}
	case 2:
		flat, parts = []reflect.StructField{sf[0], z}, []reflect.StructField{embed(sf[0], z)}
	case 3:
		flat, parts = []reflect.StructField{sf[0], z}, []reflect.StructField{embed(embed(sf[0])), z}
	}
	k := sym.Choice("pointer", 2)
	alike(ver, method, path,
		func(oc openapi.OperationContext) { oc.AddReqStructure(pointers(reflect.StructOf(flat), k)) },
		func(oc openapi.OperationContext) { oc.AddReqStructure(pointers(reflect.StructOf(parts), k)) })
}

// C29_Split declares parameters in one or in two structures.
func C29_Split() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	field := func(i int) reflect.StructField {
		loc := locations[sym.Choice("in", len(locations))]
		tag := loc + `:"` + sym.Str("name", 1, "a-c") + `"`
		if loc == "path" {
			tag = `path:"` + string(rune('a'+i)) + `"`
		}
		tag += []string{"", ` required:"true"`, ` description:"d"`, ` collectionFormat:"csv"`}[sym.Choice("attribute", 4)]
		return reflect.StructField{Name: "F" + string(rune('0'+i)), Type: []reflect.Type{reflect.TypeOf(""), reflect.TypeOf([]int64(nil))}[sym.Choice("type", 2)], Tag: reflect.StructTag(tag)}
	}
	a, b := field(0), field(1)
	path := "/p"
	for _, f := range []reflect.StructField{a, b} {
		if p := f.Tag.Get("path"); p != "" {
			path += "/{" + p + "}"
		}
	}
	alikeParams(ver, path,
		func(oc openapi.OperationContext) {
			oc.AddReqStructure(pointers(reflect.StructOf([]reflect.StructField{a, b}), 0))
		},
		func(oc openapi.OperationContext) {
			oc.AddReqStructure(pointers(reflect.StructOf([]reflect.StructField{a}), 0))
			oc.AddReqStructure(pointers(reflect.StructOf([]reflect.StructField{b}), 1))
		})
}

// alikeParams compares operations up to the order of parameters.
func alikeParams(ver int, path string, f, g func(oc openapi.OperationContext)) {
	var got [2][]any
	var errs [2]error
	for i, add := range []func(oc openapi.OperationContext){f, g} {
		d := newDoc(ver)
		oc, err := d.refl().NewOperationContext("get", path)
		sym.Assert(err == nil, "new operation context")
		add(oc)
		errs[i] = d.refl().AddOperation(oc)
		if errs[i] == nil {
			w, ok := dig(d.whole().(map[string]any), "paths", path, "get")
			sym.Assert(ok, "operation is found")
			got[i], _ = w["parameters"].([]any)
			_, has := w["requestBody"]
			sym.Assert(!has, "parameters have no body")
		}
	}
	sym.Assert((errs[0] == nil) == (errs[1] == nil), "equivalent declarations are accepted or rejected alike")
	sym.Assert(len(got[0]) == len(got[1]), "equivalent declarations give the same number of parameters")
	for _, x := range got[0] {
		n := 0
		for _, y := range got[1] {
			if reflect.DeepEqual(x, y) {
				n++
			}
		}
		sym.Assert(n == 1, "equivalent declarations give equal parameters")
	}
	if errs[0] == nil {
		sym.Cover("accepted")
	} else {
		sym.Cover("rejected")
	}
}

// C29_Mapping names a field by mapping instead of a tag.
func C29_Mapping() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	in := mapLocs[sym.Choice("in", len(mapLocs))]
	name := sym.Str("name", 1, "a-z")
	rest := []string{"", ` required:"true"`, ` description:"d"`, ` required:"false"`, ` format:"f" minLength:"1"`, ` deprecated:"true"`}[sym.Choice("attribute", 6)]
	typ := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf([]string(nil)), reflect.TypeOf(int64(0)), fileTypes[0]}[sym.Choice("type", 4)]
	if typ == fileTypes[0] {
		sym.Assume(in == openapi.InFormData)
	}
	z := reflect.StructField{Name: "Z", Type: reflect.TypeOf(""), Tag: otherFields[sym.Choice("other", len(otherFields))]}
	method := []string{"post", "get"}[sym.Choice("method", 2)]
	// Form fields with tags replace JSON fields, mapped ones are documented next to them.
	sym.Assume(in != openapi.InFormData || z.Tag.Get("json") == "")
	path := "/p"
	if in == openapi.InPath {
		path += "/{" + name + "}"
	}
	tagged := reflect.StructOf([]reflect.StructField{{Name: "F", Type: typ, Tag: reflect.StructTag(string(in) + `:"` + name + `"` + rest)}, z})
	mapped := reflect.StructOf([]reflect.StructField{{Name: "F", Type: typ, Tag: reflect.StructTag(strings.TrimSpace(rest))}, z})
	alike(ver, method, path,
		func(oc openapi.OperationContext) { oc.AddReqStructure(pointers(tagged, 1)) },
		func(oc openapi.OperationContext) {
			oc.AddReqStructure(pointers(mapped, 1), func(cu *openapi.ContentUnit) { cu.SetFieldMapping(in, map[string]string{"F": name}) })
		})
}

// virtual has fields that are known at run time only.
type virtual struct {
	Q string `query:"q"`
	H string `header:"h"`
	jsonschema.Struct
}

type virtualResp struct {
	H string `header:"h" json:"-"`
	jsonschema.Struct
}

type virtualOnly struct{ jsonschema.Struct }

// C29_Virtual declares JSON fields in a virtual structure.
func C29_Virtual() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	n := 1 + sym.Choice("fields", 2)
	way := sym.Choice("way", 5)
	if sym.Tier() == 0 {
		// Each way with one field, several fields in a request or in a response.
		sym.Assume(n == 1 || way == 0 || way == 3)
	}
	var s jsonschema.Struct
	var sf []reflect.StructField
	s.DefName = "V" + sym.Str("def", 1, "a-c")
	vals := []any{"", int64(1), []string{}, refJ{}, true, map[string]int{}}
	for i := 0; i < n; i++ {
		v := vals[sym.Choice("type", few(n, len(vals), 3))]
		rest := []string{"", ` required:"true"`, ` minLength:"3" title:"t"`, ` description:"d" deprecated:"true"`}[sym.Choice("attribute", few(n, 4, 2))]
		name := "n"
		if n == 1 || sym.Tier() > 0 {
			name = sym.Str("name", 1, "a-z")
		}
		tag := reflect.StructTag(`json:"` + name + string(rune('0'+i)) + `"` + rest)
		s.Fields = append(s.Fields, jsonschema.Field{Name: "F" + string(rune('0'+i)), Value: v, Tag: tag})
		sf = append(sf, reflect.StructField{Name: "F" + string(rune('0'+i)), Type: reflect.TypeOf(v), Tag: tag})
	}
	q := reflect.StructField{Name: "Q", Type: reflect.TypeOf(""), Tag: `query:"q"`}
	h := reflect.StructField{Name: "H", Type: reflect.TypeOf(""), Tag: `header:"h"`}
	hr := reflect.StructField{Name: "H", Type: reflect.TypeOf(""), Tag: `header:"h" json:"-"`}
	declared := func(more ...reflect.StructField) any {
		return pointers(reflect.StructOf(append(more, sf...)), 1)
	}
	method := []string{"post", "get"}[sym.Choice("method", 2)]
	alike(ver, method, "/p",
		func(oc openapi.OperationContext) {
			switch way {
			case 0:
				oc.AddReqStructure(declared(q, h))
			case 1, 2:
				oc.AddReqStructure(declared())
			case 3:
				oc.AddRespStructure(declared(hr))
			case 4:
				oc.AddRespStructure(declared())
			}
		},
		func(oc openapi.OperationContext) {
			switch way {
			case 0:
				oc.AddReqStructure(virtual{Struct: s})
			case 1:
				oc.AddReqStructure(&virtualOnly{s})
			case 2:
				oc.AddReqStructure(s)
			case 3:
				oc.AddRespStructure(&virtualResp{Struct: s})
			case 4:
				oc.AddRespStructure(s)
			}
		})
}

// C29_Order adds operations in both orders, and on their own.
func C29_Order() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	types := []int{1, 2, 4, 6, 9, 10, 11, 14}
	if sym.Tier() > 0 {
		types = nil
		for i := range refTypes {
			types = append(types, i)
		}
	}
	places := []int{atJSON, atResp, atForm, atContent, atRootJSON, atRootResp}
	var us [2]use
	from := 0
	for i := range us {
		// Both orders are tried, so that the second type is not before the first one.
		from += sym.Choice("type", len(types)-from)
		t := refTypes[types[from]]
		us[i] = use{place: places[sym.Choice("place", len(places))], t: t.t, method: "post", path: "/" + string(rune('a'+i)), field: "f" + sym.Str("field", 1, "a-z")}
		sym.Assume(us[i].allowed(t.use))
	}
	var docs []*doc
	for _, order := range [][]int{{0, 1}, {1, 0}, {0}, {1}} {
		d := newDoc(ver)
		for _, i := range order {
			oc, err := d.refl().NewOperationContext(us[i].method, us[i].path)
			sym.Assert(err == nil, "operation context is created")
			us[i].declare(oc)
			sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
		}
		docs = append(docs, d)
	}
	both := docs[0].whole().(map[string]any)
	sym.Assert(reflect.DeepEqual(both, docs[1].whole()), "order of operations makes no difference")
	for i, u := range us {
		x, ok := dig(both, "paths", u.path)
		sym.Assert(ok, "operation is found")
		y, ok := dig(docs[2+i].whole().(map[string]any), "paths", u.path)
		sym.Assert(ok && reflect.DeepEqual(x, y), "another operation makes no difference to an operation")
	}
	sym.Cover("compared")
}

// C29_Responses passes response structures by pointer and declares their fields in embedded structures.
func C29_Responses() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	n := 1 + sym.Choice("fields", 2)
	var sf []reflect.StructField
	for i := 0; i < n; i++ {
		name := "b"
		if i == 0 || sym.Tier() > 0 {
			name = sym.Str("name", 1, "a-c")
		}
		f := reflect.StructField{Name: "F" + string(rune('0'+i)), Type: []reflect.Type{reflect.TypeOf(""), reflect.TypeOf([]*refJ(nil))}[sym.Choice("type", few(i+1, 2, 1))]}
		tag := ""
		switch sym.Choice("kind", 4) {
		case 0:
			tag = `json:"` + name + `"`
		case 1:
			tag = `header:"` + name + `" json:"-"`
		case 2:
			tag = `header:"` + name + `" json:"` + name + `"`
		case 3:
			f.Type = reflect.TypeOf(struct{}{})
			tag = `contentType:"text/` + name + `" json:"-"`
		}
		tag += []string{"", ` required:"true"`, ` description:"d"`}[sym.Choice("attribute", few(n, 3, 2-i))]
		f.Tag = reflect.StructTag(tag)
		sf = append(sf, f)
	}
	var opts []openapi.ContentOption
	switch sym.Choice("option", few(n, 3, 1)) {
	case 1:
		opts = append(opts, openapi.WithHTTPStatus(404))
	case 2:
		opts = append(opts, openapi.WithContentType("text/x"), func(cu *openapi.ContentUnit) { cu.IsDefault = true })
	}
	method := []string{"post", "head"}[sym.Choice("method", 2)]
	other := sf
	embed := func(fs ...reflect.StructField) reflect.StructField {
		return reflect.StructField{Name: "E", Anonymous: true, Type: reflect.StructOf(fs)}
	}
	e := sym.Choice("embed", 4)
	switch {
	case e == 1:
		other = []reflect.StructField{embed(sf...)}
	case e == 2:
		other = []reflect.StructField{embed(embed(sf[0]))}
		other = append(other, sf[1:]...)
	case e == 3:
		sym.Assume(n == 2)
		other = []reflect.StructField{sf[0], embed(sf[1])}
	}
	k := 1
	if e == 0 || sym.Tier() > 0 {
		k = sym.Choice("pointer", 4)
	}
	sym.Assume(e+k > 0)
	alike(ver, method, "/p",
		func(oc openapi.OperationContext) { oc.AddRespStructure(pointers(reflect.StructOf(sf), 0), opts...) },
		func(oc openapi.OperationContext) { oc.AddRespStructure(pointers(reflect.StructOf(other), k), opts...) })
}

// againReq and againResp are used by several operations in different ways.
type againReq struct {
	A string
	F string `formData:"f"`
	Q string `query:"q" required:"true"`
	R []refJ `json:"r"`
	_ string `query:"_" additionalProperties:"false"`
}

type againJSON struct {
	A string
	B string     `json:"b"`
	N *againJSON `json:"n"`
	_ string     `contentType:"text/csv"`
}

type againForm struct {
	A string
	N *againForm `form:"n"`
	J []refJ     `form:"js"`
}

type againResp struct {
	A string
	H string `header:"h" json:"h"`
	R []refJ `json:"r"`
}

func (againForm) ForceRequestBody() {}

// againUnit declares a structure in one of several ways.
func againUnit(oc openapi.OperationContext, req int) {
	structure := pointers(reflect.TypeOf([]any{againReq{}, againJSON{}, againForm{}}[req]), sym.Choice("pointer", 1+sym.Tier()))
	switch sym.Choice("way", 4) {
	case 0:
		oc.AddReqStructure(structure)
	case 1, 2:
		in := mapLocs[sym.Choice("in", len(mapLocs))]
		sym.Assume(in != openapi.InPath)
		m := map[string]string{"A": "m" + sym.Str("name", 1, "a-z")}
		oc.AddReqStructure(structure, func(cu *openapi.ContentUnit) { cu.SetFieldMapping(in, m) })
	case 3:
		oc.AddReqStructure(structure, openapi.WithContentType([]string{ctJSON, ctForm, "text/x"}[sym.Choice("content type", 3)]))
	}
}

func againRespUnit(oc openapi.OperationContext) {
	var m map[string]string
	if sym.Choice("mapping", 2) == 1 {
		m = map[string]string{"A": "m" + sym.Str("name", 1, "a-z")}
	}
	status := []int{0, 404, 5}[sym.Choice("status", 3)]
	ct := []string{"", "text/x"}[sym.Choice("response type", 2)]
	oc.AddRespStructure(new(againResp), func(cu *openapi.ContentUnit) {
		cu.SetFieldMapping(openapi.InHeader, m)
		cu.HTTPStatus, cu.ContentType = status, ct
		cu.IsDefault = status == 5 && ct != ""
	})
}

// C29_Again uses one structure in two operations in different ways.
func C29_Again() { again(nil, 0, 1, 2, 3) }

// again compares given or all members of operations with the ones of operations that are alone.
func again(members []string, structures ...int) {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	st := structures[sym.Choice("structure", len(structures))]
	paths := []string{"/a", "/b"}
	methods := []string{"post", []string{"put", "get", "head"}[sym.Choice("method", 3)]}
	both := newDoc(ver)
	var single []*doc
	for i, p := range paths {
		d := newDoc(ver)
		oc, err := both.refl().NewOperationContext(methods[i], p)
		sym.Assert(err == nil, "operation context is created")
		if st == 3 {
			againRespUnit(oc)
		} else {
			againUnit(oc, st)
		}
		own, err := d.refl().NewOperationContext(methods[i], p)
		sym.Assert(err == nil, "operation context is created")
		for _, u := range oc.Request() {
			u := u
			own.AddReqStructure(nil, func(cu *openapi.ContentUnit) { *cu = u })
		}
		for _, u := range oc.Response() {
			u := u
			own.AddRespStructure(nil, func(cu *openapi.ContentUnit) { *cu = u })
		}
		e1, e2 := both.refl().AddOperation(oc), d.refl().AddOperation(own)
		sym.Assert(e1 == nil && e2 == nil, "operation is added")
		single = append(single, d)
	}
	all := both.whole().(map[string]any)
	for i, p := range paths {
		x, ok := dig(all, "paths", p, methods[i])
		sym.Assert(ok, "operation is found")
		y, ok := dig(single[i].whole().(map[string]any), "paths", p, methods[i])
		sym.Assert(ok, "single operation is found")
		if members == nil {
			sym.Assert(reflect.DeepEqual(x, y), "another use of a structure makes no difference to an operation")
		}
		for _, m := range members {
			sym.Assert(reflect.DeepEqual(x[m], y[m]), "another use of a structure makes no difference to parameters, body and responses")
		}
	}
	sym.Cover("compared")
}
