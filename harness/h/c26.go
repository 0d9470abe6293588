package h

import (
	"encoding/json"
	"reflect"

	jsonschema "github.com/swaggest/jsonschema-go"
	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// tplace is a place a field with tags is documented at.
type tplace struct {
	tag  string
	in   string
	resp bool
}

var tplaces = []tplace{
	{"query", "query", false}, {"header", "header", false}, {"cookie", "cookie", false}, {"path", "path", false},
	{"formData", "form", false}, {"json", "body", false}, {"json", "body", true}, {"header", "header", true},
}

// at is the documented schema of a field in both forms, or nil.
func (p tplace) at(op any, name string) (*openapi3.SchemaOrRef, map[string]any) {
	ct := ctJSON
	if p.in == "form" {
		ct = ctForm
	}
	switch o := op.(type) {
	case openapi3.Operation:
		switch {
		case p.resp && p.in == "header":
			return o.Responses.MapOfResponseOrRefValues["200"].Response.Headers[name].Header.Schema, nil
		case p.in == "body" || p.in == "form":
			var s *openapi3.SchemaOrRef
			if p.resp {
				s = o.Responses.MapOfResponseOrRefValues["200"].Response.Content[ct].Schema
			} else {
				s = o.RequestBody.RequestBody.Content[ct].Schema
			}
			f, ok := s.Schema.Properties[name]
			sym.Assert(ok, "field is documented")
			return &f, nil
		}
		sym.Assert(len(o.Parameters) == 1, "parameter is documented")
		return o.Parameters[0].Parameter.Schema, nil
	case openapi31.Operation:
		switch {
		case p.resp && p.in == "header":
			return nil, o.Responses.MapOfResponseOrReferenceValues["200"].Response.Headers[name].Header.Schema
		case p.in == "body" || p.in == "form":
			var s map[string]any
			if p.resp {
				s = o.Responses.MapOfResponseOrReferenceValues["200"].Response.Content[ct].Schema
			} else {
				s = o.RequestBody.RequestBody.Content[ct].Schema
			}
			ps, _ := s["properties"].(map[string]any)
			f, ok := ps[name].(map[string]any)
			sym.Assert(ok, "field is documented")
			return nil, f
		}
		sym.Assert(len(o.Parameters) == 1, "parameter is documented")
		return nil, o.Parameters[0].Parameter.Schema
	}
	return nil, nil
}

// constraint is a set of tags with their meaning.
type constraint struct {
	tag      string
	c        common
	max, min *float64
	exMax    *float64
	exMin    *float64
	enum     []any
	nullable int  // -1 no tag
	symbolic bool // numbers in tags are symbolic
	items    *constraint
	// annotations
	title, desc, format *string
	def, example        any
	deprecated, ro, wo  *bool
}

func (c *constraint) add(name, value string) { c.tag += " " + name + `:"` + value + `"` }

func ptr[T any](v T) *T { return &v }

var nums = []struct {
	s string
	f float64
}{{"0", 0}, {"-1.5", -1.5}, {"7", 7}}

func (c *constraint) num(name string) *float64 {
	n := nums[sym.Choice("number", len(nums))]
	c.add(name, n.s)
	return ptr(n.f)
}

func (c *constraint) int(name string) int64 {
	if !c.symbolic {
		n := sym.Choice(name, 2) * 5
		c.add(name, []string{"0", "5"}[n/5])
		return int64(n)
	}
	s := sym.Str(name, 1, "0-9")
	c.add(name, s)
	return int64(s[0]) - '0'
}

func (c *constraint) text(name string) *string {
	s := sym.Str(name, 1, "a-z")
	c.add(name, s)
	return &s
}

func (c *constraint) flag(name string) *bool {
	b := sym.Choice(name, 2) == 1
	c.add(name, []string{"false", "true"}[b2i(b)])
	return &b
}

// value is a number or a boolean, zero or not.
func (c *constraint) value(name, typ string) any {
	zero := sym.Choice(name, 2) == 0
	if typ == "boolean" {
		c.add(name, []string{"true", "false"}[b2i(zero)])
		return !zero
	}
	c.add(name, []string{"3", "0"}[b2i(zero)])
	return []float64{3, 0}[b2i(zero)]
}

// tagType is a type of a field and its expected base.
type tagType struct {
	t      reflect.Type
	typ    string
	format string
	min    *float64
	elem   string
}

var tagTypes = []tagType{
	{t: reflect.TypeOf(""), typ: "string"},
	{t: reflect.TypeOf(int64(0)), typ: "integer", format: "int64"},
	{t: reflect.TypeOf(0.5), typ: "number", format: "double"},
	{t: reflect.TypeOf([]string(nil)), typ: "array", elem: "string"},
	{t: reflect.TypeOf((*string)(nil)), typ: "string"},
	{t: reflect.TypeOf(uint16(0)), typ: "integer", min: ptr(0.0)},
	{t: reflect.TypeOf((*int32)(nil)), typ: "integer"},
	{t: reflect.TypeOf(map[string]int(nil)), typ: "object", elem: "integer"},
	{t: reflect.TypeOf(true), typ: "boolean"},
	{t: reflect.TypeOf([]float32(nil)), typ: "array", elem: "number"},
}

const tagGroups = 16

// group adds the tags of one group, if they make sense for the type.
func (c *constraint) group(k int, t tagType) bool {
	num, str, arr, obj := t.typ == "integer" || t.typ == "number", t.typ == "string", t.typ == "array", t.typ == "object"
	switch k {
	case 0:
		c.max = c.num("maximum")
		return num
	case 1:
		c.min = c.num("minimum")
		return num && t.min == nil
	case 2:
		c.exMax = c.num("exclusiveMaximum")
		return num
	case 3:
		c.exMin = c.num("exclusiveMinimum")
		return num
	case 4:
		c.c.multipleOf = c.num("multipleOf")
		return num
	case 5:
		c.c.maxLength = ptr(c.int("maxLength"))
		return str
	case 6:
		c.c.minLength = c.int("minLength")
		return str
	case 7:
		c.c.pattern = c.text("pattern")
		return str
	case 8:
		c.format = c.text("format")
		return str || num
	case 9:
		if str {
			a, b := sym.Str("enum", 1, "a-c"), sym.Str("enum", 1, "a-c")
			c.add("enum", a+","+b)
			c.c.enum = []any{a, b}
		} else {
			c.add("enum", "1,2")
			c.c.enum = []any{1.0, 2.0}
		}
		return str || t.typ == "integer" && t.t.Kind() != reflect.Ptr
	case 10:
		c.c.maxItems = ptr(c.int("maxItems"))
		return arr
	case 11:
		c.c.minItems = c.int("minItems")
		c.c.unique = c.flag("uniqueItems")
		return arr
	case 12:
		c.c.maxProps, c.c.minProps = ptr(c.int("maxProperties")), c.int("minProperties")
		return obj
	case 13:
		e := &constraint{symbolic: c.symbolic}
		p := "items."
		if obj {
			p = "additionalProperties."
		}
		switch {
		case t.elem == "string" && sym.Choice("element", 2) == 1:
			e.c.pattern = e.text(p + "pattern")
		case t.elem == "string":
			e.c.maxLength = ptr(e.int(p + "maxLength"))
		default:
			e.max = e.num(p + "maximum")
		}
		c.tag += e.tag
		c.items = e
		return arr || obj
	case 14:
		c.nullable = sym.Choice("nullable", 2)
		c.add("nullable", []string{"false", "true"}[c.nullable])
		return true
	case 15:
		switch sym.Choice("annotation", 6) {
		case 0:
			c.title = c.text("title")
		case 1:
			c.desc = c.text("description")
		case 2:
			if str {
				s := sym.Str("default", 1, "a-z")
				c.add("default", s)
				c.def = s
				break
			}
			c.def = c.value("default", t.typ)
			return num || t.typ == "boolean"
		case 3:
			if str {
				s := sym.Str("example", 1, "a-z")
				c.add("example", s)
				c.example = s
				break
			}
			c.example = c.value("example", t.typ)
			return num || t.typ == "boolean"
		case 4:
			c.deprecated = c.flag("deprecated")
		case 5:
			c.ro = c.flag("readOnly")
		}
		return true
	}
	return false
}

// accepts is the meaning of type and tags for instances other than null.
func (c *constraint) accepts(t string, i *inst) bool {
	num := i.kind == kNum
	ok := sym.And(i.isType(t), c.c.accepts(i))
	if c.max != nil {
		ok = sym.And(ok, sym.Implies(num, i.f <= *c.max))
	}
	if c.min != nil {
		ok = sym.And(ok, sym.Implies(num, i.f >= *c.min))
	}
	if c.exMax != nil {
		ok = sym.And(ok, sym.Implies(num, i.f < *c.exMax))
	}
	if c.exMin != nil {
		ok = sym.And(ok, sym.Implies(num, i.f > *c.exMin))
	}
	return ok
}

func sameFlag(got, want *bool) bool {
	if want == nil {
		return got == nil || !*got
	}
	return got != nil && *got == *want || got == nil && !*want
}

func sameText(got, want *string) bool {
	if want == nil {
		return got == nil
	}
	if got == nil {
		return false
	}
	return *got == *want
}

func sameAny(got *any, want any) bool {
	if want == nil {
		return got == nil
	}
	if got == nil {
		return false
	}
	return eqAny(*got, want)
}

func eqAny(a, b any) bool {
	switch b := b.(type) {
	case string:
		a, ok := a.(string)
		if !ok {
			return false
		}
		return a == b
	case bool:
		a, ok := a.(bool)
		return ok && a == b
	case float64:
		switch a := a.(type) {
		case float64:
			return a == b
		case int64:
			return float64(a) == b
		case int:
			return float64(a) == b
		}
	}
	return false
}

// C26_Tags: tags of a field reach its documented schema with their meaning.
func C26_Tags() {
	t := tagTypes[sym.Choice("type", len(tagTypes))]
	ver := []int{3, 31}[sym.Choice("version", 2)]
	c := &constraint{nullable: -1, symbolic: ver == 3}
	a := sym.Choice("first", tagGroups)
	sym.Assume(c.group(a, t))
	place := 0
	if t.typ != "boolean" && sym.Choice("two", 2) == 1 {
		b := sym.Choice("second", tagGroups)
		sym.Assume(b > a && c.group(b, t))
		place = sym.Choice("place", 2) * 5
	} else {
		place = sym.Choice("place", len(tplaces))
	}
	p := tplaces[place]
	d := newDoc(ver)
	name := "f" + sym.Str("name", 1, "a-z")
	path := "/p"
	if p.tag == "path" {
		path += "/{" + name + "}"
	}
	v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: t.t, Tag: reflect.StructTag(p.tag + `:"` + name + `"` + c.tag)}})).Interface()
	oc, err := d.refl().NewOperationContext("post", path)
	sym.Assert(err == nil, "new operation context")
	if p.resp {
		oc.AddRespStructure(v)
	} else {
		oc.AddReqStructure(v)
	}
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	op, ok := d.get("post", path)
	sym.Assert(ok, "operation is found")
	oa, js := p.at(op, name)

	i := instance()
	want := c.accepts(t.typ, i)
	if t.min != nil {
		want = sym.And(want, sym.Implies(i.kind == kNum, i.f >= *t.min))
	}
	if t.elem != "" {
		e := c.items
		if e == nil {
			e = &constraint{}
		}
		el := e.accepts(t.elem, i.elem)
		if t.typ == "array" {
			want = sym.And(want, sym.Implies(sym.Not(i.empty), el))
		} else {
			el = true
			for _, k := range []string{"a", "b", "c"} {
				el = sym.And(el, sym.Implies(i.has[k], e.accepts(t.elem, i.props[k])))
			}
			want = sym.And(want, el)
		}
	}
	format := c.format
	if format == nil && t.format != "" {
		format = &t.format
	}
	var got bool
	notNull := i.kind != kNull
	if oa != nil {
		s := oa.Schema
		sym.Assert(s != nil, "schema of a plain type is no reference")
		sym.Assert(sameText(s.Format, format), "format of field")
		sym.Assert(sameText(s.Title, c.title), "title of field")
		sym.Assert(sameText(s.Description, c.desc), "description of field")
		sym.Assert(sameAny(s.Default, c.def), "default of field")
		sym.Assert(c.example == nil || sameAny(s.Example, c.example), "example of field")
		sym.Assert(sameFlag(s.Deprecated, c.deprecated) && sameFlag(s.ReadOnly, c.ro), "flags of field")
		cp := *s
		cp.Format = nil
		plainItems3(&cp)
		got = acceptOA(&openapi3.SchemaOrRef{Schema: &cp})(i)
	} else {
		var s jsonschema.SchemaOrBool
		sym.Assert(s.FromSimpleMap(js) == nil && s.TypeObject != nil, "schema of field is a JSON schema")
		o := s.TypeObject
		sym.Assert(sameText(o.Format, format), "format of field")
		sym.Assert(sameText(o.Title, c.title), "title of field")
		sym.Assert(sameText(o.Description, c.desc), "description of field")
		sym.Assert(sameAny(o.Default, c.def), "default of field")
		sym.Assert(c.example == nil || len(o.Examples) == 1 && eqAny(o.Examples[0], c.example), "example of field")
		dep, _ := o.ExtraProperties["deprecated"].(bool)
		sym.Assert(c.deprecated == nil || dep == *c.deprecated, "deprecation of field")
		sym.Assert(sameFlag(o.ReadOnly, c.ro), "flags of field")
		o.Format = nil
		plainItemsJS(o)
		got = acceptJS(&s)(i)
	}
	sym.Assert(sym.Implies(notNull, sym.Iff(got, want)), "documented schema of "+t.typ+" accepts what type and tags of the field do")
	sym.Cover("documented")
}

// plainItems3 drops the format of elements, it comes with the type.
func plainItems3(s *openapi3.Schema) {
	if s.Items != nil && s.Items.Schema != nil {
		x := *s.Items.Schema
		x.Format = nil
		s.Items = &openapi3.SchemaOrRef{Schema: &x}
	}
}

func plainItemsJS(s *jsonschema.Schema) {
	if s.Items != nil && s.Items.SchemaOrBool != nil && s.Items.SchemaOrBool.TypeObject != nil {
		s.Items.SchemaOrBool.TypeObject.Format = nil
	}
}

// C26_Agree: the schemas of both versions accept the same instances, null included.
func C26_Agree() {
	t := newTwin()
	k := tagTypes[sym.Choice("type", len(tagTypes))]
	c := &constraint{nullable: -1}
	if a := sym.Choice("tags", tagGroups+1); a < tagGroups {
		sym.Assume(c.group(a, k))
	}
	p := tplaces[sym.Choice("place", len(tplaces))]
	name := "f" + sym.Str("name", 1, "a-z")
	path := "/p"
	if p.tag == "path" {
		path += "/{" + name + "}"
	}
	opt := []string{"", ",omitempty"}[sym.Choice("omitempty", 2)]
	v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: k.t, Tag: reflect.StructTag(p.tag + `:"` + name + opt + `"` + c.tag)}})).Interface()
	ok := t.add("post", path, func(oc openapi.OperationContext) {
		if p.resp {
			oc.AddRespStructure(v)
		} else {
			oc.AddReqStructure(v)
		}
	})
	sym.Assert(ok, "operation is added")
	a, _ := t.a.get("post", path)
	b, _ := t.b.get("post", path)
	oa, _ := p.at(a, name)
	_, js := p.at(b, name)
	var s jsonschema.SchemaOrBool
	sym.Assert(s.FromSimpleMap(js) == nil, "schema of field is a JSON schema")
	i := instance()
	i.format = sym.Str("format", 5, "a-z0-9")
	if !p.resp && p.in != "form" && p.in != "body" {
		// Only pointers make a 3.0 parameter nullable.
		sym.Assume(k.t.Kind() == reflect.Ptr || i.kind != kNull)
	}
	sym.Assert(sym.Iff(acceptOA(oa)(i), acceptJS(&s)(i)), "schemas of both versions accept the same instances")
	x, err := json.Marshal(oa)
	sym.Assert(err == nil && len(x) > 2, "schema is encoded")
	sym.Cover("agree")
}

// attrKind is a type of a parameter with the attributes that come with it.
type attrKind struct {
	t    reflect.Type
	tag  string
	json bool // JSON encoded
	obj  bool
}

type attrObj struct {
	A string `query:"a" header:"a" cookie:"a" path:"a"`
}

type attrDeclared struct {
	A string `json:"a"`
}

var attrKinds = []attrKind{
	{t: reflect.TypeOf("")},
	{t: reflect.TypeOf([]string(nil))},
	{t: reflect.TypeOf([]int(nil)), tag: ` collectionFormat:"json"`, json: true},
	{t: reflect.TypeOf(attrObj{}), obj: true},
	{t: reflect.TypeOf(attrDeclared{}), json: true},
	{t: reflect.TypeOf((*attrDeclared)(nil)), json: true},
}

// C26_Attrs: attributes declared by tags reach the parameter or header.
func C26_Attrs() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	place := []int{0, 1, 2, 3, 7}[sym.Choice("place", 5)]
	p := tplaces[place]
	kind := sym.Choice("kind", len(attrKinds))
	if p.resp {
		sym.Assume(kind < 2)
	}
	k := attrKinds[kind]
	want := map[string]any{}
	tag := k.tag
	name := "f" + sym.Str("name", 1, "a-z")
	if !p.resp {
		want["name"], want["in"] = name, p.in
		if k.obj && p.in == "query" {
			want["style"], want["explode"] = "deepObject", true
		}
	}
	bools := []string{"required", "deprecated", "explode", "allowEmptyValue", "allowReserved"}
	if ver == 31 {
		bools = bools[:3]
	}
	set := func(n int) {
		if n < len(bools) {
			v := sym.Choice(bools[n], 2) == 1
			tag += " " + bools[n] + []string{`:"false"`, `:"true"`}[b2i(v)]
			want[bools[n]] = v
			return
		}
		s := sym.Str("text", 1, "a-z")
		if n == len(bools) {
			tag += ` description:"` + s + `"`
			want["description"] = s
			return
		}
		sym.Assume(ver == 3 && !p.resp)
		tag += ` style:"` + s + `"`
		want["style"] = s
	}
	n := sym.Choice("attribute", 8)
	sym.Assume(n < len(bools)+2)
	set(n)
	if m := sym.Choice("other", 8); m < n {
		set(m)
	}
	if p.tag == "path" {
		want["required"] = true
	}
	path := "/p"
	if p.tag == "path" {
		path += "/{" + name + "}"
	}
	v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: k.t, Tag: reflect.StructTag(p.tag + `:"` + name + `"` + tag)}})).Interface()
	d := newDoc(ver)
	oc, err := d.refl().NewOperationContext("get", path)
	sym.Assert(err == nil, "new operation context")
	if p.resp {
		oc.AddRespStructure(v)
	} else {
		oc.AddReqStructure(v)
	}
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	op, ok := d.get("get", path)
	sym.Assert(ok, "operation is found")
	var e any
	switch o := op.(type) {
	case openapi3.Operation:
		if p.resp {
			e = o.Responses.MapOfResponseOrRefValues["200"].Response.Headers[name].Header
		} else {
			sym.Assert(len(o.Parameters) == 1, "parameter is documented")
			e = o.Parameters[0].Parameter
		}
	case openapi31.Operation:
		if p.resp {
			e = o.Responses.MapOfResponseOrReferenceValues["200"].Response.Headers[name].Header
		} else {
			sym.Assert(len(o.Parameters) == 1, "parameter is documented")
			e = o.Parameters[0].Parameter
		}
	}
	got := opText(e)
	_, hasSchema := got["schema"]
	_, hasContent := got["content"]
	sym.Assert(hasSchema == !k.json && hasContent == k.json, "parameter has a schema, or content if it is JSON encoded")
	delete(got, "schema")
	delete(got, "content")
	if p.resp {
		delete(got, "style") // The only style of headers.
	}
	sym.Assert(reflect.DeepEqual(got, want), "attributes of "+p.tag+" are those declared")
	sym.Cover("attributes")
}

// C26_Root: tags of the blank field reach the schema of the structure.
func C26_Root() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	p := tplaces[4+sym.Choice("place", 3)]
	c := &constraint{nullable: -1}
	n := sym.Choice("attribute", 6)
	var extra *bool
	switch n {
	case 0:
		c.title = c.text("title")
	case 1:
		c.desc = c.text("description")
	case 2:
		c.c.maxProps = ptr(c.int("maxProperties"))
	case 3:
		c.c.minProps = c.int("minProperties")
	case 4:
		c.deprecated = c.flag("deprecated")
	case 5:
		extra = c.flag("additionalProperties")
	}
	req := sym.Choice("required", 2) == 1
	fields := []reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(""), Tag: reflect.StructTag(p.tag + `:"a"` + []string{"", ` required:"true"`}[b2i(req)])},
		{Name: "_", PkgPath: "verif/harness/h", Type: reflect.TypeOf(struct{}{}), Tag: reflect.StructTag(c.tag[1:])},
	}
	if sym.Choice("first", 2) == 1 {
		fields[0], fields[1] = fields[1], fields[0]
	}
	v := reflect.New(reflect.StructOf(fields)).Interface()
	d := newDoc(ver)
	oc, err := d.refl().NewOperationContext("post", "/p")
	sym.Assert(err == nil, "new operation context")
	if p.resp {
		oc.AddRespStructure(v)
	} else {
		oc.AddReqStructure(v)
	}
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	op, ok := d.get("post", "/p")
	sym.Assert(ok, "operation is found")
	oa, js := p.root(op)
	i := instance()
	want := sym.And(sym.And(i.isType("object"), c.c.accepts(i)), sym.Implies(i.kind == kObj, sym.And(sym.Implies(i.has["a"], i.props["a"].isType("string")), sym.Or(!req, i.has["a"]))))
	if extra != nil && !*extra {
		want = sym.And(want, sym.Implies(i.kind == kObj, sym.And(sym.Not(i.has["b"]), sym.Not(i.has["c"]))))
	}
	var got bool
	if oa != nil {
		s := oa.Schema
		sym.Assert(s != nil, "schema of the structure is no reference")
		sym.Assert(sameText(s.Title, c.title) && sameText(s.Description, c.desc), "texts of structure")
		sym.Assert(sameFlag(s.Deprecated, c.deprecated), "deprecation of structure")
		got = acceptOA(oa)(i)
	} else {
		var s jsonschema.SchemaOrBool
		sym.Assert(s.FromSimpleMap(js) == nil && s.TypeObject != nil, "schema of structure is a JSON schema")
		sym.Assert(sameText(s.TypeObject.Title, c.title) && sameText(s.TypeObject.Description, c.desc), "texts of structure")
		dep, _ := s.TypeObject.ExtraProperties["deprecated"].(bool)
		sym.Assert(c.deprecated == nil || dep == *c.deprecated, "deprecation of structure")
		got = acceptJS(&s)(i)
	}
	sym.Assert(sym.Implies(i.kind != kNull, sym.Iff(got, want)), "documented schema accepts what the structure and its tags do")
	sym.Cover("root")
}

// root is the documented schema of the structure.
func (p tplace) root(op any) (*openapi3.SchemaOrRef, map[string]any) {
	ct := ctJSON
	if p.in == "form" {
		ct = ctForm
	}
	switch o := op.(type) {
	case openapi3.Operation:
		if p.resp {
			return o.Responses.MapOfResponseOrRefValues["200"].Response.Content[ct].Schema, nil
		}
		return o.RequestBody.RequestBody.Content[ct].Schema, nil
	case openapi31.Operation:
		if p.resp {
			return nil, o.Responses.MapOfResponseOrReferenceValues["200"].Response.Content[ct].Schema
		}
		return nil, o.RequestBody.RequestBody.Content[ct].Schema
	}
	return nil, nil
}
