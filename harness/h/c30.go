package h

import (
	"encoding/json"
	"reflect"
	"time"

	jsonschema "github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// What the types of this file say about their schema.
var said struct {
	n, m  int64
	f     float64
	s, e  string
	title string
}

type (
	sdPrep   string
	sdExp    struct{ X int }
	sdRaw    struct{ X int }
	sdHidden struct{ x int }
	sdAnyRaw struct{}
	sdEnum   string
	sdNum    int
	sdNamed  string
	sdOne    string
	sdAny    string
	sdAll    struct{ P string }
	sdNot    string
	sdText   struct{ X int }
	sdInline struct {
		A sdPrep `json:"a" query:"a" header:"a" cookie:"a" path:"a" formData:"a"`
	}
	sdRec struct {
		A sdPrep  `json:"a" query:"a" header:"a" cookie:"a" path:"a" formData:"a" required:"true"`
		B *sdEnum `json:"b" query:"b" header:"b" cookie:"b" path:"b" formData:"b"`
	}
	sdMapped     struct{ Y bool }
	sdKept       struct{ Z bool }
	sdAttrs      int
	sdChoice     struct{}
	sdTitled     string
	sdGen[T any] struct {
		A T `json:"a" query:"a" header:"a" cookie:"a" path:"a" formData:"a"`
	}
)

func (sdPrep) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithMinLength(said.n)
	s.WithPattern(said.s)
	return nil
}

func (sdExp) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.AddType(jsonschema.Number)
	s.WithMinimum(said.f)
	return s, nil
}

func (sdHidden) JSONSchema() (jsonschema.Schema, error) { return sdExp{}.JSONSchema() }

func (sdAnyRaw) JSONSchemaBytes() ([]byte, error) {
	return []byte(`{"anyOf":[{"type":"string","pattern":"` + said.s + `"},{"type":"boolean"},{"type":"array","maxItems":2}]}`), nil
}

func (*sdRaw) JSONSchemaBytes() ([]byte, error) {
	return []byte(`{"type":"array","items":{"type":"string","pattern":"` + said.s + `"},"minItems":1,"uniqueItems":true}`), nil
}

func (sdEnum) Enum() []interface{} { return []interface{}{said.s, said.e} }
func (sdNum) Enum() []interface{}  { return []interface{}{1, 2} }
func (sdNamed) NamedEnum() ([]interface{}, []string) {
	return []interface{}{said.s, said.e}, []string{"first", "second"}
}

func (sdOne) JSONSchemaOneOf() []interface{} { return []interface{}{sdPrep(""), sdEnum("")} }
func (sdAny) JSONSchemaAnyOf() []interface{} { return []interface{}{sdPrep(""), sdEnum("")} }
func (sdAll) JSONSchemaAllOf() []interface{} { return []interface{}{sdGen[sdPrep]{}, sdRec{}} }
func (sdNot) JSONSchemaNot() interface{}     { return sdPrep("") }

func (sdText) MarshalText() ([]byte, error) { return nil, nil }
func (*sdText) UnmarshalText([]byte) error  { return nil }

func (sdInline) InlineJSONSchema() {}

func (sdAttrs) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.Type = nil
	s.AddType(jsonschema.String)
	s.WithFormat("f"+said.title).WithDefault("x"+said.title).WithExamples("y"+said.title, "z")
	s.WithDeprecated(true).WithReadOnly(true)
	s.WithExtraPropertiesItem("x-ext", said.title)
	return nil
}

func (sdChoice) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.WithTitle(said.title).WithDescription("d" + said.title)
	s.WithOneOf(jsonschema.String.ToSchemaOrBool(), jsonschema.Integer.ToSchemaOrBool())
	return s, nil
}

func (sdTitled) Title() string       { return said.title }
func (sdTitled) Description() string { return "d" + said.title }

// accepted is the meaning of the types for values other than null.
func accepted(s common, typ string) func(i *inst) bool {
	return func(i *inst) bool { return sym.And(i.isType(typ), s.accepts(i)) }
}

func orNull(f func(i *inst) bool) func(i *inst) bool {
	return func(i *inst) bool { return sym.Or(i.kind == kNull, f(i)) }
}

func (p sdPrep) accepts(i *inst) bool {
	return accepted(common{minLength: said.n, pattern: &said.s}, "string")(i)
}

func (p sdEnum) accepts(i *inst) bool {
	return accepted(common{enum: []any{said.s, said.e}}, "string")(i)
}

func (r sdRec) accepts(i *inst) bool {
	return accepted(common{required: []string{"a"}, props: map[string]func(i *inst) bool{
		"a": sdPrep("").accepts, "b": orNull(sdEnum("").accepts),
	}}, "object")(i)
}

func (r sdInline) accepts(i *inst) bool {
	return accepted(common{props: map[string]func(i *inst) bool{"a": sdPrep("").accepts}}, "object")(i)
}

func everything(*inst) bool { return true }

// sdKind is a type and the values it accepts.
type sdKind struct {
	t       reflect.Type
	accepts func(i *inst) bool
	any     bool
}

var sdKinds = []sdKind{
	{t: reflect.TypeOf(sdPrep("")), accepts: sdPrep("").accepts},
	{t: reflect.TypeOf(sdExp{}), accepts: func(i *inst) bool {
		return sym.And(i.isType("number"), i.f >= said.f)
	}},
	{t: reflect.TypeOf(sdRaw{}), accepts: func(i *inst) bool {
		return accepted(common{minItems: 1, unique: ptr(true), items: accepted(common{pattern: &said.s}, "string")}, "array")(i)
	}},
	{t: reflect.TypeOf(sdEnum("")), accepts: sdEnum("").accepts},
	{t: reflect.TypeOf(sdNum(0)), accepts: accepted(common{enum: []any{1.0, 2.0}}, "integer")},
	{t: reflect.TypeOf(sdNamed("")), accepts: sdEnum("").accepts},
	{t: reflect.TypeOf(sdOne("")), accepts: func(i *inst) bool {
		a, b := sdPrep("").accepts(i), sdEnum("").accepts(i)
		return sym.And(i.isType("string"), sym.And(sym.Or(a, b), sym.Not(sym.And(a, b))))
	}},
	{t: reflect.TypeOf(sdAny("")), accepts: func(i *inst) bool {
		return sym.And(i.isType("string"), sym.Or(sdPrep("").accepts(i), sdEnum("").accepts(i)))
	}},
	{t: reflect.TypeOf(sdAll{}), accepts: func(i *inst) bool { return sym.And(sdInline{}.accepts(i), sdRec{}.accepts(i)) }},
	{t: reflect.TypeOf(sdNot("")), accepts: func(i *inst) bool { return sym.And(i.isType("string"), sym.Not(sdPrep("").accepts(i))) }},
	{t: reflect.TypeOf(sdText{}), accepts: accepted(common{}, "string")},
	{t: reflect.TypeOf(time.Time{}), accepts: accepted(common{format: ptr("date-time")}, "string")},
	{t: reflect.TypeOf(json.RawMessage(nil)), accepts: everything, any: true},
	{t: reflect.TypeOf((*interface{})(nil)).Elem(), accepts: everything, any: true},
	{t: reflect.TypeOf([]sdPrep(nil)), accepts: orNull(accepted(common{items: sdPrep("").accepts}, "array"))},
	{t: reflect.TypeOf(map[string]sdPrep(nil)), accepts: orNull(accepted(common{additional: sdPrep("").accepts}, "object"))},
	{t: reflect.TypeOf((*sdPrep)(nil)), accepts: orNull(sdPrep("").accepts)},
	{t: reflect.TypeOf(sdInline{}), accepts: sdInline{}.accepts},
	{t: reflect.TypeOf(sdRec{}), accepts: sdRec{}.accepts},
	{t: reflect.TypeOf((*sdRec)(nil)), accepts: orNull(sdRec{}.accepts)},
	{t: reflect.TypeOf([]sdRec(nil)), accepts: orNull(accepted(common{items: sdRec{}.accepts}, "array"))},
	{t: reflect.TypeOf(sdGen[sdEnum]{}), accepts: func(i *inst) bool {
		return accepted(common{props: map[string]func(i *inst) bool{"a": sdEnum("").accepts}}, "object")(i)
	}},
	{t: reflect.TypeOf(sdHidden{}), accepts: func(i *inst) bool {
		return sym.And(i.isType("number"), i.f >= said.f)
	}},
	{t: reflect.TypeOf(sdAnyRaw{}), accepts: func(i *inst) bool {
		return sym.Or(accepted(common{pattern: &said.s}, "string")(i), sym.Or(i.isType("boolean"), sym.And(i.isType("array"), i.size <= 2)))
	}},
	{t: reflect.TypeOf(sdMapped{}), accepts: sdPrep("").accepts},
	{t: reflect.TypeOf(sdKept{}), accepts: sdInline{}.accepts},
	{t: reflect.TypeOf(sdTitled("")), accepts: accepted(common{}, "string")},
}

// follow makes references mean what the components of the document say.
func (d *doc) follow() {
	depth := 0
	referred = func(ref string, i *inst) bool {
		const prefix = "#/components/schemas/"
		sym.Assert(len(ref) > len(prefix) && ref[:len(prefix)] == prefix, "reference to a component")
		var c any
		ok := false
		if d.ver == 3 {
			c, ok = d.r3.Spec.Components.Schemas.MapOfSchemaOrRefValues[ref[len(prefix):]]
		} else {
			c, ok = d.r31.Spec.Components.Schemas[ref[len(prefix):]]
		}
		sym.Assert(ok, "component is in the document")
		depth++
		sym.Assert(depth < 10, "references of types without cycles end")
		defer func() { depth-- }()
		return acceptAny(c)(i)
	}
}

// acceptAny is the meaning of a schema of any version.
func acceptAny(s any) func(i *inst) bool {
	switch s := s.(type) {
	case openapi3.SchemaOrRef:
		return acceptOA(&s)
	case *openapi3.SchemaOrRef:
		return acceptOA(s)
	case map[string]any:
		var js jsonschema.SchemaOrBool
		sym.Assert(js.FromSimpleMap(s) == nil, "schema is a JSON schema")
		return acceptJS(&js)
	}
	sym.Assert(false, "schema is documented")
	return nil
}

// places types are used at.
const sdPlaces = 12

// use the type in an operation and return its documented schema.
func (d *doc) use(t reflect.Type, place int, path, name string) any {
	method := "post"
	field := func(tag string) any {
		return reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: reflect.StructTag(tag + `:"` + name + `"`)}})).Interface()
	}
	if place == 3 {
		path += "/{" + name + "}"
	}
	oc, err := d.refl().NewOperationContext(method, path)
	sym.Assert(err == nil, "new operation context")
	p := tplace{}
	switch {
	case place < len(tplaces):
		p = tplaces[place]
		if p.resp {
			oc.AddRespStructure(field(p.tag))
		} else {
			oc.AddReqStructure(field(p.tag))
		}
	case place == 8: // the response itself
		oc.AddRespStructure(reflect.Zero(t).Interface())
	case place == 9: // list as a response
		oc.AddRespStructure(reflect.MakeSlice(reflect.SliceOf(t), 0, 0).Interface())
	case place == 10: // map as a request
		oc.AddReqStructure(reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t)).Interface())
	case place == 11: // below a structure of a form
		oc.AddReqStructure(reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Tag: `form:"f"`, Type: reflect.SliceOf(t)}})).Interface())
		name = "f"
	}
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	op, ok := d.get(method, path)
	sym.Assert(ok, "operation is found")
	var s any
	switch {
	case place < 4:
		switch o := op.(type) {
		case openapi3.Operation:
			sym.Assert(len(o.Parameters) == 1 && o.Parameters[0].Parameter != nil, "parameter is documented")
			q := o.Parameters[0].Parameter
			if q.Schema != nil {
				s = q.Schema
			} else if c, ok := q.Content[ctJSON]; ok {
				s = c.Schema
			}
		case openapi31.Operation:
			sym.Assert(len(o.Parameters) == 1 && o.Parameters[0].Parameter != nil, "parameter is documented")
			q := o.Parameters[0].Parameter
			if q.Schema != nil {
				s = q.Schema
			} else if c, ok := q.Content[ctJSON]; ok {
				s = c.Schema
			}
		}
		return s
	case place < 8:
		oa, js := p.at(op, name)
		if oa != nil {
			return oa
		}
		return js
	case place == 11:
		oa, js := tplaces[4].at(op, name)
		if oa != nil {
			return oa
		}
		return js
	}
	if place == 10 {
		p = tplaces[5]
	} else {
		p = tplaces[6]
	}
	oa, js := p.root(op)
	if oa != nil {
		return oa
	}
	return js
}

// value is a JSON value other than null, with values other than null in it.
func value(t reflect.Type) *inst {
	scalar := func(max int64) *inst {
		i := &inst{kind: sym.Int("kind", 1, max), s: sym.Str("text", 1, "a-c"), size: sym.Int("size", 0, 1<<40), pattern: sym.Str("pattern", 1, "a-c"), unique: sym.Bool("unique")}
		if t == reflect.TypeOf(time.Time{}) {
			i.format = sym.Str("format", 9, "\\-a-z")
		}
		if t == reflect.TypeOf(sdExp{}) || t == reflect.TypeOf(sdHidden{}) || t == reflect.TypeOf(sdNum(0)) {
			i.f, i.whole = sym.Float("num"), sym.Bool("whole")
		}
		return i
	}
	i := scalar(kObj)
	i.empty = sym.Bool("empty")
	i.elem = scalar(kObj)
	i.elem.empty = sym.Bool("empty")
	i.elem.elem = scalar(kStr)
	sub := func(i *inst, max int64) {
		i.has, i.props = map[string]bool{}, map[string]*inst{}
		for _, k := range []string{"a", "b"} {
			i.has[k], i.props[k] = sym.Bool("has"), scalar(max)
		}
	}
	sub(i.elem, kStr)
	sub(i, kObj)
	i.has["c"] = false
	p := i.props["a"]
	p.elem = scalar(kStr)
	sub(p, kStr)
	sym.Assume(i.props["b"].kind <= kStr)
	return i
}

// speak chooses what the types say.
func (d *doc) speak(minima bool) {
	said.s, said.e = sym.Str("pattern", 1, "a-c"), sym.Str("enum", 1, "a-c")
	said.title = sym.Str("title", 1, "a-z")
	said.f, said.n = 1.5, 3
	if minima {
		said.f = []float64{1.5, 0, -7}[sym.Choice("minimum", 3)]
		said.n = []int64{3, 0}[sym.Choice("minLength", 2)]
	}
	if d.ver == 3 {
		said.n = sym.Int("minLength", 0, 9)
	}
	r := d.refl().JSONSchemaReflector()
	r.AddTypeMapping(sdMapped{}, sdPrep(""))
	r.AddTypeMapping(sdKept{}, sdInline{})
}

// means tells that the documented schema accepts what the type does.
func (d *doc) means(s any, k sdKind, place int) {
	d.follow()
	i := value(k.t)
	want, got := k.accepts, acceptAny(s)
	switch place {
	case 9, 11:
		want = accepted(common{items: k.accepts}, "array")
	case 10:
		want = accepted(common{additional: k.accepts}, "object")
	}
	sym.Assert(sym.Iff(got(i), want(i)), "documented schema of "+k.t.String()+" accepts what the type says")
	sym.Cover("documented")
}

// C30_Types: what a type says about its schema is documented wherever the type is used.
func C30_Types() {
	k := sdKinds[sym.Choice("type", len(sdKinds))]
	place := sym.Choice("place", sdPlaces)
	sym.Assume(place != 8 || !k.any) // No content for a response that may be anything.
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	d.speak(true)
	d.means(d.use(k.t, place, "/p", "f"+sym.Str("name", 1, "a-z")), k, place)
}

// C30_Twice: a type that is used at two places is documented at both.
func C30_Twice() {
	a, p := sym.Choice("type", len(sdKinds)), sym.Choice("place", sdPlaces)
	b, q := a, 4+(a+5*p)%8
	if sym.Tier() > 0 {
		q = sym.Choice("other place", sdPlaces)
	}
	if sym.Choice("other type", 2) == 1 {
		b = (a + 1 + p) % len(sdKinds)
	}
	k, l := sdKinds[a], sdKinds[b]
	sym.Assume((p != 8 || !k.any) && (q != 8 || !l.any))
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	d.speak(false)
	s := d.use(k.t, p, "/p", "f")
	t := d.use(l.t, q, "/q", "g")
	if sym.Choice("which", 2) == 0 {
		d.means(s, k, p)
	} else {
		d.means(t, l, q)
	}
}

// C30_Texts: texts, names of enumerated values and attributes that a type tells are documented, in the parameter or
// header too.
func C30_Texts() {
	what := sym.Choice("what", 4)
	t := []reflect.Type{reflect.TypeOf(sdTitled("")), reflect.TypeOf(sdNamed("")), reflect.TypeOf(sdAttrs(0)), reflect.TypeOf(sdChoice{})}[what]
	place := sym.Choice("place", sdPlaces)
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	d.speak(false)
	m, _ := generic(d.use(t, place, "/p", "f")).(map[string]any)
	op, _ := d.get("post", map[bool]string{true: "/p/{f}", false: "/p"}[place == 3])
	carrier, _ := generic(op).(map[string]any)
	carried := place < 4 || place == 7
	switch {
	case place < 4:
		carrier, _ = carrier["parameters"].([]any)[0].(map[string]any)
	case place == 7:
		carrier, _ = dig(carrier, "responses", "200", "headers", "f")
	case place == 8:
		carrier, carried = nil, false
		if what%3 == 0 {
			carrier, _ = generic(op).(map[string]any)
			r, _ := dig(carrier, "responses", "200")
			sym.Assert(r["description"] == any("d"+said.title), "response is described by its type")
		}
	}
	switch place {
	case 9, 11:
		m, _ = m["items"].(map[string]any)
	case 10:
		m, _ = m["additionalProperties"].(map[string]any)
	}
	if ref, ok := m["$ref"].(string); ok {
		m, _ = d.comps()[ref[len("#/components/schemas/"):]].(map[string]any)
	}
	switch what {
	case 0, 3:
		x, _ := m["title"].(string)
		y, _ := m["description"].(string)
		sym.Assert(x == said.title && y == "d"+said.title, "texts of a type are documented")
		if carried && what == 0 { // Schemas of components have descriptions of their own.
			y, _ = carrier["description"].(string)
			sym.Assert(y == "d"+said.title, "parameter is described by its type")
		}
		sym.Cover("title")
	case 1:
		l, _ := m["x-enum-names"].([]any)
		sym.Assert(len(l) == 2 && l[0] == "first" && l[1] == "second", "names of enumerated values are documented")
		sym.Cover("names")
	case 2:
		sym.Assert(m["format"] == any("f"+said.title), "format is documented")
		sym.Assert(m["x-ext"] == any(said.title), "extension is documented")
		sym.Assert(m["default"] == any("x"+said.title), "default is documented")
		sym.Assert(m["deprecated"] == true && m["readOnly"] == true, "flags are documented")
		if l, ok := m["examples"].([]any); ok || d.ver != 3 {
			sym.Assert(len(l) == 2 && l[0] == any("y"+said.title) && l[1] == any("z"), "examples are documented")
		} else {
			sym.Assert(m["example"] == any("y"+said.title), "example is documented")
		}
		if place == 7 {
			sym.Assert(carrier["deprecated"] == true, "header of a deprecated type is deprecated")
		}
		sym.Cover("attributes")
	}
}

// C30_Null: null is accepted for lists and maps, pointers to types without component, and for what may be anything.
func C30_Null() {
	k := sdKinds[sym.Choice("type", len(sdKinds))]
	place := 4 + sym.Choice("place", 3)
	sym.Assume(k.t != reflect.TypeOf(sdRaw{}))
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	d.speak(false)
	s := d.use(k.t, place, "/p", "f")
	d.follow()
	want := k.any || k.t == reflect.TypeOf((*sdPrep)(nil)) || k.t.Kind() == reflect.Slice || k.t.Kind() == reflect.Map
	sym.Assert(acceptAny(s)(&inst{kind: kNull}) == want, "null of "+k.t.String())
	sym.Cover("null")
}

type (
	sdInt32   int32
	sdFloat32 float32
)

// C30_Kinds: types and formats of Go types are documented at every place.
func C30_Kinds() {
	kinds := []struct {
		t           reflect.Type
		typ, format string
		unsigned    bool
	}{
		{reflect.TypeOf(int(0)), "integer", "", false},
		{reflect.TypeOf(int8(0)), "integer", "", false},
		{reflect.TypeOf(int16(0)), "integer", "", false},
		{reflect.TypeOf(int32(0)), "integer", "int32", false},
		{reflect.TypeOf(int64(0)), "integer", "int64", false},
		{reflect.TypeOf(uint(0)), "integer", "", true},
		{reflect.TypeOf(uint8(0)), "integer", "", true},
		{reflect.TypeOf(uint32(0)), "integer", "", true},
		{reflect.TypeOf(uint64(0)), "integer", "", true},
		{reflect.TypeOf(float32(0)), "number", "float", false},
		{reflect.TypeOf(float64(0)), "number", "double", false},
		{reflect.TypeOf(""), "string", "", false},
		{reflect.TypeOf(false), "boolean", "", false},
		{reflect.TypeOf(sdInt32(0)), "integer", "int32", false},
		{reflect.TypeOf(sdFloat32(0)), "number", "float", false},
	}
	k := kinds[sym.Choice("kind", len(kinds))]
	place := sym.Choice("place", sdPlaces)
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	t := k.t
	deep := sym.Choice("deep", 3)
	sym.Assume(t.Kind() != reflect.Uint8 || deep != 2 && place != 9 && place != 11) // Bytes are a string.
	switch deep {
	case 1:
		t = reflect.PtrTo(t)
	case 2:
		t = reflect.SliceOf(t)
	}
	m, _ := generic(d.use(t, place, "/p", "f")).(map[string]any)
	follow := func() {
		if ref, ok := m["$ref"].(string); ok {
			m, _ = d.comps()[ref[len("#/components/schemas/"):]].(map[string]any)
		}
	}
	inside := func(key string) {
		m, _ = m[key].(map[string]any)
		follow()
	}
	follow()
	switch place {
	case 9, 11:
		inside("items")
	case 10:
		inside("additionalProperties")
	}
	if deep == 2 {
		sym.Assert(typeName(m["type"]) == "array", "list is documented as an array")
		inside("items")
	}
	sym.Assert(typeName(m["type"]) == k.typ, "type of "+k.t.String())
	format, _ := m["format"].(string)
	sym.Assert(format == k.format || deep == 1 && format == "", "format of "+k.t.String())
	min, ok := m["minimum"]
	sym.Assert(ok == k.unsigned, "minimum of "+k.t.String())
	sym.Assert(!ok || min == any(0.0), "minimum is zero")
	sym.Cover("kind")
}
