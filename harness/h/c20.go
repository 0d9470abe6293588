package h

import (
	"encoding/json"
	"reflect"
	"strings"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"

	m1 "verif/harness/h/p1/model"
	m2 "verif/harness/h/p2/model"
	"verif/harness/sym"
)

// Named types whose schemas become components.
type (
	refA struct {
		PA string `json:"pa" query:"qa" formData:"fa"`
	}
	refB struct {
		A  refA            `json:"a"`
		As []refA          `json:"as"`
		M  map[string]refA `json:"m"`
		J  refJ            `json:"j"`
	}
	refJ struct {
		J string `json:"jj"`
	}
	refRec struct {
		Next *refRec  `json:"next"`
		All  []refRec `json:"all"`
		V    int      `json:"v"`
	}
	refMut1 struct {
		M2 *refMut2 `json:"m2"`
	}
	refMut2 struct {
		M1 map[string]refMut1 `json:"m1"`
		F  string             `json:"f" form:"ff"`
	}
	refGen[T any] struct {
		G T `json:"g"`
	}
	refGenstring struct {
		GS string `json:"gs"`
	}
	refForm struct {
		F string   `formData:"f"`
		N refFormN `formData:"n"`
	}
	refFormN struct {
		X string `form:"x" json:"jx"`
		J refJ   `formData:"fj" json:"jj"`
	}
	refQuery struct {
		Q string    `query:"q"`
		N *refQuery `query:"n"`
	}
	refList []refJ
	refMap  map[string]refB
	refStr  string
	refEmb  struct {
		refJ
		X refList `json:"x"`
	}
)

func localType1() reflect.Type {
	type refLocal struct {
		L1 string `json:"l1"`
	}
	return reflect.TypeOf(refLocal{})
}

func localType2() reflect.Type {
	type refLocal struct {
		L2 int `json:"l2"`
	}
	return reflect.TypeOf(refLocal{})
}

// Enum makes the schema of refStr non-trivial.
func (refStr) Enum() []interface{} { return []interface{}{"x", "y"} }

// refTypes are named types and whether they may be used in JSON, form and query.
var refTypes = []struct {
	t   reflect.Type
	use string
}{
	{reflect.TypeOf(refA{}), "jf"},
	{reflect.TypeOf(refB{}), "jfc"},
	{reflect.TypeOf(refRec{}), "jfc"},
	{reflect.TypeOf(refMut1{}), "jfc"},
	{reflect.TypeOf(refMut2{}), "jfc"},
	{reflect.TypeOf(refGen[string]{}), "jfc"},
	{reflect.TypeOf(refGen[refJ]{}), "j"},
	{reflect.TypeOf(refGen[refGen[refJ]]{}), "j"},
	{reflect.TypeOf(refGenstring{}), "jfc"},
	{reflect.TypeOf(m1.Item{}), "jfc"},
	{reflect.TypeOf(m2.Item{}), "jfc"},
	{reflect.TypeOf(m1.ItemType2{}), "jfc"},
	{localType1(), "j"},
	{localType2(), "j"},
	{reflect.TypeOf(refForm{}), "f"},
	{reflect.TypeOf(refFormN{}), "jf"},
	{reflect.TypeOf(refQuery{}), "q"},
	{reflect.TypeOf(refList(nil)), "j"},
	{reflect.TypeOf(refMap(nil)), "j"},
	{reflect.TypeOf(refStr("")), "jfq"},
	{reflect.TypeOf(refEmb{}), "j"},
}

// comps are the component schemas in generic form.
func (d *doc) comps() map[string]any {
	out := map[string]any{}
	if d.ver == 3 {
		if d.r3.Spec.Components == nil || d.r3.Spec.Components.Schemas == nil {
			return out
		}
		for n, s := range d.r3.Spec.Components.Schemas.MapOfSchemaOrRefValues {
			out[n] = generic(s)
		}
		return out
	}
	if d.r31.Spec.Components == nil {
		return out
	}
	for n, s := range d.r31.Spec.Components.Schemas {
		out[n] = generic(s)
	}
	return out
}

func generic(v any) any {
	b, err := json.Marshal(v)
	sym.Assert(err == nil, "schema is encoded")
	var out any
	sym.Assert(json.Unmarshal(b, &out) == nil, "schema is decoded")
	return out
}

// refsIn collects all references of a generic value.
func refsIn(v any, f func(ref string)) {
	switch v := v.(type) {
	case map[string]any:
		if r, ok := v["$ref"].(string); ok {
			f(r)
		}
		for _, x := range v {
			refsIn(x, f)
		}
	case []any:
		for _, x := range v {
			refsIn(x, f)
		}
	}
}

// shapes compares component schemas with types.
type shapes struct {
	comps map[string]any
	types map[string]reflect.Type // component to type
	seen  map[string]bool
	soft  bool // record failures instead of stating assertions
	bad   bool
}

var (
	encJSON  = []string{"json"}
	encForm  = []string{"formData", "form"}
	encQuery = []string{"query", "form"}
	// Header fields have no json tags considered.
	encHeader = []string{"header"}
)

// fieldName is the documented name of a field.
func fieldName(f reflect.StructField, enc []string) string {
	for _, t := range enc {
		if n := f.Tag.Get(t); n != "" && n != "-" {
			return strings.Split(n, ",")[0]
		}
	}
	return ""
}

func addProps(t reflect.Type, enc []string, out map[string]reflect.Type) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous {
			addProps(f.Type, enc, out)
			continue
		}
		if n := fieldName(f, enc); n != "" {
			out[n] = f.Type
		}
	}
}

// assert states a condition, or just records its failure.
func (s *shapes) assert(c bool, msg string) bool {
	if s.soft {
		s.bad = s.bad || !c
		return c
	}
	sym.Assert(c, msg)
	return true
}

// check compares a schema with a type in the given encoding.
func (s *shapes) check(v any, t reflect.Type, enc []string, what string) {
	m, ok := v.(map[string]any)
	if !s.assert(ok, what+": is a schema object") {
		return
	}
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if r, ok := m["$ref"].(string); ok {
		name := strings.TrimPrefix(r, compPrefix)
		if !s.assert(name != r, what+": reference to a component schema") {
			return
		}
		c, found := s.comps[name]
		if !s.assert(found, what+": reference resolves") {
			return
		}
		if !s.assert(t.Name() != "", what+": components are for named types") {
			return
		}
		if o, ok := s.types[name]; ok {
			if !s.assert(o == t, what+": distinct types have distinct components") {
				return
			}
		}
		s.types[name] = t
		key := name + " " + enc[0]
		if s.seen[key] {
			return
		}
		s.seen[key] = true
		sym.Cover("component")
		m, ok = c.(map[string]any)
		if !s.assert(ok && m["$ref"] == nil, what+": component is a schema object") {
			return
		}
	}
	typ := typeName(m["type"])
	switch t.Kind() {
	case reflect.Struct:
		if !s.assert(typ == "object", what+": type of a structure") {
			return
		}
		want := map[string]reflect.Type{}
		addProps(t, enc, want)
		props, _ := m["properties"].(map[string]any)
		if !s.assert(len(props) == len(want), what+": number of properties") {
			return
		}
		for n, ft := range want {
			p, ok := props[n]
			if !s.assert(ok, what+": property is present") {
				return
			}
			s.check(p, ft, enc, what)
		}
	case reflect.Slice:
		if !s.assert(typ == "array", what+": type of a list") {
			return
		}
		s.check(m["items"], t.Elem(), enc, what)
	case reflect.Map:
		if !s.assert(typ == "object", what+": type of a map") {
			return
		}
		s.check(m["additionalProperties"], t.Elem(), enc, what)
	case reflect.String:
		if !s.assert(typ == "string", what+": type of a string") {
			return
		}
	case reflect.Int:
		if !s.assert(typ == "integer", what+": type of an integer") {
			return
		}
	case reflect.Bool:
		if !s.assert(typ == "boolean", what+": type of a boolean") {
			return
		}
	default:
		panic("unexpected kind")
	}
}

// use is one declared type and the place it is documented at.
type use struct {
	place  int
	t      reflect.Type
	method string
	path   string
	field  string
}

const (
	atJSON = iota
	atResp
	atForm
	atQuery
	atContent
	atRootJSON
	atRootResp
	atRootForm
	atHeader
	nPlaces
)

// allowed tells if a type can be used at a place.
func (u use) allowed(uses string) bool {
	st := u.t.Kind() == reflect.Struct
	switch u.place {
	case atJSON, atResp:
		return strings.Contains(uses, "j")
	case atRootResp:
		return strings.Contains(uses, "j") && st
	case atRootJSON:
		// Form fields take precedence.
		n := map[string]reflect.Type{}
		if st {
			addProps(u.t, encForm, n)
		}
		return strings.Contains(uses, "j") && st && len(n) == 0
	case atForm:
		return strings.Contains(uses, "f")
	case atRootForm:
		n := map[string]reflect.Type{}
		if st {
			addProps(u.t, encForm, n)
		}
		return strings.Contains(uses, "f") && len(n) > 0
	case atQuery:
		return strings.Contains(uses, "q")
	case atHeader:
		return true
	}
	return strings.Contains(uses, "c")
}

func (u use) declare(oc openapi.OperationContext) {
	wrap := func(tag string) any {
		return reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: u.t, Tag: reflect.StructTag(tag + `:"` + u.field + `"`)}})).Interface()
	}
	root := reflect.New(u.t).Interface()
	switch u.place {
	case atJSON:
		oc.AddReqStructure(wrap("json"))
	case atResp:
		oc.AddRespStructure(wrap("json"))
	case atHeader:
		oc.AddRespStructure(wrap("header"))
	case atForm:
		oc.AddReqStructure(wrap("formData"))
	case atQuery, atContent:
		oc.AddReqStructure(wrap("query"))
	case atRootJSON, atRootForm:
		oc.AddReqStructure(root)
	case atRootResp:
		oc.AddRespStructure(root)
	}
}

// find is the documented schema of the use, or nil.
func (u use) find(d *doc) any {
	op, ok := d.get(u.method, u.path)
	sym.Assert(ok, "operation is found")
	m, _ := generic(op).(map[string]any)
	get := func(v any, keys ...string) any {
		for _, k := range keys {
			o, ok := v.(map[string]any)
			sym.Assert(ok, "place is documented")
			v = o[k]
		}
		return v
	}
	prop := func(v any) any { return get(v, "properties", u.field) }
	switch u.place {
	case atJSON:
		return prop(get(m, "requestBody", "content", ctJSON, "schema"))
	case atRootJSON:
		return get(m, "requestBody", "content", ctJSON, "schema")
	case atForm:
		return prop(get(m, "requestBody", "content", ctForm, "schema"))
	case atRootForm:
		return get(m, "requestBody", "content", ctForm, "schema")
	case atResp:
		return prop(get(m, "responses", "200", "content", ctJSON, "schema"))
	case atRootResp:
		return get(m, "responses", "200", "content", ctJSON, "schema")
	case atHeader:
		return get(m, "responses", "200", "headers", u.field, "schema")
	}
	ps, _ := m["parameters"].([]any)
	sym.Assert(len(ps) == 1, "parameter is documented")
	if u.place == atContent {
		return get(ps[0], "content", ctJSON, "schema")
	}
	return get(ps[0], "schema")
}

func (u use) enc() []string {
	switch u.place {
	case atForm, atRootForm:
		return encForm
	case atQuery:
		return encQuery
	case atHeader:
		return encHeader
	}
	return encJSON
}

func validName(n string) bool {
	ok := n != ""
	for i := 0; i < len(n); i++ {
		c := n[i]
		ok = ok && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-')
	}
	return ok
}

// checkRefs checks the whole document.
func checkRefs(d *doc) {
	comps := d.comps()
	var spec any
	if d.ver == 3 {
		spec = d.r3.Spec
	} else {
		spec = d.r31.Spec
	}
	refsIn(generic(spec), func(ref string) {
		sym.Assert(strings.HasPrefix(ref, compPrefix), "reference points to component schemas")
		_, ok := comps[strings.TrimPrefix(ref, compPrefix)]
		sym.Assert(ok, "reference resolves")
	})
	for n := range comps {
		sym.Assert(validName(n), "component name has allowed characters only")
	}
}

func addUses(d *doc, us []use) {
	for i := range us {
		before := d.comps()
		oc, err := d.refl().NewOperationContext(us[i].method, us[i].path)
		sym.Assert(err == nil, "operation context is created")
		us[i].declare(oc)
		sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
		after := d.comps()
		for n, c := range before {
			a, ok := after[n]
			sym.Assert(ok && snap(a) == snap(c), "earlier components are kept")
		}
	}
}

func checkUses(d *doc, us []use) {
	checkRefs(d)
	s := &shapes{comps: d.comps(), types: map[string]reflect.Type{}, seen: map[string]bool{}}
	for _, u := range us {
		s.check(u.find(d), u.t, u.enc(), []string{"json", "response", "form", "query", "content", "json root", "response root", "form root", "header"}[u.place])
	}
}

func anyUse(i int) use {
	k := sym.Choice("type", len(refTypes))
	u := use{t: refTypes[k].t, place: sym.Choice("place", nPlaces), method: "post", path: "/a" + string(rune('0'+i)), field: "w"}
	sym.Assume(u.allowed(refTypes[k].use))
	return u
}

// C20_Pair documents two types after one another.
func C20_Pair() {
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	us := []use{anyUse(0), anyUse(1)}
	addUses(d, us)
	checkUses(d, us)
}

// C20_Single documents one type at a place with an arbitrary name.
func C20_Single() {
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	u := anyUse(0)
	u.field = sym.Str("field", 2, "a-zA-Z_")
	addUses(d, []use{u})
	checkUses(d, []use{u})
}

// C20_Registered keeps a component that was put into the document before.
func C20_Registered() {
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	u := anyUse(0)
	// Find the name of a component first.
	t := newDoc(d.ver)
	addUses(t, []use{u})
	var names []string
	for n := range t.comps() {
		names = append(names, n)
	}
	sortStrings(names)
	if len(names) == 0 {
		return
	}
	name := names[sym.Choice("component", len(names))]
	title, members := sym.Str("title", 2, plain), 1
	s3, s31 := (&openapi3.Schema{}).WithTitle(title), map[string]interface{}{"title": title}
	if sym.Choice("empty", 2) == 1 {
		title, members, s3, s31 = "", 0, &openapi3.Schema{}, map[string]interface{}{}
	}
	if d.ver == 3 {
		d.r3.Spec.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem(name, openapi3.SchemaOrRef{Schema: s3})
	} else {
		d.r31.Spec.ComponentsEns().WithSchemasItem(name, s31)
	}
	addUses(d, []use{u})
	checkRefs(d)
	c, _ := d.comps()[name].(map[string]any)
	got, _ := c["title"].(string)
	sym.Assert(len(c) == members && got == title, "registered component is kept")
	sym.Cover("kept")
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// C20_Encodings documents a type in several encodings that give it different properties.
func C20_Encodings() {
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	cases := []struct {
		t      reflect.Type
		places [2]int
		msg    string
	}{
		{reflect.TypeOf(refA{}), [2]int{atQuery, atJSON}, "component of a type with query and json tags has the properties of the place that refers to it"},
		{reflect.TypeOf(refList(nil)), [2]int{atForm, atJSON}, "component of a named list has items encoded like the place that refers to it"},
	}
	c := cases[sym.Choice("case", len(cases))]
	swap := sym.Choice("swap", 2)
	us := []use{
		{t: c.t, place: c.places[swap], method: "post", path: "/a0", field: "w"},
		{t: c.t, place: c.places[1-swap], method: "post", path: "/a1", field: "w"},
	}
	addUses(d, us)
	checkRefs(d)
	s := &shapes{comps: d.comps(), types: map[string]reflect.Type{}, seen: map[string]bool{}, soft: true}
	for _, u := range us {
		s.check(u.find(d), u.t, u.enc(), "")
	}
	sym.Assert(!s.bad, c.msg)
}
