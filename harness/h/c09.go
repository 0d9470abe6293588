package h

import (
	"reflect"

	jsonschema "github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/openapi3"

	"verif/harness/sym"
)

// inst is an arbitrary JSON value a schema accepts or rejects. Keywords that a
// conversion has to carry over as they are (pattern, format, multipleOf,
// uniqueItems, $ref) are given a meaning that tells all their values apart:
// the instance satisfies exactly the keyword value in its tag.
type inst struct {
	kind  int64 // null, bool, number, string, array, object
	whole bool
	f     float64
	s     string
	size  int64 // length, number of items or properties
	elem  *inst // an element of the array
	has   map[string]bool
	props map[string]*inst

	pattern, format, ref string
	multiple             float64
	unique, empty        bool
}

const (
	kNull int64 = iota
	kBool
	kNum
	kStr
	kArr
	kObj
)

func scalar(kinds int64) *inst {
	return &inst{
		kind: sym.Int("kind", 0, kinds-1), f: sym.Float("num"), whole: sym.Bool("whole"), multiple: sym.Float("multiple"),
		s: sym.Str("text", 1, "a-c"), size: sym.Int("size", 0, 1<<40), pattern: sym.Str("pattern", 1, "a-z"),
		unique: sym.Bool("unique"), format: sym.Str("format", 1, "a-z"), ref: sym.Str("ref", 1, "a-z"),
	}
}

func instance() *inst {
	i := scalar(6)
	i.elem = scalar(4)
	i.empty = sym.Bool("empty")
	i.has, i.props = map[string]bool{}, map[string]*inst{}
	for _, k := range []string{"a", "b", "c"} {
		i.has[k] = sym.Bool("has")
		i.props[k] = scalar(4)
	}
	return i
}

func (i *inst) isType(t string) bool {
	switch t {
	case "null":
		return i.kind == kNull
	case "boolean":
		return i.kind == kBool
	case "number":
		return i.kind == kNum
	case "integer":
		return sym.And(i.kind == kNum, i.whole)
	case "string":
		return i.kind == kStr
	case "array":
		return i.kind == kArr
	case "object":
		return i.kind == kObj
	}
	return false
}

func (i *inst) equals(v any) bool {
	switch v := v.(type) {
	case nil:
		return i.kind == kNull
	case string:
		return sym.And(i.kind == kStr, i.s == v)
	case float64:
		return sym.And(i.kind == kNum, i.f == v)
	case int:
		return sym.And(i.kind == kNum, i.f == float64(v))
	case int64:
		return sym.And(i.kind == kNum, i.f == float64(v))
	case uint64:
		return sym.And(i.kind == kNum, i.f == float64(v))
	}
	return false
}

// common are the keywords both dialects share.
type common struct {
	multipleOf                    *float64
	maxLength, maxItems, maxProps *int64
	minLength, minItems, minProps int64
	pattern, format               *string
	unique                        *bool
	required                      []string
	enum                          []any
	not                           func(i *inst) bool
	allOf, anyOf, oneOf           []func(i *inst) bool
	items, additional             func(i *inst) bool
	props                         map[string]func(i *inst) bool
}

func (c *common) accepts(i *inst) bool {
	ok := true
	and := func(b bool) { ok = sym.And(ok, b) }
	if c.format != nil {
		and(*c.format == i.format)
	}
	if len(c.enum) > 0 {
		in := false
		for _, v := range c.enum {
			in = sym.Or(in, i.equals(v))
		}
		and(in)
	}
	if c.multipleOf != nil {
		and(sym.Implies(i.kind == kNum, *c.multipleOf == i.multiple))
	}
	str, arr, obj := i.kind == kStr, i.kind == kArr, i.kind == kObj
	if c.maxLength != nil {
		and(sym.Implies(str, i.size <= *c.maxLength))
	}
	and(sym.Implies(str, i.size >= c.minLength))
	if c.pattern != nil {
		and(sym.Implies(str, *c.pattern == i.pattern))
	}
	if c.maxItems != nil {
		and(sym.Implies(arr, i.size <= *c.maxItems))
	}
	and(sym.Implies(arr, i.size >= c.minItems))
	if c.unique != nil {
		and(sym.Implies(sym.And(arr, *c.unique), i.unique))
	}
	if c.items != nil && i.elem != nil {
		and(sym.Implies(sym.And(arr, sym.Not(i.empty)), c.items(i.elem)))
	}
	if c.maxProps != nil {
		and(sym.Implies(obj, i.size <= *c.maxProps))
	}
	and(sym.Implies(obj, i.size >= c.minProps))
	for _, r := range c.required {
		and(sym.Implies(obj, i.has[r]))
	}
	for _, k := range []string{"a", "b", "c"} {
		x := i.props[k]
		if x == nil {
			continue
		}
		if p := c.props[k]; p != nil {
			and(sym.Implies(sym.And(obj, i.has[k]), p(x)))
		} else if c.additional != nil {
			and(sym.Implies(sym.And(obj, i.has[k]), c.additional(x)))
		}
	}
	if c.not != nil {
		and(sym.Not(c.not(i)))
	}
	for _, s := range c.allOf {
		and(s(i))
	}
	if len(c.anyOf) > 0 {
		any := false
		for _, s := range c.anyOf {
			any = sym.Or(any, s(i))
		}
		and(any)
	}
	if len(c.oneOf) > 0 {
		one, more := false, false
		for _, s := range c.oneOf {
			x := s(i)
			more = sym.Or(more, sym.And(one, x))
			one = sym.Or(one, x)
		}
		and(sym.And(one, sym.Not(more)))
	}
	return ok
}

// referred is the meaning of references, if it is not opaque.
var referred func(ref string, i *inst) bool

func acceptJS(s *jsonschema.SchemaOrBool) func(i *inst) bool {
	if s == nil {
		return nil
	}
	return func(i *inst) bool {
		if s.TypeBoolean != nil {
			return *s.TypeBoolean
		}
		o := s.TypeObject
		if o == nil {
			return true
		}
		if o.Ref != nil {
			if referred != nil {
				return referred(*o.Ref, i)
			}
			return *o.Ref == i.ref
		}
		c := common{
			multipleOf: o.MultipleOf, maxLength: o.MaxLength, maxItems: o.MaxItems, maxProps: o.MaxProperties,
			minLength: o.MinLength, minItems: o.MinItems, minProps: o.MinProperties, pattern: o.Pattern, format: o.Format,
			unique: o.UniqueItems, required: o.Required, enum: o.Enum, not: acceptJS(o.Not), additional: acceptJS(o.AdditionalProperties),
			props: map[string]func(i *inst) bool{},
		}
		if o.Items != nil {
			c.items = acceptJS(o.Items.SchemaOrBool)
		}
		for k, p := range o.Properties {
			p := p
			c.props[k] = acceptJS(&p)
		}
		c.allOf, c.anyOf, c.oneOf = acceptAllJS(o.AllOf), acceptAllJS(o.AnyOf), acceptAllJS(o.OneOf)
		ok := c.accepts(i)
		if o.Type != nil {
			in := false
			if o.Type.SimpleTypes != nil {
				in = i.isType(string(*o.Type.SimpleTypes))
			}
			for _, t := range o.Type.SliceOfSimpleTypeValues {
				in = sym.Or(in, i.isType(string(t)))
			}
			ok = sym.And(ok, in)
		}
		num := i.kind == kNum
		if o.Maximum != nil {
			ok = sym.And(ok, sym.Implies(num, i.f <= *o.Maximum))
		}
		if o.ExclusiveMaximum != nil {
			ok = sym.And(ok, sym.Implies(num, i.f < *o.ExclusiveMaximum))
		}
		if o.Minimum != nil {
			ok = sym.And(ok, sym.Implies(num, i.f >= *o.Minimum))
		}
		if o.ExclusiveMinimum != nil {
			ok = sym.And(ok, sym.Implies(num, i.f > *o.ExclusiveMinimum))
		}
		if o.Const != nil {
			ok = sym.And(ok, i.equals(*o.Const))
		}
		return ok
	}
}

func acceptAllJS(l []jsonschema.SchemaOrBool) []func(i *inst) bool {
	var out []func(i *inst) bool
	for k := range l {
		out = append(out, acceptJS(&l[k]))
	}
	return out
}

func acceptOA(s *openapi3.SchemaOrRef) func(i *inst) bool {
	if s == nil {
		return nil
	}
	return func(i *inst) bool {
		if s.SchemaReference != nil {
			if referred != nil {
				return referred(s.SchemaReference.Ref, i)
			}
			return s.SchemaReference.Ref == i.ref
		}
		o := s.Schema
		if o == nil {
			return true
		}
		zero := func(p *int64) int64 {
			if p == nil {
				return 0
			}
			return *p
		}
		c := common{
			multipleOf: o.MultipleOf, maxLength: o.MaxLength, maxItems: o.MaxItems, maxProps: o.MaxProperties,
			minLength: zero(o.MinLength), minItems: zero(o.MinItems), minProps: zero(o.MinProperties), pattern: o.Pattern, format: o.Format,
			unique: o.UniqueItems, required: o.Required, enum: o.Enum, not: acceptOA(o.Not), items: acceptOA(o.Items),
			props: map[string]func(i *inst) bool{},
		}
		if o.AdditionalProperties != nil {
			c.additional = acceptOA(o.AdditionalProperties.SchemaOrRef)
			if b := o.AdditionalProperties.Bool; b != nil {
				c.additional = func(i *inst) bool { return *b }
			}
		}
		for k, p := range o.Properties {
			p := p
			c.props[k] = acceptOA(&p)
		}
		c.allOf, c.anyOf, c.oneOf = acceptAllOA(o.AllOf), acceptAllOA(o.AnyOf), acceptAllOA(o.OneOf)
		ok := c.accepts(i)
		if o.Type != nil {
			in := i.isType(string(*o.Type))
			if o.Nullable != nil {
				in = sym.Or(in, sym.And(*o.Nullable, i.kind == kNull))
			}
			ok = sym.And(ok, in)
		}
		num := i.kind == kNum
		if o.Maximum != nil {
			ok = sym.And(ok, sym.Implies(num, i.f <= *o.Maximum))
			if o.ExclusiveMaximum != nil {
				ok = sym.And(ok, sym.Implies(sym.And(num, *o.ExclusiveMaximum), i.f < *o.Maximum))
			}
		}
		if o.Minimum != nil {
			ok = sym.And(ok, sym.Implies(num, i.f >= *o.Minimum))
			if o.ExclusiveMinimum != nil {
				ok = sym.And(ok, sym.Implies(sym.And(num, *o.ExclusiveMinimum), i.f > *o.Minimum))
			}
		}
		return ok
	}
}

func acceptAllOA(l []openapi3.SchemaOrRef) []func(i *inst) bool {
	var out []func(i *inst) bool
	for k := range l {
		out = append(out, acceptOA(&l[k]))
	}
	return out
}

var simpleTypes = []jsonschema.SimpleType{jsonschema.Array, jsonschema.Boolean, jsonschema.Integer, jsonschema.Number, jsonschema.Object, jsonschema.String}

const leafKinds = 16

// leafJS sets one group of keywords.
func leafJS(o *jsonschema.Schema, group int) {
	switch group {
	case 0:
	case 1:
		t := simpleTypes[sym.Choice("type", 6)]
		switch sym.Choice("form", 4) {
		case 0:
			o.Type = &jsonschema.Type{SimpleTypes: &t}
		case 1:
			o.Type = &jsonschema.Type{SliceOfSimpleTypeValues: []jsonschema.SimpleType{t}}
		case 2:
			o.Type = &jsonschema.Type{SliceOfSimpleTypeValues: []jsonschema.SimpleType{t, jsonschema.Null}}
		case 3:
			o.Type = &jsonschema.Type{SliceOfSimpleTypeValues: []jsonschema.SimpleType{jsonschema.Null, t}}
		}
	case 2:
		switch sym.Choice("max", 3) {
		case 0:
			o.WithMaximum(sym.Float("max"))
		case 1:
			o.WithExclusiveMaximum(sym.Float("exmax"))
		case 2:
			o.WithMaximum(sym.Float("max")).WithExclusiveMaximum(sym.Float("exmax"))
		}
	case 3:
		switch sym.Choice("min", 3) {
		case 0:
			o.WithMinimum(sym.Float("min"))
		case 1:
			o.WithExclusiveMinimum(sym.Float("exmin"))
		case 2:
			o.WithMinimum(sym.Float("min")).WithExclusiveMinimum(sym.Float("exmin"))
		}
	case 4:
		o.WithMinLength(sym.Int("minLength", 0, 1<<30))
		if sym.Choice("maxLength", 2) == 1 {
			o.WithMaxLength(sym.Int("maxLength", 0, 1<<30))
		}
	case 5:
		o.WithMinItems(sym.Int("minItems", 0, 1<<30))
		if sym.Choice("maxItems", 2) == 1 {
			o.WithMaxItems(sym.Int("maxItems", 0, 1<<30))
		}
		if sym.Choice("unique", 2) == 1 {
			o.WithUniqueItems(sym.Bool("uniqueItems"))
		}
	case 6:
		o.WithMinProperties(sym.Int("minProps", 0, 1<<30))
		if sym.Choice("maxProps", 2) == 1 {
			o.WithMaxProperties(sym.Int("maxProps", 0, 1<<30))
		}
	case 7:
		o.WithPattern(sym.Str("pat", 1, "a-z"))
	case 8:
		o.WithFormat(sym.Str("fmt", 1, "a-z"))
	case 9:
		o.WithEnum(sym.Str("enum", 1, "a-c"))
		switch sym.Choice("enum", 3) {
		case 1:
			o.Enum = append(o.Enum, 1.5, nil)
		case 2:
			o.Enum = []any{nil}
		}
	case 10:
		o.WithRequired([]string{"a", "c"}[:1+sym.Choice("required", 2)]...)
	case 11:
		o.WithMultipleOf(sym.Float("multipleOf"))
	case 12:
		o.WithRef(sym.Str("$ref", 1, "a-z"))
		switch sym.Choice("deprecated", 3) {
		case 1:
			o.WithDeprecated(true)
		case 2:
			o.WithDeprecated(false)
		}
	case 13:
		o.WithAdditionalProperties(boolSchema(sym.Choice("bool", 2) == 1))
	case 14:
		o.WithPropertiesItem("a", boolSchema(sym.Choice("bool", 2) == 1))
		o.WithAdditionalProperties(boolSchema(sym.Choice("bool", 2) == 1))
	case 15:
		t := jsonschema.String
		o.Type = &jsonschema.Type{SliceOfSimpleTypeValues: []jsonschema.SimpleType{t, jsonschema.Null}}
		o.WithEnum("a", nil)
	}
}

func boolSchema(b bool) jsonschema.SchemaOrBool {
	return jsonschema.SchemaOrBool{TypeBoolean: &b}
}

func strSchema(f string) jsonschema.SchemaOrBool {
	return (&jsonschema.Schema{}).WithFormat(f).ToSchemaOrBool()
}

const contexts = 9

// wrapJS puts a schema into a context.
func wrapJS(o *jsonschema.Schema, s jsonschema.SchemaOrBool, ctx int) {
	other := strSchema(sym.Str("other", 1, "a-z"))
	two := func() []jsonschema.SchemaOrBool {
		if sym.Choice("second", 2) == 1 {
			return []jsonschema.SchemaOrBool{other, s}
		}
		return []jsonschema.SchemaOrBool{s, other}
	}
	switch ctx {
	case 0:
		o.WithNot(s)
	case 1:
		o.WithAllOf(two()...)
	case 2:
		o.WithAnyOf(two()...)
	case 3:
		o.WithOneOf(two()...)
	case 4:
		o.ItemsEns().WithSchemaOrBool(s)
	case 5:
		o.WithPropertiesItem("a", s)
		o.WithPropertiesItem("b", other)
	case 6:
		o.WithAdditionalProperties(s)
	case 7:
		o.WithAdditionalProperties(s)
		o.WithPropertiesItem("a", other)
	case 8:
		o.WithAllOf(s)
	}
}

func leafOrBool() jsonschema.SchemaOrBool {
	g := sym.Choice("group", leafKinds+1)
	if g == leafKinds {
		return boolSchema(sym.Choice("bool", 2) == 1)
	}
	o := &jsonschema.Schema{}
	leafJS(o, g)
	return o.ToSchemaOrBool()
}

func checkFrom(s jsonschema.SchemaOrBool) openapi3.SchemaOrRef {
	i := instance()
	want := acceptJS(&s)(i)
	oa := openapi3.SchemaOrRef{}
	oa.FromJSONSchema(s)
	sym.Assert(sym.Iff(want, acceptJS(&s)(i)), "the conversion changes the JSON Schema")
	sym.Assert(sym.Iff(want, acceptOA(&oa)(i)), "the converted schema accepts other instances")
	return oa
}

// C09_Root converts every group of keywords.
func C09_Root() { checkFrom(leafOrBool()) }

// C09_Nested converts every group of keywords in every context.
func C09_Nested() {
	o := &jsonschema.Schema{}
	wrapJS(o, leafOrBool(), sym.Choice("context", contexts))
	checkFrom(o.ToSchemaOrBool())
}

// C09_Pairs converts pairs of groups of keywords of one schema.
func C09_Pairs() {
	o := &jsonschema.Schema{}
	a := sym.Choice("first", leafKinds-1)
	b := a + 1 + sym.Choice("second", leafKinds-1-a)
	sym.Assume(a != 12 && b != 12)
	sym.Assume(!(a == 1 && b == 15) && !(a == 9 && b == 15) && !(a == 13 && b == 14))
	leafJS(o, a)
	leafJS(o, b)
	checkFrom(o.ToSchemaOrBool())
}

// C09_Sibling converts a nested schema next to other keywords.
func C09_Sibling() {
	o := &jsonschema.Schema{}
	in := &jsonschema.Schema{}
	inner, groups := []int{2, 12}, []int{1, 10}
	if sym.Tier() > 0 {
		inner, groups = []int{1, 2, 9, 12}, []int{1, 3, 4, 5, 6, 9, 10}
	}
	leafJS(in, inner[sym.Choice("inner", len(inner))])
	ctx := sym.Choice("context", contexts)
	wrapJS(o, in.ToSchemaOrBool(), ctx)
	leafJS(o, groups[sym.Choice("group", len(groups))])
	checkFrom(o.ToSchemaOrBool())
}

// C09_Contexts converts two nested schemas of one schema.
func C09_Contexts() {
	o := &jsonschema.Schema{}
	a := sym.Choice("first", contexts-2)
	b := a + 1 + sym.Choice("second", contexts-2-a)
	sym.Assume(!(a == 1 && b == 8) && !(a == 5 && b == 7) && !(a == 6 && b == 7))
	inner := []int{7, 12}
	if sym.Tier() > 0 {
		inner = []int{1, 2, 7, 9, 10, 12}
	}
	for _, ctx := range []int{a, b} {
		in := &jsonschema.Schema{}
		leafJS(in, inner[sym.Choice("inner", len(inner))])
		wrapJS(o, in.ToSchemaOrBool(), ctx)
	}
	if sym.Choice("leaf", 2) == 1 {
		leafJS(o, 15)
	}
	checkFrom(o.ToSchemaOrBool())
}

// C09_Wide converts a schema that has all keywords but one.
func C09_Wide() {
	o := &jsonschema.Schema{}
	but := sym.Choice("omitted", leafKinds+contexts)
	for g := 1; g < leafKinds; g++ {
		if g != but {
			fullJS(o, g)
		}
	}
	for ctx := 0; ctx < contexts-2; ctx++ {
		if ctx != but-leafKinds {
			s := (&jsonschema.Schema{}).WithPattern(sym.Str("pat", 1, "a-z")).ToSchemaOrBool()
			other := strSchema("o")
			switch ctx {
			case 0:
				o.WithNot(s)
			case 1:
				o.WithAllOf(s, other)
			case 2:
				o.WithAnyOf(s, other)
			case 3:
				o.WithOneOf(s, other)
			case 4:
				o.ItemsEns().WithSchemaOrBool(s)
			case 5:
				o.WithPropertiesItem("a", s)
			case 6:
				o.WithAdditionalProperties(s)
			}
		}
	}
	oa := checkFrom(o.ToSchemaOrBool())
	sym.Assert(eqp(oa.Schema.Title, o.Title) && eqp(oa.Schema.Description, o.Description), "title or description is not kept")
	sym.Assert(oa.Schema.MapOfAnything["x-a"] == o.ExtraProperties["x-a"], "an extension is not kept")
}

// fullJS sets all keywords of a group.
func fullJS(o *jsonschema.Schema, group int) {
	switch group {
	case 1:
		t := simpleTypes[sym.Choice("type", 6)]
		o.Type = &jsonschema.Type{SliceOfSimpleTypeValues: []jsonschema.SimpleType{t, jsonschema.Null}}
	case 2:
		o.WithMaximum(sym.Float("max")).WithExclusiveMaximum(sym.Float("exmax"))
	case 3:
		o.WithMinimum(sym.Float("min")).WithExclusiveMinimum(sym.Float("exmin"))
	case 4:
		o.WithMinLength(sym.Int("minLength", 1, 1<<30)).WithMaxLength(sym.Int("maxLength", 0, 1<<30))
	case 5:
		o.WithMinItems(sym.Int("minItems", 1, 1<<30)).WithMaxItems(sym.Int("maxItems", 0, 1<<30)).WithUniqueItems(sym.Bool("uniqueItems"))
	case 6:
		o.WithMinProperties(sym.Int("minProps", 1, 1<<30)).WithMaxProperties(sym.Int("maxProps", 0, 1<<30))
	case 7:
		o.WithPattern(sym.Str("pat", 1, "a-z"))
	case 8:
		o.WithFormat(sym.Str("fmt", 1, "a-z"))
	case 9:
		o.WithEnum(sym.Str("enum", 1, "a-c"), 1.5, nil)
	case 10:
		o.WithRequired("a", "c")
	case 11:
		o.WithMultipleOf(sym.Float("multipleOf"))
	case 13:
		o.WithTitle("t").WithDescription("d").WithDefault("v").WithReadOnly(true).WithWriteOnly(true).WithDeprecated(true).WithExamples("e")
	case 14:
		o.WithExtraPropertiesItem("x-a", "b")
	}
}

// C09_Deep converts two levels of nesting.
func C09_Deep() {
	in := &jsonschema.Schema{}
	inner := []int{2, 12}
	if sym.Tier() > 0 {
		inner = []int{1, 2, 5, 9, 12}
	}
	leafJS(in, inner[sym.Choice("inner", len(inner))])
	mid := &jsonschema.Schema{}
	wrapJS(mid, in.ToSchemaOrBool(), sym.Choice("context", contexts))
	o := &jsonschema.Schema{}
	wrapJS(o, mid.ToSchemaOrBool(), sym.Choice("outer", contexts))
	checkFrom(o.ToSchemaOrBool())
}

func eqp[T comparable](a, b *T) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

// C09_Annotations converts annotations and extensions.
func C09_Annotations() {
	o := &jsonschema.Schema{}
	b := func(n string) bool { return sym.Choice(n, 2) == 1 }
	var ex any
	switch sym.Choice("which", 8) {
	case 0:
		o.WithTitle(sym.Str("t", 1, "a-z"))
	case 1:
		o.WithDescription(sym.Str("d", 1, "a-z"))
	case 2:
		o.WithDefault([]any{nil, 1.5, sym.Str("v", 1, "a-z")}[sym.Choice("default", 3)])
	case 3:
		o.WithReadOnly(sym.Bool("ro"))
	case 4:
		o.WithWriteOnly(sym.Bool("wo"))
	case 5:
		o.WithDeprecated(sym.Bool("dep"))
	case 6:
		ex = sym.Str("e", 1, "a-z")
		o.WithExamples(ex)
		if b("second") {
			o.WithExamples(ex, "other")
		}
	case 7:
		o.WithTitle("t").WithDescription("d").WithReadOnly(true).WithWriteOnly(false).WithDeprecated(true).WithDefault("v")
	}
	x := map[string]any{}
	for n := sym.Choice("extensions", 3); n > 0; n-- {
		k := "x-" + sym.Str("k", 1, "a-z")
		_, dup := x[k]
		sym.Assume(!dup)
		x[k] = sym.Str("xv", 1, "a-z")
		o.WithExtraPropertiesItem(k, x[k])
	}
	if b("unknown") {
		o.WithExtraPropertiesItem("y-"+sym.Str("k", 1, "a-z"), "v")
	}
	s := o.ToSchemaOrBool()
	nested := sym.Choice("nested", 4)
	w := &jsonschema.Schema{}
	switch nested {
	case 1:
		w.WithPropertiesItem("a", s)
	case 2:
		w.ItemsEns().WithSchemaOrBool(s)
	case 3:
		w.WithAllOf(s)
	}
	oa := openapi3.SchemaOrRef{}
	if nested == 0 {
		oa.FromJSONSchema(s)
	} else {
		oa.FromJSONSchema(w.ToSchemaOrBool())
		switch nested {
		case 1:
			oa = oa.Schema.Properties["a"]
		case 2:
			oa = *oa.Schema.Items
		case 3:
			oa = oa.Schema.AllOf[0]
		}
	}
	c := oa.Schema
	sym.Assert(c != nil && oa.SchemaReference == nil, "a schema is lost")
	sym.Assert(eqp(c.Title, o.Title), "title is not kept")
	sym.Assert(eqp(c.Description, o.Description), "description is not kept")
	sym.Assert(eqp(c.ReadOnly, o.ReadOnly), "readOnly is not kept")
	sym.Assert(eqp(c.WriteOnly, o.WriteOnly), "writeOnly is not kept")
	sym.Assert(eqp(c.Deprecated, o.Deprecated), "deprecated is not kept")
	sym.Assert(eqp(c.Default, o.Default), "default is not kept")
	sym.Assert((c.Example != nil) == (ex != nil), "example is not kept")
	if ex != nil {
		sym.Assert(*c.Example == ex, "another example")
	}
	sym.Assert(len(c.MapOfAnything) == len(x), "extensions are lost or invented")
	for k, v := range x {
		sym.Assert(c.MapOfAnything[k] == v, "an extension is not kept")
	}
}

// C09_Bool converts boolean schemas.
func C09_Bool() {
	v := sym.Choice("bool", 2) == 1
	oa := openapi3.SchemaOrRef{}
	oa.FromJSONSchema(boolSchema(v))
	sym.Assert(oa.Schema != nil && oa.SchemaReference == nil, "a boolean schema is not an object")
	want := openapi3.Schema{}
	if !v {
		want.Not = &openapi3.SchemaOrRef{Schema: &openapi3.Schema{}}
	}
	sym.Assert(reflect.DeepEqual(*oa.Schema, want), "a boolean schema becomes another object")
}
