package h

import (
	"reflect"

	"github.com/swaggest/openapi-go/openapi3"

	"verif/harness/sym"
)

const oaKinds = 15

// leafOA sets one group of keywords.
func leafOA(o *openapi3.Schema, group int) {
	opt := func(n string) bool { return sym.Choice(n, 2) == 1 }
	switch group {
	case 0:
	case 1:
		o.WithType(openapi3.SchemaType(simpleTypes[sym.Choice("type", 6)]))
		if opt("nullable") {
			o.WithNullable(sym.Bool("isNullable"))
		}
	case 2:
		o.WithMaximum(sym.Float("max"))
		if opt("exclusive") {
			o.WithExclusiveMaximum(sym.Bool("isExclusive"))
		}
	case 3:
		o.WithMinimum(sym.Float("min"))
		if opt("exclusive") {
			o.WithExclusiveMinimum(sym.Bool("isExclusive"))
		}
	case 4:
		if opt("minLength") {
			o.WithMinLength(sym.Int("minLength", 0, 1<<30))
		}
		if opt("maxLength") {
			o.WithMaxLength(sym.Int("maxLength", 0, 1<<30))
		}
	case 5:
		if opt("minItems") {
			o.WithMinItems(sym.Int("minItems", 0, 1<<30))
		}
		if opt("maxItems") {
			o.WithMaxItems(sym.Int("maxItems", 0, 1<<30))
		}
		if opt("unique") {
			o.WithUniqueItems(sym.Bool("uniqueItems"))
		}
	case 6:
		if opt("minProps") {
			o.WithMinProperties(sym.Int("minProps", 0, 1<<30))
		}
		if opt("maxProps") {
			o.WithMaxProperties(sym.Int("maxProps", 0, 1<<30))
		}
	case 7:
		o.WithPattern(sym.Str("pat", 1, "a-z"))
	case 8:
		o.WithFormat(sym.Str("fmt", 1, "a-z"))
	case 9:
		o.WithEnum(sym.Str("enum", 1, "a-c"))
		switch sym.Choice("enum", 3) {
		case 1:
			o.Enum = append(o.Enum, 1.5, nil)
		case 2:
			o.Enum = []any{nil}
		}
	case 10:
		o.WithRequired([]string{"a", "c"}[:1+sym.Choice("required", 2)]...)
	case 11:
		o.WithMultipleOf(sym.Float("multipleOf"))
	case 12:
		b := opt("bool")
		o.WithAdditionalProperties(openapi3.SchemaAdditionalProperties{Bool: &b})
		if opt("prop") {
			o.WithPropertiesItem("a", openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithFormat(sym.Str("pf", 1, "a-z"))})
		}
	case 13:
		o.WithType(openapi3.SchemaTypeString)
		o.WithNullable(true)
		o.WithEnum("a", nil)
	case 14:
		switch sym.Choice("annotation", 8) {
		case 0:
			o.WithTitle(sym.Str("t", 1, "a-z"))
		case 1:
			o.WithDescription(sym.Str("d", 1, "a-z"))
		case 2:
			o.WithDefault([]any{nil, 1.5, sym.Str("v", 1, "a-z")}[sym.Choice("default", 3)])
		case 3:
			o.WithReadOnly(sym.Bool("ro"))
		case 4:
			o.WithWriteOnly(sym.Bool("wo"))
		case 5:
			o.WithDeprecated(sym.Bool("dep"))
		case 6:
			o.WithExample(sym.Str("e", 1, "a-z"))
		case 7:
			o.WithMapOfAnythingItem("x-"+sym.Str("k", 1, "a-z"), sym.Str("xv", 1, "a-z"))
		}
	}
}

func wrapOA(o *openapi3.Schema, s openapi3.SchemaOrRef, ctx int) {
	other := openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithFormat(sym.Str("other", 1, "a-z"))}
	two := func() []openapi3.SchemaOrRef {
		if sym.Choice("second", 2) == 1 {
			return []openapi3.SchemaOrRef{other, s}
		}
		return []openapi3.SchemaOrRef{s, other}
	}
	switch ctx {
	case 0:
		o.WithNot(s)
	case 1:
		o.WithAllOf(two()...)
	case 2:
		o.WithAnyOf(two()...)
	case 3:
		o.WithOneOf(two()...)
	case 4:
		o.WithItems(s)
	case 5:
		o.WithPropertiesItem("a", s)
		o.WithPropertiesItem("b", other)
	case 6:
		o.WithAdditionalProperties(openapi3.SchemaAdditionalProperties{SchemaOrRef: &s})
	case 7:
		o.WithAdditionalProperties(openapi3.SchemaAdditionalProperties{SchemaOrRef: &s})
		o.WithPropertiesItem("a", other)
	case 8:
		o.WithAllOf(s)
	}
}

func innerOA(groups []int) openapi3.SchemaOrRef {
	g := sym.Choice("group", len(groups)+1)
	if g == len(groups) {
		// A reference to another document is not resolved.
		return openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: sym.Str("$ref", 1, "a-z")}}
	}
	o := &openapi3.Schema{}
	leafOA(o, groups[g])
	return openapi3.SchemaOrRef{Schema: o}
}

func allOA() []int {
	var out []int
	for i := 0; i < oaKinds; i++ {
		out = append(out, i)
	}
	return out
}

// normOA drops keywords without effect: flags that are false, minimums of zero.
func normOA(s *openapi3.SchemaOrRef) *openapi3.SchemaOrRef {
	if s == nil || s.Schema == nil {
		return s
	}
	c := *s.Schema
	fl := func(b **bool) {
		if *b != nil && !**b {
			*b = nil
		}
	}
	fl(&c.ExclusiveMaximum)
	fl(&c.ExclusiveMinimum)
	fl(&c.Nullable)
	zero := func(p **int64) {
		if *p != nil && **p == 0 {
			*p = nil
		}
	}
	zero(&c.MinLength)
	zero(&c.MinItems)
	zero(&c.MinProperties)
	c.Not, c.Items = normOA(c.Not), normOA(c.Items)
	all := func(l []openapi3.SchemaOrRef) []openapi3.SchemaOrRef {
		var out []openapi3.SchemaOrRef
		for i := range l {
			out = append(out, *normOA(&l[i]))
		}
		return out
	}
	c.AllOf, c.AnyOf, c.OneOf = all(c.AllOf), all(c.AnyOf), all(c.OneOf)
	if c.Properties != nil {
		ps := map[string]openapi3.SchemaOrRef{}
		for k, p := range c.Properties {
			p := p
			ps[k] = *normOA(&p)
		}
		c.Properties = ps
	}
	if c.AdditionalProperties != nil && c.AdditionalProperties.SchemaOrRef != nil {
		c.AdditionalProperties = &openapi3.SchemaAdditionalProperties{SchemaOrRef: normOA(c.AdditionalProperties.SchemaOrRef)}
	}
	return &openapi3.SchemaOrRef{Schema: &c, SchemaReference: s.SchemaReference}
}

func checkTo(s openapi3.SchemaOrRef) {
	i := instance()
	want := acceptOA(&s)(i)
	spec := &openapi3.Spec{}
	js := s.ToJSONSchema(spec)
	sym.Assert(sym.Iff(want, acceptOA(&s)(i)), "the conversion changes the OpenAPI schema")
	sym.Assert(sym.Iff(want, acceptJS(&js)(i)), "the converted schema accepts other instances")
	back := openapi3.SchemaOrRef{}
	back.FromJSONSchema(js)
	sym.Assert(reflect.DeepEqual(*normOA(&s), *normOA(&back)), "converting there and back changes the schema")
}

// C10_Root converts every group of keywords.
func C10_Root() { checkTo(innerOA(allOA())) }

// C10_Nested converts every group of keywords in every context.
func C10_Nested() {
	o := &openapi3.Schema{}
	wrapOA(o, innerOA(allOA()), sym.Choice("context", contexts))
	checkTo(openapi3.SchemaOrRef{Schema: o})
}

// C10_Pairs converts pairs of groups of keywords of one schema.
func C10_Pairs() {
	o := &openapi3.Schema{}
	a := sym.Choice("first", oaKinds-1)
	b := a + 1 + sym.Choice("second", oaKinds-1-a)
	sym.Assume(!(a == 1 && b == 13) && !(a == 9 && b == 13))
	leafOA(o, a)
	leafOA(o, b)
	checkTo(openapi3.SchemaOrRef{Schema: o})
}

// C10_Sibling converts a nested schema next to other keywords.
func C10_Sibling() {
	inner, groups := []int{2}, []int{1, 3, 10}
	if sym.Tier() > 0 {
		inner, groups = []int{1, 2, 9}, []int{1, 3, 4, 5, 6, 9, 10, 14}
	}
	o := &openapi3.Schema{}
	wrapOA(o, innerOA(inner), sym.Choice("context", contexts))
	leafOA(o, groups[sym.Choice("sibling", len(groups))])
	checkTo(openapi3.SchemaOrRef{Schema: o})
}

// C10_Contexts converts two nested schemas of one schema.
func C10_Contexts() {
	o := &openapi3.Schema{}
	a := sym.Choice("first", contexts-2)
	b := a + 1 + sym.Choice("second", contexts-2-a)
	sym.Assume(!(a == 1 && b == 8) && !(a == 5 && b == 7) && !(a == 6 && b == 7))
	inner := []int{7}
	if sym.Tier() > 0 {
		inner = []int{1, 2, 7, 9, 10}
	}
	wrapOA(o, innerOA(inner), a)
	wrapOA(o, innerOA(inner), b)
	if sym.Choice("leaf", 2) == 1 {
		leafOA(o, 1)
	}
	checkTo(openapi3.SchemaOrRef{Schema: o})
}

// C10_Wide converts a schema that has all keywords but one.
func C10_Wide() {
	o := &openapi3.Schema{}
	but := sym.Choice("omitted", oaKinds+contexts)
	for g := 1; g < oaKinds; g++ {
		if g != but && g != 12 && g != 13 && g != 14 {
			o2 := *o
			fullOA(&o2, g)
			*o = o2
		}
	}
	for ctx := 0; ctx < contexts-2; ctx++ {
		if ctx != but-oaKinds {
			wrapOA1(o, openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithPattern(sym.Str("pat", 1, "a-z"))}, ctx)
		}
	}
	fullOA(o, 14)
	checkTo(openapi3.SchemaOrRef{Schema: o})
}

// fullOA sets all keywords of a group.
func fullOA(o *openapi3.Schema, group int) {
	switch group {
	case 1:
		o.WithType(openapi3.SchemaType(simpleTypes[sym.Choice("type", 6)])).WithNullable(sym.Bool("isNullable"))
	case 2:
		o.WithMaximum(sym.Float("max")).WithExclusiveMaximum(sym.Bool("isExclusive"))
	case 3:
		o.WithMinimum(sym.Float("min")).WithExclusiveMinimum(sym.Bool("isExclusive"))
	case 4:
		o.WithMinLength(sym.Int("minLength", 1, 1<<30)).WithMaxLength(sym.Int("maxLength", 0, 1<<30))
	case 5:
		o.WithMinItems(sym.Int("minItems", 1, 1<<30)).WithMaxItems(sym.Int("maxItems", 0, 1<<30)).WithUniqueItems(sym.Bool("uniqueItems"))
	case 6:
		o.WithMinProperties(sym.Int("minProps", 1, 1<<30)).WithMaxProperties(sym.Int("maxProps", 0, 1<<30))
	case 7:
		o.WithPattern(sym.Str("pat", 1, "a-z"))
	case 8:
		o.WithFormat(sym.Str("fmt", 1, "a-z"))
	case 9:
		o.WithEnum(sym.Str("enum", 1, "a-c"), 1.5, nil)
	case 10:
		o.WithRequired("a", "c")
	case 11:
		o.WithMultipleOf(sym.Float("multipleOf"))
	case 14:
		o.WithTitle("t").WithDescription("d").WithDefault("v").WithReadOnly(true).WithWriteOnly(true).WithDeprecated(true).WithExample("e").WithMapOfAnythingItem("x-a", "b")
	}
}

// wrapOA1 puts a schema into a context, without alternatives.
func wrapOA1(o *openapi3.Schema, s openapi3.SchemaOrRef, ctx int) {
	other := openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithFormat("o")}
	switch ctx {
	case 0:
		o.WithNot(s)
	case 1:
		o.WithAllOf(s, other)
	case 2:
		o.WithAnyOf(s, other)
	case 3:
		o.WithOneOf(s, other)
	case 4:
		o.WithItems(s)
	case 5:
		o.WithPropertiesItem("a", s)
	case 6:
		o.WithAdditionalProperties(openapi3.SchemaAdditionalProperties{SchemaOrRef: &s})
	}
}

// C10_Deep converts two levels of nesting.
func C10_Deep() {
	inner := []int{2}
	if sym.Tier() > 0 {
		inner = []int{1, 2, 5, 9, 14}
	}
	mid := &openapi3.Schema{}
	wrapOA(mid, innerOA(inner), sym.Choice("context", contexts))
	o := &openapi3.Schema{}
	wrapOA(o, openapi3.SchemaOrRef{Schema: mid}, sym.Choice("outer", contexts))
	checkTo(openapi3.SchemaOrRef{Schema: o})
}

// C10_Component converts a reference to a component.
func C10_Component() {
	c := innerOA([]int{1, 2, 4, 9, 10, 12, 14})
	spec := &openapi3.Spec{}
	spec.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem("C", c)
	s := openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: "#/components/schemas/C"}}
	js := s.ToJSONSchema(spec)
	i := instance()
	sym.Assert(sym.Iff(acceptOA(&c)(i), acceptJS(&js)(i)), "the converted component accepts other instances")
	back := openapi3.SchemaOrRef{}
	back.FromJSONSchema(js)
	sym.Assert(reflect.DeepEqual(*normOA(&c), *normOA(&back)), "converting a component there and back changes the schema")
}

// C10_Annotations keeps annotations and extensions in JSON Schema.
func C10_Annotations() {
	o := &openapi3.Schema{}
	leafOA(o, 14)
	js := (&openapi3.SchemaOrRef{Schema: o}).ToJSONSchema(&openapi3.Spec{})
	j := js.TypeObject
	sym.Assert(j != nil, "a schema is lost")
	sym.Assert(eqp(j.Title, o.Title), "title is not kept")
	sym.Assert(eqp(j.Description, o.Description), "description is not kept")
	sym.Assert(eqp(j.ReadOnly, o.ReadOnly), "readOnly is not kept")
	sym.Assert(eqp(j.WriteOnly, o.WriteOnly), "writeOnly is not kept")
	sym.Assert(eqp(j.Deprecated, o.Deprecated), "deprecated is not kept")
	sym.Assert(eqp(j.Default, o.Default), "default is not kept")
	if o.Example != nil {
		sym.Assert(len(j.Examples) == 1 && j.Examples[0] == *o.Example, "example is not kept")
	} else {
		sym.Assert(len(j.Examples) == 0, "an example is invented")
	}
	sym.Assert(len(j.ExtraProperties) == len(o.MapOfAnything), "extensions are lost or invented")
	for k, v := range o.MapOfAnything {
		sym.Assert(j.ExtraProperties[k] == v, "an extension is not kept")
	}
}
