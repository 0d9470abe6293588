package h

import (
	"encoding/json"
	"reflect"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

var parameter3 openapi3.Parameter

// refMember is the reference alternative of a union.
func (g *gen) refMember(e *entT) (mem, *entT) {
	for _, m := range e.ms {
		if m.k != alt {
			continue
		}
		f, _ := e.t.FieldByName(m.f)
		ne := g.entityOf(f.Type)
		if ne != nil && len(ne.ms) > 0 && ne.ms[0].key == "$ref" && ne.name != "PathItem" {
			return m, ne
		}
	}
	return mem{}, nil
}

func (g *gen) union() *entT {
	return g.root(func(e *entT) bool {
		_, ne := g.refMember(e)
		return ne == nil
	})
}

func refs(ver int) {
	g := newGen(ver)
	e := g.union()
	m, _ := g.refMember(e)
	n := sym.Choice("len", 4)
	target := sym.Str("ref", n, "a-z#/\"")
	o := map[string]any{"$ref": target}
	sum, desc := "", ""
	if ver == 31 {
		if sym.Choice("summary", 2) == 1 {
			sum = "s" + g.str()
			o["summary"] = sum
		}
		if sym.Choice("description", 2) == 1 {
			desc = "d" + g.str()
			o["description"] = desc
		}
	}
	b, err := json.Marshal(o)
	sym.Assume(err == nil)
	v, err := decode(e, b)
	sym.Assert(err == nil, e.name+": a reference can not be decoded")
	one := 0
	for _, mm := range e.ms {
		if mm.k == alt && !v.FieldByName(mm.f).IsNil() {
			one++
		}
	}
	sym.Assert(one == 1, e.name+": not exactly one alternative is populated")
	rv := v.FieldByName(m.f)
	sym.Assert(!rv.IsNil(), e.name+": a reference is decoded as something else")
	sym.Assert(rv.Elem().FieldByName("Ref").String() == target, e.name+": another reference target")
	if ver == 31 {
		for _, x := range []struct{ f, v string }{{"Summary", sum}, {"Description", desc}} {
			p := rv.Elem().FieldByName(x.f)
			sym.Assert(p.IsNil() == (x.v == ""), e.name+": reference "+x.f+" lost or invented")
			if x.v != "" {
				sym.Assert(p.Elem().String() == x.v, e.name+": another reference "+x.f)
			}
		}
	}
	b2, err := json.Marshal(v.Interface())
	sym.Assert(err == nil && len(b2) == len(b), e.name+": a decoded reference is encoded differently")
	sym.Cover(e.name)
}

// C08_Ref3 decodes references.
func C08_Ref3() { refs(3) }

// C08_Ref31 decodes references.
func C08_Ref31() { refs(31) }

func inlines(ver int, mode int) {
	g := newGen(ver)
	g.depth = 1
	e := g.union()
	m, _ := g.refMember(e)
	ne := g.inline(e)
	if e.name[:4] == "Secu" {
		ne = find(g.tab, e.t.Field(1).Type.Elem())
	}
	v := reflect.New(ne.t).Elem()
	g.entity(v, ne, mode)
	b, err := json.Marshal(v.Interface())
	sym.Assume(err == nil)
	if ne.name == "PathItem" {
		_, isRef := mustRaw(b)["$ref"]
		sym.Assume(!isRef)
	}
	sym.Observe("json", string(b))
	d, err := decode(e, b)
	sym.Assert(err == nil, e.name+": an inline object can not be decoded")
	sym.Assert(d.FieldByName(m.f).IsNil(), e.name+": an inline object is decoded as a reference")
	for _, mm := range e.ms {
		if mm.k != alt || mm.f == m.f {
			continue
		}
		x := d.FieldByName(mm.f)
		sym.Assert(!x.IsNil(), e.name+": an inline object is lost")
		sym.Assert(g.same(v, x.Elem()), e.name+": an inline object is decoded differently")
	}
	sym.Cover(e.name)
}

func mustRaw(b []byte) map[string]json.RawMessage {
	m, _ := raw(b)
	return m
}

// C08_InlineMin3 decodes inline objects.
func C08_InlineMin3() { inlines(3, mMin) }

// C08_InlineMin31 decodes inline objects.
func C08_InlineMin31() { inlines(31, mMin) }

// C08_InlineAll3 decodes inline objects.
func C08_InlineAll3() { inlines(3, mAll) }

// C08_InlineAll31 decodes inline objects.
func C08_InlineAll31() { inlines(31, mAll) }

// C08_InlinePair3 decodes inline objects.
func C08_InlinePair3() { inlines(3, mPair) }

// C08_InlinePair31 decodes inline objects.
func C08_InlinePair31() { inlines(31, mPair) }

// C08_InlineRich3 decodes inline objects.
func C08_InlineRich3() { inlines(3, mRich) }

// C08_InlineRich31 decodes inline objects.
func C08_InlineRich31() { inlines(31, mRich) }

func alternatives(ver int) {
	g := newGen(ver)
	e := g.root(func(e *entT) bool {
		return e.name != "SecurityScheme" && e.name != "ParameterLocation" && e.name != "SchemaAdditionalProperties"
	})
	v := reflect.New(e.t).Elem()
	g.entity(v, e, mRich)
	b, err := json.Marshal(v.Interface())
	sym.Assume(err == nil)
	d, err := decode(e, b)
	sym.Assert(err == nil, e.name+": an alternative can not be decoded")
	for _, m := range e.ms {
		if m.k == alt {
			sym.Assert(v.FieldByName(m.f).IsNil() == d.FieldByName(m.f).IsNil(), e.name+": another alternative is populated")
		}
	}
}

// C08_Alternatives3 decodes other unions.
func C08_Alternatives3() { alternatives(3) }

// C08_Alternatives31 decodes other unions.
func C08_Alternatives31() { alternatives(31) }

// C08_SetReference replaces inline content by a reference.
func C08_SetReference() {
	ref := sym.Str("ref", sym.Choice("len", 4), "a-z#/")
	d := sym.Str("d", 1, "a-z")
	inline := sym.Choice("inline", 2) == 1
	old := sym.Choice("old", 2) == 1
	switch sym.Choice("type", 4) {
	case 0:
		v := openapi3.ResponseOrRef{}
		if inline {
			v.Response = &openapi3.Response{Description: d}
		}
		if old {
			v.ResponseReference = &openapi3.ResponseReference{Ref: d}
		}
		v.SetReference(ref)
		sym.Assert(v.Response == nil, "3.0 response: inline content is kept")
		sym.Assert(v.ResponseReference != nil && v.ResponseReference.Ref == ref, "3.0 response: another reference")
	case 1:
		v := openapi3.RequestBodyOrRef{}
		if inline {
			v.RequestBody = &openapi3.RequestBody{Description: &d}
		}
		if old {
			v.RequestBodyReference = &openapi3.RequestBodyReference{Ref: d}
		}
		v.SetReference(ref)
		sym.Assert(v.RequestBody == nil, "3.0 request body: inline content is kept")
		sym.Assert(v.RequestBodyReference != nil && v.RequestBodyReference.Ref == ref, "3.0 request body: another reference")
	case 2:
		v := openapi31.ResponseOrReference{}
		if inline {
			v.Response = &openapi31.Response{Description: d}
		}
		if old {
			v.Reference = &openapi31.Reference{Ref: d, Summary: &d}
		}
		v.SetReference(ref)
		sym.Assert(v.Response == nil, "3.1 response: inline content is kept")
		sym.Assert(v.Reference != nil && v.Reference.Ref == ref, "3.1 response: another reference")
	case 3:
		v := openapi31.RequestBodyOrReference{}
		if inline {
			v.RequestBody = &openapi31.RequestBody{Description: &d}
		}
		if old {
			v.Reference = &openapi31.Reference{Ref: d, Summary: &d}
		}
		v.SetReference(ref)
		sym.Assert(v.RequestBody == nil, "3.1 request body: inline content is kept")
		sym.Assert(v.Reference != nil && v.Reference.Ref == ref, "3.1 request body: another reference")
	}
}
