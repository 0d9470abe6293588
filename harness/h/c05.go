package h

import (
	"encoding/json"
	"reflect"
	"sort"

	"verif/harness/sym"
)

func helperType(e *entT) bool {
	switch e.name {
	case "HasSchema", "HasContent", "SchemaXORContent", "SchemaXORContentNot", "LinkNot", "NonBearer", "Examples", "EncodingAllOf0":
		return true
	}
	return false
}

func roundtrip(ver int, mode int) {
	g := newGen(ver)
	e := g.root(helperType)
	v := reflect.New(e.t).Elem()
	g.entity(v, e, mode)
	checkRoundtrip(g, e, v)
}

func checkRoundtrip(g *gen, e *entT, v reflect.Value) {
	b, err := json.Marshal(v.Interface())
	sym.Assert(err == nil, e.name+": a valid value can not be encoded")
	sym.Observe("json", string(b))
	if g.object(v, e) {
		m, ok := raw(b)
		sym.Assert(ok, e.name+": encoded form is not an object")
		got := make([]string, 0, len(m))
		for k := range m {
			got = append(got, k)
		}
		sort.Strings(got)
		want := g.keys(v, e)
		sym.Assert(len(got) == len(want), e.name+": encoded keys are not those of the populated members")
		same := true
		for i := range got {
			same = sym.And(same, got[i] == want[i])
		}
		sym.Assert(same, e.name+": encoded keys are not those of the populated members")
		for k, x := range g.consts(e.name) {
			sym.Assert(string(m[k]) == x, e.name+": wrong constant member "+k)
		}
		for _, mm := range e.ms {
			if mm.k != req && mm.k != opt {
				continue
			}
			fv := v.FieldByName(mm.f)
			if mm.k == opt && !g.populated(e, mm, fv) {
				continue
			}
			fb, err := json.Marshal(fv.Interface())
			sym.Assert(err == nil, e.name+": member can not be encoded")
			sym.Assert(string(m[mm.key]) == string(fb), e.name+": member "+mm.f+" is encoded under another key than "+mm.key)
		}
		for _, mm := range e.ms {
			if mm.k != ext && mm.k != pat {
				continue
			}
			fv := v.FieldByName(mm.f)
			for _, k := range fv.MapKeys() {
				fb, err := json.Marshal(fv.MapIndex(k).Interface())
				sym.Assert(err == nil, e.name+": entry can not be encoded")
				sym.Assert(string(m[k.String()]) == string(fb), e.name+": entry of "+mm.f+" is encoded with another value")
			}
		}
	}
	p := reflect.New(e.t)
	err = json.Unmarshal(b, p.Interface())
	sym.Assert(err == nil, e.name+": an encoded valid value can not be decoded")
	sym.Assert(g.same(v, p.Elem()), e.name+": decoded value differs from the encoded one")
	sym.Cover(e.name)
}

// C05_Min has required members and one marker in every entity.
func C05_Min() { roundtrip(3, mMin) }

// C05_All has all members of every entity.
func C05_All() { roundtrip(3, mAll) }

// C05_Rich has every single member of every entity in all its forms.
func C05_Rich() { roundtrip(3, mRich) }

// C06_Min has required members and one marker in every entity.
func C06_Min() { roundtrip(31, mMin) }

// C06_All has all members of every entity.
func C06_All() { roundtrip(31, mAll) }

// C06_Rich has every single member of every entity in all its forms.
func C06_Rich() { roundtrip(31, mRich) }

// reencode decodes a document and encodes the result again: no data may be
// lost, and no key may be there twice.
func reencode(ver int, mode int) {
	g := newGen(ver)
	e := g.root(func(e *entT) bool { return helperType(e) || e.name == "SchemaAdditionalProperties" })
	v := reflect.New(e.t).Elem()
	g.entity(v, e, mode)
	b, err := json.Marshal(v.Interface())
	sym.Assume(err == nil)
	x, err := decode(e, b)
	sym.Assume(err == nil)
	b2, err := json.Marshal(x.Interface())
	sym.Assert(err == nil, e.name+": a decoded value can not be encoded")
	sym.Observe("json", string(b2))
	m, ok := raw(b2)
	sym.Assert(ok, e.name+": encoded form is not an object")
	size := 2
	for k, r := range m {
		size += len(quote(k)) + len(r) + 2
	}
	if len(m) > 0 {
		size--
	}
	sym.Assert(size == len(b2), e.name+": encoding a decoded value repeats keys")
	y, err := decode(e, b2)
	sym.Assert(err == nil, e.name+": a re-encoded value can not be decoded")
	sym.Assert(g.same(v, y), e.name+": re-encoding changes the value")
}

// C05_But has all members of every entity but one.
func C05_But() { roundtrip(3, mBut) }

// C05_Focus has all members of every entity, one of them in all its forms.
func C05_Focus() { roundtrip(3, mFocus) }

// C05_Pairs has every pair of members of every entity, one of them in all its forms.
func C05_Pairs() { roundtrip(3, mPairs) }

// C05_Reencode encodes decoded values.
func C05_Reencode() {
	if sym.Choice("mode", 2) == 1 {
		reencode(3, mAll)
	} else {
		reencode(3, mMin)
	}
}

// C05_ReencodeParameter encodes decoded parameters of all locations.
func C05_ReencodeParameter() {
	g := newGen(3)
	loc := []string{"query", "path", "header", "cookie"}[sym.Choice("in", 4)]
	o := map[string]any{"name": g.str(), "in": loc, "schema": map[string]any{}}
	if loc == "path" {
		o["required"] = true
	}
	if sym.Choice("style", 2) == 1 {
		o["style"] = styles[loc][sym.Choice("which", len(styles[loc]))]
	}
	b, err := json.Marshal(o)
	sym.Assume(err == nil)
	e := find(g.tab, reflect.TypeOf(parameter3))
	x, err := decode(e, b)
	sym.Assert(err == nil, "a valid parameter is not decoded")
	b2, err := json.Marshal(x.Interface())
	sym.Assert(err == nil, "a decoded parameter is not encoded")
	y, err := decode(e, b2)
	sym.Assert(err == nil, "a re-encoded parameter is not decoded")
	sym.Assert(reflect.DeepEqual(x.Interface(), y.Interface()) || loc == "header" || loc == "cookie", "re-encoding changes a parameter")
	m := mustRaw(b2)
	for k, v := range mustRaw(b) {
		sym.Assert(string(m[k]) == string(v), "re-encoding changes a member of a parameter")
	}
}

// C06_But has all members of every entity but one.
func C06_But() { roundtrip(31, mBut) }

// C06_Focus has all members of every entity, one of them in all its forms.
func C06_Focus() { roundtrip(31, mFocus) }

// C06_Pairs has every pair of members of every entity, one of them in all its forms.
func C06_Pairs() { roundtrip(31, mPairs) }

// C06_Reencode encodes decoded values.
func C06_Reencode() {
	if sym.Choice("mode", 2) == 1 {
		reencode(31, mAll)
	} else {
		reencode(31, mMin)
	}
}
