package h

import (
	"encoding/json"
	"reflect"

	"verif/harness/sym"
)

// open3 are the 3.0 entities that do not forbid unknown keys.
var open3 = []string{
	"Discriminator", "Callback", "PathParameter", "QueryParameter", "HeaderParameter", "CookieParameter", "Bearer", "NonBearer",
	"HasSchema", "HasContent", "SchemaXORContent", "SchemaXORContentNot", "LinkNot",
	"ComponentsSchemas", "ComponentsResponses", "ComponentsParameters", "ComponentsExamples", "ComponentsRequestBodies",
	"ComponentsHeaders", "ComponentsSecuritySchemes", "ComponentsLinks", "ComponentsCallbacks",
}

var typeRequired = []string{
	"APIKeySecurityScheme", "HTTPSecurityScheme", "OAuth2SecurityScheme", "OpenIDConnectSecurityScheme",
	"SecurityScheme", "SecuritySchemeAPIKey", "SecuritySchemeHTTP", "SecuritySchemeHTTPBearer", "SecuritySchemeOauth2", "SecuritySchemeOidc",
}

func requiredKeys(e *entT) []string {
	var out []string
	for _, m := range e.ms {
		if m.k == req {
			out = append(out, m.key)
		}
	}
	if has(typeRequired, e.name) {
		out = append(out, "type")
	}
	if e.name == "PathParameter" {
		out = append(out, "required")
	}
	return out
}

// entityOf is the entity type of a member, its elements or entries.
func (g *gen) entityOf(t reflect.Type) *entT {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Map {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct {
		return nil
	}
	return find(g.tab, t)
}

// inline is the entity of the inline alternative of a union.
func (g *gen) inline(e *entT) *entT {
	for e != nil && hasAlt(e) && e.name != "SecurityScheme" {
		var ne *entT
		for _, m := range e.ms {
			if m.k != alt {
				continue
			}
			f, _ := e.t.FieldByName(m.f)
			x := g.entityOf(f.Type)
			if x == nil || has([]string{"Reference"}, x.name) || len(x.name) > 9 && x.name[len(x.name)-9:] == "Reference" && !hasAlt(x) {
				continue
			}
			ne = x
			break
		}
		e = ne
	}
	return e
}

// mutate builds the JSON of an entity and applies f to the object of the
// entity itself or, nested, to the object of one of its members.
func mutate(g *gen, nested bool, ok func(e *entT) bool, f func(e *entT, m map[string]json.RawMessage)) (*entT, []byte) {
	type target struct {
		e, ne *entT
		m     mem
	}
	var ts []target
	for i := range g.tab {
		e := &g.tab[i]
		if helperType(e) {
			continue
		}
		if !nested {
			if ok(e) {
				ts = append(ts, target{e: e, ne: e})
			}
			continue
		}
		if hasAlt(e) {
			if ne := g.inline(e); ne != nil && ne != e && ok(ne) {
				ts = append(ts, target{e: e, ne: ne})
			}
			continue
		}
		for _, m := range e.ms {
			if m.k != req && m.k != opt && m.k != pat {
				continue
			}
			fl, _ := e.t.FieldByName(m.f)
			if ne := g.inline(g.entityOf(fl.Type)); ne != nil && ok(ne) {
				ts = append(ts, target{e, ne, m})
			}
		}
	}
	t := ts[sym.Choice("target", len(ts))]
	mode := []int{mMin, mAll}[sym.Choice("mode", 2)]
	if t.m.f == "" {
		v := reflect.New(t.ne.t).Elem()
		g.entity(v, t.ne, mode)
		b, err := json.Marshal(v.Interface())
		sym.Assume(err == nil)
		o, isObj := raw(b)
		sym.Assume(isObj)
		f(t.ne, o)
		b, err = json.Marshal(o)
		sym.Assume(err == nil)
		return t.e, b
	}
	v := reflect.New(t.e.t).Elem()
	g.only(v, t.e, t.m)
	b, err := json.Marshal(v.Interface())
	sym.Assume(err == nil)
	o, isObj := raw(b)
	sym.Assume(isObj)
	nv := reflect.New(t.ne.t).Elem()
	g.entity(nv, t.ne, mode)
	nb, err := json.Marshal(nv.Interface())
	sym.Assume(err == nil)
	no, isObj := raw(nb)
	sym.Assume(isObj)
	f(t.ne, no)
	nb, err = json.Marshal(no)
	sym.Assume(err == nil)
	fl, _ := t.e.t.FieldByName(t.m.f)
	ft := fl.Type
	for ft.Kind() == reflect.Ptr {
		ft = ft.Elem()
	}
	if t.m.k == pat {
		k := g.key(t.e, t.m, 0, false)
		o[k] = nb
	} else {
		switch ft.Kind() {
		case reflect.Slice:
			nb = append(append([]byte("["), nb...), ']')
		case reflect.Map:
			nb = append(append([]byte(`{"kk":`), nb...), '}')
		}
		o[t.m.key] = nb
	}
	b, err = json.Marshal(o)
	sym.Assume(err == nil)
	return t.e, b
}

// only populates required members and leaves room for m.
func (g *gen) only(v reflect.Value, e *entT, m mem) {
	g.entity(v, e, mMin)
	for _, p := range exclusive[g.ver+":"+e.name] {
		if p[0] == m.f {
			f := v.FieldByName(p[1])
			f.Set(reflect.Zero(f.Type()))
		}
		if p[1] == m.f {
			f := v.FieldByName(p[0])
			f.Set(reflect.Zero(f.Type()))
		}
	}
	if m.k == pat {
		f := v.FieldByName(m.f)
		f.Set(reflect.Zero(f.Type()))
	}
}

// decode decodes into a new value of the entity.
func decode(e *entT, b []byte) (reflect.Value, error) {
	p := reflect.New(e.t)
	err := json.Unmarshal(b, p.Interface())
	return p.Elem(), err
}

func missing(ver int, nested bool) {
	g := newGen(ver)
	e, b := mutate(g, nested, func(e *entT) bool { return len(requiredKeys(e)) > 0 }, func(e *entT, m map[string]json.RawMessage) {
		ks := requiredKeys(e)
		delete(m, ks[sym.Choice("missing", len(ks))])
	})
	sym.Observe("json", string(b))
	_, err := decode(e, b)
	sym.Assert(err != nil, e.name+": an object without a required key is decoded")
}

// C07_Missing3 drops required keys.
func C07_Missing3() { missing(3, false) }

// C07_Missing31 drops required keys.
func C07_Missing31() { missing(31, false) }

// C07_NestedMissing3 drops required keys of nested objects.
func C07_NestedMissing3() { missing(3, true) }

// C07_NestedMissing31 drops required keys of nested objects.
func C07_NestedMissing31() { missing(31, true) }

func closed(e *entT) bool { return !has(open3, e.name) && !(hasAlt(e)) }

func unknown(nested bool) {
	g := newGen(3)
	e, b := mutate(g, nested, closed, func(e *entT, m map[string]json.RawMessage) {
		n := 1
		if !nested {
			n = 1 + sym.Choice("len", 4)
		}
		k := sym.Str("unknown", n, "-a-zA-Z$_.0-9 ")
		if n > 1 {
			sym.Assume(sym.Not(sym.And(k[0] == 'x', k[1] == '-')))
		}
		for _, mm := range e.ms {
			sym.Assume(k != mm.key)
		}
		for c := range g.consts(e.name) {
			sym.Assume(k != c)
		}
		switch e.name {
		case "PathItem":
			for _, mt := range methods {
				sym.Assume(k != mt)
			}
		case "Responses":
			if n == 3 {
				d := func(c byte) bool { return sym.And(c >= '0', c <= '9') }
				sym.Assume(sym.Not(sym.And(k[0] >= '1', k[0] <= '5', sym.Or(sym.And(d(k[1]), d(k[2])), sym.And(k[1] == 'X', k[2] == 'X')))))
			}
		}
		vals := []string{`"v"`, `{}`, `null`}
		for _, mm := range e.ms {
			if mm.k != pat {
				continue
			}
			// A value that is valid for the keys of a pattern.
			f, _ := e.t.FieldByName(mm.f)
			x := reflect.New(f.Type.Elem()).Elem()
			h := &gen{ver: g.ver, tab: g.tab}
			if ne := h.inline(h.entityOf(x.Type())); ne != nil {
				y := reflect.New(ne.t).Elem()
				h.entity(y, ne, mMin)
				b, err := json.Marshal(y.Interface())
				sym.Assume(err == nil)
				vals = append(vals, string(b))
			}
		}
		m[k] = json.RawMessage(vals[sym.Choice("value", len(vals))])
	})
	sym.Observe("json", string(b))
	_, err := decode(e, b)
	sym.Assert(err != nil, e.name+": an object with an unknown key is decoded")
}

// C07_Unknown adds unknown keys to 3.0 entities.
func C07_Unknown() { unknown(false) }

// C07_NestedUnknown adds unknown keys to nested 3.0 entities.
func C07_NestedUnknown() { unknown(true) }

// enumMembers are the members of an entity with enumerated types.
func enumMembers(e *entT) []mem {
	var out []mem
	for _, m := range e.ms {
		f, _ := e.t.FieldByName(m.f)
		t := f.Type
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		if _, ok := enums[t.String()]; ok {
			out = append(out, m)
		}
	}
	return out
}

func enumOf(e *entT, m mem) []string {
	f, _ := e.t.FieldByName(m.f)
	t := f.Type
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return enums[t.String()]
}

// outside is a string that is not in the list.
func outside(vs []string) string {
	lens := []int{0}
	for _, v := range vs {
		for n := len(v); n <= len(v)+1; n++ {
			seen := false
			for _, l := range lens {
				if l == n {
					seen = true
				}
			}
			if !seen {
				lens = append(lens, n)
			}
		}
	}
	s := sym.Str("bad", lens[sym.Choice("len", len(lens))], "-a-zA-Z0-9 _./")
	for _, v := range vs {
		sym.Assume(s != v)
	}
	return s
}

func quote(s string) json.RawMessage {
	b, err := json.Marshal(s)
	sym.Assume(err == nil)
	return b
}

func badEnum(ver int, nested bool) {
	g := newGen(ver)
	e, b := mutate(g, nested, func(e *entT) bool { return len(enumMembers(e)) > 0 }, func(e *entT, m map[string]json.RawMessage) {
		ms := enumMembers(e)
		mm := ms[sym.Choice("member", len(ms))]
		m[mm.key] = quote(outside(enumOf(e, mm)))
	})
	sym.Observe("json", string(b))
	_, err := decode(e, b)
	sym.Assert(err != nil, e.name+": a value outside of the enumeration is decoded")
}

// C07_Enum3 has enumerated members with other values.
func C07_Enum3() { badEnum(3, false) }

// C07_Enum31 has enumerated members with other values.
func C07_Enum31() { badEnum(31, false) }

// C07_NestedEnum3 has enumerated members of nested entities with other values.
func C07_NestedEnum3() { badEnum(3, true) }

// C07_NestedEnum31 has enumerated members of nested entities with other values.
func C07_NestedEnum31() { badEnum(31, true) }

// C07_Style has 3.0 parameters with a style that does not exist in their location.
func C07_Style() {
	locs := []string{"path", "query", "header", "cookie"}
	loc := locs[sym.Choice("in", 4)]
	m := map[string]any{"name": "n", "in": loc, "schema": map[string]any{}, "style": outside(styles[loc])}
	if loc == "path" {
		m["required"] = true
	}
	b, err := json.Marshal(m)
	sym.Assume(err == nil)
	_, err = decode(find(model3, reflect.TypeOf(parameter3)), b)
	sym.Assert(err != nil, "Parameter: a style of another location is decoded")
	m["style"] = styles[loc][sym.Choice("style", len(styles[loc]))]
	b, err = json.Marshal(m)
	sym.Assume(err == nil)
	_, err = decode(find(model3, reflect.TypeOf(parameter3)), b)
	sym.Assert(err == nil, "Parameter: a style of the location is rejected")
}

func badConst(ver int, nested bool) {
	g := newGen(ver)
	e, b := mutate(g, nested, func(e *entT) bool { return len(g.consts(e.name)) > 0 && e.name != "Bearer" }, func(e *entT, m map[string]json.RawMessage) {
		var ks []string
		for _, k := range []string{"in", "required", "style", "type"} {
			if g.consts(e.name)[k] != "" {
				ks = append(ks, k)
			}
		}
		k := ks[sym.Choice("const", len(ks))]
		c := g.consts(e.name)[k]
		switch sym.Choice("kind", 4) {
		case 0:
			n := len(c) - 2 + sym.Choice("longer", 2)
			s := sym.Str("bad", n, "-a-zA-Z0-9 _./")
			sym.Assume(`"`+s+`"` != c)
			if nested && k == "in" { // Other alternatives of the union.
				for _, in := range []string{"path", "query", "header", "cookie"} {
					sym.Assume(s != in)
				}
			}
			m[k] = quote(s)
		case 1:
			m[k] = json.RawMessage(`null`)
		case 2:
			m[k] = json.RawMessage(`false`)
		case 3:
			m[k] = json.RawMessage(`""`)
		}
	})
	sym.Observe("json", string(b))
	_, err := decode(e, b)
	sym.Assert(err != nil, e.name+": a constant member with another value is decoded")
}

// C07_Const3 has constant members with other values.
func C07_Const3() { badConst(3, false) }

// C07_Const31 has constant members with other values.
func C07_Const31() { badConst(31, false) }

// C07_NestedConst3 has constant members of nested entities with other values.
func C07_NestedConst3() { badConst(3, true) }

// C07_NestedConst31 has constant members of nested entities with other values.
func C07_NestedConst31() { badConst(31, true) }

func encodeEnum(ver int) {
	g := newGen(ver)
	e := g.root(func(e *entT) bool { return len(enumMembers(e)) == 0 })
	v := reflect.New(e.t).Elem()
	g.entity(v, e, mMin)
	ms := enumMembers(e)
	m := ms[sym.Choice("member", len(ms))]
	f := v.FieldByName(m.f)
	if f.Kind() == reflect.Ptr {
		f.Set(reflect.New(f.Type().Elem()))
		f = f.Elem()
	}
	f.SetString(outside(enumOf(e, m)))
	_, err := json.Marshal(v.Interface())
	sym.Assert(err != nil, e.name+": a value outside of the enumeration is encoded")
}

// C07_EncodeEnum3 encodes enumerated members with other values.
func C07_EncodeEnum3() { encodeEnum(3) }

// C07_EncodeEnum31 encodes enumerated members with other values.
func C07_EncodeEnum31() { encodeEnum(31) }

var jsonKinds = []string{`null`, `true`, `1.5`, `"s"`, `[]`, `{}`, `[null]`, `{"a":null}`, `[{}]`, `{"a":{}}`, `{"a":[]}`, `["s"]`}

// anyKind gives every member every kind of value.
func anyKind(ver int) {
	g := newGen(ver)
	e := g.root(func(e *entT) bool { return false })
	v := reflect.New(e.t).Elem()
	g.entity(v, e, mMin)
	b, err := json.Marshal(v.Interface())
	sym.Assume(err == nil)
	o, ok := raw(b)
	if !ok {
		o = map[string]json.RawMessage{}
	}
	var ks []string
	for _, m := range e.ms {
		if m.key != "" {
			ks = append(ks, m.key)
		}
		if m.k == pat || m.k == ext {
			ks = append(ks, g.key(e, m, 0, false))
		}
	}
	for _, k := range []string{"in", "required", "style", "type"} {
		if g.consts(e.name)[k] != "" && !has(ks, k) {
			ks = append(ks, k)
		}
	}
	ks = append(ks, "")
	k := ks[sym.Choice("member", len(ks))]
	x := jsonKinds[sym.Choice("kind", len(jsonKinds))]
	if k == "" {
		b = []byte(x)
	} else {
		o[k] = json.RawMessage(x)
		b, err = json.Marshal(o)
		sym.Assume(err == nil)
	}
	sym.Observe("json", string(b))
	d, err := decode(e, b)
	if err != nil {
		sym.Observe("decoded", "error")
		return
	}
	_, err = json.Marshal(d.Interface())
	if err != nil {
		sym.Observe("encoded", "error")
	}
}

// C07_Kinds3 decodes all kinds of JSON values without panics.
func C07_Kinds3() { anyKind(3) }

// C07_Kinds31 decodes all kinds of JSON values without panics.
func C07_Kinds31() { anyKind(31) }

// pairs are keys that exclude one another where the decoder knows about it; one of them may be needed.
var pairs = map[int]map[string]struct {
	a, b   string
	needed bool
}{
	3:  {"Parameter": {"schema", "content", true}, "Link": {"operationId", "operationRef", false}},
	31: {"Header": {"schema", "content", true}, "Example": {"value", "externalValue", false}},
}

func exclusiveKeys(ver int, nested bool) {
	g := newGen(ver)
	both := sym.Choice("both", 2) == 1
	e, b := mutate(g, nested, func(e *entT) bool {
		p, ok := pairs[ver][e.name]
		return ok && (both || p.needed)
	}, func(e *entT, m map[string]json.RawMessage) {
		p := pairs[ver][e.name]
		for i, k := range []string{p.a, p.b} {
			if !both {
				delete(m, k)
				continue
			}
			switch k {
			case "schema":
				m[k] = []json.RawMessage{json.RawMessage(`{}`), json.RawMessage(`{"type":"string"}`)}[sym.Choice("schema", 2)]
			case "content":
				m[k] = json.RawMessage(`{"a/b":{}}`)
			case "value":
				m[k] = []json.RawMessage{json.RawMessage(`{}`), json.RawMessage(`null`), json.RawMessage(`[1]`), json.RawMessage(`false`), quote(sym.Str("value", 1, plain))}[sym.Choice("kind", 5)]
			default:
				m[k] = quote(sym.Str("text", i, plain))
			}
		}
	})
	sym.Observe("json", string(b))
	_, err := decode(e, b)
	sym.Assert(err != nil, e.name+": an object with both of two exclusive keys or none of two alternatives is decoded")
}

// C07_Exclusive3 has keys that exclude one another.
func C07_Exclusive3() { exclusiveKeys(3, false) }

// C07_Exclusive31 has keys that exclude one another.
func C07_Exclusive31() { exclusiveKeys(31, false) }

// C07_NestedExclusive3 has nested objects with keys that exclude one another.
func C07_NestedExclusive3() { exclusiveKeys(3, true) }

// C07_NestedExclusive31 has nested objects with keys that exclude one another.
func C07_NestedExclusive31() { exclusiveKeys(31, true) }

// C07_Bearer has 3.0 HTTP security schemes with a format of bearer tokens.
func C07_Bearer() {
	scheme := sym.Str("scheme", 5+sym.Choice("length", 3), "a-z")
	m := map[string]any{"type": "http", "scheme": scheme}
	format := sym.Choice("format", 2) == 1
	if format {
		m["bearerFormat"] = sym.Str("bearer format", 1, plain)
	}
	b, err := json.Marshal(m)
	sym.Assume(err == nil)
	for _, e := range model3 {
		if e.name != "HTTPSecurityScheme" && e.name != "SecurityScheme" && e.name != "SecuritySchemeOrRef" {
			continue
		}
		_, err = decode(find(model3, e.t), b)
		sym.Assert((err == nil) == (!format || scheme == "bearer"), e.name+": exactly bearer schemes have a bearer format")
	}
}
