package h

import (
	"encoding/json"
	"reflect"
	"sort"

	"verif/harness/sym"
)

// kind is the role of a struct field in the JSON form of an entity.
type kind int

const (
	req     kind = iota // always encoded under its key
	opt                 // encoded under its key if populated
	ext                 // 'x-' extensions, merged into the object
	pat                 // pattern or additional properties, merged into the object
	alt                 // one of several alternatives, merged into the object
	derived             // computed while decoding
	skip                // not encoded
)

// mem is a struct field and its JSON key.
type mem struct {
	f, key string
	k      kind
}

// entT describes an entity of the OpenAPI model.
type entT struct {
	name string
	t    reflect.Type
	ms   []mem
}

func find(tab []entT, t reflect.Type) *entT {
	for i := range tab {
		if tab[i].t == t {
			return &tab[i]
		}
	}
	return nil
}

// consts are keys with constant values, always encoded.
var consts3 = map[string]map[string]string{
	"Header":                      {"style": `"simple"`},
	"PathParameter":               {"in": `"path"`, "required": `true`},
	"QueryParameter":              {"in": `"query"`},
	"HeaderParameter":             {"in": `"header"`, "style": `"simple"`},
	"CookieParameter":             {"in": `"cookie"`, "style": `"form"`},
	"APIKeySecurityScheme":        {"type": `"apiKey"`},
	"HTTPSecurityScheme":          {"type": `"http"`},
	"Bearer":                      {"scheme": `"bearer"`},
	"OAuth2SecurityScheme":        {"type": `"oauth2"`},
	"OpenIDConnectSecurityScheme": {"type": `"openIdConnect"`},
}

var consts31 = map[string]map[string]string{
	"Header":                   {"style": `"simple"`},
	"SecuritySchemeAPIKey":     {"type": `"apiKey"`},
	"SecuritySchemeHTTP":       {"type": `"http"`},
	"SecuritySchemeHTTPBearer": {"type": `"http"`},
	"SecuritySchemeOauth2":     {"type": `"oauth2"`},
	"SecuritySchemeOidc":       {"type": `"openIdConnect"`},
	"MutualTLS":                {"type": `"mutualTLS"`},
}

// exclusive lists members that may not be used together.
var exclusive = map[string][][2]string{
	"3:Parameter":  {{"Schema", "Content"}, {"Example", "Examples"}},
	"3:Header":     {{"Schema", "Content"}, {"Example", "Examples"}},
	"3:MediaType":  {{"Example", "Examples"}},
	"3:Link":       {{"OperationID", "OperationRef"}},
	"31:Parameter": {{"Schema", "Content"}, {"Example", "Examples"}},
	"31:Header":    {{"Schema", "Content"}, {"Example", "Examples"}},
	"31:MediaType": {{"Example", "Examples"}},
	"31:Link":      {{"OperationID", "OperationRef"}},
	"31:Example":   {{"Value", "ExternalValue"}},
	"31:License":   {{"Identifier", "URL"}},
}

// enums are the allowed values of enumerated types.
var enums = map[string][]string{
	"openapi3.ParameterIn":             {"path", "query", "header", "cookie"},
	"openapi3.SchemaType":              {"array", "boolean", "integer", "number", "object", "string"},
	"openapi3.EncodingStyle":           {"form", "spaceDelimited", "pipeDelimited", "deepObject"},
	"openapi3.PathParameterStyle":      {"matrix", "label", "simple"},
	"openapi3.QueryParameterStyle":     {"form", "spaceDelimited", "pipeDelimited", "deepObject"},
	"openapi3.APIKeySecuritySchemeIn":  {"header", "query", "cookie"},
	"openapi31.ParameterIn":            {"path", "query", "header", "cookie"},
	"openapi31.EncodingStyle":          {"form", "spaceDelimited", "pipeDelimited", "deepObject"},
	"openapi31.ParameterStyle":         {"form", "spaceDelimited", "pipeDelimited", "deepObject"},
	"openapi31.SecuritySchemeAPIKeyIn": {"query", "header", "cookie"},
}

// styles are the parameter styles of a location.
var styles = map[string][]string{
	"path":   {"matrix", "label", "simple"},
	"query":  {"form", "spaceDelimited", "pipeDelimited", "deepObject"},
	"header": {"simple"},
	"cookie": {"form"},
}

var methods = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

// fill modes.
const (
	mMin   = iota // required members and one marker member
	mAll          // all compatible members, in minimal form
	mPair         // two arbitrary members in minimal form
	mRich         // one arbitrary member in all its forms
	mBut          // all compatible members but one
	mFocus        // all compatible members, one of them in all its forms
	mPairs        // two arbitrary members, the first in all its forms
)

// alpha is the alphabet of members that are explored in all forms, others need
// no escaping in JSON.
const (
	alpha = "-a-zA-Z0-9 ./:~\"\\<"
	plain = "a-z"
)

type gen struct {
	ver   string
	tab   []entT
	n     int
	depth int
	flat  bool // parts of members in all forms have only two forms
	top   bool // the next value is that of a member
	nils  bool // simple free-form values may be nil
}

func newGen(ver int) *gen {
	if ver == 3 {
		return &gen{ver: "3", tab: model3}
	}
	return &gen{ver: "31", tab: model31}
}

func (g *gen) consts(name string) map[string]string {
	if g.ver == "3" {
		return consts3[name]
	}
	return consts31[name]
}

func (g *gen) str() string {
	return sym.Str("s", 1, plain)
}

func (g *gen) wild() string {
	return sym.Str("s", 1, alpha)
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// fields of an entity that may be populated freely.
func free(e *entT) []string {
	var out []string
	for _, m := range e.ms {
		if m.k == opt || m.k == ext || m.k == pat {
			out = append(out, m.f)
		}
	}
	return out
}

func (g *gen) conflict(e *entT, set []string, f string) bool {
	for _, p := range exclusive[g.ver+":"+e.name] {
		if p[0] == f && has(set, p[1]) || p[1] == f && has(set, p[0]) {
			return true
		}
	}
	return false
}

// entity populates v.
func (g *gen) entity(v reflect.Value, e *entT, mode int) {
	g.depth++
	defer func() { g.depth-- }()
	fs := free(e)
	var set []string
	rich := ""
	switch mode {
	case mMin:
		for _, f := range fs {
			t := v.FieldByName(f).Type()
			if t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.String && t.Elem().Name() == "string" {
				set = append(set, f)
				break
			}
		}
	case mAll:
		for _, f := range fs {
			if !g.conflict(e, set, f) {
				set = append(set, f)
			}
		}
	case mBut:
		if len(fs) > 0 {
			but := fs[sym.Choice("omitted", len(fs))]
			for _, f := range fs {
				if f != but && !g.conflict(e, set, f) {
					set = append(set, f)
				}
			}
		}
	case mFocus:
		g.flat = true
		var rs []string
		for _, m := range e.ms {
			if m.k == req || m.k == opt || m.k == ext || m.k == pat {
				rs = append(rs, m.f)
			}
		}
		if len(rs) > 0 {
			rich = rs[sym.Choice("member", len(rs))]
			set = append(set, rich)
		}
		for _, f := range fs {
			if f != rich && !g.conflict(e, set, f) {
				set = append(set, f)
			}
		}
	case mPairs:
		g.flat = true
		if len(fs) > 1 {
			i := sym.Choice("first", len(fs))
			j := sym.Choice("second", len(fs))
			sym.Assume(i != j && !g.conflict(e, fs[i:i+1], fs[j]))
			rich = fs[i]
			set = append(set, fs[i], fs[j])
		}
	case mPair:
		if len(fs) > 1 {
			i := sym.Choice("first", len(fs)-1)
			j := i + 1 + sym.Choice("second", len(fs)-1-i)
			sym.Assume(!g.conflict(e, fs[i:i+1], fs[j]))
			set = append(set, fs[i], fs[j])
		}
	case mRich:
		var rs []string
		for _, m := range e.ms {
			if m.k == req || m.k == opt || m.k == ext || m.k == pat {
				rs = append(rs, m.f)
			}
		}
		if len(rs) > 0 {
			rich = rs[sym.Choice("member", len(rs))]
			set = append(set, rich)
		}
	}
	loc := ""
	if e.name == "Parameter" {
		loc = g.param(v, &set, rich)
	}
	if e.name == "Header" && g.ver == "31" && !has(set, "Schema") && !has(set, "Content") {
		set = append(set, "Schema")
	}
	nAlt := 0
	for _, m := range e.ms {
		if m.k == alt {
			nAlt++
		}
	}
	for _, m := range e.ms {
		fv := v.FieldByName(m.f)
		if m.k != req && !has(set, m.f) {
			continue
		}
		if e.name == "Parameter" && (m.f == "In" || m.f == "Required" && loc == "path") {
			continue
		}
		if m.f == "Scheme" && g.ver == "31" && e.name == "SecuritySchemeHTTPBearer" {
			fv.SetString([]string{"bearer", "Bearer", "BEARER"}[sym.Choice("bearer", 3)])
			continue
		}
		if m.f == "Scheme" && g.ver == "3" && e.name == "HTTPSecurityScheme" && (has(set, "BearerFormat") || m.f == rich && sym.Choice("bearer", 2) == 1) {
			fv.SetString("bearer")
			continue
		}
		if e.name == "Parameter" && m.f == "Style" {
			st := styles[loc]
			if g.ver == "31" {
				st = enums["openapi31.ParameterStyle"]
			}
			i := 0
			if rich == m.f {
				i = sym.Choice("style", len(st))
			}
			fv.Set(reflect.New(fv.Type().Elem()))
			fv.Elem().SetString(st[i])
			continue
		}
		g.top = true
		g.value(fv, e, m, m.f == rich)
	}
	if nAlt > 0 {
		g.alternative(v, e, nAlt, mode)
	}
}

// param decides location, schema or content of a parameter.
func (g *gen) param(v reflect.Value, set *[]string, rich string) string {
	locs := []string{"query", "path", "header", "cookie"}
	i := 0
	if rich == "In" || rich == "Style" {
		i = sym.Choice("in", 4)
	}
	v.FieldByName("In").SetString(locs[i])
	if locs[i] == "path" {
		b := true
		v.FieldByName("Required").Set(reflect.ValueOf(&b))
	}
	if !has(*set, "Schema") && !has(*set, "Content") {
		*set = append(*set, "Schema")
	}
	return locs[i]
}

// alternative populates exactly one alternative of a union.
func (g *gen) alternative(v reflect.Value, e *entT, n int, mode int) {
	pick := n - 1
	if e.name == "SchemaOrRef" || e.name == "SchemaAdditionalProperties" {
		pick = 0
	}
	if mode != mMin && mode != mBut {
		pick = sym.Choice("alternative", n)
	}
	i := 0
	for _, m := range e.ms {
		if m.k != alt {
			continue
		}
		if i == pick {
			g.value(v.FieldByName(m.f), e, m, mode == mRich)
		}
		i++
	}
}

// value populates one field.
func (g *gen) value(v reflect.Value, e *entT, m mem, rich bool) {
	t := v.Type()
	g.n++
	switch t.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		g.value(v.Elem(), e, m, rich)
	case reflect.String:
		if vs, ok := enums[t.String()]; ok {
			i := 0
			if rich {
				i = sym.Choice("enum", len(vs))
			}
			v.SetString(vs[i])
			return
		}
		if rich {
			v.SetString(sym.Str("s", sym.Choice("len", 3), alpha))
			return
		}
		v.SetString(g.str())
	case reflect.Bool:
		if rich {
			v.SetBool(sym.Bool("b"))
		} else {
			v.SetBool(g.n%2 == 0)
		}
	case reflect.Int64:
		if rich {
			v.SetInt([]int64{0, 1, -1, 1<<53 + 1, 1<<63 - 1}[sym.Choice("int", 5)])
		} else {
			v.SetInt(int64(g.n))
		}
	case reflect.Float64:
		if rich {
			v.SetFloat([]float64{0, 1.5, -2, 1e21, 9007199254740993, 1e-7}[sym.Choice("float", 6)])
		} else {
			v.SetFloat(float64(g.n) + 0.5)
		}
	case reflect.Interface:
		x := reflect.ValueOf(g.any(rich))
		if x.IsValid() {
			v.Set(x)
		}
	case reflect.Slice:
		n := g.size(e, m, rich)
		v.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			g.value(v.Index(i), e, m, rich && n == 1)
		}
	case reflect.Map:
		n := g.size(e, m, rich)
		v.Set(reflect.MakeMap(t))
		var ks []string
		for i := 0; i < n; i++ {
			k := g.key(e, m, i, rich && n == 1)
			for _, o := range ks {
				sym.Assume(o != k)
			}
			ks = append(ks, k)
			x := reflect.New(t.Elem()).Elem()
			if t.Elem().Kind() == reflect.Slice && i == 1 {
				x.Set(reflect.MakeSlice(t.Elem(), 0, 0))
			} else {
				g.value(x, e, m, rich && n == 1)
			}
			v.SetMapIndex(reflect.ValueOf(k), x)
		}
	case reflect.Struct:
		ne := find(g.tab, t)
		if ne == nil {
			panic("unknown entity " + t.String())
		}
		if !rich {
			g.entity(v, ne, mMin)
			return
		}
		if g.flat || g.depth > 2 {
			g.entity(v, ne, []int{mMin, mAll}[sym.Choice("sub", 2)])
			return
		}
		if hasAlt(ne) || sym.Choice("sub", 2) == 1 {
			g.entity(v, ne, mRich)
			return
		}
		g.entity(v, ne, mAll)
	default:
		panic("unexpected kind " + t.String())
	}
}

// empties lists members that mean something else when empty than when absent.
var empties = []string{"3:Operation.Security", "31:Operation.Security", "31:Parameter.Schema", "31:Header.Schema"}

// size is the number of entries of a list or map.
func (g *gen) size(e *entT, m mem, rich bool) int {
	top := g.top
	g.top = false
	if !rich {
		return 1
	}
	if top && (m.k == req || has(empties, g.ver+":"+e.name+"."+m.f)) {
		return sym.Choice("n", 3)
	}
	return 1 + sym.Choice("n", 2)
}

// populated tells whether a member should be encoded.
func (g *gen) populated(e *entT, m mem, v reflect.Value) bool {
	return populated(v) || (v.Kind() == reflect.Map || v.Kind() == reflect.Slice) && !v.IsNil() && has(empties, g.ver+":"+e.name+"."+m.f)
}

func hasAlt(e *entT) bool {
	for _, m := range e.ms {
		if m.k == alt {
			return true
		}
	}
	return false
}

// any is a free-form value.
func (g *gen) any(rich bool) any {
	if !rich {
		return g.str()
	}
	switch sym.Choice("any", 7) {
	case 0:
		return nil
	case 1:
		return g.wild()
	case 2:
		return []float64{0, 1.5, -1e21}[sym.Choice("float", 3)]
	case 3:
		return sym.Bool("b")
	case 4:
		return map[string]any{g.str(): g.str(), "kk": nil}
	case 5:
		return []any{g.str(), nil, []any{}}
	}
	return map[string]any{}
}

// key is a valid key of a map member.
func (g *gen) key(e *entT, m mem, i int, rich bool) string {
	c := g.str
	if rich {
		c = g.wild
	}
	switch m.f {
	case "MapOfAnything":
		if rich && sym.Choice("bare", 2) == 1 {
			return "x-"
		}
		return "x-" + c()
	case "MapOfOperationValues":
		if rich {
			return methods[sym.Choice("method", 8)]
		}
		return methods[i]
	case "MapOfPathItemValues":
		if rich && sym.Choice("bare", 2) == 1 {
			return "/"
		}
		return "/" + c()
	case "AdditionalProperties":
		return "$" + sym.Str("cb", 1, "a-z")
	case "MapOfResponseOrRefValues", "MapOfResponseOrReferenceValues":
		if e.name == "Responses" {
			if rich && sym.Choice("family", 2) == 1 {
				return sym.Str("st", 1, "1-5") + "XX"
			}
			return sym.Str("st", 1, "1-5") + sym.Str("dd", 2, "0-9")
		}
	}
	if len(e.name) >= 10 && e.name[:10] == "Components" {
		return sym.Str("comp", 2, "a-zA-Z0-9._-")
	}
	if rich && sym.Choice("bare", 2) == 1 {
		return ""
	}
	return c() + "k"
}

// keys are the keys the encoded object should have.
func (g *gen) keys(v reflect.Value, e *entT) []string {
	var out []string
	for k := range g.consts(e.name) {
		out = append(out, k)
	}
	for _, m := range e.ms {
		fv := v.FieldByName(m.f)
		switch m.k {
		case req:
			out = append(out, m.key)
		case opt:
			if g.populated(e, m, fv) {
				out = append(out, m.key)
			}
		case ext, pat:
			for _, k := range fv.MapKeys() {
				out = append(out, k.String())
			}
		case alt:
			if fv.IsNil() {
				continue
			}
			x := fv
			for x.Kind() == reflect.Ptr {
				x = x.Elem()
			}
			if ne := find(g.tab, x.Type()); ne != nil {
				out = append(out, g.keys(x, ne)...)
			}
		}
	}
	sort.Strings(out)
	return out
}

func populated(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil()
	case reflect.Map, reflect.Slice:
		return v.Len() > 0
	}
	return true
}

// object is false if the entity is encoded as something else than an object.
func (g *gen) object(v reflect.Value, e *entT) bool {
	return !(e.name == "SchemaAdditionalProperties" && !v.FieldByName("Bool").IsNil())
}

// same compares two values, leaving computed fields aside.
func (g *gen) same(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return g.same(a.Elem(), b.Elem())
	case reflect.Struct:
		e := find(g.tab, a.Type())
		ok := true
		for _, m := range e.ms {
			if m.k != derived && m.k != skip {
				ok = sym.And(ok, g.same(a.FieldByName(m.f), b.FieldByName(m.f)))
			}
		}
		return ok
	case reflect.Slice:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return false
		}
		ok := true
		for i := 0; i < a.Len(); i++ {
			ok = sym.And(ok, g.same(a.Index(i), b.Index(i)))
		}
		return ok
	case reflect.Map:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return false
		}
		ok := true
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return false
			}
			ok = sym.And(ok, g.same(a.MapIndex(k), y))
		}
		return ok
	case reflect.String:
		return a.String() == b.String()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// roots that are entities of documents.
func (g *gen) root(skip func(e *entT) bool) *entT {
	var es []*entT
	for i := range g.tab {
		if !skip(&g.tab[i]) {
			es = append(es, &g.tab[i])
		}
	}
	return es[sym.Choice("entity", len(es))]
}

// raw decodes an object.
func raw(b []byte) (map[string]json.RawMessage, bool) {
	var m map[string]json.RawMessage
	err := json.Unmarshal(b, &m)
	return m, err == nil && m != nil
}
