package h

import (
	"encoding/json"
	"reflect"
	"strings"

	"gopkg.in/yaml.v2"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// node is a document tree that can be written as YAML and as JSON.
type node struct {
	scalarY, scalarJ string
	keys             []key
	vals             []node
	list             bool
}

// key is a mapping key, raw YAML and the string it stands for.
type key struct{ y, s string }

func (n node) json() string {
	if n.keys == nil && !n.list {
		return n.scalarJ
	}
	var b strings.Builder
	for i, v := range n.vals {
		if i > 0 {
			b.WriteString(",")
		}
		if !n.list {
			b.WriteString(`"` + n.keys[i].s + `":`)
		}
		b.WriteString(v.json())
	}
	if n.list {
		return "[" + b.String() + "]"
	}
	return "{" + b.String() + "}"
}

// yaml writes block style (or flow style) YAML.
func (n node) yaml(indent string, flow bool) string {
	if n.keys == nil && !n.list {
		return " " + n.scalarY + "\n"
	}
	if flow || len(n.vals) == 0 {
		return " " + n.flow() + "\n"
	}
	var b strings.Builder
	b.WriteString("\n")
	for i, v := range n.vals {
		if n.list {
			b.WriteString(indent + "-")
		} else {
			b.WriteString(indent + n.keys[i].y + ":")
		}
		b.WriteString(v.yaml(indent+"  ", flow))
	}
	return b.String()
}

func (n node) flow() string {
	if n.keys == nil && !n.list {
		return n.scalarY
	}
	var b strings.Builder
	for i, v := range n.vals {
		if i > 0 {
			b.WriteString(", ")
		}
		if !n.list {
			b.WriteString(n.keys[i].y + ": ")
		}
		b.WriteString(v.flow())
	}
	if n.list {
		return "[" + b.String() + "]"
	}
	return "{" + b.String() + "}"
}

func obj(kv ...any) node {
	n := node{keys: []key{}}
	for i := 0; i < len(kv); i += 2 {
		switch k := kv[i].(type) {
		case string:
			n.keys = append(n.keys, key{k, k})
		case key:
			n.keys = append(n.keys, k)
		}
		n.vals = append(n.vals, kv[i+1].(node))
	}
	return n
}

func lst(v ...node) node { return node{list: true, vals: v} }

func str(s string) node { return node{scalarY: s, scalarJ: `"` + s + `"`} }

func anyKey(name string) key {
	ks := []key{{"200", "200"}, {"0", "0"}, {"-7", "-7"}, {"10000000", "10000000"}, {"9223372036854775808", "9223372036854775808"}, {"true", "true"}, {"false", "false"}, {"1.5", "1.5"}, {`"404"`, "404"}, {`'5XX'`, "5XX"}, {"name", "name"}}
	i := sym.Choice(name, len(ks)+1)
	if i < len(ks) {
		return ks[i]
	}
	s := sym.Str("key", 2, "a-m")
	return key{s, s}
}

func anyScalar() node {
	ss := []node{{scalarY: "12", scalarJ: "12"}, {scalarY: "1.25", scalarJ: "1.25"}, {scalarY: "true", scalarJ: "true"}, {scalarY: "null", scalarJ: "null"}, {scalarY: "~", scalarJ: "null"}, {scalarY: `"12"`, scalarJ: `"12"`}, {scalarY: `'true'`, scalarJ: `"true"`}, {scalarY: "2020-01-02", scalarJ: `"2020-01-02"`}, {scalarY: "9007199254740993", scalarJ: "9007199254740993"}, {keys: []key{}}, {list: true}}
	i := sym.Choice("scalar", len(ss)+1)
	if i < len(ss) {
		return ss[i]
	}
	return str(sym.Str("value", 1, "a-m"))
}

// wrap hides a node under n levels of maps and lists.
func wrap(n node, levels int) node {
	for i := 0; i < levels; i++ {
		switch sym.Choice("wrap", 4) {
		case 0:
			n = lst(n)
		case 1:
			n = obj(anyKey1("outer"), n)
		case 2:
			n = lst(str("f"), n)
		case 3:
			n = obj("pre", str("f"), anyKey1("outer"), n, "post", str("g"))
		}
	}
	return n
}

func anyKey1(name string) key {
	return []key{{"300", "300"}, {"true", "true"}, {"abc", "abc"}}[sym.Choice(name, 3)]
}

type yamlDoc interface {
	UnmarshalYAML([]byte) error
	MarshalYAML() ([]byte, error)
	json.Unmarshaler
}

func newSpec(ver int) yamlDoc {
	if ver == 3 {
		return &openapi3.Spec{}
	}
	return &openapi31.Spec{}
}

func version(ver int) string {
	if ver == 3 {
		return "3.0.3"
	}
	return "3.1.0"
}

func equivalent(ver int, n node, flow bool) {
	y, j := n.yaml("", flow), n.json()
	y = strings.TrimPrefix(y, "\n")
	a, b := newSpec(ver), newSpec(ver)
	errY := a.UnmarshalYAML([]byte(y))
	errJ := b.UnmarshalJSON([]byte(j))
	sym.Assert((errY == nil) == (errJ == nil), "YAML and equivalent JSON are accepted alike")
	sym.Assert(errJ == nil, "document is accepted")
	sym.Assert(snap(a) == snap(b), "YAML and equivalent JSON decode to the same document")
}

func docNode(ver int, kv ...any) node {
	base := []any{"openapi", str(version(ver)), "info", obj("title", str(sym.Str("title", 3, "a-m")), "version", node{scalarY: `"1"`, scalarJ: `"1"`})}
	return obj(append(base, kv...)...)
}

// C12_Keys decodes equivalent YAML and JSON documents with arbitrary mapping keys at arbitrary depth of free-form data.
func C12_Keys() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	n := obj(anyKey("inner"), anyScalar())
	n = wrap(n, sym.Choice("levels", 3+sym.Tier()))
	d := docNode(ver, "paths", obj(), "x-data", n)
	equivalent(ver, d, sym.Choice("flow", 2) == 1)
	sym.Cover("done")
}

// C12_Slots decodes equivalent YAML and JSON documents with arbitrary mapping keys in the maps of the model.
func C12_Slots() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	op := func(kv ...any) node {
		return obj("/p", obj("get", obj(kv...)))
	}
	ok := obj("description", str("d"))
	k := anyKey("slot")
	var d node
	resps := obj("200", ok)
	switch sym.Choice("slot", 8) {
	case 0: // response codes
		codes := []key{{"200", "200"}, {"404", "404"}, {`"500"`, "500"}, {"5XX", "5XX"}, {"default", "default"}}
		i := sym.Choice("code", len(codes))
		j := i + 1 + sym.Choice("code", len(codes))
		r := obj(codes[i], ok)
		if j < len(codes) {
			r = obj(codes[i], ok, codes[j], obj("description", str("e")))
		}
		d = docNode(ver, "paths", op("responses", r))
	case 1: // property names
		d = docNode(ver, "paths", obj(), "components", obj("schemas", obj("S", obj("type", str("object"), "properties", obj(k, obj("type", str("string"), "default", anyScalar()))))))
	case 2: // component names
		d = docNode(ver, "paths", obj(), "components", obj("schemas", obj(k, obj("type", str("string")))))
	case 3: // examples
		d = docNode(ver, "paths", op("responses", resps, "parameters", lst(obj("name", str("q"), "in", str("query"), "schema", obj("type", str("string")), "examples", obj(k, obj("value", anyScalar()))))))
	case 4: // links, headers
		d = docNode(ver, "paths", op("responses", obj(key{"200", "200"}, obj("description", str("d"), "headers", obj(k, obj("schema", obj("type", str("string"))))))))
	case 5: // callbacks
		d = docNode(ver, "paths", op("responses", resps, "callbacks", obj(k, obj("e", obj("post", obj("responses", obj(key{"200", "200"}, ok)))))))
	case 6: // enum and example values
		d = docNode(ver, "paths", obj(), "components", obj("schemas", obj("S", obj("enum", lst(obj(k, anyScalar()), lst(obj(k, lst())), str("v"))))))
	case 7: // several documents parts at once
		d = docNode(ver, "paths", op("responses", obj(key{"200", "200"}, ok, key{"404", "404"}, ok)), "tags", lst(obj("name", str("t"), "x-t", obj(k, anyScalar()))), "x-s", obj(k, lst(anyScalar())))
	}
	equivalent(ver, d, sym.Choice("flow", 2) == 1)
	sym.Cover("done")
}

// topKeys are the top level keys of a JSON object in order.
func topKeys(j []byte) []string {
	var ks []string
	depth, inStr := 0, false
	start := 0
	isKey := true
	for i := 0; i < len(j); i++ {
		c := j[i]
		if inStr {
			if c == '\\' {
				i++
			} else if c == '"' {
				inStr = false
				if depth == 1 && isKey {
					ks = append(ks, string(j[start+1:i]))
				}
			}
			continue
		}
		switch c {
		case '"':
			inStr, start = true, i
		case '{', '[':
			depth++
		case '}', ']':
			depth--
		case ':':
			if depth == 1 {
				isKey = false
			}
		case ',':
			if depth == 1 {
				isKey = true
			}
		}
	}
	return ks
}

func checkYAML(s yamlDoc, ver int) {
	j, err := json.Marshal(s)
	sym.Assert(err == nil, "document encodes to JSON")
	y, err := s.MarshalYAML()
	sym.Assert(err == nil, "document encodes to YAML")
	var ms yaml.MapSlice
	err = yaml.Unmarshal(y, &ms)
	sym.Assert(err == nil, "encoded YAML is valid")
	ks := topKeys(j)
	sym.Assert(len(ks) == len(ms), "number of top level keys in YAML")
	for i, k := range ks {
		s, ok := ms[i].Key.(string)
		sym.Assert(ok && s == unquote(k), "order of top level keys in YAML")
	}
	b := newSpec(ver)
	err = b.UnmarshalYAML(y)
	sym.Assert(err == nil, "encoded YAML decodes")
	c := newSpec(ver)
	err = json.Unmarshal(j, c)
	sym.Assert(err == nil, "encoded JSON decodes")
	j2, err := json.Marshal(b)
	sym.Assert(err == nil, "document decoded from YAML encodes")
	sym.Assert(snap(c) == string(j2), "encoding to YAML keeps all data")
	sym.Cover("yaml")
}

func unquote(k string) string {
	if strings.IndexByte(k, '\\') < 0 {
		return k
	}
	var s string
	_ = json.Unmarshal([]byte(`"`+k+`"`), &s)
	return s
}

// C12_Spec3 encodes arbitrary OpenAPI 3.0 documents to YAML.
func C12_Spec3() { specYAML(3) }

// C12_Spec31 encodes arbitrary OpenAPI 3.1 documents to YAML.
func C12_Spec31() { specYAML(31) }

func specYAML(ver int) {
	g := newGen(ver)
	s := newSpec(ver)
	v := reflect.ValueOf(s).Elem()
	modes := []int{mMin, mAll, mPair, mRich}
	g.entity(v, find(g.tab, v.Type()), modes[sym.Choice("mode", len(modes))])
	checkYAML(s, ver)
}

// C12_Values encodes documents with free-form data of all kinds to YAML.
func C12_Values() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	vals := []any{nil, true, false, 0.0, 1.0, -3.0, 1.5, 1e6, 123456789.0, 0.1, 1e-9, "", "123", "1.5", "true", "null", "~", "yes", "2020-01-02", "a: b", "a #b", "- x", "a\nb\n", " a ", "\"", "'", "{", "*a", "&a", "!t", "%", "@", "\t", "é", "<", []any{}, map[string]any{}, "0x1f", "1e3", "=", "<<"}
	i := sym.Choice("value", len(vals)+1)
	var v any
	if i < len(vals) {
		v = vals[i]
	} else {
		v = sym.Str("value", 2, "ab\"\\<")
	}
	for l := sym.Choice("levels", 2+sym.Tier()); l > 0; l-- {
		switch sym.Choice("wrap", 3) {
		case 0:
			v = []any{v}
		case 1:
			v = map[string]any{"k": v}
		case 2:
			v = map[string]any{"a": "x", "openapi": []any{"y", v}, "200": []any{}, "true": "z"}
		}
	}
	var s yamlDoc
	if ver == 3 {
		d := &openapi3.Spec{Openapi: "3.0.3"}
		d.Info.Title, d.Info.Version = "t", "1"
		if sym.Choice("where", 2) == 0 {
			d.WithMapOfAnythingItem("x-data", v)
		} else {
			d.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem("S", openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithEnum(v, "b")})
		}
		s = d
	} else {
		d := &openapi31.Spec{Openapi: "3.1.0"}
		d.Info.Title, d.Info.Version = "t", "1"
		if sym.Choice("where", 2) == 0 {
			d.WithMapOfAnythingItem("x-data", v)
		} else {
			d.ComponentsEns().WithSchemasItem("S", map[string]any{"enum": []any{v, "b"}})
		}
		s = d
	}
	checkYAML(s, ver)
}

// C12_Ints encodes documents with arbitrary integer keywords to YAML.
func C12_Ints() {
	ns := []int64{0, 1, 255, 1000000, 1 << 31, 1 << 53, 1<<53 + 1, 1<<62 + 1, 1<<63 - 1}
	n := ns[sym.Choice("n", len(ns))]
	d := &openapi3.Spec{Openapi: "3.0.3"}
	d.Info.Title, d.Info.Version = "t", "1"
	sc := (&openapi3.Schema{}).WithMaxLength(n)
	d.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem("S", openapi3.SchemaOrRef{Schema: sc})
	checkYAML(d, 3)
}

// C12_Numbers encodes numbers of all Go types in free-form data to YAML: they are the same there.
func C12_Numbers() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	var ms []uint64
	for _, b := range []uint{0, 7, 24, 31, 32, 52, 53, 62, 63} {
		ms = append(ms, 1<<b-1, 1<<b, 1<<b+1, 1<<b|1<<(b/2)|5)
	}
	ms = append(ms, 1<<64-1, 1<<64-1024, 1<<64-1025)
	m := ms[sym.Choice("n", len(ms))]
	var v any
	var f float64
	isInt, neg := true, false
	switch sym.Choice("kind", 5) {
	case 0:
		v = m
	case 1:
		sym.Assume(m < 1<<63)
		v = int64(m)
	case 2:
		sym.Assume(m > 0 && m <= 1<<63)
		v, neg = -int64(m), true
	case 3:
		sym.Assume(m < 1<<50)
		f, isInt = float64(m)+0.5, false
		v = f
	case 4:
		f, isInt = -1/float64(m|1)/3, false
		v = f
	}
	key := "x-" + sym.Str("key", 1, "a-c")
	place := sym.Choice("place", 4)
	switch place {
	case 1:
		v = map[string]any{"k": v}
	case 2:
		v = []any{v}
	case 3:
		v = map[string]any{"k": []any{map[string]any{"k": v}}}
	}
	var y []byte
	var err error
	if ver == 3 {
		d := &openapi3.Spec{Openapi: "3.0.3"}
		y, err = d.WithMapOfAnythingItem(key, v).MarshalYAML()
	} else {
		d := &openapi31.Spec{Openapi: "3.1.0"}
		y, err = d.WithMapOfAnythingItem(key, v).MarshalYAML()
	}
	sym.Assert(err == nil, "document encodes to YAML")
	var top any
	sym.Assert(yaml.Unmarshal(y, &top) == nil, "encoded YAML is valid")
	got, ok := top.(map[any]any)
	sym.Assert(ok, "encoded YAML is a mapping")
	x := got[key]
	in := func(v any) any {
		m, ok := v.(map[any]any)
		sym.Assert(ok && len(m) == 1, "mapping is kept")
		return m["k"]
	}
	first := func(v any) any {
		l, ok := v.([]any)
		sym.Assert(ok && len(l) == 1, "list is kept")
		return l[0]
	}
	switch place {
	case 1:
		x = in(x)
	case 2:
		x = first(x)
	case 3:
		x = in(first(in(x)))
	}
	same := false
	switch x := x.(type) {
	case int:
		same = isInt && (x < 0) == (neg && m > 0) && uint64(x) == map[bool]uint64{true: -m, false: m}[neg]
	case int64:
		same = isInt && uint64(x) == map[bool]uint64{true: -m, false: m}[neg]
	case uint64:
		same = isInt && !neg && x == m
	case float64:
		same = !isInt && x == f
	}
	sym.Assert(same, "number is the same in YAML")
	sym.Cover("number")
}
