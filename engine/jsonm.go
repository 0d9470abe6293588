package main

import (
	"encoding/base64"
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Model of encoding/json (v1 semantics) over symbolic values.

type jField struct {
	name      string
	index     []int
	t         *TI
	omitEmpty bool
	omitZero  bool
	quoted    bool
	tagged    bool
}

type jsonFields struct {
	list []jField
	by   map[string]int
}

func validTag(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		switch {
		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
		case c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c > 127:
		default:
			return false
		}
	}
	return true
}

func structTagGet(tag, key string) (string, bool) {
	for tag != "" {
		i := 0
		for i < len(tag) && tag[i] == ' ' {
			i++
		}
		tag = tag[i:]
		if tag == "" {
			break
		}
		i = 0
		for i < len(tag) && tag[i] > ' ' && tag[i] != ':' && tag[i] != '"' && tag[i] != 0x7f {
			i++
		}
		if i == 0 || i+1 >= len(tag) || tag[i] != ':' || tag[i+1] != '"' {
			break
		}
		name := tag[:i]
		tag = tag[i+1:]
		i = 1
		for i < len(tag) && tag[i] != '"' {
			if tag[i] == '\\' {
				i++
			}
			i++
		}
		if i >= len(tag) {
			break
		}
		qv := tag[:i+1]
		tag = tag[i+1:]
		if key == name {
			v, err := strconv.Unquote(qv)
			if err != nil {
				break
			}
			return v, true
		}
	}
	return "", false
}

func (r *Run) jsonFieldsOf(t *TI) *jsonFields {
	t.mu.Lock()
	jf := t.jfields
	t.mu.Unlock()
	if jf != nil {
		return jf
	}
	e := r.w.eng
	type lvl struct {
		t     *TI
		index []int
	}
	cur := []lvl{}
	next := []lvl{{t: t}}
	var count, nextCount map[*TI]int
	visited := map[*TI]bool{}
	var fields []jField
	for len(next) > 0 {
		cur, next = next, cur[:0]
		count, nextCount = nextCount, map[*TI]int{}
		for _, f := range cur {
			if visited[f.t] {
				continue
			}
			visited[f.t] = true
			st := f.t.u.(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				sf := st.Field(i)
				ft := e.types.of(sf.Type())
				if sf.Embedded() {
					et := ft
					if et.kind == kPointer {
						et = e.elem(et)
					}
					if !sf.Exported() && et.kind != kStruct {
						continue
					}
				} else if !sf.Exported() {
					continue
				}
				rawTag := st.Tag(i)
				if strings.HasPrefix(rawTag, "\x00sym") {
					unsupported("json encoding of a struct with symbolic tags")
				}
				tag, _ := structTagGet(rawTag, "json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				if !validTag(name) {
					name = ""
				}
				opt := func(o string) bool {
					for _, p := range parts[1:] {
						if p == o {
							return true
						}
					}
					return false
				}
				index := append(append([]int(nil), f.index...), i)
				et := ft
				if et.kind == kPointer {
					if _, named := et.t.(*types.Named); !named {
						et = e.elem(et)
					}
				}
				quoted := false
				if opt("string") {
					switch {
					case et.kind == kBool, kindInt(et.kind), et.kind == kFloat32, et.kind == kFloat64, et.kind == kString:
						quoted = true
					}
				}
				if name != "" || !sf.Embedded() || et.kind != kStruct {
					tagged := name != ""
					if name == "" {
						name = sf.Name()
					}
					fd := jField{name: name, index: index, t: ft, omitEmpty: opt("omitempty"), omitZero: opt("omitzero"), quoted: quoted, tagged: tagged}
					fields = append(fields, fd)
					if count[f.t] > 1 {
						fields = append(fields, fd)
					}
					continue
				}
				nextCount[et]++
				if nextCount[et] == 1 {
					next = append(next, lvl{t: et, index: index})
				}
			}
		}
	}
	lessIdx := func(a, b []int) bool {
		for k, x := range a {
			if k >= len(b) {
				return false
			}
			if x != b[k] {
				return x < b[k]
			}
		}
		return len(a) < len(b)
	}
	sort.SliceStable(fields, func(i, j int) bool {
		a, b := fields[i], fields[j]
		if a.name != b.name {
			return a.name < b.name
		}
		if len(a.index) != len(b.index) {
			return len(a.index) < len(b.index)
		}
		if a.tagged != b.tagged {
			return a.tagged
		}
		return lessIdx(a.index, b.index)
	})
	var out []jField
	for i := 0; i < len(fields); {
		j := i + 1
		for j < len(fields) && fields[j].name == fields[i].name {
			j++
		}
		if j == i+1 {
			out = append(out, fields[i])
		} else if len(fields[i].index) != len(fields[i+1].index) || fields[i].tagged != fields[i+1].tagged {
			out = append(out, fields[i])
		}
		i = j
	}
	sort.SliceStable(out, func(i, j int) bool { return lessIdx(out[i].index, out[j].index) })
	jf = &jsonFields{list: out, by: map[string]int{}}
	for i, f := range out {
		jf.by[f.name] = i
	}
	t.mu.Lock()
	t.jfields = jf
	t.mu.Unlock()
	return jf
}

// ---------- errors ----------

func (e *Engine) newError(msg any) Iface {
	p := new(any)
	*p = Struct{msg}
	return Iface{e.errorStringTI, p}
}

// jsonError builds an error value of type *json.<name>.
func (r *Run) jsonError(typ string, set map[string]any) Iface {
	e := r.w.eng
	t := e.jsonType(typ)
	if t == nil {
		return e.newError("json: " + typ)
	}
	v := zero(t.t)
	st, ok := t.u.(*types.Struct)
	if !ok {
		return e.newError("json: " + typ)
	}
	s := v.(Struct)
	for i := 0; i < st.NumFields(); i++ {
		if x, ok := set[st.Field(i).Name()]; ok {
			s[i] = x
		}
	}
	p := new(any)
	*p = s
	return Iface{e.ptrTo(t), p}
}

func (r *Run) syntaxError(msg string, off int) Iface {
	return r.jsonError("SyntaxError", map[string]any{"msg": msg, "Offset": int64(off)})
}

func (e *Engine) jsonType(name string) *TI {
	p := e.prog.ImportedPackage("encoding/json")
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return e.types.of(o.Type())
}

// ---------- encoding ----------

type jsonErr struct{ err Iface }

type jenc struct {
	r     *Run
	sb    SB
	html  bool
	depth int
}

// jsonMarshal models json.Marshal.
func (r *Run) jsonMarshal(v Iface) (out []any, err Iface) {
	je := &jenc{r: r, html: true}
	return r.jsonMarshalWith(je, v)
}

func (r *Run) jsonMarshalWith(je *jenc, v Iface) (out []any, err Iface) {
	depth, curr := r.depth, r.curr
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(*jsonErr); ok {
				r.depth, r.curr = depth, curr
				out, err = nil, x.err
				return
			}
			panic(e)
		}
	}()
	if v.t == nil {
		je.sb.str("null")
	} else {
		je.value(v.t, v.v, nil)
	}
	return je.sb.bytes(), Iface{}
}

func (je *jenc) fail(err Iface) { panic(&jsonErr{err}) }

// value encodes v of type t; addr is its address if addressable.
func (je *jenc) value(t *TI, v any, addr *any) {
	r := je.r
	e := r.w.eng
	je.depth++
	if je.depth > 900 {
		unsupported("json: deep value")
	}
	defer func() { je.depth-- }()
	if t.kind != kInterface {
		pt := t
		recv := Iface{t, v}
		useAddr := false
		if t.kind != kPointer && addr != nil {
			if p := e.ptrTo(t); e.implements(p, e.jsonMarshalerTI) && !e.implements(t, e.jsonMarshalerTI) {
				pt, useAddr = p, true
				recv = Iface{p, addr}
			}
		}
		if useAddr || e.implements(pt, e.jsonMarshalerTI) {
			if t.kind == kPointer && v.(*any) == nil {
				je.sb.str("null")
				return
			}
			if !useAddr {
				recv.v = copyVal(v)
			}
			res := r.invokeOn(r.curr, recv, nil, "MarshalJSON", nil).(Tuple)
			if er := res[1].(Iface); er.t != nil {
				je.fail(r.marshalerError(t, er, "MarshalJSON"))
			}
			txt := []any(res[0].(Slice))
			p := &jparser{r: r, b: txt}
			if n := p.parseTop(); n == nil {
				je.fail(r.marshalerError(t, r.syntaxError(p.errMsg, p.errOff), "MarshalJSON"))
			}
			je.compact(txt)
			return
		}
		pt, useAddr = t, false
		recv = Iface{t, v}
		if t.kind != kPointer && addr != nil {
			if p := e.ptrTo(t); e.implements(p, e.textMarshalerTI) && !e.implements(t, e.textMarshalerTI) {
				pt, useAddr = p, true
				recv = Iface{p, addr}
			}
		}
		if useAddr || e.implements(pt, e.textMarshalerTI) {
			if t.kind == kPointer && v.(*any) == nil {
				je.sb.str("null")
				return
			}
			res := r.invokeOn(r.curr, recv, nil, "MarshalText", nil).(Tuple)
			if er := res[1].(Iface); er.t != nil {
				je.fail(r.marshalerError(t, er, "MarshalText"))
			}
			je.str(mkStr(res[0].(Slice)))
			return
		}
	}
	switch t.kind {
	case kBool:
		if r.branchAny(v) {
			je.sb.str("true")
		} else {
			je.sb.str("false")
		}
	case kString:
		if n, ok := t.t.(*types.Named); ok && n.Obj().Name() == "Number" && n.Obj().Pkg().Path() == "encoding/json" {
			if v == "" {
				v = "0"
			}
			je.sb.val(v)
			return
		}
		je.str(v)
	case kFloat32, kFloat64:
		f, ok := v.(float64)
		if !ok {
			unsupported("json encoding of symbolic float")
		}
		bits := 64
		if t.kind == kFloat32 {
			bits = 32
		}
		if math.IsInf(f, 0) || math.IsNaN(f) {
			je.fail(r.jsonError("UnsupportedValueError", map[string]any{"Str": strconv.FormatFloat(f, 'g', -1, bits)}))
		}
		je.sb.str(jsonFloat(f, bits))
	case kInterface:
		i := v.(Iface)
		if i.t == nil {
			je.sb.str("null")
			return
		}
		je.value(i.t, i.v, nil)
	case kPointer:
		p := v.(*any)
		if p == nil {
			je.sb.str("null")
			return
		}
		je.value(e.elem(t), *p, p)
	case kStruct:
		s, ok := v.(Struct)
		if !ok {
			unsupported("json struct " + t.t.String())
		}
		jf := r.jsonFieldsOf(t)
		je.sb.str("{")
		first := true
	fields:
		for i := range jf.list {
			f := &jf.list[i]
			cur, curT := s, t
			var fv any
			var fa *any
			haveAddr := addr != nil
			for k, ix := range f.index {
				if k > 0 {
					// embedded
					ft := e.types.of(curT.u.(*types.Struct).Field(f.index[k-1]).Type())
					if ft.kind == kPointer {
						p := fv.(*any)
						if p == nil {
							continue fields
						}
						cur, curT = (*p).(Struct), e.elem(ft)
						haveAddr = true
					} else {
						cur, curT = fv.(Struct), ft
					}
				}
				fv = cur[ix]
				if haveAddr {
					fa = &cur[ix]
				} else {
					fa = nil
				}
			}
			if f.omitEmpty && r.branchAny(r.jsonEmpty(fv)) {
				continue
			}
			if f.omitZero && r.branchAny(r.isZeroVal(fv)) {
				continue
			}
			if !first {
				je.sb.str(",")
			}
			first = false
			je.str(f.name)
			je.sb.str(":")
			if f.quoted {
				sub := &jenc{r: r, html: true}
				sub.value(f.t, fv, fa)
				txt := sub.sb.result()
				if txt == "null" {
					je.sb.str("null")
				} else if f.t.kind == kString {
					je.str(txt)
				} else {
					je.sb.str("\"")
					je.sb.val(txt)
					je.sb.str("\"")
				}
				continue
			}
			je.value(f.t, fv, fa)
		}
		je.sb.str("}")
	case kMap:
		m := v.(*Map)
		if m == nil {
			je.sb.str("null")
			return
		}
		kt := e.types.of(t.u.(*types.Map).Key())
		et := e.elem(t)
		keys := map[*mapEntry]any{}
		for _, en := range m.live() {
			keys[en] = je.mapKey(kt, en.k)
		}
		je.sb.str("{")
		for i, en := range r.sortedEntries(m, func(en *mapEntry) any { return keys[en] }) {
			if i > 0 {
				je.sb.str(",")
			}
			je.str(keys[en])
			je.sb.str(":")
			je.value(et, en.v, nil)
		}
		je.sb.str("}")
	case kSlice, kArray:
		et := e.elem(t)
		var xs []any
		if t.kind == kSlice {
			s := v.(Slice)
			if s == nil {
				je.sb.str("null")
				return
			}
			if et.kind == kUint8 && !e.implements(e.ptrTo(et), e.jsonMarshalerTI) && !e.implements(e.ptrTo(et), e.textMarshalerTI) {
				bs, ok := mkStr(s).(string)
				if !ok {
					unsupported("base64 of symbolic bytes")
				}
				je.sb.str("\"" + base64.StdEncoding.EncodeToString([]byte(bs)) + "\"")
				return
			}
			xs = s
		} else {
			xs = v.(Array)
		}
		je.sb.str("[")
		for i := range xs {
			if i > 0 {
				je.sb.str(",")
			}
			var a *any
			if t.kind == kSlice || addr != nil {
				a = &xs[i]
			}
			je.value(et, xs[i], a)
		}
		je.sb.str("]")
	default:
		if kindInt(t.kind) {
			je.sb.val(r.itoa(v, t.kind))
			return
		}
		je.fail(r.jsonError("UnsupportedTypeError", map[string]any{"Type": e.rtypeIface(t)}))
	}
}

func (r *Run) marshalerError(t *TI, err Iface, src string) Iface {
	return r.jsonError("MarshalerError", map[string]any{"Type": r.w.eng.rtypeIface(t), "Err": err, "sourceFunc": src})
}

func (je *jenc) mapKey(kt *TI, k any) any {
	r := je.r
	e := r.w.eng
	if kt.kind == kString && !e.implements(kt, e.textMarshalerTI) {
		return k
	}
	if kt.kind == kInterface {
		// keys of interface type are encoded by what they hold
		if i, ok := k.(Iface); ok && i.t != nil && (i.t.kind == kString || kindInt(i.t.kind) || e.implements(i.t, e.textMarshalerTI)) {
			return je.mapKey(i.t, i.v)
		}
		je.fail(r.jsonError("UnsupportedTypeError", map[string]any{"Type": e.rtypeIface(kt)}))
	}
	if e.implements(kt, e.textMarshalerTI) {
		res := r.invokeOn(r.curr, Iface{kt, k}, nil, "MarshalText", nil).(Tuple)
		if er := res[1].(Iface); er.t != nil {
			je.fail(r.marshalerError(kt, er, "MarshalText"))
		}
		return mkStr(res[0].(Slice))
	}
	if kindInt(kt.kind) {
		return r.itoa(k, kt.kind)
	}
	je.fail(r.jsonError("UnsupportedTypeError", map[string]any{"Type": e.rtypeIface(kt)}))
	return nil
}

func (r *Run) jsonEmpty(v any) any {
	switch x := v.(type) {
	case bool, int64, float64, *Term:
		return r.isZeroVal(x)
	case string:
		return x == ""
	case *SymStr:
		return false
	case Slice:
		return len(x) == 0
	case Array:
		return len(x) == 0
	case *Map:
		return x == nil || x.n == 0
	case *any:
		return x == nil
	case Iface:
		return x.t == nil
	case *FuncVal:
		return x == nil
	}
	return false
}

func jsonFloat(f float64, bits int) string {
	abs := math.Abs(f)
	format := byte('f')
	if abs != 0 {
		if bits == 64 && (abs < 1e-6 || abs >= 1e21) || bits == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {
			format = 'e'
		}
	}
	b := strconv.AppendFloat(nil, f, format, -1, bits)
	if format == 'e' {
		n := len(b)
		if n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
			b[n-2] = b[n-1]
			b = b[:n-1]
		}
	}
	return string(b)
}

const hexDigits = "0123456789abcdef"

// str writes a JSON string literal.
func (je *jenc) str(s any) {
	if cs, ok := s.(string); ok {
		je.sb.str(quoteJSON(cs, je.html))
		return
	}
	r := je.r
	ss := s.(*SymStr)
	je.sb.str("\"")
	for i := 0; i < len(ss.b); i++ {
		switch c := ss.b[i].(type) {
		case int64:
			if c >= utf8.RuneSelf {
				// gather a concrete run
				j := i
				var bs []byte
				for j < len(ss.b) {
					x, ok := ss.b[j].(int64)
					if !ok || x < utf8.RuneSelf {
						break
					}
					bs = append(bs, byte(x))
					j++
				}
				q := quoteJSON(string(bs), je.html)
				je.sb.str(q[1 : len(q)-1])
				i = j - 1
				continue
			}
			q := quoteJSON(string([]byte{byte(c)}), je.html)
			je.sb.str(q[1 : len(q)-1])
		case *Term:
			tt := r.tt
			if !r.branch(tt.Bin(OUlt, c, tt.BV(0x80, 8))) {
				unsupported("json: non-ASCII symbolic byte")
			}
			done := false
			if r.branch(tt.Bin(OUlt, c, tt.BV(0x20, 8))) {
				// control characters: enumerate
				n := r.concretize(c)
				q := quoteJSON(string([]byte{byte(n)}), je.html)
				je.sb.str(q[1 : len(q)-1])
				done = true
			}
			if !done {
				for _, sp := range []byte{'"', '\\', '<', '>', '&', 0x7f} {
					if sp == 0x7f && je.html {
						continue
					}
					if !je.html && (sp == '<' || sp == '>' || sp == '&' || sp == 0x7f) {
						continue
					}
					if r.branch(tt.Eq(c, tt.BV(uint64(sp), 8))) {
						q := quoteJSON(string([]byte{sp}), je.html)
						je.sb.str(q[1 : len(q)-1])
						done = true
						break
					}
				}
			}
			if !done {
				je.sb.byte(c)
			}
		}
	}
	je.sb.str("\"")
}

func quoteJSON(s string, html bool) string {
	b := []byte{'"'}
	start := 0
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			if c >= 0x20 && c != '"' && c != '\\' && !(html && (c == '<' || c == '>' || c == '&')) {
				i++
				continue
			}
			b = append(b, s[start:i]...)
			switch c {
			case '\\', '"':
				b = append(b, '\\', c)
			case '\b':
				b = append(b, '\\', 'b')
			case '\f':
				b = append(b, '\\', 'f')
			case '\n':
				b = append(b, '\\', 'n')
			case '\r':
				b = append(b, '\\', 'r')
			case '\t':
				b = append(b, '\\', 't')
			default:
				b = append(b, '\\', 'u', '0', '0', hexDigits[c>>4], hexDigits[c&15])
			}
			i++
			start = i
			continue
		}
		ru, w := utf8.DecodeRuneInString(s[i:])
		if ru == utf8.RuneError && w == 1 {
			b = append(b, s[start:i]...)
			b = append(b, `\ufffd`...)
			i += w
			start = i
			continue
		}
		if ru == 0x2028 || ru == 0x2029 {
			b = append(b, s[start:i]...)
			b = append(b, '\\', 'u', '2', '0', '2', hexDigits[ru&15])
			i += w
			start = i
			continue
		}
		i += w
	}
	b = append(b, s[start:]...)
	return string(append(b, '"'))
}

// compact appends valid JSON text without insignificant space, escaping HTML characters.
func (je *jenc) compact(txt []any) {
	r := je.r
	tt := r.tt
	inStr := false
	for i := 0; i < len(txt); i++ {
		switch c := txt[i].(type) {
		case int64:
			if !inStr {
				if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
					continue
				}
				if c == '"' {
					inStr = true
				}
				je.sb.byte(c)
				continue
			}
			switch {
			case c == '\\':
				je.sb.byte(c)
				i++
				je.sb.byte(txt[i])
			case c == '"':
				inStr = false
				je.sb.byte(c)
			case je.html && (c == '<' || c == '>' || c == '&'):
				je.sb.str(`\u00` + string([]byte{hexDigits[c>>4], hexDigits[c&15]}))
			case je.html && c == 0xE2 && i+2 < len(txt) && txt[i+1] == int64(0x80) && (txt[i+2] == int64(0xA8) || txt[i+2] == int64(0xA9)):
				je.sb.str(`\u202` + string([]byte{hexDigits[txt[i+2].(int64)&15]}))
				i += 2
			default:
				je.sb.byte(c)
			}
		case *Term:
			if !inStr {
				// numbers: digits only
				je.sb.byte(c)
				continue
			}
			done := false
			if je.html {
				for _, sp := range []byte{'<', '>', '&'} {
					if r.branch(tt.Eq(c, tt.BV(uint64(sp), 8))) {
						je.sb.str(`\u00` + string([]byte{hexDigits[sp>>4], hexDigits[sp&15]}))
						done = true
						break
					}
				}
			}
			if !done {
				je.sb.byte(c)
			}
		}
	}
}

// itoa formats an integer in base 10 (forking on sign and digit count if symbolic).
func (r *Run) itoa(v any, k int) any {
	switch v := v.(type) {
	case int64:
		if kindSigned(k) {
			return strconv.FormatInt(v, 10)
		}
		return strconv.FormatUint(uint64(v), 10)
	case *Term:
		tt := r.tt
		w := v.w
		var sb SB
		if kindSigned(k) && r.branch(tt.Bin(OSlt, v, tt.BV(0, w))) {
			sb.str("-")
			v = tt.Un(ONeg, v)
		}
		lim := uint64(10)
		digits := 1
		for digits < 19 {
			if w < 64 && lim >= mask(w) {
				break
			}
			if r.branch(tt.Bin(OUlt, v, tt.BV(lim, w))) {
				break
			}
			lim *= 10
			digits++
		}
		if digits >= 19 {
			unsupported("itoa: too large symbolic integer")
		}
		// narrow
		nw := uint8(1)
		for mask(nw) < lim && nw < 64 {
			nw++
		}
		if nw < 8 {
			nw = 8
		}
		if nw > w {
			nw = w
		}
		x := tt.Resize(v, nw, false)
		div := lim / 10
		for i := 0; i < digits; i++ {
			d := tt.Bin(OURem, tt.Bin(OUDiv, x, tt.BV(div, nw)), tt.BV(10, nw))
			sb.byte(r.fromTerm(tt.Bin(OAdd, tt.Resize(d, 8, false), tt.BV('0', 8)), kUint8))
			div /= 10
		}
		return sb.result()
	}
	panic(fmt.Sprintf("itoa %T", v))
}

// ---------- parsing ----------

type jkind uint8

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jArr
	jObj
)

type jmember struct {
	k any
	v *jnode
}

type jnode struct {
	kind jkind
	b    bool
	s    any // string content or number text
	arr  []*jnode
	obj  []jmember
	i, j int // raw extent
}

type jparser struct {
	r      *Run
	b      []any
	p      int
	errMsg string
	errOff int
	failed bool
}

func (p *jparser) err(msg string) *jnode {
	if !p.failed {
		p.failed = true
		p.errMsg = msg
		p.errOff = p.p + 1
	}
	return nil
}

// is tests b[p] == c.
func (p *jparser) is(c byte) bool {
	if p.p >= len(p.b) {
		return false
	}
	switch x := p.b[p.p].(type) {
	case int64:
		return byte(x) == c
	case *Term:
		return p.r.branch(p.r.tt.Eq(x, p.r.tt.BV(uint64(c), 8)))
	}
	panic("jparser.is")
}

func (p *jparser) inRange(lo, hi byte) bool {
	if p.p >= len(p.b) {
		return false
	}
	switch x := p.b[p.p].(type) {
	case int64:
		return byte(x) >= lo && byte(x) <= hi
	case *Term:
		tt := p.r.tt
		return p.r.branch(tt.And(tt.Bin(OUle, tt.BV(uint64(lo), 8), x), tt.Bin(OUle, x, tt.BV(uint64(hi), 8))))
	}
	panic("jparser.inRange")
}

func (p *jparser) ws() {
	for p.p < len(p.b) {
		if c, ok := p.b[p.p].(int64); ok {
			if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
				p.p++
				continue
			}
			return
		}
		if p.is(' ') || p.is('\t') || p.is('\n') || p.is('\r') {
			p.p++
			continue
		}
		return
	}
}

func (p *jparser) parseTop() *jnode {
	p.ws()
	n := p.value(0)
	if n == nil {
		return nil
	}
	p.ws()
	if p.p < len(p.b) {
		return p.err("invalid character after top-level value")
	}
	return n
}

func (p *jparser) lit(s string) bool {
	for i := 0; i < len(s); i++ {
		if !p.is(s[i]) {
			p.err("invalid character in literal " + s)
			return false
		}
		p.p++
	}
	return true
}

func (p *jparser) value(depth int) *jnode {
	if p.p >= len(p.b) {
		return p.err("unexpected end of JSON input")
	}
	if depth > 10000 {
		return p.err("exceeded max depth")
	}
	n := &jnode{i: p.p}
	switch {
	case p.is('"'):
		s, ok := p.str()
		if !ok {
			return nil
		}
		n.kind, n.s = jStr, s
	case p.is('{'):
		n.kind = jObj
		p.p++
		p.ws()
		if p.is('}') {
			p.p++
			break
		}
		for {
			p.ws()
			if !p.is('"') {
				if p.p >= len(p.b) {
					return p.err("unexpected end of JSON input")
				}
				return p.err("invalid character looking for beginning of object key string")
			}
			k, ok := p.str()
			if !ok {
				return nil
			}
			p.ws()
			if !p.is(':') {
				if p.p >= len(p.b) {
					return p.err("unexpected end of JSON input")
				}
				return p.err("invalid character after object key")
			}
			p.p++
			p.ws()
			v := p.value(depth + 1)
			if v == nil {
				return nil
			}
			n.obj = append(n.obj, jmember{k, v})
			p.ws()
			if p.is(',') {
				p.p++
				continue
			}
			if p.is('}') {
				p.p++
				break
			}
			if p.p >= len(p.b) {
				return p.err("unexpected end of JSON input")
			}
			return p.err("invalid character after object key:value pair")
		}
	case p.is('['):
		n.kind = jArr
		p.p++
		p.ws()
		if p.is(']') {
			p.p++
			break
		}
		for {
			p.ws()
			v := p.value(depth + 1)
			if v == nil {
				return nil
			}
			n.arr = append(n.arr, v)
			p.ws()
			if p.is(',') {
				p.p++
				continue
			}
			if p.is(']') {
				p.p++
				break
			}
			if p.p >= len(p.b) {
				return p.err("unexpected end of JSON input")
			}
			return p.err("invalid character after array element")
		}
	case p.is('t'):
		n.kind, n.b = jBool, true
		if !p.lit("true") {
			return nil
		}
	case p.is('f'):
		n.kind = jBool
		if !p.lit("false") {
			return nil
		}
	case p.is('n'):
		n.kind = jNull
		if !p.lit("null") {
			return nil
		}
	case p.is('-') || p.inRange('0', '9'):
		n.kind = jNum
		start := p.p
		if p.is('-') {
			p.p++
		}
		if p.is('0') {
			p.p++
		} else if p.inRange('1', '9') {
			for p.inRange('0', '9') {
				p.p++
			}
		} else {
			return p.err("invalid character in numeric literal")
		}
		if p.is('.') {
			p.p++
			if !p.inRange('0', '9') {
				return p.err("invalid character after decimal point in numeric literal")
			}
			for p.inRange('0', '9') {
				p.p++
			}
		}
		if p.p < len(p.b) && (p.is('e') || p.is('E')) {
			p.p++
			if p.is('+') || p.is('-') {
				p.p++
			}
			if !p.inRange('0', '9') {
				return p.err("invalid character in exponent of numeric literal")
			}
			for p.inRange('0', '9') {
				p.p++
			}
		}
		n.s = mkStr(p.b[start:p.p])
	default:
		return p.err("invalid character looking for beginning of value")
	}
	n.j = p.p
	return n
}

// str parses a string literal at p.
func (p *jparser) str() (any, bool) {
	p.p++
	var sb SB
	for {
		if p.p >= len(p.b) {
			p.err("unexpected end of JSON input")
			return nil, false
		}
		switch c := p.b[p.p].(type) {
		case int64:
			switch {
			case c == '"':
				p.p++
				return p.fixUTF8(sb.result()), true
			case c == '\\':
				p.p++
				if !p.escape(&sb) {
					return nil, false
				}
				continue
			case c < 0x20:
				p.err("invalid character in string literal")
				return nil, false
			}
			sb.byte(c)
			p.p++
		case *Term:
			if p.is('"') {
				p.p++
				return p.fixUTF8(sb.result()), true
			}
			if p.is('\\') {
				p.p++
				if !p.escape(&sb) {
					return nil, false
				}
				continue
			}
			if p.inRange(0, 0x1f) {
				p.err("invalid character in string literal")
				return nil, false
			}
			if p.inRange(0x80, 0xff) {
				unsupported("json: non-ASCII symbolic byte")
			}
			sb.byte(c)
			p.p++
		}
	}
}

func (p *jparser) fixUTF8(s any) any {
	if cs, ok := s.(string); ok && !utf8.ValidString(cs) {
		return strings.ToValidUTF8(cs, "\uFFFD")
	}
	return s
}

func (p *jparser) escape(sb *SB) bool {
	if p.p >= len(p.b) {
		p.err("unexpected end of JSON input")
		return false
	}
	for _, e := range []struct{ c, v byte }{{'"', '"'}, {'\\', '\\'}, {'/', '/'}, {'b', '\b'}, {'f', '\f'}, {'n', '\n'}, {'r', '\r'}, {'t', '\t'}} {
		if p.is(e.c) {
			sb.byte(int64(e.v))
			p.p++
			return true
		}
	}
	if !p.is('u') {
		p.err("invalid character in string escape code")
		return false
	}
	p.p++
	h, ok := p.hex4()
	if !ok {
		return false
	}
	if h >= 0xD800 && h < 0xE000 {
		// surrogates
		if h < 0xDC00 && p.p+6 <= len(p.b) && p.b[p.p] == int64('\\') && p.b[p.p+1] == int64('u') {
			save := p.p
			p.p += 2
			l, ok := p.hex4()
			if !ok {
				return false
			}
			if l >= 0xDC00 && l < 0xE000 {
				sb.str(string(rune((h-0xD800)<<10 | (l - 0xDC00) + 0x10000)))
				return true
			}
			p.p = save
		}
		sb.str("\uFFFD")
		return true
	}
	sb.str(string(rune(h)))
	return true
}

func (p *jparser) hex4() (int, bool) {
	n := 0
	for k := 0; k < 4; k++ {
		if p.p >= len(p.b) {
			p.err("unexpected end of JSON input")
			return 0, false
		}
		c, ok := p.b[p.p].(int64)
		if !ok {
			c = p.r.concretize(p.b[p.p]) & 0xff
		}
		switch {
		case c >= '0' && c <= '9':
			n = n*16 + int(c-'0')
		case c >= 'a' && c <= 'f':
			n = n*16 + int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			n = n*16 + int(c-'A') + 10
		default:
			p.err("invalid character in \\u hexadecimal character escape")
			return 0, false
		}
		p.p++
	}
	return n, true
}

// ---------- decoding ----------

type jdec struct {
	r         *Run
	b         []any
	saved     Iface
	useNumber bool
	disallow  bool
}

// jsonUnmarshal models json.Unmarshal.
func (r *Run) jsonUnmarshal(data []any, v Iface) Iface {
	p := &jparser{r: r, b: data}
	n := p.parseTop()
	if n == nil {
		return r.syntaxError(p.errMsg, p.errOff)
	}
	d := &jdec{r: r, b: data}
	return d.decodeTop(n, v)
}

func (d *jdec) decodeTop(n *jnode, v Iface) Iface {
	if v.t == nil || v.t.kind != kPointer || v.v.(*any) == nil {
		return d.r.jsonError("InvalidUnmarshalError", map[string]any{"Type": d.r.w.eng.rtypeIface(v.t)})
	}
	et := d.r.w.eng.elem(v.t)
	if d.tryUnmarshaler(n, v.t, v.v.(*any)) {
		return d.saved
	}
	d.value(n, et, v.v.(*any))
	return d.saved
}

func (d *jdec) save(err Iface) {
	if d.saved.t == nil && err.t != nil {
		d.saved = err
	}
}

func (d *jdec) mismatch(what string, t *TI, n *jnode) {
	if d.saved.t == nil {
		d.save(d.r.jsonError("UnmarshalTypeError", map[string]any{"Value": what, "Type": d.r.w.eng.rtypeIface(t), "Offset": int64(n.j)}))
	}
}

// tryUnmarshaler calls UnmarshalJSON/UnmarshalText of pointer type pt if implemented.
func (d *jdec) tryUnmarshaler(n *jnode, pt *TI, addr *any) bool {
	r := d.r
	e := r.w.eng
	if e.implements(pt, e.jsonUnmarshalerTI) {
		raw := append(Slice(nil), d.b[n.i:n.j]...)
		res := r.invokeOn(r.curr, Iface{pt, addr}, nil, "UnmarshalJSON", []any{raw}).(Iface)
		d.save(res)
		return true
	}
	if e.implements(pt, e.textUnmarshalerTI) {
		switch n.kind {
		case jStr:
			res := r.invokeOn(r.curr, Iface{pt, addr}, nil, "UnmarshalText", []any{Slice(strBytes(n.s))}).(Iface)
			d.save(res)
		case jNull:
		default:
			d.mismatch(jkindName(n), pt, n)
		}
		return true
	}
	return false
}

func jkindName(n *jnode) string {
	switch n.kind {
	case jNull:
		return "null"
	case jBool:
		return "bool"
	case jNum:
		return "number"
	case jStr:
		return "string"
	case jArr:
		return "array"
	}
	return "object"
}

// value decodes n into *addr of type t.
func (d *jdec) value(n *jnode, t *TI, addr *any) {
	r := d.r
	e := r.w.eng
	// indirect
	if t.kind == kPointer {
		if n.kind == jNull {
			*addr = (*any)(nil)
			return
		}
		p := (*addr).(*any)
		if p == nil {
			p = new(any)
			*p = zero(e.elem(t).t)
			*addr = p
		}
		if d.tryUnmarshaler(n, t, p) {
			return
		}
		d.value(n, e.elem(t), p)
		return
	}
	if t.kind == kInterface && n.kind != jNull {
		// A non-nil pointer inside an interface is decoded into.
		if i := (*addr).(Iface); i.t != nil && i.t.kind == kPointer && i.v.(*any) != nil {
			if !(n.kind == jNull) {
				if d.tryUnmarshaler(n, i.t, i.v.(*any)) {
					return
				}
				d.value(n, e.elem(i.t), i.v.(*any))
				return
			}
		}
	}
	if t.kind != kInterface {
		if _, named := t.t.(*types.Named); named {
			if d.tryUnmarshaler(n, e.ptrTo(t), addr) {
				return
			}
		}
	}
	switch n.kind {
	case jNull:
		switch t.kind {
		case kInterface, kMap, kSlice:
			*addr = zero(t.t)
		}
	case jBool:
		switch t.kind {
		case kBool:
			*addr = n.b
		case kInterface:
			if t.u.(*types.Interface).NumMethods() == 0 {
				*addr = Iface{e.types.of(types.Typ[types.Bool]), n.b}
			} else {
				d.mismatch("bool", t, n)
			}
		default:
			d.mismatch("bool", t, n)
		}
	case jStr:
		switch t.kind {
		case kString:
			*addr = n.s
		case kSlice:
			if e.elem(t).kind != kUint8 {
				d.mismatch("string", t, n)
				return
			}
			s, ok := n.s.(string)
			if !ok {
				unsupported("base64 decode of symbolic string")
			}
			bs, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				d.save(e.newError(err.Error()))
				return
			}
			*addr = Slice(strBytes(string(bs)))
		case kInterface:
			if t.u.(*types.Interface).NumMethods() == 0 {
				*addr = Iface{e.types.of(types.Typ[types.String]), n.s}
			} else {
				d.mismatch("string", t, n)
			}
		default:
			d.mismatch("string", t, n)
		}
	case jNum:
		d.number(n, t, addr)
	case jArr:
		switch t.kind {
		case kInterface:
			if t.u.(*types.Interface).NumMethods() != 0 {
				d.mismatch("array", t, n)
				return
			}
			*addr = d.generic(n)
		case kSlice:
			et := e.elem(t)
			old := (*addr).(Slice)
			s := make(Slice, 0, len(n.arr))
			for i, x := range n.arr {
				var slot any
				if i < len(old) {
					slot = old[i]
				} else if i < cap(old) {
					slot = old[:cap(old)][i]
				} else {
					slot = zero(et.t)
				}
				if i >= len(old) {
					slot = zero(et.t)
				}
				s = append(s, copyVal(slot))
				d.value(x, et, &s[i])
			}
			*addr = s
		case kArray:
			a := (*addr).(Array)
			et := e.elem(t)
			for i := range a {
				if i < len(n.arr) {
					d.value(n.arr[i], et, &a[i])
				} else {
					storeTo(&a[i], zero(et.t))
				}
			}
		default:
			d.mismatch("array", t, n)
		}
	case jObj:
		switch t.kind {
		case kInterface:
			if t.u.(*types.Interface).NumMethods() != 0 {
				d.mismatch("object", t, n)
				return
			}
			*addr = d.generic(n)
		case kMap:
			mt := t.u.(*types.Map)
			kt := e.types.of(mt.Key())
			et := e.elem(t)
			m := (*addr).(*Map)
			if m == nil {
				m = newMap()
				*addr = m
			}
			for _, mem := range n.obj {
				var slot any = zero(et.t)
				d.value(mem.v, et, &slot)
				var k any
				switch {
				case kt.kind == kString && !e.implements(e.ptrTo(kt), e.textUnmarshalerTI):
					k = mem.k
				case kindInt(kt.kind) && !e.implements(e.ptrTo(kt), e.textUnmarshalerTI):
					ks, ok := mem.k.(string)
					if !ok {
						unsupported("symbolic int map key")
					}
					x, err := strconv.ParseInt(ks, 10, 64)
					if err != nil {
						d.mismatch("number "+ks, kt, n)
						continue
					}
					k = x
				case e.implements(e.ptrTo(kt), e.textUnmarshalerTI):
					var ks any = zero(kt.t)
					res := r.invokeOn(r.curr, Iface{e.ptrTo(kt), &ks}, nil, "UnmarshalText", []any{Slice(strBytes(mem.k))}).(Iface)
					if res.t != nil {
						d.save(res)
						continue
					}
					k = ks
				default:
					d.mismatch("object", t, n)
					return
				}
				r.mapSet(m, k, slot)
			}
		case kStruct:
			s, ok := (*addr).(Struct)
			if !ok {
				unsupported("json decode into " + t.t.String())
			}
			jf := r.jsonFieldsOf(t)
			for _, mem := range n.obj {
				f := d.findField(jf, mem.k)
				if f == nil {
					if d.disallow {
						d.save(e.newError(strConcat(strConcat("json: unknown field \"", mem.k), "\"")))
					}
					continue
				}
				cur, curT := s, t
				var slot *any
				bad := false
				for k, ix := range f.index {
					if k > 0 {
						ft := e.types.of(curT.u.(*types.Struct).Field(f.index[k-1]).Type())
						if ft.kind == kPointer {
							p := (*slot).(*any)
							if p == nil {
								p = new(any)
								*p = zero(e.elem(ft).t)
								*slot = p
							}
							cur, curT = (*p).(Struct), e.elem(ft)
						} else {
							cur, curT = (*slot).(Struct), ft
						}
					}
					slot = &cur[ix]
				}
				if bad {
					continue
				}
				if f.quoted {
					unsupported("json ,string decoding")
				}
				d.value(mem.v, f.t, slot)
			}
		default:
			d.mismatch("object", t, n)
		}
	}
}

// findField matches a key exactly, then case-insensitively.
func (d *jdec) findField(jf *jsonFields, k any) *jField {
	r := d.r
	if s, ok := k.(string); ok {
		if i, ok := jf.by[s]; ok {
			return &jf.list[i]
		}
		for i := range jf.list {
			if strings.EqualFold(jf.list[i].name, s) {
				return &jf.list[i]
			}
		}
		return nil
	}
	for i := range jf.list {
		if r.branchAny(r.strEq(jf.list[i].name, k)) {
			return &jf.list[i]
		}
	}
	for i := range jf.list {
		if r.branchAny(r.equalFold(jf.list[i].name, k)) {
			return &jf.list[i]
		}
	}
	return nil
}

func (d *jdec) number(n *jnode, t *TI, addr *any) {
	r := d.r
	e := r.w.eng
	switch {
	case t.kind == kInterface:
		if t.u.(*types.Interface).NumMethods() != 0 {
			d.mismatch("number", t, n)
			return
		}
		*addr = d.generic(n)
	case kindInt(t.kind):
		x, ok := r.parseIntSym(n.s, t.kind)
		if !ok {
			d.mismatch("number", t, n)
			return
		}
		*addr = x
	case t.kind == kFloat32 || t.kind == kFloat64:
		s, ok := n.s.(string)
		if !ok {
			unsupported("symbolic number to float")
		}
		bits := 64
		if t.kind == kFloat32 {
			bits = 32
		}
		f, err := strconv.ParseFloat(s, bits)
		if err != nil {
			d.mismatch("number "+s, t, n)
			return
		}
		*addr = f
	case t.kind == kString:
		if nm, ok := t.t.(*types.Named); ok && nm.Obj().Name() == "Number" && nm.Obj().Pkg().Path() == "encoding/json" {
			*addr = n.s
			return
		}
		d.mismatch("number", t, n)
	default:
		d.mismatch("number", t, n)
	}
	_ = e
}

// parseIntSym parses decimal integer text.
func (r *Run) parseIntSym(s any, k int) (any, bool) {
	if cs, ok := s.(string); ok {
		if kindSigned(k) {
			n, err := strconv.ParseInt(cs, 10, int(kindWidth(k)))
			return n, err == nil
		}
		n, err := strconv.ParseUint(cs, 10, int(kindWidth(k)))
		return int64(n), err == nil
	}
	ss := s.(*SymStr)
	tt := r.tt
	i := 0
	neg := false
	if c, ok := ss.b[0].(int64); ok && c == '-' {
		neg = true
		i = 1
	}
	if len(ss.b)-i > 18 {
		unsupported("parse of long symbolic number")
	}
	acc := tt.BV(0, 64)
	for ; i < len(ss.b); i++ {
		c := r.byteTerm(ss.b[i])
		isd := tt.And(tt.Bin(OUle, tt.BV('0', 8), c), tt.Bin(OUle, c, tt.BV('9', 8)))
		if !r.branch(isd) {
			return nil, false
		}
		acc = tt.Bin(OAdd, tt.Bin(OMul, acc, tt.BV(10, 64)), tt.Resize(tt.Bin(OSub, c, tt.BV('0', 8)), 64, false))
	}
	if neg {
		acc = tt.Un(ONeg, acc)
	}
	w := kindWidth(k)
	if w < 64 {
		if !r.branch(tt.Eq(tt.Resize(tt.Resize(acc, w, kindSigned(k)), 64, kindSigned(k)), acc)) {
			return nil, false
		}
	}
	return r.fromTerm(tt.Resize(acc, w, true), k), true
}

// generic decodes n into interface{}.
func (d *jdec) generic(n *jnode) Iface {
	e := d.r.w.eng
	switch n.kind {
	case jNull:
		return Iface{}
	case jBool:
		return Iface{e.types.of(types.Typ[types.Bool]), n.b}
	case jStr:
		return Iface{e.types.of(types.Typ[types.String]), n.s}
	case jNum:
		if d.useNumber {
			return Iface{e.jsonType("Number"), n.s}
		}
		s, ok := n.s.(string)
		if !ok {
			unsupported("symbolic number to interface{}")
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			d.mismatch("number "+s, e.types.of(types.Typ[types.Float64]), n)
		}
		return Iface{e.types.of(types.Typ[types.Float64]), f}
	case jArr:
		s := make(Slice, len(n.arr))
		for i, x := range n.arr {
			s[i] = d.generic(x)
		}
		return Iface{e.anySliceTI, s}
	case jObj:
		m := newMap()
		for _, mem := range n.obj {
			d.r.mapSet(m, mem.k, d.generic(mem.v))
		}
		return Iface{e.anyMapTI, m}
	}
	panic("generic")
}

// ---------- Decoder ----------

type jDecoder struct {
	data      []any
	p         int
	rd        Iface
	loaded    bool
	stack     []byte // token state: '[' '{'
	state     int    // 0 top, 1 array start, 2 array value, 3 array comma, 4 obj start, 5 obj key, 6 obj colon, 7 obj value, 8 obj comma
	states    []int
	useNumber bool
	disallow  bool
}

func (r *Run) readAll(rd Iface) []any {
	var out []any
	for i := 0; i < 10000; i++ {
		buf := make(Slice, 4096)
		for j := range buf {
			buf[j] = int64(0)
		}
		res := r.invokeOn(r.curr, rd, nil, "Read", []any{buf}).(Tuple)
		n := r.concretize(res[0])
		out = append(out, buf[:n]...)
		if res[1].(Iface).t != nil {
			return out
		}
	}
	unsupported("readAll")
	return nil
}

func (r *Run) eof() Iface {
	p := r.w.eng.prog.ImportedPackage("io")
	g := p.Var("EOF")
	return (*r.global(g)).(Iface)
}

func (dc *jDecoder) load(r *Run) {
	if !dc.loaded {
		dc.data = r.readAll(dc.rd)
		dc.loaded = true
	}
}

func (dc *jDecoder) tokenEnd() {
	switch dc.state {
	case 1, 2:
		dc.state = 3
	case 7:
		dc.state = 8
	}
}

func (dc *jDecoder) token(r *Run) Tuple {
	e := r.w.eng
	dc.load(r)
	p := &jparser{r: r, b: dc.data, p: dc.p}
	fail := func(msg string) Tuple { return Tuple{Iface{}, r.syntaxError(msg, p.p+1)} }
	delim := func(c byte) Tuple {
		dc.p = p.p
		return Tuple{Iface{e.jsonType("Delim"), int64(c)}, Iface{}}
	}
	for {
		p.ws()
		if p.p >= len(dc.data) {
			if dc.state == 0 && len(dc.stack) == 0 {
				return Tuple{Iface{}, r.eof()}
			}
			ue := e.prog.ImportedPackage("io").Var("ErrUnexpectedEOF")
			return Tuple{Iface{}, (*r.global(ue)).(Iface)}
		}
		switch {
		case p.is('['):
			if !(dc.state == 0 || dc.state == 1 || dc.state == 2 || dc.state == 7) {
				return fail("invalid character '['")
			}
			p.p++
			dc.states = append(dc.states, dc.state)
			dc.state = 1
			return delim('[')
		case p.is(']'):
			if dc.state != 1 && dc.state != 3 {
				return fail("invalid character ']'")
			}
			p.p++
			dc.state = dc.states[len(dc.states)-1]
			dc.states = dc.states[:len(dc.states)-1]
			dc.tokenEnd()
			return delim(']')
		case p.is('{'):
			if !(dc.state == 0 || dc.state == 1 || dc.state == 2 || dc.state == 7) {
				return fail("invalid character '{'")
			}
			p.p++
			dc.states = append(dc.states, dc.state)
			dc.state = 4
			return delim('{')
		case p.is('}'):
			if dc.state != 4 && dc.state != 8 {
				return fail("invalid character '}'")
			}
			p.p++
			dc.state = dc.states[len(dc.states)-1]
			dc.states = dc.states[:len(dc.states)-1]
			dc.tokenEnd()
			return delim('}')
		case p.is(':'):
			if dc.state != 6 {
				return fail("invalid character ':'")
			}
			p.p++
			dc.state = 7
			continue
		case p.is(','):
			if dc.state == 3 {
				p.p++
				dc.state = 2
				continue
			}
			if dc.state == 8 {
				p.p++
				dc.state = 5
				continue
			}
			return fail("invalid character ','")
		case p.is('"') && (dc.state == 4 || dc.state == 5):
			s, ok := p.str()
			if !ok {
				return fail(p.errMsg)
			}
			dc.p = p.p
			dc.state = 6
			return Tuple{Iface{e.types.of(types.Typ[types.String]), s}, Iface{}}
		}
		if !(dc.state == 0 || dc.state == 1 || dc.state == 2 || dc.state == 7) {
			return fail("invalid character")
		}
		n := p.value(0)
		if n == nil {
			return fail(p.errMsg)
		}
		dc.p = p.p
		dc.tokenEnd()
		d := &jdec{r: r, b: dc.data, useNumber: dc.useNumber}
		v := d.generic(n)
		return Tuple{v, d.saved}
	}
}

func (dc *jDecoder) decode(r *Run, v Iface) Iface {
	dc.load(r)
	p := &jparser{r: r, b: dc.data, p: dc.p}
	// skip separators in token mode
	for {
		p.ws()
		if dc.state == 3 && p.is(',') {
			p.p++
			dc.state = 2
			continue
		}
		if dc.state == 6 && p.is(':') {
			p.p++
			dc.state = 7
			continue
		}
		break
	}
	if p.p >= len(dc.data) {
		return r.eof()
	}
	n := p.value(0)
	if n == nil {
		return r.syntaxError(p.errMsg, p.errOff)
	}
	dc.p = p.p
	dc.tokenEnd()
	d := &jdec{r: r, b: dc.data, useNumber: dc.useNumber, disallow: dc.disallow}
	return d.decodeTop(n, v)
}

// indent re-formats JSON.
func (r *Run) jsonIndent(txt []any, prefix, indent string) []any {
	var sb SB
	depth := 0
	inStr := false
	nl := func() {
		sb.str("\n" + prefix)
		for i := 0; i < depth; i++ {
			sb.str(indent)
		}
	}
	needIndent := false
	for i := 0; i < len(txt); i++ {
		c, ok := txt[i].(int64)
		if !ok {
			if needIndent && !inStr {
				needIndent = false
				depth++
				nl()
			}
			sb.byte(txt[i])
			continue
		}
		if inStr {
			sb.byte(c)
			if c == '\\' {
				i++
				sb.byte(txt[i])
			} else if c == '"' {
				inStr = false
			}
			continue
		}
		if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
			continue
		}
		if needIndent && c != ']' && c != '}' {
			needIndent = false
			depth++
			nl()
		}
		switch c {
		case '{', '[':
			needIndent = true
			sb.byte(c)
		case ',':
			sb.byte(c)
			nl()
		case ':':
			sb.str(": ")
		case '}', ']':
			if needIndent {
				needIndent = false
			} else {
				depth--
				nl()
			}
			sb.byte(c)
		default:
			if c == '"' {
				inStr = true
			}
			sb.byte(c)
		}
	}
	return sb.bytes()
}

func init() {
	reg := func(name string, f func(r *Run, fr *Frame, a []any) any) { intrinsics[name] = f }
	reg("encoding/json.Marshal", func(r *Run, fr *Frame, a []any) any {
		b, err := r.jsonMarshal(a[0].(Iface))
		if err.t != nil {
			return Tuple{Slice(nil), err}
		}
		return Tuple{Slice(b), Iface{}}
	})
	reg("encoding/json.MarshalIndent", func(r *Run, fr *Frame, a []any) any {
		b, err := r.jsonMarshal(a[0].(Iface))
		if err.t != nil {
			return Tuple{Slice(nil), err}
		}
		return Tuple{Slice(r.jsonIndent(b, a[1].(string), a[2].(string))), Iface{}}
	})
	reg("encoding/json.Unmarshal", func(r *Run, fr *Frame, a []any) any {
		return r.jsonUnmarshal(a[0].(Slice), a[1].(Iface))
	})
	reg("encoding/json.Valid", func(r *Run, fr *Frame, a []any) any {
		p := &jparser{r: r, b: a[0].(Slice)}
		return p.parseTop() != nil
	})
	bufAppend := func(r *Run, buf any, b []any) {
		fn := r.w.eng.prog.ImportedPackage("bytes")
		f := r.w.eng.method(r.w.eng.ptrTo(r.w.eng.types.of(fn.Pkg.Scope().Lookup("Buffer").Type())), nil, "Write")
		r.callFn(r.curr, r.w.compile(f), []any{buf, Slice(b)}, nil)
	}
	reg("encoding/json.Compact", func(r *Run, fr *Frame, a []any) any {
		src := a[1].(Slice)
		p := &jparser{r: r, b: src}
		if p.parseTop() == nil {
			return r.syntaxError(p.errMsg, p.errOff)
		}
		je := &jenc{r: r}
		je.compact(src)
		bufAppend(r, a[0], je.sb.bytes())
		return Iface{}
	})
	reg("encoding/json.Indent", func(r *Run, fr *Frame, a []any) any {
		src := a[1].(Slice)
		p := &jparser{r: r, b: src}
		if p.parseTop() == nil {
			return r.syntaxError(p.errMsg, p.errOff)
		}
		bufAppend(r, a[0], r.jsonIndent(src, a[2].(string), a[3].(string)))
		return Iface{}
	})
	reg("encoding/json.NewDecoder", func(r *Run, fr *Frame, a []any) any {
		p := new(any)
		*p = &Opaque{&jDecoder{rd: a[0].(Iface)}}
		return p
	})
	dec := func(v any) *jDecoder { return (*v.(*any)).(*Opaque).x.(*jDecoder) }
	reg("(*encoding/json.Decoder).Token", func(r *Run, fr *Frame, a []any) any { return dec(a[0]).token(r) })
	reg("(*encoding/json.Decoder).Decode", func(r *Run, fr *Frame, a []any) any { return dec(a[0]).decode(r, a[1].(Iface)) })
	reg("(*encoding/json.Decoder).UseNumber", func(r *Run, fr *Frame, a []any) any { dec(a[0]).useNumber = true; return nil })
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(r *Run, fr *Frame, a []any) any { dec(a[0]).disallow = true; return nil })
	reg("(*encoding/json.Decoder).More", func(r *Run, fr *Frame, a []any) any {
		dc := dec(a[0])
		dc.load(r)
		p := &jparser{r: r, b: dc.data, p: dc.p}
		p.ws()
		if p.p < len(p.b) && p.is(',') {
			return true
		}
		return p.p < len(p.b) && !p.is(']') && !p.is('}')
	})
	reg("(*encoding/json.Decoder).InputOffset", func(r *Run, fr *Frame, a []any) any { return int64(dec(a[0]).p) })
	type jEncoder struct {
		w      Iface
		noHTML bool
		pre    string
		ind    string
	}
	enc := func(v any) *jEncoder { return (*v.(*any)).(*Opaque).x.(*jEncoder) }
	reg("encoding/json.NewEncoder", func(r *Run, fr *Frame, a []any) any {
		p := new(any)
		*p = &Opaque{&jEncoder{w: a[0].(Iface)}}
		return p
	})
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(r *Run, fr *Frame, a []any) any {
		enc(a[0]).noHTML = !r.branchAny(a[1])
		return nil
	})
	reg("(*encoding/json.Encoder).SetIndent", func(r *Run, fr *Frame, a []any) any {
		enc(a[0]).pre, enc(a[0]).ind = a[1].(string), a[2].(string)
		return nil
	})
	reg("(*encoding/json.Encoder).Encode", func(r *Run, fr *Frame, a []any) any {
		e := enc(a[0])
		b, err := r.jsonMarshalWith(&jenc{r: r, html: !e.noHTML}, a[1].(Iface))
		if err.t != nil {
			return err
		}
		if e.pre != "" || e.ind != "" {
			b = r.jsonIndent(b, e.pre, e.ind)
		}
		b = append(b, int64('\n'))
		return r.invokeOn(fr, e.w, nil, "Write", []any{Slice(b)}).(Tuple)[1]
	})
}
