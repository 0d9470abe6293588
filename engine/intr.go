package main

import (
	"go/types"
	"math"
	"math/bits"
	"net/http"
	"path"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(r *Run, fr *Frame, a []any) any

func reg(name string, f intrFn) { intrinsics[name] = f }

// str requires a concrete string.
func (r *Run) conc(v any, what string) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			switch x := x.(type) {
			case int64:
				b[i] = byte(x)
			case *Term:
				if x.isConst() {
					b[i] = byte(x.n)
					continue
				}
				unsupported("symbolic string in " + what)
			}
		}
		return string(b)
	}
	unsupported("conc " + what)
	return ""
}

// foldRunes replaces runes beyond ASCII with the first rune of their case folding orbit, symbolic bytes are ASCII.
func foldRunes(s any) any {
	fold := func(c string) string {
		return strings.Map(func(r rune) rune {
			if r < 0x80 {
				return r
			}
			low := r
			for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
				if f < low {
					low = f
				}
			}
			return low
		}, c)
	}
	if c, ok := s.(string); ok {
		return fold(c)
	}
	ss := s.(*SymStr)
	var out []any
	for i := 0; i < len(ss.b); i++ {
		if x, ok := ss.b[i].(int64); !ok || x < 0x80 {
			out = append(out, ss.b[i])
			continue
		}
		var bs []byte
		for ; i < len(ss.b); i++ {
			x, ok := ss.b[i].(int64)
			if !ok || x < 0x80 {
				break
			}
			bs = append(bs, byte(x))
		}
		i--
		for _, c := range []byte(fold(string(bs))) {
			out = append(out, int64(c))
		}
	}
	return mkStr(out)
}

// mapASCII maps letters to upper or lower case.
func (r *Run) mapASCII(s any, upper bool) any {
	if c, ok := s.(string); ok {
		if upper {
			return strings.ToUpper(c)
		}
		return strings.ToLower(c)
	}
	ss := s.(*SymStr)
	// concrete non-ASCII parts are mapped natively piecewise
	out := make([]any, 0, len(ss.b))
	lo, hi, delta := byte('A'), byte('Z'), byte(32)
	if upper {
		lo, hi, delta = 'a', 'z', 0xe0
	}
	for i := 0; i < len(ss.b); i++ {
		switch x := ss.b[i].(type) {
		case int64:
			if x >= 0x80 {
				j := i
				var bs []byte
				for j < len(ss.b) {
					c, ok := ss.b[j].(int64)
					if !ok || c < 0x80 {
						break
					}
					bs = append(bs, byte(c))
					j++
				}
				m := strings.ToLower(string(bs))
				if upper {
					m = strings.ToUpper(string(bs))
				}
				for _, c := range []byte(m) {
					out = append(out, int64(c))
				}
				i = j - 1
				continue
			}
			if byte(x) >= lo && byte(x) <= hi {
				x = int64(byte(x) + delta)
			}
			out = append(out, x)
		case *Term:
			if !r.branch(r.tt.Bin(OUlt, x, r.tt.BV(0x80, 8))) {
				unsupported("non-ASCII symbolic byte in case mapping")
			}
			in := r.tt.And(r.tt.Bin(OUle, r.tt.BV(uint64(lo), 8), x), r.tt.Bin(OUle, x, r.tt.BV(uint64(hi), 8)))
			out = append(out, r.tt.Ite(in, r.tt.Bin(OAdd, x, r.tt.BV(uint64(delta), 8)), x))
		}
	}
	return mkStr(out)
}

func (r *Run) strIndexOf(s, sub any) int64 {
	if a, ok := s.(string); ok {
		if b, ok := sub.(string); ok {
			return int64(strings.Index(a, b))
		}
	}
	n, m := strLen(s), strLen(sub)
	for i := 0; i+m <= n; i++ {
		if r.branchAny(r.strEq(strSlice(s, i, i+m), sub)) {
			return int64(i)
		}
	}
	return -1
}

func (r *Run) byteEq(a any, c any) any {
	x, ok1 := a.(int64)
	y, ok2 := c.(int64)
	if ok1 && ok2 {
		return byte(x) == byte(y)
	}
	return r.tb(r.tt.Eq(r.byteTerm(a), r.byteTerm(c)))
}

func toTuple(xs ...any) any { return Tuple(xs) }

func sliceOf(xs []any) Slice { return Slice(xs) }

func nop(r *Run, fr *Frame, a []any) any { return nil }

func (r *Run) numError(fn string, s any, err string) Iface {
	e := r.w.eng
	p := e.prog.ImportedPackage("strconv")
	t := e.types.of(p.Pkg.Scope().Lookup("NumError").Type())
	v := new(any)
	*v = Struct{fn, s, e.newError(err)}
	return Iface{e.ptrTo(t), v}
}

func init() {
	// ----- harness primitives -----
	reg(symPath+".Bool", func(r *Run, fr *Frame, a []any) any { return r.symBool(a[0].(string)) })
	reg(symPath+".Int", func(r *Run, fr *Frame, a []any) any {
		return r.symInt(a[0].(string), r.concretize(a[1]), r.concretize(a[2]))
	})
	reg(symPath+".Choice", func(r *Run, fr *Frame, a []any) any {
		return r.symChoice(a[0].(string), int(r.concretize(a[1])))
	})
	reg(symPath+".Str", func(r *Run, fr *Frame, a []any) any {
		return r.symStr(a[0].(string), int(r.concretize(a[1])), a[2].(string))
	})
	reg(symPath+".Float", func(r *Run, fr *Frame, a []any) any { return r.symFloat(a[0].(string)) })
	reg(symPath+".Assume", func(r *Run, fr *Frame, a []any) any { r.assume(a[0]); return nil })
	reg(symPath+".Assert", func(r *Run, fr *Frame, a []any) any {
		r.assert(a[0], r.conc(a[1], "assert message"))
		return nil
	})
	reg(symPath+".Cover", func(r *Run, fr *Frame, a []any) any { r.covers[r.conc(a[0], "cover")] = true; return nil })
	reg(symPath+".Observe", func(r *Run, fr *Frame, a []any) any {
		r.obsVals = append(r.obsVals, obsVal{a[0].(string), a[1]})
		return nil
	})
	reg(symPath+".MapOrder", func(r *Run, fr *Frame, a []any) any {
		n := int(r.concretize(a[0]))
		r.mapOrder = n > 0
		r.mapOrdN = n
		return nil
	})
	reg(symPath+".Tier", func(r *Run, fr *Frame, a []any) any { return int64(r.w.cfg.tier) })
	reg(symPath+".And", func(r *Run, fr *Frame, a []any) any {
		var res any = true
		for _, x := range a[0].(Slice) {
			res = r.and(res, x)
		}
		return res
	})
	reg(symPath+".Or", func(r *Run, fr *Frame, a []any) any {
		var res any = false
		for _, x := range a[0].(Slice) {
			res = r.or(res, x)
		}
		return res
	})
	reg(symPath+".Not", func(r *Run, fr *Frame, a []any) any { return r.not(a[0]) })
	reg(symPath+".Implies", func(r *Run, fr *Frame, a []any) any { return r.or(r.not(a[0]), a[1]) })
	reg(symPath+".Iff", func(r *Run, fr *Frame, a []any) any {
		return r.or(r.and(a[0], a[1]), r.and(r.not(a[0]), r.not(a[1])))
	})

	// ----- strings -----
	reg("strings.ToLower", func(r *Run, fr *Frame, a []any) any { return r.mapASCII(a[0], false) })
	reg("strings.ToUpper", func(r *Run, fr *Frame, a []any) any { return r.mapASCII(a[0], true) })
	reg("strings.TrimSpace", func(r *Run, fr *Frame, a []any) any {
		if c, ok := a[0].(string); ok {
			return strings.TrimSpace(c)
		}
		isSpace := func(b any) bool {
			x, ok := b.(*Term)
			if !ok {
				if b.(int64) >= 0x80 {
					unsupported("non-ASCII byte in TrimSpace of a symbolic string")
				}
				return strings.IndexByte(" \t\n\v\f\r", byte(b.(int64))) >= 0
			}
			if !r.branch(r.tt.Bin(OUlt, x, r.tt.BV(0x80, 8))) {
				unsupported("non-ASCII symbolic byte in TrimSpace")
			}
			c := r.tt.And(r.tt.Bin(OUle, r.tt.BV('\t', 8), x), r.tt.Bin(OUle, x, r.tt.BV('\r', 8)))
			return r.branch(r.tt.Or(c, r.tt.Eq(x, r.tt.BV(' ', 8))))
		}
		bs := a[0].(*SymStr).b
		i, j := 0, len(bs)
		for i < j && isSpace(bs[i]) {
			i++
		}
		for i < j && isSpace(bs[j-1]) {
			j--
		}
		return strSlice(a[0], i, j)
	})
	reg("strings.Index", func(r *Run, fr *Frame, a []any) any { return r.strIndexOf(a[0], a[1]) })
	reg("strings.LastIndex", func(r *Run, fr *Frame, a []any) any {
		n, m := strLen(a[0]), strLen(a[1])
		for i := n - m; i >= 0; i-- {
			if r.branchAny(r.strEq(strSlice(a[0], i, i+m), a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	})
	reg("strings.Count", func(r *Run, fr *Frame, a []any) any {
		m := strLen(a[1])
		if m == 0 {
			return int64(strLen(a[0]) + 1) // ASCII
		}
		n := int64(0)
		s := a[0]
		for {
			i := r.strIndexOf(s, a[1])
			if i < 0 {
				return n
			}
			n++
			s = strSlice(s, int(i)+m, strLen(s))
		}
	})
	reg("strings.EqualFold", func(r *Run, fr *Frame, a []any) any {
		x, ok := a[0].(string)
		y, ok2 := a[1].(string)
		if ok && ok2 {
			return strings.EqualFold(x, y)
		}
		return r.strEq(r.mapASCII(foldRunes(a[0]), false), r.mapASCII(foldRunes(a[1]), false))
	})
	reg("strings.Compare", func(r *Run, fr *Frame, a []any) any {
		if r.branchAny(r.strEq(a[0], a[1])) {
			return int64(0)
		}
		if r.branchAny(r.strLess(a[0], a[1])) {
			return int64(-1)
		}
		return int64(1)
	})
	reg("strings.Clone", func(r *Run, fr *Frame, a []any) any { return a[0] })
	reg("(*strings.Builder).copyCheck", nop)
	reg("strings.IndexByte", func(r *Run, fr *Frame, a []any) any {
		for i := 0; i < strLen(a[0]); i++ {
			if r.branchAny(r.byteEq(strByte(a[0], i), a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	})
	intrinsics["internal/bytealg.IndexByteString"] = intrinsics["strings.IndexByte"]
	reg("internal/bytealg.IndexByte", func(r *Run, fr *Frame, a []any) any {
		for i, b := range a[0].(Slice) {
			if r.branchAny(r.byteEq(b, a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	})
	reg("internal/bytealg.LastIndexByteString", func(r *Run, fr *Frame, a []any) any {
		for i := strLen(a[0]) - 1; i >= 0; i-- {
			if r.branchAny(r.byteEq(strByte(a[0], i), a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	})
	reg("internal/bytealg.CountString", func(r *Run, fr *Frame, a []any) any {
		n := int64(0)
		for i := 0; i < strLen(a[0]); i++ {
			if r.branchAny(r.byteEq(strByte(a[0], i), a[1])) {
				n++
			}
		}
		return n
	})
	reg("internal/bytealg.Count", func(r *Run, fr *Frame, a []any) any {
		n := int64(0)
		for _, b := range a[0].(Slice) {
			if r.branchAny(r.byteEq(b, a[1])) {
				n++
			}
		}
		return n
	})
	reg("internal/bytealg.IndexString", func(r *Run, fr *Frame, a []any) any { return r.strIndexOf(a[0], a[1]) })
	reg("internal/bytealg.MakeNoZero", func(r *Run, fr *Frame, a []any) any {
		n := r.concretize(a[0])
		s := make(Slice, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	})
	reg("internal/bytealg.Equal", func(r *Run, fr *Frame, a []any) any { return r.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice))) })
	reg("bytes.Equal", func(r *Run, fr *Frame, a []any) any { return r.strEq(mkStr(a[0].(Slice)), mkStr(a[1].(Slice))) })
	reg("bytes.Index", func(r *Run, fr *Frame, a []any) any {
		return r.strIndexOf(mkStr(a[0].(Slice)), mkStr(a[1].(Slice)))
	})
	reg("bytes.Compare", func(r *Run, fr *Frame, a []any) any {
		x, y := mkStr(a[0].(Slice)), mkStr(a[1].(Slice))
		if r.branchAny(r.strEq(x, y)) {
			return int64(0)
		}
		if r.branchAny(r.strLess(x, y)) {
			return int64(-1)
		}
		return int64(1)
	})
	intrinsics["internal/bytealg.Compare"] = intrinsics["bytes.Compare"]
	reg("internal/bytealg.CompareString", intrinsics["strings.Compare"])
	reg("runtime.cmpstring", intrinsics["strings.Compare"])
	reg("internal/stringslite.Clone", func(r *Run, fr *Frame, a []any) any { return a[0] })
	reg("internal/stringslite.Index", func(r *Run, fr *Frame, a []any) any { return r.strIndexOf(a[0], a[1]) })

	// ----- unicode -----
	uni := func(name string, f func(rune) bool, asc func(c byte) bool) {
		reg("unicode."+name, func(r *Run, fr *Frame, a []any) any {
			switch v := a[0].(type) {
			case int64:
				return f(rune(v))
			case *Term:
				if !r.branch(r.tt.Bin(OUlt, v, r.tt.BV(0x80, 32))) {
					unsupported("unicode class of non-ASCII symbolic rune")
				}
				var res any = false
				i := 0
				for i < 128 {
					if !f(rune(i)) {
						i++
						continue
					}
					j := i
					for j+1 < 128 && f(rune(j+1)) {
						j++
					}
					res = r.or(res, r.tb(r.tt.And(r.tt.Bin(OUle, r.tt.BV(uint64(i), 32), v), r.tt.Bin(OUle, v, r.tt.BV(uint64(j), 32)))))
					i = j + 1
				}
				return res
			}
			unsupported("unicode." + name)
			return nil
		})
	}
	uni("IsLetter", unicode.IsLetter, nil)
	uni("IsDigit", unicode.IsDigit, nil)
	uni("IsNumber", unicode.IsNumber, nil)
	uni("IsSpace", unicode.IsSpace, nil)
	uni("IsUpper", unicode.IsUpper, nil)
	uni("IsLower", unicode.IsLower, nil)
	uni("IsPunct", unicode.IsPunct, nil)
	uni("IsPrint", unicode.IsPrint, nil)
	uni("IsGraphic", unicode.IsGraphic, nil)
	uni("IsControl", unicode.IsControl, nil)
	umap := func(name string, f func(rune) rune, upper bool) {
		reg("unicode."+name, func(r *Run, fr *Frame, a []any) any {
			switch v := a[0].(type) {
			case int64:
				return int64(f(rune(v)))
			case *Term:
				if !r.branch(r.tt.Bin(OUlt, v, r.tt.BV(0x80, 32))) {
					unsupported("case of non-ASCII symbolic rune")
				}
				lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
				if upper {
					lo, hi, d = 'a', 'z', mask(32)-31
				}
				in := r.tt.And(r.tt.Bin(OUle, r.tt.BV(lo, 32), v), r.tt.Bin(OUle, v, r.tt.BV(hi, 32)))
				return r.tt.Ite(in, r.tt.Bin(OAdd, v, r.tt.BV(d, 32)), v)
			}
			return nil
		})
	}
	umap("ToLower", unicode.ToLower, false)
	umap("ToUpper", unicode.ToUpper, true)
	umap("ToTitle", unicode.ToTitle, true)
	reg("unicode/utf8.DecodeRuneInString", func(r *Run, fr *Frame, a []any) any {
		if strLen(a[0]) == 0 {
			return Tuple{int64(utf8.RuneError), int64(0)}
		}
		c, w := r.decodeRune(a[0], 0)
		return Tuple{c, int64(w)}
	})
	reg("unicode/utf8.DecodeRune", func(r *Run, fr *Frame, a []any) any {
		s := mkStr(a[0].(Slice))
		if strLen(s) == 0 {
			return Tuple{int64(utf8.RuneError), int64(0)}
		}
		c, w := r.decodeRune(s, 0)
		return Tuple{c, int64(w)}
	})
	valid := func(r *Run, s any) any {
		for i := 0; i < strLen(s); {
			c, w := r.decodeRune(s, i)
			if n, ok := c.(int64); ok && n == utf8.RuneError && w == 1 {
				return false
			}
			i += w
		}
		return true
	}
	reg("unicode/utf8.ValidString", func(r *Run, fr *Frame, a []any) any { return valid(r, a[0]) })
	reg("unicode/utf8.Valid", func(r *Run, fr *Frame, a []any) any { return valid(r, mkStr(a[0].(Slice))) })
	reg("unicode/utf8.RuneCountInString", func(r *Run, fr *Frame, a []any) any {
		n := int64(0)
		for i := 0; i < strLen(a[0]); {
			_, w := r.decodeRune(a[0], i)
			i += w
			n++
		}
		return n
	})

	// ----- strconv -----
	reg("strconv.Itoa", func(r *Run, fr *Frame, a []any) any { return r.itoa(a[0], kInt) })
	reg("strconv.FormatInt", func(r *Run, fr *Frame, a []any) any {
		if n, ok := a[0].(int64); ok {
			return strconv.FormatInt(n, int(r.concretize(a[1])))
		}
		if r.concretize(a[1]) != 10 {
			unsupported("FormatInt base")
		}
		return r.itoa(a[0], kInt64)
	})
	reg("strconv.FormatUint", func(r *Run, fr *Frame, a []any) any {
		if n, ok := a[0].(int64); ok {
			return strconv.FormatUint(uint64(n), int(r.concretize(a[1])))
		}
		return r.itoa(a[0], kUint64)
	})
	reg("strconv.FormatFloat", func(r *Run, fr *Frame, a []any) any {
		if f, ok := a[0].(float64); ok {
			return strconv.FormatFloat(f, byte(a[1].(int64)), int(a[2].(int64)), int(a[3].(int64)))
		}
		unsupported("FormatFloat of symbolic float")
		return nil
	})
	reg("strconv.Quote", func(r *Run, fr *Frame, a []any) any {
		if s, ok := a[0].(string); ok {
			return strconv.Quote(s)
		}
		return strConcat(strConcat("\"", a[0]), "\"")
	})
	reg("strconv.ParseFloat", func(r *Run, fr *Frame, a []any) any {
		s, ok := a[0].(string)
		if !ok {
			return r.parseFloatSym(a[0])
		}
		f, err := strconv.ParseFloat(s, int(r.concretize(a[1])))
		if err != nil {
			return Tuple{f, r.numError("ParseFloat", s, err.(*strconv.NumError).Err.Error())}
		}
		return Tuple{f, Iface{}}
	})
	reg("strconv.ParseInt", func(r *Run, fr *Frame, a []any) any {
		base, bs := int(r.concretize(a[1])), int(r.concretize(a[2]))
		s, ok := a[0].(string)
		if !ok {
			if base != 10 || bs != 64 && bs != 0 {
				unsupported("ParseInt of symbolic string")
			}
			// sign handled by forking
			v, ok := r.parseIntSym(a[0], kInt64)
			if !ok {
				return Tuple{int64(0), r.numError("ParseInt", a[0], "invalid syntax")}
			}
			return Tuple{v, Iface{}}
		}
		n, err := strconv.ParseInt(s, base, bs)
		if err != nil {
			return Tuple{n, r.numError("ParseInt", s, err.(*strconv.NumError).Err.Error())}
		}
		return Tuple{n, Iface{}}
	})
	reg("strconv.ParseUint", func(r *Run, fr *Frame, a []any) any {
		base, bs := int(r.concretize(a[1])), int(r.concretize(a[2]))
		s, ok := a[0].(string)
		if !ok {
			v, ok := r.parseIntSym(a[0], kUint64)
			if !ok {
				return Tuple{int64(0), r.numError("ParseUint", a[0], "invalid syntax")}
			}
			return Tuple{v, Iface{}}
		}
		n, err := strconv.ParseUint(s, base, bs)
		if err != nil {
			return Tuple{int64(n), r.numError("ParseUint", s, err.(*strconv.NumError).Err.Error())}
		}
		return Tuple{int64(n), Iface{}}
	})
	reg("strconv.Atoi", func(r *Run, fr *Frame, a []any) any {
		s, ok := a[0].(string)
		if !ok {
			v, ok := r.parseIntSym(a[0], kInt)
			if !ok {
				return Tuple{int64(0), r.numError("Atoi", a[0], "invalid syntax")}
			}
			return Tuple{v, Iface{}}
		}
		n, err := strconv.Atoi(s)
		if err != nil {
			return Tuple{int64(n), r.numError("Atoi", s, err.(*strconv.NumError).Err.Error())}
		}
		return Tuple{int64(n), Iface{}}
	})

	// ----- net/http, path -----
	reg("net/http.StatusText", func(r *Run, fr *Frame, a []any) any {
		if n, ok := a[0].(int64); ok {
			return http.StatusText(int(n))
		}
		return http.StatusText(int(r.concretize(a[0])))
	})
	reg("net/http.CanonicalHeaderKey", func(r *Run, fr *Frame, a []any) any {
		if s, ok := a[0].(string); ok {
			return http.CanonicalHeaderKey(s)
		}
		return r.canonHeader(a[0])
	})
	intrinsics["net/textproto.CanonicalMIMEHeaderKey"] = intrinsics["net/http.CanonicalHeaderKey"]
	reg("path.Base", func(r *Run, fr *Frame, a []any) any {
		if s, ok := a[0].(string); ok {
			return path.Base(s)
		}
		unsupported("path.Base of symbolic string")
		return nil
	})
	reg("time.Parse", func(r *Run, fr *Frame, a []any) any { unsupported("time.Parse"); return nil })
	reg("time.Now", func(r *Run, fr *Frame, a []any) any { unsupported("time.Now"); return nil })
	_ = time.Now

	// ----- math -----
	reg("math.Float64bits", func(r *Run, fr *Frame, a []any) any {
		if f, ok := a[0].(float64); ok {
			return int64(math.Float64bits(f))
		}
		unsupported("Float64bits of symbolic float")
		return nil
	})
	reg("math.Float64frombits", func(r *Run, fr *Frame, a []any) any {
		return math.Float64frombits(uint64(r.concretize(a[0])))
	})
	reg("math.Float32bits", func(r *Run, fr *Frame, a []any) any {
		return int64(math.Float32bits(float32(a[0].(float64))))
	})
	reg("math.Float32frombits", func(r *Run, fr *Frame, a []any) any {
		return float64(math.Float32frombits(uint32(r.concretize(a[0]))))
	})
	for name, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc,
		"Abs": math.Abs, "Sqrt": math.Sqrt, "Log10": math.Log10, "Log": math.Log} {
		f, name := f, name
		reg("math."+name, func(r *Run, fr *Frame, a []any) any {
			if x, ok := a[0].(float64); ok {
				return f(x)
			}
			unsupported("math." + name + " of symbolic float")
			return nil
		})
	}
	reg("math.IsNaN", func(r *Run, fr *Frame, a []any) any {
		if x, ok := a[0].(float64); ok {
			return math.IsNaN(x)
		}
		return false // symbolic floats are finite
	})
	reg("math.IsInf", func(r *Run, fr *Frame, a []any) any {
		if x, ok := a[0].(float64); ok {
			return math.IsInf(x, int(a[1].(int64)))
		}
		return false
	})
	reg("math/bits.Len64", func(r *Run, fr *Frame, a []any) any { return int64(bits.Len64(uint64(r.concretize(a[0])))) })
	reg("math/bits.Len", func(r *Run, fr *Frame, a []any) any { return int64(bits.Len64(uint64(r.concretize(a[0])))) })
	reg("math/bits.TrailingZeros64", func(r *Run, fr *Frame, a []any) any {
		return int64(bits.TrailingZeros64(uint64(r.concretize(a[0]))))
	})

	// ----- sync, atomic, runtime -----
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "internal/race.Acquire", "internal/race.Release",
		"internal/race.Enable", "internal/race.Disable", "internal/race.ReleaseMerge", "runtime.SetBlockProfileRate",
		"internal/godebug.registerMetric", "internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault"} {
		reg(n, nop)
	}
	reg("(*sync.Mutex).TryLock", func(r *Run, fr *Frame, a []any) any { return true })
	reg("(*sync.Once).Do", func(r *Run, fr *Frame, a []any) any {
		p := a[0].(*any)
		if r.onceDone(p) {
			return nil
		}
		r.callVal(fr, a[1].(*FuncVal), nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(r *Run, fr *Frame, a []any) any {
		p := (*a[0].(*any)).(Struct)
		f, _ := p[len(p)-1].(*FuncVal)
		if f == nil {
			return Iface{}
		}
		return r.callVal(fr, f, nil)
	})
	reg("(*sync.Pool).Put", nop)
	type smap struct{ m *Map }
	sm := func(r *Run, v any) *Map {
		p := v.(*any)
		st := (*p).(Struct)
		if o, ok := st[0].(*smap); ok {
			return o.m
		}
		o := &smap{newMap()}
		st[0] = o
		return o.m
	}
	reg("(*sync.Map).Load", func(r *Run, fr *Frame, a []any) any {
		if e := r.mapFind(sm(r, a[0]), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(r *Run, fr *Frame, a []any) any { r.mapSet(sm(r, a[0]), a[1], a[2]); return nil })
	reg("(*sync.Map).LoadOrStore", func(r *Run, fr *Frame, a []any) any {
		m := sm(r, a[0])
		if e := r.mapFind(m, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		r.mapSet(m, a[1], a[2])
		return Tuple{a[2], false}
	})
	ld := func(r *Run, fr *Frame, a []any) any {
		p := a[0].(*any)
		if p == nil {
			r.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return *p
	}
	st := func(r *Run, fr *Frame, a []any) any { *a[0].(*any) = a[1]; return nil }
	add := func(k int) intrFn {
		return func(r *Run, fr *Frame, a []any) any {
			p := a[0].(*any)
			*p = norm((*p).(int64)+a[1].(int64), k)
			return *p
		}
	}
	cas := func(r *Run, fr *Frame, a []any) any {
		p := a[0].(*any)
		if r.branchAny(r.eqVal(*p, a[1])) {
			*p = a[2]
			return true
		}
		return false
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+t, ld)
		reg("sync/atomic.Store"+t, st)
		reg("sync/atomic.CompareAndSwap"+t, cas)
		reg("sync/atomic.Swap"+t, func(r *Run, fr *Frame, a []any) any {
			p := a[0].(*any)
			o := *p
			*p = a[1]
			return o
		})
	}
	reg("sync/atomic.AddInt32", add(kInt32))
	reg("sync/atomic.AddInt64", add(kInt64))
	reg("sync/atomic.AddUint32", add(kUint32))
	reg("sync/atomic.AddUint64", add(kUint64))
	reg("(*sync/atomic.Value).Load", func(r *Run, fr *Frame, a []any) any {
		return (*a[0].(*any)).(Struct)[0]
	})
	reg("(*sync/atomic.Value).Store", func(r *Run, fr *Frame, a []any) any {
		(*a[0].(*any)).(Struct)[0] = a[1]
		return nil
	})
	reg("(*sync/atomic.Pointer).Load", func(r *Run, fr *Frame, a []any) any {
		s := (*a[0].(*any)).(Struct)
		return s[len(s)-1]
	})
	reg("(*sync/atomic.Pointer).Store", func(r *Run, fr *Frame, a []any) any {
		s := (*a[0].(*any)).(Struct)
		s[len(s)-1] = a[1]
		return nil
	})
	reg("internal/abi.NoEscape", func(r *Run, fr *Frame, a []any) any { return a[0] })
	reg("(*internal/godebug.Setting).Value", func(r *Run, fr *Frame, a []any) any { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/godebug.New", func(r *Run, fr *Frame, a []any) any {
		p := new(any)
		*p = Struct{"", int64(0), (*any)(nil)}
		return p
	})
	reg("os.Getenv", func(r *Run, fr *Frame, a []any) any { return "" })
	reg("runtime.Caller", func(r *Run, fr *Frame, a []any) any {
		return Tuple{int64(0), "", int64(0), false}
	})

	// ----- reflectlite / sort -----
	reg("internal/reflectlite.ValueOf", func(r *Run, fr *Frame, a []any) any { return r.rvOf(a[0].(Iface)) })
	reg("(internal/reflectlite.Value).Len", func(r *Run, fr *Frame, a []any) any { return int64(lenOf(rvArg(a[0]).get())) })
	swapper := func(r *Run, fr *Frame, a []any) any {
		s, _ := a[0].(Iface).v.(Slice)
		return &FuncVal{name: "swapper", native: func(r *Run, b []any) any {
			i, j := r.concretize(b[0]), r.concretize(b[1])
			s[i], s[j] = s[j], s[i]
			return nil
		}}
	}
	reg("internal/reflectlite.Swapper", swapper)
	reg("reflect.Swapper", swapper)
	reg("sort.Slice", func(r *Run, fr *Frame, a []any) any {
		s, _ := a[0].(Iface).v.(Slice)
		r.insertionSort(fr, s, a[1].(*FuncVal))
		return nil
	})
	intrinsics["sort.SliceStable"] = intrinsics["sort.Slice"]
	reg("sort.Strings", func(r *Run, fr *Frame, a []any) any { r.sortVals(a[0].(Slice)); return nil })
	reg("sort.Ints", func(r *Run, fr *Frame, a []any) any { r.sortInts(a[0].(Slice)); return nil })
	reg("slices.Sort", func(r *Run, fr *Frame, a []any) any {
		s := a[0].(Slice)
		if len(s) == 0 {
			return nil
		}
		switch s[0].(type) {
		case string, *SymStr:
			r.sortVals(s)
		case int64, *Term:
			r.sortInts(s)
		default:
			unsupported("slices.Sort element")
		}
		return nil
	})

	// ----- context: executed from source; TypeName helpers only -----
	reg("context.contextName", func(r *Run, fr *Frame, a []any) any { return "ctx" })
}

func (r *Run) onceDone(p *any) bool {
	st := (*p).(Struct)
	// The last field that is a marker records completion.
	if len(st) == 0 {
		return false
	}
	if _, ok := st[0].(*onceMark); ok {
		return true
	}
	st[0] = &onceMark{}
	return false
}

type onceMark struct{}

// insertionSort sorts with a user-supplied less(i, j) by swapping in place (stable).
func (r *Run) insertionSort(fr *Frame, s Slice, less *FuncVal) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !r.branchAny(r.callVal(fr, less, []any{int64(j), int64(j - 1)})) {
				break
			}
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (r *Run) sortVals(s Slice) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !r.branchAny(r.strLess(s[j], s[j-1])) {
				break
			}
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (r *Run) sortInts(s Slice) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			a, b := s[j], s[j-1]
			x, ok1 := a.(int64)
			y, ok2 := b.(int64)
			var lt any
			if ok1 && ok2 {
				lt = x < y
			} else {
				lt = r.tb(r.tt.Bin(OSlt, r.intTerm(a, 64), r.intTerm(b, 64)))
			}
			if !r.branchAny(lt) {
				break
			}
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// canonHeader models textproto.CanonicalMIMEHeaderKey.
func (r *Run) canonHeader(s any) any {
	n := strLen(s)
	if n == 0 {
		return s
	}
	valid := func(c int) bool {
		return c < 128 && (c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.ContainsRune("!#$%&'*+-.^_`|~", rune(c)))
	}
	var d domain
	for c := 0; c < 256; c++ {
		if valid(c) {
			d.bits[c>>6] |= 1 << (uint(c) & 63)
		}
	}
	for i := 0; i < n; i++ {
		switch b := strByte(s, i).(type) {
		case int64:
			if !valid(int(b)) {
				return s
			}
		case *Term:
			if !r.branch(r.domTerm(b, d)) {
				return s
			}
		}
	}
	out := make([]any, n)
	upper := true
	for i := 0; i < n; i++ {
		b := strByte(s, i)
		out[i] = strByte(r.mapASCII(mkStr([]any{b}), upper), 0)
		upper = r.branchAny(r.byteEq(b, int64('-')))
	}
	return mkStr(out)
}

var _ types.Type
var _ ssa.Value

// parseFloatSym decides symbolic strings without digits, and single digits: any other decimal number has a digit.
func (r *Run) parseFloatSym(s any) any {
	tt := r.tt
	n := strLen(s)
	syntax := func() any { return Tuple{0.0, r.numError("ParseFloat", s, "invalid syntax")} }
	digits := tt.Bool(false)
	for i := 0; i < n; i++ {
		c := r.byteTerm(strByte(s, i))
		digits = tt.Or(digits, tt.And(tt.Bin(OUle, tt.BV('0', 8), c), tt.Bin(OUle, c, tt.BV('9', 8))))
	}
	if r.branch(digits) {
		if n == 1 {
			for d := 0; d < 10; d++ {
				if r.branchAny(r.strEq(s, string(rune('0'+d)))) {
					return Tuple{float64(d), Iface{}}
				}
			}
		}
		unsupported("ParseFloat of symbolic string")
	}
	if n == 3 || n == 4 || n == 8 || n == 9 {
		// inf, infinity and nan, with a sign
		special := tt.Bool(false)
		c := r.byteTerm(strByte(s, n-1))
		for _, x := range "fFnNyY" {
			special = tt.Or(special, tt.Eq(c, tt.BV(uint64(x), 8)))
		}
		if r.branch(special) {
			unsupported("ParseFloat of symbolic string")
		}
	}
	return syntax()
}
