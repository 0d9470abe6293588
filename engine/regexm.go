package main

import (
	"regexp"
	"regexp/syntax"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type rex struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
}

var rexCache sync.Map

func getRex(pat string) (*rex, error) {
	if v, ok := rexCache.Load(pat); ok {
		return v.(*rex), nil
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil, err
	}
	sre, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	n := sre.MaxCap()
	prog, err := syntax.Compile(sre.Simplify())
	if err != nil {
		return nil, err
	}
	x := &rex{re, prog, n}
	rexCache.Store(pat, x)
	return x, nil
}

type rkey struct {
	pc  uint32
	pos int
}

// matchAt finds the leftmost-first match of prog starting exactly at pos.
func (x *rex) matchAt(r *Run, s any, pos int) []int {
	caps := make([]int, 2*(x.ncap+1))
	for i := range caps {
		caps[i] = -1
	}
	visited := map[rkey]bool{}
	n := strLen(s)
	var try func(pc uint32, p int) bool
	try = func(pc uint32, p int) bool {
		for {
			k := rkey{pc, p}
			if visited[k] {
				return false
			}
			visited[k] = true
			in := &x.prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				if try(in.Out, p) {
					return true
				}
				pc = in.Arg
			case syntax.InstCapture:
				old := -1
				if int(in.Arg) < len(caps) {
					old = caps[in.Arg]
					caps[in.Arg] = p
				}
				if try(in.Out, p) {
					return true
				}
				if int(in.Arg) < len(caps) {
					caps[in.Arg] = old
				}
				return false
			case syntax.InstEmptyWidth:
				if !r.emptyOK(syntax.EmptyOp(in.Arg), s, p) {
					return false
				}
				pc = in.Out
			case syntax.InstMatch:
				caps[0], caps[1] = pos, p
				return true
			case syntax.InstFail:
				return false
			case syntax.InstNop:
				pc = in.Out
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if p >= n {
					return false
				}
				w, ok := r.runeStep(in, s, p)
				if !ok {
					return false
				}
				p += w
				pc = in.Out
			default:
				unsupported("regexp instruction")
			}
		}
	}
	if try(uint32(x.prog.Start), pos) {
		return caps
	}
	return nil
}

func (r *Run) runeStep(in *syntax.Inst, s any, p int) (int, bool) {
	switch b := strByte(s, p).(type) {
	case int64:
		c, w := r.decodeRune(s, p)
		return w, in.MatchRune(rune(c.(int64)))
	case *Term:
		var d domain
		for c := 0; c < 128; c++ {
			if in.MatchRune(rune(c)) {
				d.bits[c>>6] |= 1 << (uint(c) & 63)
			}
		}
		if !r.branch(r.tt.Bin(OUlt, b, r.tt.BV(0x80, 8))) {
			unsupported("non-ASCII symbolic byte in regexp")
		}
		return 1, r.branch(r.domTerm(b, d))
	}
	panic("runeStep")
}

func (r *Run) isWord(s any, i int) bool {
	if i < 0 || i >= strLen(s) {
		return false
	}
	d := expandAlphabet("a-zA-Z0-9_")
	switch b := strByte(s, i).(type) {
	case int64:
		return b < 128 && d.has(int(b))
	case *Term:
		return r.branch(r.domTerm(b, d))
	}
	return false
}

func (r *Run) emptyOK(op syntax.EmptyOp, s any, p int) bool {
	n := strLen(s)
	if op&syntax.EmptyBeginText != 0 && p != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && p != n {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && p != 0 && !r.branchAny(r.byteEq(strByte(s, p-1), int64('\n'))) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && p != n && !r.branchAny(r.byteEq(strByte(s, p), int64('\n'))) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := r.isWord(s, p-1) != r.isWord(s, p)
		if op&syntax.EmptyWordBoundary != 0 && !b || op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}

// find returns the leftmost match at or after pos.
func (x *rex) find(r *Run, s any, pos int) []int {
	for p := pos; p <= strLen(s); p++ {
		if c := x.matchAt(r, s, p); c != nil {
			return c
		}
	}
	return nil
}

// all returns successive non-overlapping matches as regexp.allMatches does.
func (x *rex) all(r *Run, s any, n int) [][]int {
	var out [][]int
	end := strLen(s)
	pos, prev := 0, -1
	for (n < 0 || len(out) < n) && pos <= end {
		m := x.find(r, s, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prev {
				accept = false
			}
			if pos < end {
				_, w := r.decodeRune(s, pos)
				pos += w
			} else {
				pos = end + 1
			}
		} else {
			pos = m[1]
		}
		prev = m[1]
		if accept {
			out = append(out, m)
		}
	}
	return out
}

// replaceAll follows regexp.(*Regexp).replaceAll.
func (x *rex) replaceAll(r *Run, s any, repl func(m []int) any) any {
	last, search := 0, 0
	var sb SB
	n := strLen(s)
	for search <= n {
		m := x.find(r, s, search)
		if m == nil {
			break
		}
		sb.val(strSlice(s, last, m[0]))
		if m[1] > last || m[0] == 0 {
			sb.val(repl(m))
		}
		last = m[1]
		w := 0
		if search < n {
			_, w = r.decodeRune(s, search)
		}
		if search+w > m[1] {
			search += w
		} else if search+1 > m[1] {
			search++
		} else {
			search = m[1]
		}
	}
	sb.val(strSlice(s, last, n))
	return sb.result()
}

func sub(s any, m []int, i int) any {
	if 2*i >= len(m) || m[2*i] < 0 {
		return ""
	}
	return strSlice(s, m[2*i], m[2*i+1])
}

func init() {
	stdInits["regexp"] = nil2
	stdInits["regexp/syntax"] = nil2
	get := func(v any) *rex {
		p := v.(*any)
		o, ok := (*p).(*Opaque)
		if !ok {
			unsupported("regexp value")
		}
		return o.x.(*rex)
	}
	comp := func(r *Run, v any) (*any, error) {
		x, err := getRex(r.conc(v, "regexp"))
		if err != nil {
			return nil, err
		}
		p := new(any)
		*p = &Opaque{x}
		return p, nil
	}
	reg("regexp.MustCompile", func(r *Run, fr *Frame, a []any) any {
		p, err := comp(r, a[0])
		if err != nil {
			r.goPanicStr("regexp: Compile: " + err.Error())
		}
		return p
	})
	reg("regexp.Compile", func(r *Run, fr *Frame, a []any) any {
		p, err := comp(r, a[0])
		if err != nil {
			return Tuple{(*any)(nil), r.w.eng.newError(err.Error())}
		}
		return Tuple{p, Iface{}}
	})
	reg("regexp.MatchString", func(r *Run, fr *Frame, a []any) any {
		p, err := comp(r, a[0])
		if err != nil {
			return Tuple{false, r.w.eng.newError(err.Error())}
		}
		return Tuple{get(p).find(r, a[1], 0) != nil, Iface{}}
	})
	reg("regexp.QuoteMeta", func(r *Run, fr *Frame, a []any) any { return regexp.QuoteMeta(r.conc(a[0], "QuoteMeta")) })
	m := func(name string, f intrFn) { reg("(*regexp.Regexp)."+name, f) }
	m("String", func(r *Run, fr *Frame, a []any) any { return get(a[0]).re.String() })
	m("NumSubexp", func(r *Run, fr *Frame, a []any) any { return int64(get(a[0]).re.NumSubexp()) })
	m("SubexpNames", func(r *Run, fr *Frame, a []any) any {
		var out Slice
		for _, n := range get(a[0]).re.SubexpNames() {
			out = append(out, n)
		}
		return out
	})
	m("MatchString", func(r *Run, fr *Frame, a []any) any {
		if s, ok := a[1].(string); ok {
			return get(a[0]).re.MatchString(s)
		}
		return get(a[0]).find(r, a[1], 0) != nil
	})
	m("Match", func(r *Run, fr *Frame, a []any) any {
		return get(a[0]).find(r, mkStr(a[1].(Slice)), 0) != nil
	})
	m("FindString", func(r *Run, fr *Frame, a []any) any { return sub(a[1], get(a[0]).find(r, a[1], 0), 0) })
	loc := func(m []int, n int) Slice {
		if m == nil {
			return nil
		}
		var out Slice
		for i := 0; i < n; i++ {
			out = append(out, int64(m[i]))
		}
		return out
	}
	m("FindStringIndex", func(r *Run, fr *Frame, a []any) any { return loc(get(a[0]).find(r, a[1], 0), 2) })
	m("FindStringSubmatchIndex", func(r *Run, fr *Frame, a []any) any {
		x := get(a[0])
		return loc(x.find(r, a[1], 0), 2*(x.ncap+1))
	})
	subs := func(x *rex, s any, m []int) Slice {
		if m == nil {
			return nil
		}
		var out Slice
		for i := 0; i <= x.ncap; i++ {
			out = append(out, sub(s, m, i))
		}
		return out
	}
	m("FindStringSubmatch", func(r *Run, fr *Frame, a []any) any {
		x := get(a[0])
		return subs(x, a[1], x.find(r, a[1], 0))
	})
	m("FindAllStringSubmatch", func(r *Run, fr *Frame, a []any) any {
		x := get(a[0])
		var out Slice
		for _, mm := range x.all(r, a[1], int(r.concretize(a[2]))) {
			out = append(out, subs(x, a[1], mm))
		}
		return out
	})
	m("FindAllString", func(r *Run, fr *Frame, a []any) any {
		x := get(a[0])
		var out Slice
		for _, mm := range x.all(r, a[1], int(r.concretize(a[2]))) {
			out = append(out, sub(a[1], mm, 0))
		}
		return out
	})
	m("FindAllStringIndex", func(r *Run, fr *Frame, a []any) any {
		x := get(a[0])
		var out Slice
		for _, mm := range x.all(r, a[1], int(r.concretize(a[2]))) {
			out = append(out, loc(mm, 2))
		}
		return out
	})
	m("FindAllStringSubmatchIndex", func(r *Run, fr *Frame, a []any) any {
		x := get(a[0])
		var out Slice
		for _, mm := range x.all(r, a[1], int(r.concretize(a[2]))) {
			out = append(out, loc(mm, 2*(x.ncap+1)))
		}
		return out
	})
	m("ReplaceAllStringFunc", func(r *Run, fr *Frame, a []any) any {
		return get(a[0]).replaceAll(r, a[1], func(mm []int) any {
			return r.callVal(fr, a[2].(*FuncVal), []any{sub(a[1], mm, 0)})
		})
	})
	m("ReplaceAllLiteralString", func(r *Run, fr *Frame, a []any) any {
		return get(a[0]).replaceAll(r, a[1], func(mm []int) any { return a[2] })
	})
	m("ReplaceAllString", func(r *Run, fr *Frame, a []any) any {
		x := get(a[0])
		repl := r.conc(a[2], "regexp replacement")
		if s, ok := a[1].(string); ok {
			return x.re.ReplaceAllString(s, repl)
		}
		return x.replaceAll(r, a[1], func(mm []int) any { return x.expand(repl, a[1], mm) })
	})
	m("ReplaceAll", func(r *Run, fr *Frame, a []any) any {
		x := get(a[0])
		src := mkStr(a[1].(Slice))
		repl := r.conc(mkStr(a[2].(Slice)), "regexp replacement")
		return Slice(strBytes(x.replaceAll(r, src, func(mm []int) any { return x.expand(repl, src, mm) })))
	})
	m("Find", func(r *Run, fr *Frame, a []any) any {
		src := mkStr(a[1].(Slice))
		mm := get(a[0]).find(r, src, 0)
		if mm == nil {
			return Slice(nil)
		}
		return Slice(strBytes(sub(src, mm, 0)))
	})
	m("Split", func(r *Run, fr *Frame, a []any) any {
		x := get(a[0])
		s := r.conc(a[1], "regexp split")
		var out Slice
		for _, p := range x.re.Split(s, int(r.concretize(a[2]))) {
			out = append(out, p)
		}
		return out
	})
}

func nil2(r *Run, pkg *ssa.Package) {}

// expand performs $-substitution of a replacement template.
func (x *rex) expand(t string, s any, m []int) any {
	var sb SB
	for i := 0; i < len(t); {
		if t[i] != '$' || i+1 >= len(t) {
			sb.str(string(t[i]))
			i++
			continue
		}
		if t[i+1] == '$' {
			sb.str("$")
			i += 2
			continue
		}
		j := i + 1
		brace := t[j] == '{'
		if brace {
			j++
		}
		k := j
		for k < len(t) && (t[k] == '_' || t[k] >= '0' && t[k] <= '9' || t[k] >= 'a' && t[k] <= 'z' || t[k] >= 'A' && t[k] <= 'Z') {
			k++
		}
		name := t[j:k]
		if name == "" || brace && (k >= len(t) || t[k] != '}') {
			sb.str("$")
			i++
			continue
		}
		idx := -1
		num := true
		n := 0
		for _, c := range name {
			if c < '0' || c > '9' {
				num = false
				break
			}
			n = n*10 + int(c-'0')
		}
		if num {
			idx = n
		} else {
			for q, nm := range x.re.SubexpNames() {
				if nm == name {
					idx = q
				}
			}
		}
		if idx >= 0 && idx <= x.ncap {
			sb.val(sub(s, m, idx))
		}
		if brace {
			k++
		}
		i = k
	}
	return sb.result()
}
