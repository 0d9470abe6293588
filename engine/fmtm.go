package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// fmtValue appends the rendering of an operand under verb.
func (r *Run) fmtValue(sb *SB, verb byte, flags string, arg Iface, depth int) {
	if arg.t == nil {
		switch verb {
		case 'v':
			sb.str("<nil>")
		case 'T':
			sb.str("<nil>")
		default:
			sb.str("%!" + string(verb) + "(<nil>)")
		}
		return
	}
	if verb == 'T' {
		sb.str(rtString(arg.t.t))
		return
	}
	if verb == 'p' {
		sb.str("0xc000012345")
		return
	}
	e := r.w.eng
	if (verb == 'v' || verb == 's' || verb == 'q' || verb == 'w') && !strings.Contains(flags, "#") {
		if ti, ok := arg.v.(*TI); ok {
			r.fmtStr(sb, verb, rtString(ti.t))
			return
		}
		if rv, ok := arg.v.(RV); ok {
			if rv.t == nil {
				sb.str("<invalid reflect.Value>")
				return
			}
			r.fmtValue(sb, verb, flags, Iface{rv.t, rv.get()}, depth)
			return
		}
		for _, m := range []struct {
			it   *TI
			name string
		}{{e.errorTI, "Error"}, {e.stringerTI, "String"}} {
			if e.implements(arg.t, m.it) {
				if p, ok := arg.v.(*any); ok && p == nil {
					sb.str("<nil>")
					return
				}
				r.fmtStr(sb, verb, r.invokeOn(r.curr, arg, nil, m.name, nil))
				return
			}
		}
	}
	r.fmtRaw(sb, verb, flags, arg.t, arg.v, depth)
}

func (r *Run) fmtStr(sb *SB, verb byte, s any) {
	if verb == 'q' {
		if c, ok := s.(string); ok {
			sb.str(strconv.Quote(c))
			return
		}
		sb.str("\"")
		sb.val(s)
		sb.str("\"")
		return
	}
	if verb == 'x' {
		sb.str(fmt.Sprintf("%x", r.conc(s, "%x")))
		return
	}
	sb.val(s)
}

func (r *Run) fmtRaw(sb *SB, verb byte, flags string, t *TI, v any, depth int) {
	e := r.w.eng
	if depth > 8 {
		sb.str("...")
		return
	}
	switch t.kind {
	case kBool:
		if r.branchAny(v) {
			sb.str("true")
		} else {
			sb.str("false")
		}
	case kString:
		r.fmtStr(sb, verb, v)
	case kFloat32, kFloat64:
		f, ok := v.(float64)
		if !ok {
			unsupported("formatting a symbolic float")
		}
		if verb == 'v' {
			verb = 'g'
		}
		sb.str(fmt.Sprintf("%"+flags+string(verb), f))
	case kStruct:
		st := t.u.(*types.Struct)
		sb.str("{")
		for i, x := range v.(Struct) {
			if i > 0 {
				sb.str(" ")
			}
			if strings.ContainsAny(flags, "+#") {
				sb.str(st.Field(i).Name() + ":")
			}
			r.fmtElem(sb, verb, flags, e.types.of(st.Field(i).Type()), x, depth+1)
		}
		sb.str("}")
	case kMap:
		m, _ := v.(*Map)
		mt := t.u.(*types.Map)
		sb.str("map[")
		if m != nil {
			kt, et := e.types.of(mt.Key()), e.types.of(mt.Elem())
			es := m.live()
			if kt.kind == kString {
				es = r.sortedEntries(m, func(x *mapEntry) any { return x.k })
			}
			for i, x := range es {
				if i > 0 {
					sb.str(" ")
				}
				r.fmtElem(sb, verb, flags, kt, x.k, depth+1)
				sb.str(":")
				r.fmtElem(sb, verb, flags, et, x.v, depth+1)
			}
		}
		sb.str("]")
	case kSlice, kArray:
		var xs []any
		switch v := v.(type) {
		case Slice:
			xs = v
		case Array:
			xs = v
		}
		et := e.elem(t)
		if et.kind == kUint8 && (verb == 's' || verb == 'q') {
			r.fmtStr(sb, verb, mkStr(xs))
			return
		}
		sb.str("[")
		for i, x := range xs {
			if i > 0 {
				sb.str(" ")
			}
			r.fmtElem(sb, verb, flags, et, x, depth+1)
		}
		sb.str("]")
	case kPointer:
		p, _ := v.(*any)
		if p == nil {
			sb.str("<nil>")
			return
		}
		et := e.elem(t)
		switch et.kind {
		case kStruct, kMap, kSlice, kArray:
			if depth == 0 {
				sb.str("&")
				r.fmtRaw(sb, verb, flags, et, *p, depth+1)
				return
			}
		}
		sb.str("0xc000012345")
	case kInterface:
		i, _ := v.(Iface)
		r.fmtValue(sb, verb, flags, i, depth)
	case kFunc, kChan, kUnsafePointer:
		sb.str("0x123456")
	default:
		if kindInt(t.kind) {
			if n, ok := v.(int64); ok {
				if verb == 'v' {
					verb = 'd'
				}
				if kindSigned(t.kind) {
					sb.str(fmt.Sprintf("%"+flags+string(verb), n))
				} else {
					sb.str(fmt.Sprintf("%"+flags+string(verb), uint64(n)))
				}
				return
			}
			if verb == 'c' {
				tm := v.(*Term)
				sb.byte(r.tt.Resize(tm, 8, false))
				return
			}
			sb.val(r.itoa(v, t.kind))
			return
		}
		sb.str("?")
	}
}

func (r *Run) fmtElem(sb *SB, verb byte, flags string, t *TI, v any, depth int) {
	if t.kind == kInterface {
		i, _ := v.(Iface)
		if i.t == nil {
			sb.str("<nil>")
			return
		}
		r.fmtValue(sb, verb, flags, i, depth)
		return
	}
	r.fmtValue(sb, verb, flags, Iface{t, v}, depth)
}

// sprintf models fmt.Sprintf; it returns the operands of %w verbs too.
func (r *Run) sprintf(format string, args Slice) (any, []Iface) {
	var sb SB
	var wrapped []Iface
	ai := 0
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			sb.str(string(c))
			i++
			continue
		}
		i++
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		flags := format[st:i]
		if i >= len(format) {
			sb.str("%!(NOVERB)")
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			sb.str("%")
			continue
		}
		if ai >= len(args) {
			sb.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		arg := args[ai].(Iface)
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, arg)
			verb = 'v'
		}
		r.fmtValue(&sb, verb, flags, arg, 0)
	}
	if ai < len(args) {
		sb.str("%!(EXTRA ")
		for j := ai; j < len(args); j++ {
			if j > ai {
				sb.str(", ")
			}
			a := args[j].(Iface)
			if a.t == nil {
				sb.str("<nil>")
				continue
			}
			sb.str(rtString(a.t.t) + "=")
			r.fmtValue(&sb, 'v', "", a, 0)
		}
		sb.str(")")
	}
	return sb.result(), wrapped
}

func (r *Run) sprint(args Slice, ln bool) any {
	var sb SB
	prevStr := false
	for i, x := range args {
		a := x.(Iface)
		isStr := a.t != nil && a.t.kind == kString
		if i > 0 && (ln || !isStr && !prevStr) {
			sb.str(" ")
		}
		r.fmtValue(&sb, 'v', "", a, 0)
		prevStr = isStr
	}
	if ln {
		sb.str("\n")
	}
	return sb.result()
}

func init() {
	reg("fmt.Sprintf", func(r *Run, fr *Frame, a []any) any {
		s, _ := r.sprintf(r.conc(a[0], "format"), a[1].(Slice))
		return s
	})
	reg("fmt.Sprint", func(r *Run, fr *Frame, a []any) any { return r.sprint(a[0].(Slice), false) })
	reg("fmt.Sprintln", func(r *Run, fr *Frame, a []any) any { return r.sprint(a[0].(Slice), true) })
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf"} {
		reg(n, func(r *Run, fr *Frame, a []any) any { return Tuple{int64(0), Iface{}} })
	}
	reg("fmt.Fprintf", func(r *Run, fr *Frame, a []any) any {
		s, _ := r.sprintf(r.conc(a[1], "format"), a[2].(Slice))
		return r.invokeOn(fr, a[0].(Iface), nil, "Write", []any{Slice(strBytes(s))})
	})
	reg("fmt.Fprint", func(r *Run, fr *Frame, a []any) any {
		return r.invokeOn(fr, a[0].(Iface), nil, "Write", []any{Slice(strBytes(r.sprint(a[1].(Slice), false)))})
	})
	reg("fmt.Fprintln", func(r *Run, fr *Frame, a []any) any {
		return r.invokeOn(fr, a[0].(Iface), nil, "Write", []any{Slice(strBytes(r.sprint(a[1].(Slice), true)))})
	})
	reg("fmt.Errorf", func(r *Run, fr *Frame, a []any) any {
		s, wr := r.sprintf(r.conc(a[0], "format"), a[1].(Slice))
		e := r.w.eng
		pkg := e.prog.ImportedPackage("fmt").Pkg.Scope()
		p := new(any)
		var errs []Iface
		for _, w := range wr {
			if w.t != nil && e.implements(w.t, e.errorTI) {
				errs = append(errs, w)
			}
		}
		switch len(errs) {
		case 0:
			*p = Struct{s}
			if o := pkg.Lookup("fmtError"); o != nil {
				_ = o
			}
			return Iface{e.errorStringTI, p}
		case 1:
			*p = Struct{s, errs[0]}
			return Iface{e.types.of(types.NewPointer(pkg.Lookup("wrapError").Type())), p}
		}
		es := make(Slice, len(errs))
		for i, x := range errs {
			es[i] = x
		}
		*p = Struct{s, es}
		return Iface{e.types.of(types.NewPointer(pkg.Lookup("wrapErrors").Type())), p}
	})
}
