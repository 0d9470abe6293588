package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

func (e *Engine) rtypeIface(t *TI) any {
	if t == nil {
		return Iface{}
	}
	return Iface{e.rtypeTI, t}
}

func (e *Engine) ptrTo(t *TI) *TI {
	t.mu.Lock()
	p := t.ptr
	t.mu.Unlock()
	if p != nil {
		return p
	}
	p = e.types.of(types.NewPointer(t.t))
	t.mu.Lock()
	t.ptr = p
	t.mu.Unlock()
	return p
}

func (e *Engine) elem(t *TI) *TI {
	t.mu.Lock()
	el := t.elem
	t.mu.Unlock()
	if el != nil {
		return el
	}
	var et types.Type
	switch u := t.u.(type) {
	case *types.Pointer:
		et = u.Elem()
	case *types.Slice:
		et = u.Elem()
	case *types.Array:
		et = u.Elem()
	case *types.Map:
		et = u.Elem()
	case *types.Chan:
		et = u.Elem()
	default:
		return nil
	}
	el = e.types.of(et)
	t.mu.Lock()
	t.elem = el
	t.mu.Unlock()
	return el
}

func asTI(v any) *TI {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return nil
	}
	t, ok := i.v.(*TI)
	if !ok {
		unsupported("reflect.Type implementation " + i.t.t.String())
	}
	return t
}

// rtString is reflect.Type.String().
func rtString(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		s := ""
		if t.Obj().Pkg() != nil {
			s = t.Obj().Pkg().Name() + "."
		}
		return s + rtName(t)
	case *types.Basic:
		switch t.Kind() {
		case types.UnsafePointer:
			return "unsafe.Pointer"
		}
		return types.Typ[t.Kind()].Name()
	case *types.Pointer:
		return "*" + rtString(t.Elem())
	case *types.Slice:
		return "[]" + rtString(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), rtString(t.Elem()))
	case *types.Map:
		return "map[" + rtString(t.Key()) + "]" + rtString(t.Elem())
	case *types.Chan:
		return "chan " + rtString(t.Elem())
	case *types.Struct:
		if t.NumFields() == 0 {
			return "struct {}"
		}
		var sb strings.Builder
		sb.WriteString("struct {")
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			if i > 0 {
				sb.WriteByte(';')
			}
			sb.WriteByte(' ')
			if !f.Embedded() {
				sb.WriteString(f.Name())
				sb.WriteByte(' ')
			}
			sb.WriteString(rtString(f.Type()))
			if tag := t.Tag(i); tag != "" {
				sb.WriteByte(' ')
				sb.WriteString(strconv.Quote(tag))
			}
		}
		sb.WriteString(" }")
		return sb.String()
	case *types.Interface:
		if t.NumMethods() == 0 {
			return "interface {}"
		}
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			m := t.Method(i)
			ms = append(ms, m.Name()+strings.TrimPrefix(rtString(m.Type()), "func"))
		}
		return "interface { " + strings.Join(ms, "; ") + " }"
	case *types.Signature:
		var ps, rs []string
		for i := 0; i < t.Params().Len(); i++ {
			p := rtString(t.Params().At(i).Type())
			if t.Variadic() && i == t.Params().Len()-1 {
				p = "..." + strings.TrimPrefix(p, "[]")
			}
			ps = append(ps, p)
		}
		for i := 0; i < t.Results().Len(); i++ {
			rs = append(rs, rtString(t.Results().At(i).Type()))
		}
		s := "func(" + strings.Join(ps, ", ") + ")"
		if len(rs) == 1 {
			s += " " + rs[0]
		} else if len(rs) > 1 {
			s += " (" + strings.Join(rs, ", ") + ")"
		}
		return s
	}
	return t.String()
}

func rtName(t *types.Named) string {
	n := t.Obj().Name()
	if ta := t.TypeArgs(); ta != nil && ta.Len() > 0 {
		var as []string
		for i := 0; i < ta.Len(); i++ {
			as = append(as, types.TypeString(ta.At(i), func(p *types.Package) string { return p.Path() }))
		}
		n += "[" + strings.Join(as, ",") + "]"
	}
	return n
}

func (r *Run) structField(t *TI, i int) any {
	st := t.u.(*types.Struct)
	f := st.Field(i)
	var tag any = st.Tag(i)
	if s, ok := tag.(string); ok {
		if sv, ok := r.symTags[s]; ok {
			tag = sv
		}
	}
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	} else if !f.Exported() {
		pkg = "main"
	}
	return Struct{f.Name(), pkg, r.w.eng.rtypeIface(r.w.eng.types.of(f.Type())), tag, int64(i * 8), Slice{int64(i)}, f.Embedded()}
}

// rtypeMethod implements the methods of reflect.Type.
func (r *Run) rtypeMethod(fr *Frame, t *TI, name string, args []any) any {
	e := r.w.eng
	switch name {
	case "Kind":
		return int64(t.kind)
	case "String":
		return rtString(t.t)
	case "Name":
		switch n := t.t.(type) {
		case *types.Named:
			return rtName(n)
		case *types.Basic:
			return rtString(n)
		}
		return ""
	case "PkgPath":
		if n, ok := t.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Elem":
		el := e.elem(t)
		if el == nil {
			r.goPanicStr("reflect: Elem of invalid type " + rtString(t.t))
		}
		return e.rtypeIface(el)
	case "Key":
		m, ok := t.u.(*types.Map)
		if !ok {
			r.goPanicStr("reflect: Key of non-map type " + rtString(t.t))
		}
		return e.rtypeIface(e.types.of(m.Key()))
	case "Len":
		return t.u.(*types.Array).Len()
	case "NumField":
		s, ok := t.u.(*types.Struct)
		if !ok {
			r.goPanicStr("reflect: NumField of non-struct type " + rtString(t.t))
		}
		return int64(s.NumFields())
	case "Field":
		s, ok := t.u.(*types.Struct)
		if !ok {
			r.goPanicStr("reflect: Field of non-struct type " + rtString(t.t))
		}
		i := r.concretize(args[0])
		if i < 0 || int(i) >= s.NumFields() {
			r.goPanicStr("reflect: Field index out of bounds")
		}
		return r.structField(t, int(i))
	case "FieldByName":
		nm, ok := args[0].(string)
		if !ok {
			unsupported("FieldByName symbolic")
		}
		obj, index, _ := types.LookupFieldOrMethod(t.t, true, nil, nm)
		if _, ok := obj.(*types.Var); ok {
			cur := t
			var sf any
			var idx Slice
			for _, i := range index {
				if cur.kind == kPointer {
					cur = e.elem(cur)
				}
				sf = r.structField(cur, i)
				idx = append(idx, int64(i))
				cur = e.types.of(cur.u.(*types.Struct).Field(i).Type())
			}
			s := sf.(Struct)
			s[5] = idx
			return Tuple{s, true}
		}
		return Tuple{Struct{"", "", Iface{}, "", int64(0), Slice(nil), false}, false}
	case "NumMethod":
		if t.kind == kInterface {
			return int64(t.u.(*types.Interface).NumMethods())
		}
		ms := e.prog.MethodSets.MethodSet(t.t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return int64(n)
	case "Implements":
		it := asTI(args[0])
		if it == nil || it.kind != kInterface {
			r.goPanicStr("reflect: non-interface type passed to Type.Implements")
		}
		return e.implements(t, it)
	case "AssignableTo":
		return types.AssignableTo(t.t, asTI(args[0]).t)
	case "ConvertibleTo":
		return types.ConvertibleTo(t.t, asTI(args[0]).t)
	case "Comparable":
		return types.Comparable(t.t)
	case "Size":
		return e.types.sizes.Sizeof(t.t)
	case "Bits":
		return e.types.sizes.Sizeof(t.t) * 8
	case "NumIn":
		return int64(t.u.(*types.Signature).Params().Len())
	case "NumOut":
		return int64(t.u.(*types.Signature).Results().Len())
	case "In":
		return e.rtypeIface(e.types.of(t.u.(*types.Signature).Params().At(int(args[0].(int64))).Type()))
	case "Out":
		return e.rtypeIface(e.types.of(t.u.(*types.Signature).Results().At(int(args[0].(int64))).Type()))
	case "IsVariadic":
		return t.u.(*types.Signature).Variadic()
	}
	unsupported("reflect.Type." + name)
	return nil
}

func (v RV) get() any {
	if v.addr != nil {
		return *v.addr
	}
	return v.v
}

func (r *Run) rvOf(i Iface) RV {
	if i.t == nil {
		return RV{}
	}
	return RV{t: i.t, v: i.v}
}

func (r *Run) rvPanic(v RV, m string) {
	if v.t == nil {
		r.goPanicStr("reflect: call of reflect.Value." + m + " on zero Value")
	}
	r.goPanicStr("reflect: call of reflect.Value." + m + " on " + rtString(v.t.t) + " Value")
}

func (r *Run) rvElem(v RV) RV {
	if v.t == nil {
		r.rvPanic(v, "Elem")
	}
	switch v.t.kind {
	case kInterface:
		i := v.get().(Iface)
		x := r.rvOf(i)
		x.ro, x.ero = v.ro, v.ero
		return x
	case kPointer:
		p := v.get().(*any)
		if p == nil {
			return RV{}
		}
		return RV{t: r.w.eng.elem(v.t), addr: p, ro: v.ro, ero: v.ero}
	}
	r.rvPanic(v, "Elem")
	return RV{}
}

func (r *Run) rvField(v RV, i int) RV {
	if v.t == nil || v.t.kind != kStruct {
		r.rvPanic(v, "Field")
	}
	st := v.t.u.(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		r.goPanicStr("reflect: Field index out of range")
	}
	f := st.Field(i)
	s, ok := v.get().(Struct)
	if !ok {
		unsupported(fmt.Sprintf("reflect field of %T", v.get()))
	}
	out := RV{t: r.w.eng.types.of(f.Type()), ro: v.ro || !f.Exported() && !f.Embedded(), ero: !f.Exported() && f.Embedded()}
	if v.addr != nil {
		out.addr = &s[i]
	} else {
		out.v = s[i]
	}
	return out
}

func (r *Run) rvIface(v RV) Iface {
	if v.t == nil {
		r.rvPanic(v, "Interface")
	}
	x := v.get()
	if v.t.kind == kInterface {
		return x.(Iface)
	}
	return Iface{v.t, copyVal(x)}
}

func (r *Run) rvIsNil(v RV) bool {
	if v.t == nil {
		r.rvPanic(v, "IsNil")
	}
	switch x := v.get().(type) {
	case *any:
		return x == nil
	case *Map:
		return x == nil
	case Slice:
		return x == nil
	case Iface:
		return x.t == nil
	case *FuncVal:
		return x == nil
	}
	r.rvPanic(v, "IsNil")
	return false
}

// isZeroVal reports (possibly symbolically) whether x is a zero value.
func (r *Run) isZeroVal(x any) any {
	switch x := x.(type) {
	case bool:
		return !x
	case int64:
		return x == 0
	case float64:
		return x == 0 && 1/x > 0
	case complex128:
		return x == 0
	case string:
		return x == ""
	case *SymStr:
		return false
	case *Term:
		switch x.sort {
		case SBool:
			return r.not(x)
		case SBV:
			return r.tb(r.tt.Eq(x, r.tt.BV(0, x.w)))
		}
		return r.tb(r.tt.Bin(OFEq, x, r.tt.FP(0)))
	case *any:
		return x == nil
	case *Map:
		return x == nil
	case Slice:
		return x == nil
	case Iface:
		return x.t == nil
	case *FuncVal:
		return x == nil
	case Struct:
		var res any = true
		for _, y := range x {
			res = r.and(res, r.isZeroVal(y))
		}
		return res
	case Array:
		var res any = true
		for _, y := range x {
			res = r.and(res, r.isZeroVal(y))
		}
		return res
	case RV:
		return x.t == nil
	}
	unsupported(fmt.Sprintf("isZero %T", x))
	return nil
}

func (r *Run) assignTo(dst *TI, src RV) any {
	x := copyVal(src.get())
	if dst.kind == kInterface && src.t.kind != kInterface {
		return Iface{src.t, x}
	}
	return x
}

func (r *Run) rvSet(v, x RV) {
	if v.addr == nil || v.ro || v.ero {
		r.goPanicStr("reflect: reflect.Value.Set using unaddressable value")
	}
	if x.t == nil {
		r.goPanicStr("reflect: call of reflect.Value.Set on zero Value")
	}
	if !types.AssignableTo(x.t.t, v.t.t) {
		r.goPanicStr("reflect.Set: value of type " + rtString(x.t.t) + " is not assignable to type " + rtString(v.t.t))
	}
	storeTo(v.addr, r.assignTo(v.t, x))
}

// deepEq is reflect.DeepEqual on values of type t.
func (r *Run) deepEq(t *TI, a, b any, depth int) any {
	if depth > 200 {
		unsupported("DeepEqual: cyclic value")
	}
	e := r.w.eng
	switch t.kind {
	case kArray:
		x, y := a.(Array), b.(Array)
		var res any = true
		for i := range x {
			res = r.and(res, r.deepEq(e.elem(t), x[i], y[i], depth+1))
			if res == false {
				return false
			}
		}
		return res
	case kSlice:
		x, y := a.(Slice), b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var res any = true
		for i := range x {
			res = r.and(res, r.deepEq(e.elem(t), x[i], y[i], depth+1))
			if res == false {
				return false
			}
		}
		return res
	case kInterface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == y.t
		}
		if x.t != y.t {
			return false
		}
		return r.deepEq(x.t, x.v, y.v, depth+1)
	case kPointer:
		x, ok1 := a.(*any)
		y, ok2 := b.(*any)
		if !ok1 || !ok2 {
			return r.eqVal(a, b)
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return r.deepEq(e.elem(t), *x, *y, depth+1)
	case kStruct:
		x, ok := a.(Struct)
		if !ok {
			return r.eqVal(a, b)
		}
		y := b.(Struct)
		st := t.u.(*types.Struct)
		var res any = true
		for i := range x {
			res = r.and(res, r.deepEq(e.types.of(st.Field(i).Type()), x[i], y[i], depth+1))
			if res == false {
				return false
			}
		}
		return res
	case kMap:
		x, y := a.(*Map), b.(*Map)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == y {
			return true
		}
		if x.n != y.n {
			return false
		}
		var res any = true
		for _, en := range x.live() {
			o := r.mapFind(y, en.k)
			if o == nil {
				return false
			}
			res = r.and(res, r.deepEq(e.elem(t), en.v, o.v, depth+1))
			if res == false {
				return false
			}
		}
		return res
	case kFunc:
		x, y := a.(*FuncVal), b.(*FuncVal)
		return x == nil && y == nil
	}
	return r.eqVal(a, b)
}

// structOf builds a struct type from []reflect.StructField.
func (r *Run) structOf(fs Slice) *TI {
	var vars []*types.Var
	var tags []string
	for _, f := range fs {
		s := f.(Struct)
		name, ok := s[0].(string)
		if !ok {
			unsupported("StructOf with symbolic field name")
		}
		tag := ""
		switch tv := s[3].(type) {
		case string:
			tag = tv
		case *SymStr:
			tag = fmt.Sprintf("\x00sym%d", len(r.symTags))
			r.symTags[tag] = tv
		}
		ft := asTI(s[2])
		var pkg *types.Package
		if !token.IsExported(name) {
			if pp, _ := s[1].(string); pp != "" {
				pkg = types.NewPackage(pp, pp)
			} else {
				r.goPanicStr("reflect.StructOf: field \"" + name + "\" is unexported but missing PkgPath")
			}
		}
		emb, _ := s[6].(bool)
		vars = append(vars, types.NewField(token.NoPos, pkg, name, ft.t, emb))
		tags = append(tags, tag)
	}
	return r.w.eng.types.of(types.NewStruct(vars, tags))
}

func rvArg(v any) RV {
	x, ok := v.(RV)
	if !ok {
		panic(fmt.Sprintf("rvArg %T", v))
	}
	return x
}

// convertTo converts a reflect value to type t.
func (r *Run) rvConvert(v RV, t *TI) RV {
	if !types.ConvertibleTo(v.t.t, t.t) {
		r.goPanicStr("reflect.Value.Convert: value of type " + rtString(v.t.t) + " cannot be converted to type " + rtString(t.t))
	}
	if t.kind == kInterface {
		if v.t.kind == kInterface {
			return RV{t: t, v: v.get()}
		}
		return RV{t: t, v: Iface{v.t, copyVal(v.get())}}
	}
	return RV{t: t, v: convFunc(v.t.t, t.t)(r, copyVal(v.get()))}
}

func init() {
	reg := func(name string, f func(r *Run, fr *Frame, a []any) any) { intrinsics[name] = f }
	reg("reflect.TypeOf", func(r *Run, fr *Frame, a []any) any {
		return r.w.eng.rtypeIface(a[0].(Iface).t)
	})
	reg("internal/reflectlite.TypeOf", func(r *Run, fr *Frame, a []any) any {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{r.w.eng.rtypeTI, i.t}
	})
	reg("reflect.ValueOf", func(r *Run, fr *Frame, a []any) any { return r.rvOf(a[0].(Iface)) })
	reg("reflect.New", func(r *Run, fr *Frame, a []any) any {
		t := asTI(a[0])
		if t == nil {
			r.goPanicStr("reflect: New(nil)")
		}
		p := new(any)
		*p = zero(t.t)
		return RV{t: r.w.eng.ptrTo(t), v: p}
	})
	reg("reflect.Zero", func(r *Run, fr *Frame, a []any) any {
		t := asTI(a[0])
		if t == nil {
			r.goPanicStr("reflect: Zero(nil)")
		}
		return RV{t: t, v: zero(t.t)}
	})
	reg("reflect.Indirect", func(r *Run, fr *Frame, a []any) any {
		v := rvArg(a[0])
		if v.t != nil && v.t.kind == kPointer {
			return r.rvElem(v)
		}
		return v
	})
	ptrTo := func(r *Run, fr *Frame, a []any) any { return r.w.eng.rtypeIface(r.w.eng.ptrTo(asTI(a[0]))) }
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.SliceOf", func(r *Run, fr *Frame, a []any) any {
		return r.w.eng.rtypeIface(r.w.eng.types.of(types.NewSlice(asTI(a[0]).t)))
	})
	reg("reflect.MapOf", func(r *Run, fr *Frame, a []any) any {
		return r.w.eng.rtypeIface(r.w.eng.types.of(types.NewMap(asTI(a[0]).t, asTI(a[1]).t)))
	})
	reg("reflect.ArrayOf", func(r *Run, fr *Frame, a []any) any {
		return r.w.eng.rtypeIface(r.w.eng.types.of(types.NewArray(asTI(a[1]).t, r.concretize(a[0]))))
	})
	reg("reflect.StructOf", func(r *Run, fr *Frame, a []any) any {
		return r.w.eng.rtypeIface(r.structOf(a[0].(Slice)))
	})
	reg("reflect.DeepEqual", func(r *Run, fr *Frame, a []any) any {
		return r.deepEq(r.w.eng.anyTI, a[0], a[1], 0)
	})
	mkMap := func(r *Run, fr *Frame, a []any) any { return RV{t: asTI(a[0]), v: newMap()} }
	reg("reflect.MakeMap", mkMap)
	reg("reflect.MakeMapWithSize", mkMap)
	reg("reflect.MakeSlice", func(r *Run, fr *Frame, a []any) any {
		t := asTI(a[0])
		n, c := r.concretize(a[1]), r.concretize(a[2])
		s := make(Slice, n, c)
		for i := range s[:c] {
			s[:c][i] = zero(r.w.eng.elem(t).t)
		}
		return RV{t: t, v: s}
	})
	reg("reflect.Append", func(r *Run, fr *Frame, a []any) any {
		v := rvArg(a[0])
		et := r.w.eng.elem(v.t)
		var vs []any
		for _, x := range a[1].(Slice) {
			vs = append(vs, r.assignTo(et, rvArg(x)))
		}
		return RV{t: v.t, v: r.appendSlice(v.get().(Slice), r.w.eng.types.sizes.Sizeof(et.t), vs)}
	})
	m := func(name string, f func(r *Run, v RV, a []any) any) {
		reg("(reflect.Value)."+name, func(r *Run, fr *Frame, a []any) any { return f(r, rvArg(a[0]), a[1:]) })
	}
	reg("(reflect.Kind).String", func(r *Run, fr *Frame, a []any) any { return reflect.Kind(r.concretize(a[0])).String() })
	m("Kind", func(r *Run, v RV, a []any) any {
		if v.t == nil {
			return int64(0)
		}
		return int64(v.t.kind)
	})
	m("IsValid", func(r *Run, v RV, a []any) any { return v.t != nil })
	m("Type", func(r *Run, v RV, a []any) any {
		if v.t == nil {
			r.rvPanic(v, "Type")
		}
		return r.w.eng.rtypeIface(v.t)
	})
	m("Elem", func(r *Run, v RV, a []any) any { return r.rvElem(v) })
	m("Field", func(r *Run, v RV, a []any) any { return r.rvField(v, int(r.concretize(a[0]))) })
	m("FieldByName", func(r *Run, v RV, a []any) any {
		res := r.rtypeMethod(nil, v.t, "FieldByName", a).(Tuple)
		if res[1] == false {
			return RV{}
		}
		for _, i := range res[0].(Struct)[5].(Slice) {
			if v.t.kind == kPointer {
				v = r.rvElem(v)
			}
			v = r.rvField(v, int(i.(int64)))
		}
		return v
	})
	m("FieldByIndex", func(r *Run, v RV, a []any) any {
		for _, i := range a[0].(Slice) {
			if v.t.kind == kPointer {
				v = r.rvElem(v)
			}
			v = r.rvField(v, int(i.(int64)))
		}
		return v
	})
	m("NumField", func(r *Run, v RV, a []any) any {
		if v.t == nil || v.t.kind != kStruct {
			r.rvPanic(v, "NumField")
		}
		return int64(v.t.u.(*types.Struct).NumFields())
	})
	m("NumMethod", func(r *Run, v RV, a []any) any { return r.rtypeMethod(nil, v.t, "NumMethod", nil) })
	m("Interface", func(r *Run, v RV, a []any) any {
		if v.ro || v.ero {
			r.goPanicStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return r.rvIface(v)
	})
	m("CanInterface", func(r *Run, v RV, a []any) any { return !v.ro && !v.ero })
	m("CanAddr", func(r *Run, v RV, a []any) any { return v.addr != nil })
	m("CanSet", func(r *Run, v RV, a []any) any { return v.addr != nil && !v.ro && !v.ero })
	m("Addr", func(r *Run, v RV, a []any) any {
		if v.addr == nil {
			r.goPanicStr("reflect.Value.Addr of unaddressable value")
		}
		return RV{t: r.w.eng.ptrTo(v.t), v: v.addr, ro: v.ro, ero: v.ero}
	})
	m("IsNil", func(r *Run, v RV, a []any) any { return r.rvIsNil(v) })
	m("IsZero", func(r *Run, v RV, a []any) any {
		if v.t == nil {
			r.rvPanic(v, "IsZero")
		}
		return r.isZeroVal(v.get())
	})
	m("Len", func(r *Run, v RV, a []any) any {
		if v.t == nil {
			r.rvPanic(v, "Len")
		}
		if v.t.kind == kPointer {
			v = r.rvElem(v)
		}
		return int64(lenOf(v.get()))
	})
	m("Cap", func(r *Run, v RV, a []any) any { return int64(cap(v.get().(Slice))) })
	m("Index", func(r *Run, v RV, a []any) any {
		n := r.concretize(a[0])
		if v.t == nil {
			r.rvPanic(v, "Index")
		}
		chk := func(l int) {
			if n < 0 || int(n) >= l {
				r.goPanicStr("reflect: slice index out of range")
			}
		}
		switch x := v.get().(type) {
		case Slice:
			chk(len(x))
			return RV{t: r.w.eng.elem(v.t), addr: &x[n], ro: v.ro, ero: v.ero}
		case Array:
			chk(len(x))
			if v.addr != nil {
				return RV{t: r.w.eng.elem(v.t), addr: &x[n], ro: v.ro, ero: v.ero}
			}
			return RV{t: r.w.eng.elem(v.t), v: x[n], ro: v.ro, ero: v.ero}
		case string, *SymStr:
			return RV{t: r.w.eng.types.of(types.Typ[types.Uint8]), v: r.strIndex(x, n)}
		}
		r.rvPanic(v, "Index")
		return nil
	})
	m("Slice", func(r *Run, v RV, a []any) any {
		i, j := r.concretize(a[0]), r.concretize(a[1])
		switch x := v.get().(type) {
		case Slice:
			return RV{t: v.t, v: x[i:j]}
		case string, *SymStr:
			return RV{t: v.t, v: strSlice(x, int(i), int(j))}
		}
		unsupported("reflect slice")
		return nil
	})
	m("MapKeys", func(r *Run, v RV, a []any) any {
		kt := r.w.eng.types.of(v.t.u.(*types.Map).Key())
		out := Slice{}
		for _, e := range r.iterOrder(v.get().(*Map)) {
			out = append(out, RV{t: kt, v: e.k})
		}
		return out
	})
	m("MapIndex", func(r *Run, v RV, a []any) any {
		kt := r.w.eng.types.of(v.t.u.(*types.Map).Key())
		e := r.mapFind(v.get().(*Map), r.assignTo(kt, rvArg(a[0])))
		if e == nil {
			return RV{}
		}
		return RV{t: r.w.eng.elem(v.t), v: e.v}
	})
	m("SetMapIndex", func(r *Run, v RV, a []any) any {
		kt := r.w.eng.types.of(v.t.u.(*types.Map).Key())
		k := r.assignTo(kt, rvArg(a[0]))
		mm := v.get().(*Map)
		x := rvArg(a[1])
		if x.t == nil {
			if mm != nil {
				r.mapDelete(mm, k)
			}
			return nil
		}
		if mm == nil {
			r.goPanicStr("assignment to entry in nil map")
		}
		r.mapSet(mm, k, r.assignTo(r.w.eng.elem(v.t), x))
		return nil
	})
	m("MapRange", func(r *Run, v RV, a []any) any {
		if v.t == nil || v.t.kind != kMap {
			r.rvPanic(v, "MapRange")
		}
		p := new(any)
		*p = &Opaque{&reflMapIter{v: v, it: &mapIter{es: r.iterOrder(v.get().(*Map))}}}
		return p
	})
	reg("(*reflect.MapIter).Next", func(r *Run, fr *Frame, a []any) any {
		it := (*a[0].(*any)).(*Opaque).x.(*reflMapIter)
		it.cur = it.it.next()
		return it.cur != nil
	})
	reg("(*reflect.MapIter).Key", func(r *Run, fr *Frame, a []any) any {
		it := (*a[0].(*any)).(*Opaque).x.(*reflMapIter)
		return RV{t: r.w.eng.types.of(it.v.t.u.(*types.Map).Key()), v: it.cur.k}
	})
	reg("(*reflect.MapIter).Value", func(r *Run, fr *Frame, a []any) any {
		it := (*a[0].(*any)).(*Opaque).x.(*reflMapIter)
		return RV{t: r.w.eng.elem(it.v.t), v: it.cur.v}
	})
	m("Set", func(r *Run, v RV, a []any) any { r.rvSet(v, rvArg(a[0])); return nil })
	setter := func(r *Run, v RV, a []any) any {
		if v.addr == nil || v.ro || v.ero {
			r.goPanicStr("reflect: reflect.Value.Set using unaddressable value")
		}
		x := a[0]
		if kindInt(v.t.kind) {
			if n, ok := x.(int64); ok {
				x = norm(n, v.t.kind)
			} else {
				x = r.fromTerm(r.tt.Resize(x.(*Term), kindWidth(v.t.kind), true), v.t.kind)
			}
		}
		storeTo(v.addr, x)
		return nil
	}
	for _, n := range []string{"SetString", "SetInt", "SetUint", "SetBool", "SetFloat", "SetBytes"} {
		m(n, setter)
	}
	m("SetZero", func(r *Run, v RV, a []any) any { storeTo(v.addr, zero(v.t.t)); return nil })
	m("SetLen", func(r *Run, v RV, a []any) any {
		*v.addr = (*v.addr).(Slice)[:r.concretize(a[0])]
		return nil
	})
	get := func(r *Run, v RV, a []any) any { return v.get() }
	m("Bool", get)
	m("Float", get)
	m("Bytes", get)
	m("Int", func(r *Run, v RV, a []any) any {
		if t, ok := v.get().(*Term); ok {
			return r.fromTerm(r.tt.Resize(t, 64, true), kInt64)
		}
		if _, ok := v.get().(int64); !ok {
			r.rvPanic(v, "Int")
		}
		return v.get()
	})
	m("Uint", func(r *Run, v RV, a []any) any {
		if t, ok := v.get().(*Term); ok {
			return r.fromTerm(r.tt.Resize(t, 64, false), kUint64)
		}
		return v.get()
	})
	m("String", func(r *Run, v RV, a []any) any {
		if v.t == nil {
			return "<invalid Value>"
		}
		if v.t.kind == kString {
			return v.get()
		}
		return "<" + rtString(v.t.t) + " Value>"
	})
	m("Convert", func(r *Run, v RV, a []any) any { return r.rvConvert(v, asTI(a[0])) })
	m("CanConvert", func(r *Run, v RV, a []any) any { return types.ConvertibleTo(v.t.t, asTI(a[0]).t) })
	m("Comparable", func(r *Run, v RV, a []any) any { return v.t == nil || types.Comparable(v.t.t) })
	m("CanInt", func(r *Run, v RV, a []any) any { return v.t != nil && kindSigned(v.t.kind) })
	m("CanUint", func(r *Run, v RV, a []any) any { return v.t != nil && kindInt(v.t.kind) && !kindSigned(v.t.kind) })
	m("CanFloat", func(r *Run, v RV, a []any) any { return v.t != nil && (v.t.kind == kFloat32 || v.t.kind == kFloat64) })
	m("Call", func(r *Run, v RV, a []any) any {
		fv, ok := v.get().(*FuncVal)
		if !ok {
			unsupported("reflect call")
		}
		sig := v.t.u.(*types.Signature)
		var args []any
		in := a[0].(Slice)
		for i := 0; i < sig.Params().Len(); i++ {
			pt := r.w.eng.types.of(sig.Params().At(i).Type())
			if sig.Variadic() && i == sig.Params().Len()-1 {
				s := Slice{}
				for _, x := range in[i:] {
					s = append(s, r.assignTo(r.w.eng.elem(pt), rvArg(x)))
				}
				args = append(args, s)
				break
			}
			args = append(args, r.assignTo(pt, rvArg(in[i])))
		}
		res := r.callVal(r.curr, fv, args)
		out := Slice{}
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, RV{t: r.w.eng.types.of(sig.Results().At(0).Type()), v: res})
		default:
			for i, x := range res.(Tuple) {
				out = append(out, RV{t: r.w.eng.types.of(sig.Results().At(i).Type()), v: x})
			}
		}
		return out
	})
	m("MethodByName", func(r *Run, v RV, a []any) any {
		nm := a[0].(string)
		var recv Iface
		if v.t.kind == kInterface {
			recv = v.get().(Iface)
		} else {
			recv = Iface{v.t, v.get()}
		}
		if recv.t == nil {
			return RV{}
		}
		f := r.w.eng.method(recv.t, nil, nm)
		if f == nil || !token.IsExported(nm) {
			return RV{}
		}
		full := f.Signature
		sig := types.NewSignatureType(nil, nil, nil, full.Params(), full.Results(), full.Variadic())
		fv := &FuncVal{name: nm, native: func(r *Run, args []any) any {
			return r.callFn(r.curr, r.w.compile(f), append([]any{recv.v}, args...), nil)
		}}
		return RV{t: r.w.eng.types.of(sig), v: fv}
	})
	m("UnsafeAddr", func(r *Run, v RV, a []any) any { unsupported("UnsafeAddr"); return nil })
	m("Pointer", func(r *Run, v RV, a []any) any {
		if r.rvIsNil(v) {
			return int64(0)
		}
		return r.ptrID(v.get())
	})
	reg("reflect.Copy", func(r *Run, fr *Frame, a []any) any {
		d, s := rvArg(a[0]).get().(Slice), rvArg(a[1]).get().(Slice)
		return int64(copy(d, s))
	})
}

type reflMapIter struct {
	v   RV
	it  *mapIter
	cur *mapEntry
}

// ptrID gives pointers stable numbers.
func (r *Run) ptrID(v any) any {
	if p, ok := v.(*any); ok {
		id, ok := r.w.ptrIDs[p]
		if !ok {
			id = int64(0xc000000000 + 16*len(r.w.ptrIDs))
			r.w.ptrIDs[p] = id
		}
		return id
	}
	unsupported(fmt.Sprintf("pointer of %T", v))
	return nil
}
