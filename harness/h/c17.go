package h

import (
	"reflect"
	"strings"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// eqv compares two values structurally.
func eqv(a, b reflect.Value) bool {
	if a.Kind() != b.Kind() || a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eqv(a.Elem(), b.Elem())
	case reflect.Struct:
		ok := true
		for i := 0; i < a.NumField(); i++ {
			ok = sym.And(ok, eqv(a.Field(i), b.Field(i)))
		}
		return ok
	case reflect.Slice:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return false
		}
		ok := true
		for i := 0; i < a.Len(); i++ {
			ok = sym.And(ok, eqv(a.Index(i), b.Index(i)))
		}
		return ok
	case reflect.Map:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return false
		}
		ok := true
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return false
			}
			ok = sym.And(ok, eqv(a.MapIndex(k), y))
		}
		return ok
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return sym.Iff(a.Bool(), b.Bool())
	case reflect.Int64, reflect.Int:
		return a.Int() == b.Int()
	case reflect.Float64:
		return a.Float() == b.Float()
	}
	panic("unexpected kind " + a.Kind().String())
}

// clone copies a value with everything reachable.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(reflect.New(v.Type().Elem()))
			out.Elem().Set(clone(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(clone(v.Elem()))
		}
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(clone(v.Field(i)))
			}
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(clone(v.Index(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			out.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				out.SetMapIndex(k, clone(v.MapIndex(k)))
			}
		}
	default:
		out.Set(v)
	}
	return out
}

// populate sets every field of an entity, valid together or not.
func (g *gen) populate(v reflect.Value, e *entT) {
	for i := 0; i < v.NumField(); i++ {
		f := e.t.Field(i)
		if f.Name == "ReflectType" || !v.Field(i).CanSet() {
			continue
		}
		g.simple(v.Field(i), 0)
	}
}

// simple sets a value with symbolic texts.
func (g *gen) simple(v reflect.Value, depth int) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		g.simple(v.Elem(), depth+1)
	case reflect.String:
		v.SetString(sym.Str("s", 1, plain))
	case reflect.Bool:
		v.SetBool(sym.Bool("b"))
	case reflect.Int64:
		v.SetInt(sym.Int("i", -5, 5))
	case reflect.Float64:
		g.n++
		v.SetFloat(float64(g.n) + 0.5)
	case reflect.Interface:
		if t.NumMethod() == 0 && (!g.nils || depth > 0 || sym.Choice("nil", 2) == 0) {
			v.Set(reflect.ValueOf(sym.Str("s", 1, plain)))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, 1, 1))
		g.simple(v.Index(0), depth+1)
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		x := reflect.New(t.Elem()).Elem()
		g.simple(x, depth+1)
		v.SetMapIndex(reflect.ValueOf("k1").Convert(t.Key()), x)
	case reflect.Struct:
		if depth > 2 {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			k := v.Field(i).Kind()
			if !v.Field(i).CanSet() || k != reflect.String && k != reflect.Bool && depth > 1 {
				continue
			}
			if k == reflect.String || k == reflect.Ptr && v.Field(i).Type().Elem().Kind() == reflect.String {
				g.simple(v.Field(i), depth+1)
			}
		}
	}
}

// others checks that fields other than f are unchanged.
func others(e *entT, before, after reflect.Value, f int, what string) {
	for i := 0; i < after.NumField(); i++ {
		if i == f || e.t.Field(i).Name == "ReflectType" {
			continue
		}
		sym.Assert(eqv(before.Field(i), after.Field(i)), what+" changes "+e.t.Field(i).Name)
	}
}

func builders(ver int) {
	g := newGen(ver)
	e := g.root(func(e *entT) bool { return e.t.NumField() == 0 })
	p := reflect.New(e.t)
	v := p.Elem()
	full := sym.Choice("populated", 2) == 1
	if full {
		g.populate(v, e)
	}
	g.nils = true
	before := clone(v)
	i := sym.Choice("field", e.t.NumField())
	f := e.t.Field(i)
	fv := v.Field(i)
	switch sym.Choice("method", 3) {
	case 0:
		name := "With" + f.Name
		m := p.MethodByName(name)
		sym.Assume(m.IsValid())
		name = e.name + "." + name
		mt := m.Type()
		var args []reflect.Value
		if mt.IsVariadic() {
			for n := sym.Choice("values", 3); n > 0; n-- {
				a := reflect.New(mt.In(0).Elem()).Elem()
				g.simple(a, 0)
				args = append(args, a)
			}
		} else {
			a := reflect.New(mt.In(0)).Elem()
			g.simple(a, 0)
			args = append(args, a)
		}
		var want []reflect.Value
		for _, a := range args {
			want = append(want, clone(a))
		}
		other := reflect.New(e.t).Elem()
		other.Set(v)
		r := m.Call(args)
		sym.Assert(len(r) == 1 && r[0].Interface() == p.Interface(), name+" does not return the receiver")
		others(e, before, v, i, name)
		sym.Assert(eqv(other.Field(i), before.Field(i)), name+" changes a copy of the value")
		switch {
		case mt.IsVariadic():
			sym.Assert(fv.Len() == len(want), name+" sets another number of values")
			for k, w := range want {
				sym.Assert(eqv(fv.Index(k), w), name+" sets another value")
			}
		case f.Type.Kind() == reflect.Ptr && mt.In(0).Kind() != reflect.Ptr:
			sym.Assert(!fv.IsNil(), name+" sets nothing")
			sym.Assert(eqv(fv.Elem(), want[0]), name+" sets another value")
		default:
			sym.Assert(eqv(fv, want[0]), name+" sets another value")
		}
		sym.Cover("with")
	case 1:
		name := "With" + f.Name + "Item"
		m := p.MethodByName(name)
		sym.Assume(m.IsValid())
		name = e.name + "." + name
		key := reflect.New(f.Type.Key()).Elem()
		key.SetString("k" + sym.Str("key", 1, "0-9"))
		a := reflect.New(f.Type.Elem()).Elem()
		g.simple(a, 0)
		want := clone(a)
		r := m.Call([]reflect.Value{key, a})
		sym.Assert(len(r) == 1 && r[0].Interface() == p.Interface(), name+" does not return the receiver")
		others(e, before, v, i, name)
		got := fv.MapIndex(key)
		sym.Assert(got.IsValid() && eqv(got, want), name+" does not set the entry")
		n := 1
		for _, k := range before.Field(i).MapKeys() {
			if k.String() == key.String() {
				continue
			}
			n++
			x := fv.MapIndex(k)
			sym.Assert(x.IsValid() && eqv(x, before.Field(i).MapIndex(k)), name+" changes another entry")
		}
		sym.Assert(fv.Len() == n, name+" adds another entry")
		sym.Cover("item")
	case 2:
		name := f.Name + "Ens"
		m := p.MethodByName(name)
		sym.Assume(m.IsValid())
		name = e.name + "." + name
		var old any
		if full {
			old = fv.Interface()
		}
		r := m.Call(nil)
		sym.Assert(len(r) == 1 && !r[0].IsNil(), name+" returns nothing")
		sym.Assert(r[0].Interface() == fv.Interface(), name+" returns a detached value")
		others(e, before, v, i, name)
		if full {
			sym.Assert(fv.Interface() == old, name+" replaces an existing value")
			sym.Assert(eqv(fv, before.Field(i)), name+" changes an existing value")
		} else {
			sym.Assert(eqv(fv.Elem(), reflect.New(f.Type.Elem()).Elem()), name+" creates a value that is not empty")
		}
		r = m.Call(nil)
		sym.Assert(r[0].Interface() == fv.Interface(), name+" called again returns another value")
		sym.Cover("ens")
	}
}

// C17_Builders3 calls every builder method of every OpenAPI 3.0 entity.
func C17_Builders3() { builders(3) }

// C17_Builders31 calls every builder method of every OpenAPI 3.1 entity.
func C17_Builders31() { builders(31) }

// C17_Operations sets operations of a path item by method.
func C17_Operations() {
	m := httpMethods[sym.Choice("method", 8)]
	o := httpMethods[sym.Choice("other", 8)]
	s := sym.Str("summary", 1, "a-z")
	if sym.Choice("version", 2) == 0 {
		var pi openapi3.PathItem
		first := openapi3.Operation{}
		first.WithSummary("first")
		op := openapi3.Operation{}
		op.WithSummary(s)
		pi.WithMapOfOperationValuesItem(o, first)
		sym.Assert(pi.WithOperation(strings.ToUpper(m), op) == &pi, "WithOperation does not return the receiver")
		got, ok := pi.MapOfOperationValues[m]
		sym.Assert(ok && strv(got.Summary) == s, "operation is set at the method")
		if o != m {
			got, ok = pi.MapOfOperationValues[o]
			sym.Assert(ok && strv(got.Summary) == "first" && len(pi.MapOfOperationValues) == 2, "other operation is unchanged")
		}
		sym.Cover("3.0")
		return
	}
	var pi openapi31.PathItem
	err := pi.SetOperation(o, (&openapi31.Operation{}).WithSummary("first"))
	sym.Assert(err == nil, "operation is set")
	err = pi.SetOperation(strings.ToUpper(m), (&openapi31.Operation{}).WithSummary(s))
	sym.Assert(err == nil, "operation is set")
	n := 0
	for _, x := range httpMethods {
		got, err := pi.Operation(x)
		sym.Assert(err == nil, "operation is available by method")
		if got != nil {
			n++
		}
		if x == m {
			sym.Assert(got != nil && strv(got.Summary) == s, "operation is set at the method")
		} else if x == o {
			sym.Assert(got != nil && strv(got.Summary) == "first", "other operation is unchanged")
		}
	}
	sym.Assert(n == 1 && o == m || n == 2 && o != m, "number of operations")
	bad := sym.Str("unknown", 3+sym.Choice("length", 5), "a-zA-Z")
	for _, x := range httpMethods {
		sym.Assume(!eqFoldLower(bad, x))
	}
	before := snap(pi)
	got, err := pi.Operation(bad)
	sym.Assert(err != nil && got == nil, "there is no operation at an unknown method")
	sym.Assert(pi.SetOperation(bad, &openapi31.Operation{}) != nil, "operation is not set at an unknown method")
	sym.Assert(snap(pi) == before, "unknown method changes nothing")
	sym.Cover("3.1")
}
