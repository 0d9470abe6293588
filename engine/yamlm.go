package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"gopkg.in/yaml.v2"
)

// The YAML library itself is trusted: it runs natively on text in which every
// maximal run of symbolic bytes is replaced by an inert placeholder word.

type ymask struct {
	r    *Run
	segs [][]any
}

const yPre, yPost = "Qsym", "qQ"

func (y *ymask) mask(bs []any) string {
	var sb strings.Builder
	for i := 0; i < len(bs); {
		if c, ok := bs[i].(int64); ok {
			sb.WriteByte(byte(c))
			i++
			continue
		}
		j := i
		for j < len(bs) {
			if _, ok := bs[j].(*Term); !ok {
				break
			}
			j++
		}
		fmt.Fprintf(&sb, "%s%d%s", yPre, len(y.segs), yPost)
		y.segs = append(y.segs, bs[i:j])
		i = j
	}
	return sb.String()
}

func (y *ymask) unmask(s string) any {
	if !strings.Contains(s, yPre) {
		return s
	}
	var sb SB
	for {
		i := strings.Index(s, yPre)
		if i < 0 {
			break
		}
		j := strings.Index(s[i:], yPost)
		if j < 0 {
			break
		}
		n := 0
		if _, err := fmt.Sscanf(s[i+len(yPre):i+j], "%d", &n); err != nil || n >= len(y.segs) {
			break
		}
		sb.str(s[:i])
		for _, b := range y.segs[n] {
			sb.byte(b)
		}
		s = s[i+j+len(yPost):]
	}
	sb.str(s)
	return sb.result()
}

func (y *ymask) toIface(v any) Iface {
	e := y.r.w.eng
	switch v := v.(type) {
	case nil:
		return Iface{}
	case string:
		return Iface{e.types.of(types.Typ[types.String]), y.unmask(v)}
	case bool:
		return Iface{e.types.of(types.Typ[types.Bool]), v}
	case int:
		return Iface{e.types.of(types.Typ[types.Int]), int64(v)}
	case int64:
		return Iface{e.types.of(types.Typ[types.Int64]), v}
	case uint64:
		return Iface{e.types.of(types.Typ[types.Uint64]), int64(v)}
	case float64:
		return Iface{e.types.of(types.Typ[types.Float64]), v}
	case []interface{}:
		s := make(Slice, len(v))
		for i, x := range v {
			s[i] = y.toIface(x)
		}
		return Iface{e.anySliceTI, s}
	case yaml.MapSlice:
		// generic map decoded in order
		m := newMap()
		for _, it := range v {
			y.r.mapSet(m, y.toIface(it.Key), y.toIface(it.Value))
		}
		return Iface{e.types.of(types.NewMap(e.anyTI.t, e.anyTI.t)), m}
	}
	unsupported(fmt.Sprintf("yaml value %T", v))
	return Iface{}
}

func (y *ymask) yamlType(name string) *TI {
	p := y.r.w.eng.prog.ImportedPackage("gopkg.in/yaml.v2")
	return y.r.w.eng.types.of(p.Pkg.Scope().Lookup(name).Type())
}

func (y *ymask) mapSlice(v yaml.MapSlice) Slice {
	s := make(Slice, len(v))
	for i, it := range v {
		s[i] = Struct{y.toIface(it.Key), y.toIface(it.Value)}
	}
	return s
}

func (y *ymask) native(i Iface) any {
	r := y.r
	if i.t == nil {
		return nil
	}
	switch i.t.kind {
	case kString:
		if s, ok := i.v.(string); ok {
			if i.t.t.String() == "encoding/json.Number" {
				return json.Number(s)
			}
			return s
		}
		return y.mask(i.v.(*SymStr).b)
	case kBool:
		return r.branchAny(i.v)
	case kFloat64, kFloat32:
		if f, ok := i.v.(float64); ok {
			return f
		}
		unsupported("yaml of symbolic float")
	case kInterface:
		return y.native(i.v.(Iface))
	case kSlice:
		s := i.v.(Slice)
		et := r.w.eng.elem(i.t)
		if i.t == y.yamlType("MapSlice") {
			out := make(yaml.MapSlice, len(s))
			for k, x := range s {
				st := x.(Struct)
				out[k] = yaml.MapItem{Key: y.native(st[0].(Iface)), Value: y.native(st[1].(Iface))}
			}
			return out
		}
		out := make([]interface{}, len(s))
		for k, x := range s {
			out[k] = y.native(Iface{et, x})
		}
		return out
	case kMap:
		m := i.v.(*Map)
		if m == nil {
			return map[string]interface{}{}
		}
		mt := i.t.u.(*types.Map)
		kt, vt := r.w.eng.types.of(mt.Key()), r.w.eng.types.of(mt.Elem())
		out := map[interface{}]interface{}{}
		for _, e := range m.live() {
			out[y.native(Iface{kt, e.k})] = y.native(Iface{vt, e.v})
		}
		return out
	}
	if kindInt(i.t.kind) {
		if n, ok := i.v.(int64); ok {
			if !kindSigned(i.t.kind) {
				return uint64(n)
			}
			return n
		}
	}
	unsupported("yaml marshal of " + i.t.t.String())
	return nil
}

func init() {
	stdInits["gopkg.in/yaml.v2"] = func(r *Run, pkg *ssa.Package) {}
	reg("gopkg.in/yaml.v2.Unmarshal", func(r *Run, fr *Frame, a []any) any {
		y := &ymask{r: r}
		txt := y.mask(a[0].(Slice))
		out := a[1].(Iface)
		p := out.v.(*any)
		et := r.w.eng.elem(out.t)
		switch {
		case et.kind == kInterface:
			// decode maps in order, keeping their generic type
			var probe interface{}
			if err := yaml.Unmarshal([]byte(txt), &probe); err != nil {
				return r.w.eng.newError(err.Error())
			}
			*p = y.toIface(orderedYAML(txt, probe))
			return Iface{}
		case et == y.yamlType("MapSlice"):
			var ms yaml.MapSlice
			if err := yaml.Unmarshal([]byte(txt), &ms); err != nil {
				return r.w.eng.newError(err.Error())
			}
			*p = y.mapSlice(ms)
			return Iface{}
		}
		unsupported("yaml.Unmarshal into " + et.t.String())
		return nil
	})
	reg("gopkg.in/yaml.v2.Marshal", func(r *Run, fr *Frame, a []any) any {
		y := &ymask{r: r}
		b, err := yaml.Marshal(y.native(a[0].(Iface)))
		if err != nil {
			return Tuple{Slice(nil), r.w.eng.newError(err.Error())}
		}
		return Tuple{Slice(strBytes(y.unmask(string(b)))), Iface{}}
	})
}

// orderedYAML re-decodes a generic value with deterministic map order.
func orderedYAML(txt string, probe interface{}) interface{} {
	return toOrdered(probe)
}

func toOrdered(v interface{}) interface{} {
	switch v := v.(type) {
	case map[interface{}]interface{}:
		var keys []interface{}
		for k := range v {
			keys = append(keys, k)
		}
		sortKeys(keys)
		out := yaml.MapSlice{}
		for _, k := range keys {
			out = append(out, yaml.MapItem{Key: toOrdered(k), Value: toOrdered(v[k])})
		}
		return out
	case []interface{}:
		for i := range v {
			v[i] = toOrdered(v[i])
		}
	}
	return v
}

func sortKeys(ks []interface{}) {
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && fmt.Sprintf("%T%v", ks[j], ks[j]) < fmt.Sprintf("%T%v", ks[j-1], ks[j-1]); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
}
