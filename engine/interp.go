package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type op func(fr *Frame)

type phiSet struct {
	dst []int
	src [][]int // per predecessor
}

type block struct {
	phis *phiSet
	ops  []op
	term func(fr *Frame) int // next block index, -1 return
	n    int64
	idx  int
}

// Fn is a compiled function.
type Fn struct {
	ssa      *ssa.Function
	blocks   []block
	nregs    int
	init     []any // initial register file (constants)
	params   []int
	freevars []int
	hasDefer bool
	intr     func(r *Run, fr *Frame, args []any) any
	resTuple bool
	module   bool // function of the code under test
	ordered  bool // map ranges have an arbitrary order on request
	cov      []bool
}

// Frame is an activation.
type Frame struct {
	r         *Run
	fn        *Fn
	regs      []any
	caller    *Frame
	prev      int
	cur       int
	result    any
	defers    []func()
	panicking bool
	pv        *GoPanic
}

type compiler struct {
	w    *Worker
	f    *ssa.Function
	fn   *Fn
	regs map[ssa.Value]int
	cur  *[]op
}

func (w *Worker) compile(f *ssa.Function) *Fn {
	if fn, ok := w.fns[f]; ok {
		return fn
	}
	fn := &Fn{ssa: f}
	w.fns[f] = fn
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok {
		fn.intr = in
		return fn
	}
	if f.Blocks == nil {
		fn.intr = func(r *Run, fr *Frame, args []any) any {
			unsupported("no body: " + name)
			return nil
		}
		return fn
	}
	if f.Pkg != nil || f.Origin() != nil || f.Parent() != nil {
		fn.module = w.eng.isModule(f)
		fn.ordered = w.eng.inPackage(f, "github.com/swaggest/")
	}
	c := &compiler{w: w, f: f, fn: fn, regs: map[ssa.Value]int{}}
	for _, p := range f.Params {
		fn.params = append(fn.params, c.reg(p))
	}
	for _, p := range f.FreeVars {
		fn.freevars = append(fn.freevars, c.reg(p))
	}
	fn.blocks = make([]block, len(f.Blocks))
	fn.cov = make([]bool, len(f.Blocks))
	for i, b := range f.Blocks {
		c.block(&fn.blocks[i], b)
		fn.blocks[i].idx = i
	}
	fn.nregs = len(fn.init)
	return fn
}

func (c *compiler) newReg(init any) int {
	c.fn.init = append(c.fn.init, init)
	return len(c.fn.init) - 1
}

func (c *compiler) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := c.newReg(nil)
	c.regs[v] = i
	return i
}

// val returns the register holding v, emitting loads for globals.
func (c *compiler) val(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Const:
		return c.newReg(constVal(v))
	case *ssa.Function:
		if i, ok := c.regs[v]; ok {
			return i
		}
		i := c.newReg(c.w.funcVal(v))
		c.regs[v] = i
		return i
	case *ssa.Builtin:
		return c.newReg(v)
	case *ssa.Global:
		i := c.newReg(nil)
		*c.cur = append(*c.cur, func(fr *Frame) { fr.regs[i] = fr.r.global(v) })
		return i
	}
	return c.reg(v)
}

func (w *Worker) funcVal(f *ssa.Function) *FuncVal {
	if v, ok := w.fvals[f]; ok {
		return v
	}
	v := &FuncVal{fn: f}
	w.fvals[f] = v
	return v
}

func constVal(c *ssa.Const) any {
	if c.Value == nil {
		return zero(c.Type())
	}
	k := kindOf(c.Type().Underlying())
	switch {
	case k == kBool:
		return constant.BoolVal(c.Value)
	case kindInt(k):
		if kindSigned(k) {
			return norm(c.Int64(), k)
		}
		return norm(int64(c.Uint64()), k)
	case k == kFloat32:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return float64(float32(f))
	case k == kFloat64:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return f
	case k == kComplex64, k == kComplex128:
		return c.Complex128()
	case k == kString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	if tp, ok := c.Type().Underlying().(*types.Interface); ok {
		_ = tp
	}
	unsupportedV := "constant " + c.String()
	return &badConst{unsupportedV}
}

type badConst struct{ msg string }

func (c *compiler) block(b *block, sb *ssa.BasicBlock) {
	var ops []op
	c.cur = &ops
	var ps *phiSet
	for _, ins := range sb.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if ps == nil {
			ps = &phiSet{src: make([][]int, len(sb.Preds))}
		}
		ps.dst = append(ps.dst, c.reg(phi))
		for i, e := range phi.Edges {
			switch e := e.(type) {
			case *ssa.Const:
				ps.src[i] = append(ps.src[i], c.newReg(constVal(e)))
			case *ssa.Global:
				// negative encoding: global index
				ps.src[i] = append(ps.src[i], -1-c.newReg(e))
			default:
				ps.src[i] = append(ps.src[i], c.val(e))
			}
		}
	}
	b.phis = ps
	for _, ins := range sb.Instrs {
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			x := c.val(ins.Cond)
			t, f := sb.Succs[0].Index, sb.Succs[1].Index
			b.term = func(fr *Frame) int {
				switch v := fr.regs[x].(type) {
				case bool:
					if v {
						return t
					}
					return f
				case *Term:
					if fr.r.branch(v) {
						return t
					}
					return f
				}
				panic(fmt.Sprintf("if on %T", fr.regs[x]))
			}
		case *ssa.Jump:
			t := sb.Succs[0].Index
			b.term = func(fr *Frame) int { return t }
		case *ssa.Return:
			rs := make([]int, len(ins.Results))
			for i, x := range ins.Results {
				rs[i] = c.val(x)
			}
			switch len(rs) {
			case 0:
				b.term = func(fr *Frame) int { return -1 }
			case 1:
				x := rs[0]
				b.term = func(fr *Frame) int { fr.result = fr.regs[x]; return -1 }
			default:
				b.term = func(fr *Frame) int {
					t := make(Tuple, len(rs))
					for i, x := range rs {
						t[i] = fr.regs[x]
					}
					fr.result = t
					return -1
				}
			}
		case *ssa.Panic:
			x := c.val(ins.X)
			b.term = func(fr *Frame) int {
				panic(&GoPanic{v: fr.regs[x], where: fr.r.stack()})
			}
		default:
			b.n++
			c.instr(ins)
		}
	}
	b.ops = ops
	b.n++
	if b.term == nil {
		b.term = func(fr *Frame) int { unsupported("block without terminator"); return -1 }
	}
}

func (c *compiler) emit(o op) { *c.cur = append(*c.cur, o) }

func nilDeref(fr *Frame) {
	fr.r.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
}

func (c *compiler) instr(ins ssa.Instruction) {
	switch ins := ins.(type) {
	case *ssa.Alloc:
		d := c.reg(ins)
		t := ins.Type().Underlying().(*types.Pointer).Elem()
		c.emit(func(fr *Frame) {
			p := new(any)
			*p = zero(t)
			fr.regs[d] = p
		})
	case *ssa.UnOp:
		c.unop(ins)
	case *ssa.BinOp:
		c.binop(ins)
	case *ssa.Call:
		d := c.reg(ins)
		call := c.call(&ins.Call, ins)
		c.emit(func(fr *Frame) { fr.regs[d] = call(fr) })
	case *ssa.Defer:
		if ins.DeferStack != nil {
			c.emit(func(fr *Frame) { unsupported("defer stack") })
			return
		}
		c.fn.hasDefer = true
		prep := c.prepCall(&ins.Call)
		c.emit(func(fr *Frame) {
			th := prep(fr)
			fr.defers = append(fr.defers, func() { th() })
		})
	case *ssa.Go:
		c.emit(func(fr *Frame) { unsupported("go statement") })
	case *ssa.RunDefers:
		c.emit(func(fr *Frame) { fr.runDefers() })
	case *ssa.ChangeInterface:
		c.move(ins, ins.X)
	case *ssa.ChangeType:
		c.move(ins, ins.X)
	case *ssa.Convert:
		c.convert(ins, ins.X)
	case *ssa.MultiConvert:
		c.emit(func(fr *Frame) { unsupported("multiconvert") })
	case *ssa.SliceToArrayPointer:
		d, x := c.reg(ins), c.val(ins.X)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		c.emit(func(fr *Frame) {
			s := fr.regs[x].(Slice)
			if len(s) < n {
				fr.r.goPanicStr("runtime error: cannot convert slice to array pointer")
			}
			p := new(any)
			*p = Array(s[:n:n])
			fr.regs[d] = p
		})
	case *ssa.MakeInterface:
		d, x := c.reg(ins), c.val(ins.X)
		ti := c.w.eng.types.of(ins.X.Type())
		c.emit(func(fr *Frame) { fr.regs[d] = Iface{ti, fr.regs[x]} })
	case *ssa.MakeClosure:
		d := c.reg(ins)
		f := ins.Fn.(*ssa.Function)
		xs := make([]int, len(ins.Bindings))
		for i, b := range ins.Bindings {
			xs[i] = c.val(b)
		}
		c.emit(func(fr *Frame) {
			env := make([]any, len(xs))
			for i, x := range xs {
				env[i] = fr.regs[x]
			}
			fr.regs[d] = &FuncVal{fn: f, env: env}
		})
	case *ssa.MakeMap:
		d := c.reg(ins)
		c.emit(func(fr *Frame) { fr.regs[d] = newMap() })
	case *ssa.MakeChan:
		c.emit(func(fr *Frame) { unsupported("make chan") })
	case *ssa.MakeSlice:
		d, l, cp := c.reg(ins), c.val(ins.Len), c.val(ins.Cap)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		c.emit(func(fr *Frame) {
			n := fr.r.concretize(fr.regs[l])
			m := fr.r.concretize(fr.regs[cp])
			if n < 0 || m < n {
				fr.r.goPanicStr("runtime error: makeslice: len out of range")
			}
			if m > 1<<22 {
				unsupported("makeslice: too big")
			}
			s := make(Slice, n, m)
			full := s[:m]
			if m > 0 {
				z := zero(et)
				for i := range full {
					full[i] = copyVal(z)
				}
			}
			fr.regs[d] = s
		})
	case *ssa.Slice:
		c.slice(ins)
	case *ssa.FieldAddr:
		d, x, f := c.reg(ins), c.val(ins.X), ins.Field
		c.emit(func(fr *Frame) {
			p := fr.regs[x].(*any)
			if p == nil {
				nilDeref(fr)
			}
			s, ok := (*p).(Struct)
			if !ok {
				unsupported(fmt.Sprintf("fieldaddr on %T in %s", *p, fr.fn.ssa))
			}
			fr.regs[d] = &s[f]
		})
	case *ssa.Field:
		d, x, f := c.reg(ins), c.val(ins.X), ins.Field
		c.emit(func(fr *Frame) {
			s, ok := fr.regs[x].(Struct)
			if !ok {
				unsupported(fmt.Sprintf("field on %T in %s", fr.regs[x], fr.fn.ssa))
			}
			fr.regs[d] = s[f]
		})
	case *ssa.IndexAddr:
		d, x, i := c.reg(ins), c.val(ins.X), c.val(ins.Index)
		ik := kindOf(ins.Index.Type().Underlying())
		c.emit(func(fr *Frame) {
			n := fr.r.idx(fr.regs[i], ik)
			var s []any
			switch v := fr.regs[x].(type) {
			case Slice:
				s = v
			case *any:
				if v == nil {
					nilDeref(fr)
				}
				s = (*v).(Array)
			default:
				unsupported(fmt.Sprintf("indexaddr on %T", v))
			}
			if n < 0 || n >= int64(len(s)) {
				fr.r.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", n, len(s)))
			}
			fr.regs[d] = &s[n]
		})
	case *ssa.Index:
		d, x, i := c.reg(ins), c.val(ins.X), c.val(ins.Index)
		ik := kindOf(ins.Index.Type().Underlying())
		c.emit(func(fr *Frame) {
			n := fr.r.idx(fr.regs[i], ik)
			switch v := fr.regs[x].(type) {
			case Array:
				if n < 0 || n >= int64(len(v)) {
					fr.r.goPanicStr("runtime error: index out of range")
				}
				fr.regs[d] = v[n]
			case string, *SymStr:
				fr.regs[d] = fr.r.strIndex(v, n)
			default:
				unsupported(fmt.Sprintf("index on %T", v))
			}
		})
	case *ssa.Lookup:
		d, x, i := c.reg(ins), c.val(ins.X), c.val(ins.Index)
		if mt, ok := ins.X.Type().Underlying().(*types.Map); ok {
			et := mt.Elem()
			commaOk := ins.CommaOk
			c.emit(func(fr *Frame) {
				m := fr.regs[x].(*Map)
				e := fr.r.mapFind(m, fr.regs[i])
				var v any
				if e != nil {
					v = e.v
				} else {
					v = zero(et)
				}
				if commaOk {
					fr.regs[d] = Tuple{v, e != nil}
				} else {
					fr.regs[d] = v
				}
			})
			return
		}
		ik := kindOf(ins.Index.Type().Underlying())
		c.emit(func(fr *Frame) { fr.regs[d] = fr.r.strIndex(fr.regs[x], fr.r.idx(fr.regs[i], ik)) })
	case *ssa.MapUpdate:
		m, k, v := c.val(ins.Map), c.val(ins.Key), c.val(ins.Value)
		c.emit(func(fr *Frame) {
			mm := fr.regs[m].(*Map)
			if mm == nil {
				fr.r.goPanicStr("assignment to entry in nil map")
			}
			fr.r.checkHashable(fr.regs[k])
			fr.r.mapSet(mm, fr.regs[k], fr.regs[v])
		})
	case *ssa.Range:
		d, x := c.reg(ins), c.val(ins.X)
		c.emit(func(fr *Frame) {
			switch v := fr.regs[x].(type) {
			case *Map:
				fr.regs[d] = &mapIter{es: fr.r.iterOrderAt(fr, v)}
			case string, *SymStr:
				fr.regs[d] = &strIter{s: v}
			default:
				unsupported(fmt.Sprintf("range over %T", v))
			}
		})
	case *ssa.Next:
		d, x := c.reg(ins), c.val(ins.Iter)
		tt := ins.Type().(*types.Tuple)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		c.emit(func(fr *Frame) {
			switch it := fr.regs[x].(type) {
			case *mapIter:
				if e := it.next(); e != nil {
					fr.regs[d] = Tuple{true, e.k, e.v}
				} else {
					fr.regs[d] = Tuple{false, zeroOrNil(kt), zeroOrNil(vt)}
				}
			case *strIter:
				fr.regs[d] = it.next(fr.r)
			}
		})
	case *ssa.TypeAssert:
		c.typeAssert(ins)
	case *ssa.Extract:
		d, x, i := c.reg(ins), c.val(ins.Tuple), ins.Index
		c.emit(func(fr *Frame) { fr.regs[d] = fr.regs[x].(Tuple)[i] })
	case *ssa.Store:
		a, v := c.val(ins.Addr), c.val(ins.Val)
		c.emit(func(fr *Frame) {
			p := fr.regs[a].(*any)
			if p == nil {
				nilDeref(fr)
			}
			storeTo(p, fr.regs[v])
		})
	case *ssa.Send, *ssa.Select:
		c.emit(func(fr *Frame) { unsupported("channel operation") })
	default:
		s := fmt.Sprintf("%T", ins)
		c.emit(func(fr *Frame) { unsupported("instruction " + s) })
	}
}

func zeroOrNil(t types.Type) any {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (r *Run) checkHashable(k any) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t.t) {
		r.goPanicStr("runtime error: hash of unhashable type " + i.t.t.String())
	}
}

func (r *Run) idx(v any, k int) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		n := r.concretize(v)
		if !kindSigned(k) {
			n = int64(uint64(n) & mask(v.w))
		}
		return n
	}
	panic(fmt.Sprintf("idx %T", v))
}

func (r *Run) strIndex(s any, n int64) any {
	if n < 0 || n >= int64(strLen(s)) {
		r.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", n, strLen(s)))
	}
	return strByte(s, int(n))
}

type mapIter struct {
	es []*mapEntry
	i  int
}

func (it *mapIter) next() *mapEntry {
	for it.i < len(it.es) {
		e := it.es[it.i]
		it.i++
		if !e.deleted {
			return e
		}
	}
	return nil
}

type strIter struct {
	s any
	i int
}

func (it *strIter) next(r *Run) Tuple {
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{false, int64(0), int64(0)}
	}
	i := it.i
	if s, ok := it.s.(string); ok {
		c, w := utf8.DecodeRuneInString(s[i:])
		it.i += w
		return Tuple{true, int64(i), int64(c)}
	}
	c, w := r.decodeRune(it.s, i)
	it.i += w
	return Tuple{true, int64(i), c}
}

// decodeRune decodes a rune at i; symbolic bytes must be ASCII on the explored path.
func (r *Run) decodeRune(s any, i int) (any, int) {
	switch b := strByte(s, i).(type) {
	case int64:
		if b < utf8.RuneSelf {
			return b, 1
		}
		// concrete multi-byte sequence
		var bs []byte
		for j := i; j < strLen(s) && j < i+4; j++ {
			c, ok := strByte(s, j).(int64)
			if !ok {
				break
			}
			bs = append(bs, byte(c))
		}
		c, w := utf8.DecodeRune(bs)
		return int64(c), w
	case *Term:
		if !r.branch(r.tt.Bin(OUlt, b, r.tt.BV(utf8.RuneSelf, 8))) {
			unsupported("non-ASCII symbolic byte in rune decoding")
		}
		return r.tt.Resize(b, 32, false), 1
	}
	panic("decodeRune")
}

func (c *compiler) move(d ssa.Value, s ssa.Value) {
	di, si := c.reg(d), c.val(s)
	c.emit(func(fr *Frame) { fr.regs[di] = fr.regs[si] })
}

func (c *compiler) unop(ins *ssa.UnOp) {
	d, x := c.reg(ins), c.val(ins.X)
	switch ins.Op {
	case token.MUL:
		c.emit(func(fr *Frame) {
			p, ok := fr.regs[x].(*any)
			if !ok {
				unsupported(fmt.Sprintf("load from %T in %s", fr.regs[x], fr.fn.ssa))
			}
			if p == nil {
				nilDeref(fr)
			}
			switch v := (*p).(type) {
			case Struct, Array:
				fr.regs[d] = copyVal(v)
			default:
				fr.regs[d] = v
			}
		})
	case token.NOT:
		c.emit(func(fr *Frame) { fr.regs[d] = fr.r.not(fr.regs[x]) })
	case token.SUB:
		k := kindOf(ins.X.Type().Underlying())
		c.emit(func(fr *Frame) {
			switch v := fr.regs[x].(type) {
			case int64:
				fr.regs[d] = norm(-v, k)
			case float64:
				fr.regs[d] = -v
			case complex128:
				fr.regs[d] = -v
			case *Term:
				if v.sort == SFP {
					fr.regs[d] = fr.r.tt.Un(OFNeg, v)
				} else {
					fr.regs[d] = fr.r.fromTerm(fr.r.tt.Un(ONeg, v), k)
				}
			}
		})
	case token.XOR:
		k := kindOf(ins.X.Type().Underlying())
		c.emit(func(fr *Frame) {
			switch v := fr.regs[x].(type) {
			case int64:
				fr.regs[d] = norm(^v, k)
			case *Term:
				fr.regs[d] = fr.r.fromTerm(fr.r.tt.Un(OBNot, v), k)
			}
		})
	default:
		c.emit(func(fr *Frame) { unsupported("unop " + ins.Op.String()) })
	}
}

// fromTerm lowers constant integer terms.
func (r *Run) fromTerm(t *Term, k int) any {
	if !t.isConst() {
		return t
	}
	switch t.sort {
	case SBool:
		return t.n != 0
	case SFP:
		return math.Float64frombits(t.n)
	}
	if kindSigned(k) {
		return sx(t.n, t.w)
	}
	return int64(t.n)
}

func (c *compiler) binop(ins *ssa.BinOp) {
	d, x, y := c.reg(ins), c.val(ins.X), c.val(ins.Y)
	k := kindOf(ins.X.Type().Underlying())
	o := ins.Op
	switch o {
	case token.EQL, token.NEQ:
		neg := o == token.NEQ
		_, xi := ins.X.Type().Underlying().(*types.Interface)
		_, yi := ins.Y.Type().Underlying().(*types.Interface)
		var xt, yt *TI
		if xi && !yi {
			yt = c.w.eng.types.of(ins.Y.Type())
		}
		if yi && !xi {
			xt = c.w.eng.types.of(ins.X.Type())
		}
		c.emit(func(fr *Frame) {
			a, b := fr.regs[x], fr.regs[y]
			if xt != nil {
				a = Iface{xt, a}
			}
			if yt != nil {
				b = Iface{yt, b}
			}
			res := fr.r.eqVal(a, b)
			if neg {
				res = fr.r.not(res)
			}
			fr.regs[d] = res
		})
		return
	}
	if k == kString {
		switch o {
		case token.ADD:
			c.emit(func(fr *Frame) { fr.regs[d] = strConcat(fr.regs[x], fr.regs[y]) })
		case token.LSS:
			c.emit(func(fr *Frame) { fr.regs[d] = fr.r.strLess(fr.regs[x], fr.regs[y]) })
		case token.GTR:
			c.emit(func(fr *Frame) { fr.regs[d] = fr.r.strLess(fr.regs[y], fr.regs[x]) })
		case token.LEQ:
			c.emit(func(fr *Frame) { fr.regs[d] = fr.r.not(fr.r.strLess(fr.regs[y], fr.regs[x])) })
		case token.GEQ:
			c.emit(func(fr *Frame) { fr.regs[d] = fr.r.not(fr.r.strLess(fr.regs[x], fr.regs[y])) })
		default:
			c.emit(func(fr *Frame) { unsupported("string op " + o.String()) })
		}
		return
	}
	if k == kBool {
		switch o {
		case token.AND, token.LAND:
			c.emit(func(fr *Frame) { fr.regs[d] = fr.r.and(fr.regs[x], fr.regs[y]) })
		case token.OR, token.LOR:
			c.emit(func(fr *Frame) { fr.regs[d] = fr.r.or(fr.regs[x], fr.regs[y]) })
		}
		return
	}
	if kindInt(k) {
		ky := kindOf(ins.Y.Type().Underlying())
		c.emit(func(fr *Frame) {
			a, ok1 := fr.regs[x].(int64)
			b, ok2 := fr.regs[y].(int64)
			if ok1 && ok2 {
				fr.regs[d] = fr.r.intBin(o, a, b, k, ky)
				return
			}
			fr.regs[d] = fr.r.symBin(o, fr.regs[x], fr.regs[y], k, ky)
		})
		return
	}
	if k == kFloat32 || k == kFloat64 {
		c.emit(func(fr *Frame) {
			a, ok1 := fr.regs[x].(float64)
			b, ok2 := fr.regs[y].(float64)
			if !ok1 || !ok2 {
				ta, tb := fr.r.fpTerm(fr.regs[x]), fr.r.fpTerm(fr.regs[y])
				tt := fr.r.tt
				switch o {
				case token.LSS:
					fr.regs[d] = fr.r.tb(tt.Bin(OFLt, ta, tb))
				case token.GTR:
					fr.regs[d] = fr.r.tb(tt.Bin(OFLt, tb, ta))
				case token.LEQ:
					fr.regs[d] = fr.r.tb(tt.Bin(OFLe, ta, tb))
				case token.GEQ:
					fr.regs[d] = fr.r.tb(tt.Bin(OFLe, tb, ta))
				default:
					unsupported("symbolic float arithmetic " + o.String())
				}
				return
			}
			var res any
			switch o {
			case token.ADD:
				res = a + b
			case token.SUB:
				res = a - b
			case token.MUL:
				res = a * b
			case token.QUO:
				res = a / b
			case token.LSS:
				res = a < b
			case token.GTR:
				res = a > b
			case token.LEQ:
				res = a <= b
			case token.GEQ:
				res = a >= b
			default:
				unsupported("float op " + o.String())
			}
			if f, ok := res.(float64); ok && k == kFloat32 {
				res = float64(float32(f))
			}
			fr.regs[d] = res
		})
		return
	}
	if k == kComplex128 || k == kComplex64 {
		c.emit(func(fr *Frame) {
			a, b := fr.regs[x].(complex128), fr.regs[y].(complex128)
			switch o {
			case token.ADD:
				fr.regs[d] = a + b
			case token.SUB:
				fr.regs[d] = a - b
			case token.MUL:
				fr.regs[d] = a * b
			case token.QUO:
				fr.regs[d] = a / b
			}
		})
		return
	}
	c.emit(func(fr *Frame) { unsupported("binop " + o.String()) })
}

func (r *Run) intBin(o token.Token, a, b int64, k, ky int) any {
	signed := kindSigned(k)
	switch o {
	case token.ADD:
		return norm(a+b, k)
	case token.SUB:
		return norm(a-b, k)
	case token.MUL:
		return norm(a*b, k)
	case token.QUO:
		if b == 0 {
			r.goPanicStr("runtime error: integer divide by zero")
		}
		if signed {
			if b == -1 {
				return norm(-a, k)
			}
			return norm(a/b, k)
		}
		return norm(int64(uint64(a)/uint64(b)), k)
	case token.REM:
		if b == 0 {
			r.goPanicStr("runtime error: integer divide by zero")
		}
		if signed {
			if b == -1 {
				return int64(0)
			}
			return norm(a%b, k)
		}
		return norm(int64(uint64(a)%uint64(b)), k)
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return norm(a^b, k)
	case token.AND_NOT:
		return norm(a&^b, k)
	case token.SHL, token.SHR:
		if kindSigned(ky) && b < 0 {
			r.goPanicStr("runtime error: negative shift amount")
		}
		s := uint64(b)
		if o == token.SHL {
			if s >= 64 {
				return int64(0)
			}
			return norm(a<<s, k)
		}
		if signed {
			if s >= 64 {
				s = 63
			}
			return a >> s
		}
		if s >= 64 {
			return int64(0)
		}
		return norm(int64(uint64(a)>>s), k)
	case token.LSS:
		if signed {
			return a < b
		}
		return uint64(a) < uint64(b)
	case token.LEQ:
		if signed {
			return a <= b
		}
		return uint64(a) <= uint64(b)
	case token.GTR:
		if signed {
			return a > b
		}
		return uint64(a) > uint64(b)
	case token.GEQ:
		if signed {
			return a >= b
		}
		return uint64(a) >= uint64(b)
	}
	unsupported("int op " + o.String())
	return nil
}

func (r *Run) symBin(o token.Token, a, b any, k, ky int) any {
	w := kindWidth(k)
	tt := r.tt
	ta := r.intTerm(a, w)
	signed := kindSigned(k)
	if o == token.SHL || o == token.SHR {
		n := r.concretize(b)
		tb := tt.BV(uint64(n), w)
		if n < 0 || n >= int64(w) {
			unsupported("symbolic shift out of range")
		}
		if o == token.SHL {
			return r.fromTerm(tt.Bin(OShl, ta, tb), k)
		}
		if signed {
			return r.fromTerm(tt.Bin(OAshr, ta, tb), k)
		}
		return r.fromTerm(tt.Bin(OLshr, ta, tb), k)
	}
	tb := r.intTerm(b, w)
	pick := func(s, u Op) Op {
		if signed {
			return s
		}
		return u
	}
	switch o {
	case token.ADD:
		return r.fromTerm(tt.Bin(OAdd, ta, tb), k)
	case token.SUB:
		return r.fromTerm(tt.Bin(OSub, ta, tb), k)
	case token.MUL:
		return r.fromTerm(tt.Bin(OMul, ta, tb), k)
	case token.QUO, token.REM:
		if r.branchAny(r.tb(tt.Eq(tb, tt.BV(0, w)))) {
			r.goPanicStr("runtime error: integer divide by zero")
		}
		if o == token.QUO {
			return r.fromTerm(tt.Bin(pick(OSDiv, OUDiv), ta, tb), k)
		}
		return r.fromTerm(tt.Bin(pick(OSRem, OURem), ta, tb), k)
	case token.AND:
		return r.fromTerm(tt.Bin(OBAnd, ta, tb), k)
	case token.OR:
		return r.fromTerm(tt.Bin(OBOr, ta, tb), k)
	case token.XOR:
		return r.fromTerm(tt.Bin(OBXor, ta, tb), k)
	case token.AND_NOT:
		return r.fromTerm(tt.Bin(OBAnd, ta, tt.Un(OBNot, tb)), k)
	case token.LSS:
		return r.tb(tt.Bin(pick(OSlt, OUlt), ta, tb))
	case token.LEQ:
		return r.tb(tt.Bin(pick(OSle, OUle), ta, tb))
	case token.GTR:
		return r.tb(tt.Bin(pick(OSlt, OUlt), tb, ta))
	case token.GEQ:
		return r.tb(tt.Bin(pick(OSle, OUle), tb, ta))
	}
	unsupported("symbolic int op " + o.String())
	return nil
}

func (c *compiler) convert(ins ssa.Value, x ssa.Value) {
	d, s := c.reg(ins), c.val(x)
	from, to := x.Type(), ins.Type()
	conv := convFunc(from, to)
	c.emit(func(fr *Frame) { fr.regs[d] = conv(fr.r, fr.regs[s]) })
}

func convFunc(from, to types.Type) func(r *Run, v any) any {
	fu, tu := from.Underlying(), to.Underlying()
	fk, tk := kindOf(fu), kindOf(tu)
	id := func(r *Run, v any) any { return v }
	switch {
	case kindInt(fk) && kindInt(tk):
		return func(r *Run, v any) any {
			switch v := v.(type) {
			case int64:
				return norm(v, tk)
			case *Term:
				return r.fromTerm(r.tt.Resize(v, kindWidth(tk), kindSigned(fk)), tk)
			}
			panic("conv int")
		}
	case kindInt(fk) && (tk == kFloat32 || tk == kFloat64):
		return func(r *Run, v any) any {
			n := r.concretize(v)
			var f float64
			if kindSigned(fk) {
				f = float64(n)
			} else {
				f = float64(uint64(n))
			}
			if tk == kFloat32 {
				f = float64(float32(f))
			}
			return f
		}
	case (fk == kFloat32 || fk == kFloat64) && kindInt(tk):
		return func(r *Run, v any) any {
			f, ok := v.(float64)
			if !ok {
				unsupported("symbolic float to int")
			}
			if !kindSigned(tk) && f >= 9.2e18 {
				return norm(int64(uint64(f)), tk)
			}
			return norm(int64(f), tk)
		}
	case (fk == kFloat32 || fk == kFloat64) && (tk == kFloat32 || tk == kFloat64):
		return func(r *Run, v any) any {
			if f, ok := v.(float64); ok && tk == kFloat32 {
				return float64(float32(f))
			}
			return v
		}
	case fk == kString && tk == kSlice:
		ek := kindOf(tu.(*types.Slice).Elem().Underlying())
		if ek == kUint8 {
			return func(r *Run, v any) any { return Slice(strBytes(v)) }
		}
		return func(r *Run, v any) any {
			out := Slice{}
			it := &strIter{s: v}
			for {
				t := it.next(r)
				if t[0] == false {
					return out
				}
				out = append(out, t[2])
			}
		}
	case fk == kSlice && tk == kString:
		ek := kindOf(fu.(*types.Slice).Elem().Underlying())
		if ek == kUint8 {
			return func(r *Run, v any) any { return mkStr(v.(Slice)) }
		}
		return func(r *Run, v any) any {
			var sb SB
			for _, c := range v.(Slice) {
				sb.val(r.runeStr(c))
			}
			return sb.result()
		}
	case kindInt(fk) && tk == kString:
		return func(r *Run, v any) any { return r.runeStr(v) }
	case fk == tk && (fk == kString || fk == kSlice || fk == kPointer || fk == kStruct || fk == kMap || fk == kFunc || fk == kBool || fk == kInterface || fk == kArray || fk == kComplex128 || fk == kUnsafePointer):
		return id
	case fk == kSlice && tk == kArray:
		n := int(tu.(*types.Array).Len())
		return func(r *Run, v any) any {
			s := v.(Slice)
			if len(s) < n {
				r.goPanicStr("runtime error: cannot convert slice to array")
			}
			return copyVal(Array(s[:n]))
		}
	}
	return func(r *Run, v any) any {
		unsupported("conversion " + from.String() + " -> " + to.String())
		return nil
	}
}

// runeStr converts a rune to a string.
func (r *Run) runeStr(v any) any {
	switch v := v.(type) {
	case int64:
		if v < 0 || v > utf8.MaxRune {
			return string(utf8.RuneError)
		}
		return string(rune(v))
	case *Term:
		if !r.branch(r.tt.Bin(OUlt, v, r.tt.BV(utf8.RuneSelf, v.w))) {
			unsupported("non-ASCII symbolic rune")
		}
		return mkStr([]any{r.fromTerm(r.tt.Resize(v, 8, false), kUint8)})
	}
	panic("runeStr")
}

func (c *compiler) slice(ins *ssa.Slice) {
	d, x := c.reg(ins), c.val(ins.X)
	lo, hi, mx := -1, -1, -1
	if ins.Low != nil {
		lo = c.val(ins.Low)
	}
	if ins.High != nil {
		hi = c.val(ins.High)
	}
	if ins.Max != nil {
		mx = c.val(ins.Max)
	}
	c.emit(func(fr *Frame) {
		l, h, m := int64(0), int64(-1), int64(-1)
		if lo >= 0 {
			l = fr.r.concretize(fr.regs[lo])
		}
		if hi >= 0 {
			h = fr.r.concretize(fr.regs[hi])
		}
		if mx >= 0 {
			m = fr.r.concretize(fr.regs[mx])
		}
		oob := func(n, cp int64) {
			fr.r.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, n, cp))
		}
		switch v := fr.regs[x].(type) {
		case string, *SymStr:
			n := int64(strLen(v))
			if hi < 0 {
				h = n
			}
			if l < 0 || h < l || h > n {
				oob(h, n)
			}
			fr.regs[d] = strSlice(v, int(l), int(h))
		case Slice:
			cp := int64(cap(v))
			if hi < 0 {
				h = int64(len(v))
			}
			if mx < 0 {
				m = cp
			}
			if l < 0 || h < l || m < h || m > cp {
				oob(h, cp)
			}
			if v == nil {
				fr.regs[d] = v
				return
			}
			fr.regs[d] = v[l:h:m]
		case *any:
			if v == nil {
				nilDeref(fr)
			}
			a := Slice((*v).(Array))
			cp := int64(cap(a))
			if hi < 0 {
				h = int64(len(a))
			}
			if mx < 0 {
				m = cp
			}
			if l < 0 || h < l || m < h || m > cp {
				oob(h, cp)
			}
			fr.regs[d] = a[l:h:m]
		default:
			unsupported(fmt.Sprintf("slice of %T", v))
		}
	})
}

func (c *compiler) typeAssert(ins *ssa.TypeAssert) {
	d, x := c.reg(ins), c.val(ins.X)
	at := c.w.eng.types.of(ins.AssertedType)
	commaOk := ins.CommaOk
	toIface := at.kind == kInterface
	z := zero(ins.AssertedType)
	c.emit(func(fr *Frame) {
		i := fr.regs[x].(Iface)
		ok := false
		var v any
		if i.t != nil {
			if toIface {
				if fr.r.w.eng.implements(i.t, at) {
					ok, v = true, i
				}
			} else if i.t == at {
				ok, v = true, i.v
			}
		}
		if !ok {
			v = z
			if _, isS := z.(Struct); isS {
				v = copyVal(z)
			}
			if !commaOk {
				dyn := "nil"
				if i.t != nil {
					dyn = typeString(i.t.t)
				}
				fr.r.goPanicStr("interface conversion: interface is " + dyn + ", not " + typeString(at.t))
			}
		}
		if commaOk {
			fr.regs[d] = Tuple{v, ok}
		} else {
			fr.regs[d] = v
		}
	})
}

// implements decides whether dynamic type t implements interface it.
func (e *Engine) implements(t, it *TI) bool {
	t.mu.Lock()
	if v, ok := t.impl[it]; ok {
		t.mu.Unlock()
		return v
	}
	t.mu.Unlock()
	i := it.u.(*types.Interface)
	v := types.Implements(t.t, i)
	t.mu.Lock()
	t.impl[it] = v
	t.mu.Unlock()
	return v
}

// method finds the implementation of a method for dynamic type t.
func (e *Engine) method(t *TI, pkg *types.Package, name string) *ssa.Function {
	key := name
	if !token.IsExported(name) && pkg != nil {
		key = pkg.Path() + "." + name
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if f, ok := t.methods[key]; ok {
		return f
	}
	sel := e.prog.MethodSets.MethodSet(t.t).Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		e.mvMu.Lock()
		f = e.prog.MethodValue(sel)
		e.mvMu.Unlock()
	}
	t.methods[key] = f
	return f
}

// call compiles a call to a closure returning the result.
func (c *compiler) call(cc *ssa.CallCommon, ins *ssa.Call) func(fr *Frame) any {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc)
	}
	args := make([]int, len(cc.Args))
	if cc.IsInvoke() {
		x := c.val(cc.Value)
		for i, a := range cc.Args {
			args[i] = c.val(a)
		}
		name, pkg := cc.Method.Name(), cc.Method.Pkg()
		return func(fr *Frame) any {
			return fr.invoke(fr.regs[x], pkg, name, fr.gather(args))
		}
	}
	for i, a := range cc.Args {
		args[i] = c.val(a)
	}
	if f := cc.StaticCallee(); f != nil {
		if _, isClosure := cc.Value.(*ssa.MakeClosure); !isClosure {
			var fn *Fn
			w := c.w
			return func(fr *Frame) any {
				if fn == nil {
					fn = w.compile(f)
				}
				return fr.r.callFn(fr, fn, fr.gather(args), nil)
			}
		}
	}
	x := c.val(cc.Value)
	return func(fr *Frame) any {
		fv, ok := fr.regs[x].(*FuncVal)
		if !ok {
			unsupported(fmt.Sprintf("call of %T", fr.regs[x]))
		}
		return fr.r.callVal(fr, fv, fr.gather(args))
	}
}

func (fr *Frame) gather(args []int) []any {
	out := make([]any, len(args))
	for i, a := range args {
		out[i] = fr.regs[a]
	}
	return out
}

func (fr *Frame) invoke(recv any, pkg *types.Package, name string, args []any) any {
	i, ok := recv.(Iface)
	if !ok {
		unsupported(fmt.Sprintf("invoke on %T", recv))
	}
	if i.t == nil {
		nilDeref(fr)
	}
	return fr.r.invokeOn(fr, i, pkg, name, args)
}

func (r *Run) invokeOn(fr *Frame, i Iface, pkg *types.Package, name string, args []any) any {
	if ti, ok := i.v.(*TI); ok {
		return r.rtypeMethod(fr, ti, name, args)
	}
	f := r.w.eng.method(i.t, pkg, name)
	if f == nil {
		unsupported("method not found: " + i.t.t.String() + "." + name)
	}
	all := make([]any, 0, len(args)+1)
	all = append(all, i.v)
	all = append(all, args...)
	return r.callFn(fr, r.w.compile(f), all, nil)
}

// prepCall evaluates callee and arguments now, returning a thunk (for defer).
func (c *compiler) prepCall(cc *ssa.CallCommon) func(fr *Frame) func() any {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		// Evaluate with a copy of the registers.
		f := c.builtin(b, cc)
		return func(fr *Frame) func() any {
			cp := *fr
			cp.regs = append([]any(nil), fr.regs...)
			return func() any {
				cp.caller = fr.caller
				return f(&cp)
			}
		}
	}
	x := c.val(cc.Value)
	args := make([]int, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.val(a)
	}
	if cc.IsInvoke() {
		name, pkg := cc.Method.Name(), cc.Method.Pkg()
		return func(fr *Frame) func() any {
			recv, as := fr.regs[x], fr.gather(args)
			return func() any { return fr.invoke(recv, pkg, name, as) }
		}
	}
	return func(fr *Frame) func() any {
		fv, as := fr.regs[x].(*FuncVal), fr.gather(args)
		return func() any { return fr.r.callVal(fr, fv, as) }
	}
}

func (r *Run) callVal(fr *Frame, fv *FuncVal, args []any) any {
	if fv == nil {
		r.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if fv.native != nil {
		return fv.native(r, args)
	}
	return r.callFn(fr, r.w.compile(fv.fn), args, fv.env)
}

const maxDepth = 700

func (r *Run) callFn(caller *Frame, fn *Fn, args []any, env []any) any {
	if fn.intr != nil {
		return fn.intr(r, caller, args)
	}
	if r.depth >= maxDepth {
		panic(&pathEnd{"limit", "call depth limit in " + fn.ssa.String() + ": " + r.stack()})
	}
	fr := &Frame{r: r, fn: fn, caller: caller, prev: -1}
	fr.regs = make([]any, len(fn.init))
	copy(fr.regs, fn.init)
	for i, p := range fn.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.freevars {
		fr.regs[p] = env[i]
	}
	old := r.curr
	r.curr = fr
	r.depth++
	if fn.hasDefer {
		fr.runWithDefers()
	} else {
		fr.run(0)
	}
	r.depth--
	r.curr = old
	return fr.result
}

func (fr *Frame) run(b int) {
	fn := fr.fn
	r := fr.r
	for b >= 0 {
		blk := &fn.blocks[b]
		fr.cur = b
		r.steps += blk.n
		if r.steps > r.w.cfg.maxSteps && r.initMode == 0 {
			panic(&pathEnd{"limit", "step limit in " + r.stack()})
		}
		fn.cov[b] = true
		if ps := blk.phis; ps != nil {
			pi := predIndex(fn.ssa.Blocks[b], fr.prev)
			src := ps.src[pi]
			if len(src) == 1 {
				fr.regs[ps.dst[0]] = fr.phiVal(src[0])
			} else {
				tmp := make([]any, len(src))
				for i, s := range src {
					tmp[i] = fr.phiVal(s)
				}
				for i, d := range ps.dst {
					fr.regs[d] = tmp[i]
				}
			}
		}
		for _, o := range blk.ops {
			o(fr)
		}
		nb := blk.term(fr)
		fr.prev = b
		b = nb
	}
}

func (fr *Frame) phiVal(s int) any {
	if s < 0 {
		return fr.r.global(fr.regs[-1-s].(*ssa.Global))
	}
	return fr.regs[s]
}

func predIndex(b *ssa.BasicBlock, prev int) int {
	for i, p := range b.Preds {
		if p.Index == prev {
			return i
		}
	}
	panic("predIndex")
}

func (fr *Frame) runWithDefers() {
	depth := fr.r.depth
	if !fr.protect(func() { fr.run(0) }) {
		return
	}
	// panicking: run defers
	fr.r.depth = depth
	fr.r.curr = fr
	fr.runDefersPanic()
	if fr.panicking {
		pv := fr.pv
		panic(pv)
	}
	// recovered
	if rb := fr.fn.ssa.Recover; rb != nil {
		fr.prev = -1
		fr.runRecover(rb.Index)
	} else {
		res := fr.fn.ssa.Signature.Results()
		switch res.Len() {
		case 0:
		case 1:
			fr.result = zero(res.At(0).Type())
		default:
			fr.result = zero(res)
		}
	}
}

func (fr *Frame) runRecover(b int) {
	fr.run(b)
}

// protect runs f; it returns true if f panicked with a Go panic (stored in fr).
func (fr *Frame) protect(f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			if gp, ok := e.(*GoPanic); ok {
				fr.panicking = true
				fr.pv = gp
				panicked = true
				return
			}
			panic(e)
		}
	}()
	f()
	return false
}

func (fr *Frame) runDefers() {
	// Normal exit: a panic inside a deferred call is handled by runWithDefers of this frame.
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d()
	}
}

func (fr *Frame) runDefersPanic() {
	depth := fr.r.depth
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.protect(d)
		fr.r.depth = depth
		fr.r.curr = fr
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *Frame) any {
	args := make([]int, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.val(a)
	}
	switch b.Name() {
	case "len":
		x := args[0]
		return func(fr *Frame) any { return int64(lenOf(fr.regs[x])) }
	case "cap":
		x := args[0]
		return func(fr *Frame) any {
			switch v := fr.regs[x].(type) {
			case Slice:
				return int64(cap(v))
			case Array:
				return int64(len(v))
			case *any:
				return int64(len((*v).(Array)))
			}
			unsupported("cap")
			return nil
		}
	case "append":
		x, y := args[0], args[1]
		es := c.w.eng.types.sizes.Sizeof(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		return func(fr *Frame) any {
			s := fr.regs[x].(Slice)
			switch v := fr.regs[y].(type) {
			case Slice:
				return fr.r.appendSlice(s, es, v)
			case string, *SymStr:
				return fr.r.appendSlice(s, es, strBytes(v))
			}
			unsupported("append")
			return nil
		}
	case "copy":
		x, y := args[0], args[1]
		return func(fr *Frame) any {
			dst := fr.regs[x].(Slice)
			var src []any
			switch v := fr.regs[y].(type) {
			case Slice:
				src = v
			default:
				src = strBytes(v)
			}
			n := min(len(dst), len(src))
			tmp := make([]any, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				dst[i] = tmp[i]
			}
			return int64(n)
		}
	case "delete":
		m, k := args[0], args[1]
		return func(fr *Frame) any {
			mm := fr.regs[m].(*Map)
			if mm != nil {
				fr.r.mapDelete(mm, fr.regs[k])
			}
			return nil
		}
	case "clear":
		m := args[0]
		et := cc.Args[0].Type().Underlying()
		return func(fr *Frame) any {
			switch v := fr.regs[m].(type) {
			case *Map:
				if v != nil {
					for _, e := range v.entries {
						e.deleted = true
					}
					*v = *newMap()
				}
			case Slice:
				z := zero(et.(*types.Slice).Elem())
				for i := range v {
					v[i] = copyVal(z)
				}
			}
			return nil
		}
	case "panic":
		x := args[0]
		return func(fr *Frame) any { panic(&GoPanic{v: fr.regs[x], where: fr.r.stack()}) }
	case "recover":
		return func(fr *Frame) any {
			c := fr.caller
			if c != nil && c.panicking && !fr.panicking {
				c.panicking = false
				v := c.pv.v
				return v
			}
			return Iface{}
		}
	case "print", "println":
		return func(fr *Frame) any { return nil }
	case "min", "max":
		k := kindOf(cc.Args[0].Type().Underlying())
		isMin := b.Name() == "min"
		return func(fr *Frame) any {
			v := fr.regs[args[0]]
			for _, a := range args[1:] {
				y := fr.regs[a]
				var lt any
				switch k {
				case kString:
					lt = fr.r.strLess(y, v)
					if !isMin {
						lt = fr.r.strLess(v, y)
					}
				case kFloat32, kFloat64:
					lt = y.(float64) < v.(float64)
					if !isMin {
						lt = v.(float64) < y.(float64)
					}
				default:
					if isMin {
						lt = fr.r.anyBin(token.LSS, y, v, k)
					} else {
						lt = fr.r.anyBin(token.LSS, v, y, k)
					}
				}
				if fr.r.branchAny(lt) {
					v = y
				}
			}
			return v
		}
	case "ssa:wrapnilchk":
		x := args[0]
		return func(fr *Frame) any {
			if p, ok := fr.regs[x].(*any); ok && p == nil {
				nilDeref(fr)
			}
			return fr.regs[x]
		}
	case "String", "Slice", "StringData", "SliceData", "Add":
		// unsafe builtins
		name := b.Name()
		return func(fr *Frame) any {
			switch name {
			case "SliceData":
				s := fr.regs[args[0]].(Slice)
				p := new(any)
				*p = &unsafeData{s: s}
				return p
			case "StringData":
				p := new(any)
				*p = &unsafeData{str: fr.regs[args[0]]}
				return p
			case "String":
				p := fr.regs[args[0]].(*any)
				n := int(fr.r.concretize(fr.regs[args[1]]))
				if n == 0 {
					return ""
				}
				if u, ok := (*p).(*unsafeData); ok {
					if u.str != nil {
						return strSlice(u.str, 0, n)
					}
					return mkStr(u.s[:n])
				}
			case "Slice":
				p := fr.regs[args[0]].(*any)
				n := int(fr.r.concretize(fr.regs[args[1]]))
				if p == nil {
					return Slice(nil)
				}
				if u, ok := (*p).(*unsafeData); ok {
					if u.str != nil {
						return Slice(strBytes(strSlice(u.str, 0, n)))
					}
					return u.s[:n:n]
				}
			}
			unsupported("unsafe." + name)
			return nil
		}
	}
	name := b.Name()
	return func(fr *Frame) any { unsupported("builtin " + name); return nil }
}

type unsafeData struct {
	s   Slice
	str any
}

func (r *Run) anyBin(o token.Token, a, b any, k int) any {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return r.intBin(o, x, y, k, k)
	}
	return r.symBin(o, a, b, k, k)
}

func lenOf(v any) int {
	switch v := v.(type) {
	case Slice:
		return len(v)
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	case *Map:
		if v == nil {
			return 0
		}
		return v.n
	case Array:
		return len(v)
	case *any:
		return len((*v).(Array))
	}
	unsupported(fmt.Sprintf("len of %T", v))
	return 0
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// global returns the address of a package-level variable.
func (r *Run) global(g *ssa.Global) *any {
	if r.w.eng.perPath(g.Pkg) {
		if p, ok := r.globals[g]; ok {
			return p
		}
		p := new(any)
		*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
		r.globals[g] = p
		return p
	}
	w := r.w
	if p, ok := w.stdGlobals[g]; ok {
		if w.stdFailed[g.Pkg] != "" && !w.stdStored[g] {
			unsupported("global of package with failed init: " + g.String() + ": " + w.stdFailed[g.Pkg])
		}
		return p
	}
	if w.stdInit[g.Pkg] { // Values are made on first use: some are very large.
		p := new(any)
		*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
		w.stdGlobals[g] = p
		return r.global(g)
	}
	w.stdInit[g.Pkg] = true
	r.initStd(g.Pkg)
	return r.global(g)
}

// initStd runs the initializer of a library package once per worker.
func (r *Run) initStd(pkg *ssa.Package) {
	w := r.w
	if in, ok := stdInits[pkg.Pkg.Path()]; ok {
		in(r, pkg)
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	r.initMode++
	oldDepth, oldCurr := r.depth, r.curr
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch e := e.(type) {
				case *unsupportedErr:
					w.stdFailed[pkg] = e.msg
				case *GoPanic:
					w.stdFailed[pkg] = fmt.Sprint("panic ", r.panicText(e))
				case *pathEnd:
					w.stdFailed[pkg] = e.msg
				default:
					panic(e)
				}
			}
		}()
		r.callFn(nil, w.compile(f), nil, nil)
	}()
	r.depth, r.curr = oldDepth, oldCurr
	r.initMode--
	if w.stdFailed[pkg] != "" {
		for _, m := range pkg.Members {
			if gg, ok := m.(*ssa.Global); ok && w.stdGlobals[gg] != nil {
				z := zero(gg.Type().Underlying().(*types.Pointer).Elem())
				if fmt.Sprint(z) != fmt.Sprint(*w.stdGlobals[gg]) {
					w.stdStored[gg] = true
				}
			}
		}
	}
}

func (r *Run) panicText(p *GoPanic) string {
	if i, ok := p.v.(Iface); ok && i.t != nil {
		switch v := i.v.(type) {
		case string:
			return v
		case Struct:
			if len(v) == 1 {
				if s, ok := v[0].(string); ok {
					return s
				}
			}
		case *any:
			if v != nil {
				if s, ok := (*v).(Struct); ok && len(s) > 0 {
					if x, ok := s[0].(string); ok {
						return i.t.t.String() + ": " + x
					}
				}
			}
		}
		return i.t.t.String()
	}
	return "nil"
}

var _ = strings.Contains
