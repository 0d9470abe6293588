package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unsupportedErr aborts a path.
type unsupportedErr struct{ msg string }

// pathEnd ends a path (assumption failed or limit reached).
type pathEnd struct{ kind, msg string }

func unsupported(msg string) { panic(&unsupportedErr{msg}) }

// GoPanic is a panic of the interpreted program.
type GoPanic struct {
	v     any // Iface
	where string
}

// NondetVar describes one harness input, in call order.
type NondetVar struct {
	Kind string // bool int choice str float
	Name string
	Term *Term   // bool, int, float
	Str  []*Term // str
	Val  int64   // choice
}

type domain struct {
	bits      [4]uint64
	entangled bool
}

func (d *domain) has(i int) bool { return d.bits[i>>6]>>(uint(i)&63)&1 != 0 }

// Run is one symbolic path.
type Run struct {
	w      *Worker
	tt     *TermTab
	prefix []int16
	dec    []int16
	pc     []*Term
	known  map[*Term]bool // what the path condition is known to imply
	model  Model
	inputs []NondetVar
	allVar []*Term
	dom    map[string]*domain

	globals map[*ssa.Global]*any
	symTags map[string]any
	steps   int64
	depth   int
	curr    *Frame

	covers   map[string]bool
	observes []string
	obsVals  []obsVal
	asserts  int
	symAsrt  int
	branches int
	initMode int
	mapOrder bool
	mapOrdN  int
	tmpN     int
	dbg      map[string]int
}

type obsVal struct {
	name string
	v    any
}

// decide consumes a decision with n alternatives. feas(i) returns the constraint of alternative i (nil: none).
func (r *Run) nextPrefix() (int16, bool) {
	i := len(r.dec)
	if i < len(r.prefix) {
		return r.prefix[i], true
	}
	return 0, false
}

// addPC adds a constraint known to be consistent with the path condition.
// know records that the path condition implies that t is val.
func (r *Run) know(t *Term, val bool) {
	if r.known == nil {
		r.known = map[*Term]bool{}
	}
	r.known[t] = val
	r.known[r.tt.Not(t)] = !val
}

func (r *Run) addPC(t *Term) {
	if t.isConst() {
		return
	}
	r.pc = append(r.pc, t)
	r.know(t, true)
	if len(t.vars) > 1 {
		for _, v := range t.vars {
			if d := r.dom[v.name]; d != nil {
				d.entangled = true
			}
		}
	} else if len(t.vars) == 1 {
		if d := r.dom[t.vars[0].name]; d != nil {
			nd := r.truthSet(t, d)
			nd.entangled = d.entangled
			*d = nd
		}
	}
}

// truthSet returns the members of d satisfying unary t.
func (r *Run) truthSet(t *Term, d *domain) domain {
	var out domain
	v := t.vars[0]
	m := Model{}
	for i := 0; i < 256; i++ {
		if d.has(i) {
			m[v.name] = uint64(i)
			if t.Eval(m) != 0 {
				out.bits[i>>6] |= 1 << (uint(i) & 63)
			}
		}
	}
	return out
}

func (d *domain) empty() bool { return d.bits[0]|d.bits[1]|d.bits[2]|d.bits[3] == 0 }
func (d *domain) first() int {
	for i := 0; i < 256; i++ {
		if d.has(i) {
			return i
		}
	}
	return 0
}

// feasible decides pc && t. On success the returned model satisfies both (nil if unknown).
func (r *Run) feasible(t *Term) (bool, Model) {
	if t.isConst() {
		return t.n != 0, r.model
	}
	if val, ok := r.known[t]; ok {
		return val, r.model
	}
	if r.model != nil && t.Eval(r.model) != 0 {
		return true, r.model
	}
	if len(t.vars) == 1 {
		if d := r.dom[t.vars[0].name]; d != nil {
			ts := r.truthSet(t, d)
			if ts.empty() {
				return false, nil
			}
			if !d.entangled && r.model != nil {
				m := make(Model, len(r.model))
				for k, v := range r.model {
					m[k] = v
				}
				m[t.vars[0].name] = uint64(ts.first())
				return true, m
			}
		}
	}
	res, m := r.w.solver.Check(r.pc, t, r.allVar)
	switch res {
	case "sat":
		return true, m
	case "unsat":
		return false, nil
	}
	r.w.unknownBranches++
	return true, nil
}

func (r *Run) branchAny(c any) bool {
	switch c := c.(type) {
	case bool:
		return c
	case *Term:
		return r.branch(c)
	}
	panic(fmt.Sprintf("branchAny %T", c))
}

// branch forks on c.
func (r *Run) branch(c *Term) bool {
	if c.isConst() {
		return c.n != 0
	}
	r.branches++
	if p, ok := r.nextPrefix(); ok {
		r.dec = append(r.dec, p)
		// 0/1: real decision, 2/3: forced
		val := p&1 != 0
		if p < 2 {
			if val {
				r.addPC(c)
			} else {
				r.addPC(r.tt.Not(c))
			}
		} else {
			r.know(c, val)
		}
		return val
	}
	nc := r.tt.Not(c)
	ft, mt := r.feasible(c)
	ff, mf := r.feasible(nc)
	switch {
	case ft && ff:
		// Explore the current model's side first.
		val := true
		if r.model != nil && c.Eval(r.model) == 0 {
			val = false
		}
		if val {
			r.w.push(r, 0, mf)
			r.dec = append(r.dec, 1)
			r.addPC(c)
			r.model = mt
		} else {
			r.w.push(r, 1, mt)
			r.dec = append(r.dec, 0)
			r.addPC(nc)
			r.model = mf
		}
		return val
	case ft:
		r.know(c, true)
		r.dec = append(r.dec, 3)
		return true
	case ff:
		r.know(c, false)
		r.dec = append(r.dec, 2)
		return false
	}
	panic(&pathEnd{"infeasible", "path condition became infeasible"})
}

// choose picks one of n alternatives without constraint.
func (r *Run) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p, ok := r.nextPrefix(); ok {
		r.dec = append(r.dec, p)
		return int(p)
	}
	for i := n - 1; i > 0; i-- {
		r.w.push(r, int16(i), r.model)
	}
	r.dec = append(r.dec, 0)
	return 0
}

// concretize forks until t has a single value.
func (r *Run) concretize(v any) int64 {
	switch t := v.(type) {
	case int64:
		return t
	case *Term:
		for n := 0; n < 300; n++ {
			var c uint64
			if r.model != nil {
				c = t.Eval(r.model)
			} else {
				res, m := r.w.solver.Check(r.pc, nil, r.allVar)
				if res != "sat" {
					panic(&pathEnd{"infeasible", "concretize"})
				}
				r.model = m
				c = t.Eval(m)
			}
			// The chosen value must be reproducible on replay: record it as a decision.
			if p, ok := r.nextPrefix(); ok {
				r.dec = append(r.dec, p)
				c = uint64(int64(p)) & mask(t.w)
			} else {
				if int64(int16(c)) != sx(c, t.w) {
					unsupported("concretize: large value")
				}
				r.dec = append(r.dec, int16(c))
			}
			if r.branch(r.tt.Eq(t, r.tt.BV(c, t.w))) {
				return sx(c, t.w)
			}
		}
		unsupported("concretize: too many values")
	}
	panic(fmt.Sprintf("concretize %T", v))
}

func (r *Run) intTerm(v any, w uint8) *Term {
	switch v := v.(type) {
	case int64:
		return r.tt.BV(uint64(v), w)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("intTerm %T", v))
}

func (r *Run) fpTerm(v any) *Term {
	switch v := v.(type) {
	case float64:
		return r.tt.FP(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("fpTerm %T", v))
}

// newVar declares an input variable.
func (r *Run) newVar(name string, s Sort, w uint8) *Term {
	t := r.tt.Var(name, s, w)
	r.allVar = append(r.allVar, t)
	return t
}

func sanitizeName(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// expandAlphabet parses "a-zA-Z0-9_" like classes; "\x00-\xff" style ranges work too.
func expandAlphabet(s string) domain {
	var d domain
	for i := 0; i < len(s); i++ {
		lo := s[i]
		hi := lo
		if i+2 < len(s) && s[i+1] == '-' {
			hi = s[i+2]
			i += 2
		}
		for c := int(lo); c <= int(hi); c++ {
			d.bits[c>>6] |= 1 << (uint(c) & 63)
		}
	}
	return d
}

func (r *Run) domTerm(v *Term, d domain) *Term {
	res := r.tt.F
	i := 0
	for i < 256 {
		if !d.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && d.has(j+1) {
			j++
		}
		var c *Term
		if i == j {
			c = r.tt.Eq(v, r.tt.BV(uint64(i), 8))
		} else {
			c = r.tt.And(r.tt.Bin(OUle, r.tt.BV(uint64(i), 8), v), r.tt.Bin(OUle, v, r.tt.BV(uint64(j), 8)))
		}
		res = r.tt.Or(res, c)
		i = j + 1
	}
	return res
}

func (r *Run) setModel(name string, v uint64) {
	if r.model == nil {
		return
	}
	if _, ok := r.model[name]; ok {
		return
	}
	m := make(Model, len(r.model)+1)
	for k, x := range r.model {
		m[k] = x
	}
	m[name] = v
	r.model = m
}

// symStr creates a symbolic string of length n over alphabet.
func (r *Run) symStr(name string, n int, alphabet string) any {
	id := len(r.inputs)
	d := expandAlphabet(alphabet)
	b := make([]any, n)
	ts := make([]*Term, n)
	for i := range b {
		nm := fmt.Sprintf("i%d_%s_%d", id, sanitizeName(name), i)
		v := r.newVar(nm, SBV, 8)
		dd := d
		r.dom[nm] = &dd
		r.setModel(nm, uint64(d.first()))
		r.pc = append(r.pc, r.domTerm(v, d))
		b[i] = v
		ts[i] = v
	}
	r.inputs = append(r.inputs, NondetVar{Kind: "str", Name: name, Str: ts})
	if n == 0 {
		return ""
	}
	return &SymStr{b: b}
}

func (r *Run) symInt(name string, lo, hi int64) any {
	id := len(r.inputs)
	nm := fmt.Sprintf("i%d_%s", id, sanitizeName(name))
	v := r.newVar(nm, SBV, 64)
	r.setModel(nm, uint64(lo))
	r.inputs = append(r.inputs, NondetVar{Kind: "int", Name: name, Term: v})
	r.pc = append(r.pc, r.tt.And(r.tt.Bin(OSle, r.tt.BV(uint64(lo), 64), v), r.tt.Bin(OSle, v, r.tt.BV(uint64(hi), 64))))
	return v
}

func (r *Run) symBool(name string) any {
	id := len(r.inputs)
	nm := fmt.Sprintf("i%d_%s", id, sanitizeName(name))
	v := r.newVar(nm, SBool, 0)
	r.setModel(nm, 0)
	r.inputs = append(r.inputs, NondetVar{Kind: "bool", Name: name, Term: v})
	return v
}

func (r *Run) symFloat(name string) any {
	id := len(r.inputs)
	nm := fmt.Sprintf("i%d_%s", id, sanitizeName(name))
	v := r.newVar(nm, SFP, 64)
	r.setModel(nm, 0)
	r.inputs = append(r.inputs, NondetVar{Kind: "float", Name: name, Term: v})
	// finite
	big := r.tt.FP(math.MaxFloat64)
	r.pc = append(r.pc, r.tt.And(r.tt.Bin(OFLe, v, big), r.tt.Bin(OFLe, r.tt.Un(OFNeg, big), v)))
	return v
}

func (r *Run) symChoice(name string, n int) int64 {
	c := r.choose(n)
	r.inputs = append(r.inputs, NondetVar{Kind: "choice", Name: name, Val: int64(c)})
	return int64(c)
}

// assume restricts the path.
func (r *Run) assume(c any) {
	switch c := c.(type) {
	case bool:
		if !c {
			panic(&pathEnd{"assume", ""})
		}
	case *Term:
		if p, ok := r.nextPrefix(); ok {
			r.dec = append(r.dec, p)
			r.addPC(c)
			return
		}
		ok, m := r.feasible(c)
		if !ok {
			panic(&pathEnd{"assume", ""})
		}
		r.dec = append(r.dec, 1)
		r.addPC(c)
		r.model = m
	}
}

type violation struct {
	msg   string
	model Model
}

// assert decides the property; a counterexample ends the path.
func (r *Run) assert(c any, msg string) {
	r.asserts++
	switch c := c.(type) {
	case bool:
		if !c {
			panic(&violation{msg: msg})
		}
	case *Term:
		r.symAsrt++
		if len(r.dec) < len(r.prefix) {
			// already decided on the parent path
			r.addPC(c)
			r.dec = append(r.dec, r.prefix[len(r.dec)])
			return
		}
		r.w.assertQueries++
		res, m := r.w.solver.Check(r.pc, r.tt.Not(c), r.allVar)
		switch res {
		case "sat":
			panic(&violation{msg: msg, model: m})
		case "unsat":
			r.w.assertUnsat++
		default:
			r.w.unknownAsserts++
			r.w.note("solver unknown on assertion: " + msg)
		}
		if ok, m2 := r.feasible(c); ok {
			r.model = m2
		}
		r.dec = append(r.dec, 1)
		r.addPC(c)
	}
}

// ensureModel returns a model of the path condition.
func (r *Run) ensureModel() Model {
	if r.model != nil {
		ok := true
		for _, c := range r.pc {
			if c.Eval(r.model) == 0 {
				ok = false
				break
			}
		}
		if ok {
			return r.model
		}
	}
	res, m := r.w.solver.Check(r.pc, nil, r.allVar)
	if res == "sat" {
		r.model = m
		return m
	}
	return nil
}

// goPanicStr raises a runtime error panic.
func (r *Run) goPanicStr(msg string) {
	panic(&GoPanic{v: r.w.eng.runtimeError(msg), where: r.stack()})
}

func (r *Run) stack() string {
	var sb strings.Builder
	n := 0
	for f := r.curr; f != nil && n < 12; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fn.ssa.String())
		n++
	}
	return sb.String()
}

// mapIter yields the entries of a map in iteration order.
func (r *Run) iterOrder(m *Map) []*mapEntry {
	es := m.live()
	if !r.mapOrder || len(es) < 2 || r.initMode > 0 {
		return es
	}
	// mapOrdN counts the iterations that may deviate from insertion order.
	if r.mapOrdN <= 0 || r.choose(2) == 0 {
		return es
	}
	r.mapOrdN--
	rest := append([]*mapEntry(nil), es...)
	if len(rest) > 4 { // a rotation or a reversed rotation
		i, rev := r.choose(len(rest)), r.choose(2)
		rest = append(append([]*mapEntry(nil), rest[i:]...), rest[:i]...)
		if rev == 1 {
			for a, b := 0, len(rest)-1; a < b; a, b = a+1, b-1 {
				rest[a], rest[b] = rest[b], rest[a]
			}
		}
		return rest
	}
	// any permutation but the identity, which is explored above
	out := make([]*mapEntry, 0, len(es))
	id := true
	for len(rest) > 0 {
		i := r.choose(len(rest))
		id = id && i == 0
		out = append(out, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	if id {
		panic(&pathEnd{"assume", "identity order"})
	}
	return out
}

var _ = types.Identical
