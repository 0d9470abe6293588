package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sorts of SMT terms.
type Sort uint8

const (
	SBool Sort = iota
	SBV
	SFP // float64
)

// Op is a term constructor.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OZext
	OSext
	OExtract // low bits
	OFEq
	OFLt
	OFLe
	OFNeg
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule",
	OSlt: "bvslt", OSle: "bvsle", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFNeg: "fp.neg",
}

// Term is an immutable symbolic term. Constants are kept in n (bits).
type Term struct {
	op   Op
	sort Sort
	w    uint8 // width for BV
	n    uint64
	name string
	args []*Term
	id   int32
	vars []*Term // sorted set of variables (by id), shared
	smt  string  // memoized
}

type termKey struct {
	op         Op
	sort       Sort
	w          uint8
	n          uint64
	name       string
	a0, a1, a2 int32
}

// TermTab hash-conses terms; one per path.
type TermTab struct {
	tab  map[termKey]*Term
	next int32
	T, F *Term
}

func newTermTab() *TermTab {
	tt := &TermTab{tab: map[termKey]*Term{}}
	tt.T = tt.mk(OConst, SBool, 0, 1, "")
	tt.F = tt.mk(OConst, SBool, 0, 0, "")
	return tt
}

func (tt *TermTab) mk(op Op, s Sort, w uint8, n uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, w: w, n: n, name: name, a0: -1, a1: -1, a2: -1}
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if len(args) > 3 {
		panic("arity")
	}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, w: w, n: n, name: name, args: args, id: tt.next}
	tt.next++
	tt.tab[k] = t
	switch {
	case op == OVar:
		t.vars = []*Term{t}
	case len(args) == 1:
		t.vars = args[0].vars
	case len(args) > 1:
		v := args[0].vars
		for _, a := range args[1:] {
			v = unionVars(v, a.vars)
		}
		t.vars = v
	}
	return t
}

func unionVars(a, b []*Term) []*Term {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	if len(a) == 1 && len(b) == 1 && a[0] == b[0] {
		return a
	}
	// subset check
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].id < b[j].id):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].id < a[i].id:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(n uint64, w uint8) int64 {
	if w >= 64 {
		return int64(n)
	}
	sh := 64 - w
	return int64(n<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OConst }

func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}
func (tt *TermTab) BV(n uint64, w uint8) *Term { return tt.mk(OConst, SBV, w, n&mask(w), "") }
func (tt *TermTab) FP(f float64) *Term         { return tt.mk(OConst, SFP, 64, math.Float64bits(f), "") }
func (tt *TermTab) Var(name string, s Sort, w uint8) *Term {
	return tt.mk(OVar, s, w, 0, name)
}

func (tt *TermTab) Not(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.n == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return tt.mk(ONot, SBool, 0, 0, "", a)
}

func (tt *TermTab) And(a, b *Term) *Term {
	if a.isConst() {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.n == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.F
	}
	return tt.mk(OAnd, SBool, 0, 0, "", a, b)
}

func (tt *TermTab) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.n != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.n != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.T
	}
	return tt.mk(OOr, SBool, 0, 0, "", a, b)
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.n == b.n)
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.n != 0 {
				return a
			}
			return tt.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		x, y := a.args[1].n == b.n, a.args[2].n == b.n
		switch {
		case x && y:
			return tt.T
		case x:
			return a.args[0]
		case y:
			return tt.Not(a.args[0])
		default:
			return tt.F
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, SBool, 0, 0, "", a, b)
}

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.n != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		return tt.And(tt.Or(tt.Not(c), a), tt.Or(c, b))
	}
	return tt.mk(OIte, a.sort, a.w, 0, "", c, a, b)
}

// Bin builds a binary BV/FP operation.
func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	s, w := SBV, a.w
	switch op {
	case OUlt, OUle, OSlt, OSle, OFEq, OFLt, OFLe:
		s, w = SBool, 0
	}
	if a.isConst() && b.isConst() {
		n := evalBin(op, a.n, b.n, a.w)
		if s == SBool {
			return tt.Bool(n != 0)
		}
		return tt.BV(n, w)
	}
	switch op {
	case OUlt, OSlt, OFLt:
		if a == b {
			return tt.F
		}
	case OUle, OSle:
		if a == b {
			return tt.T
		}
	case OAdd:
		if a.isConst() && a.n == 0 {
			return b
		}
		if b.isConst() && b.n == 0 {
			return a
		}
	case OSub:
		if b.isConst() && b.n == 0 {
			return a
		}
	case OBOr, OBXor:
		if a.isConst() && a.n == 0 {
			return b
		}
		if b.isConst() && b.n == 0 {
			return a
		}
	}
	return tt.mk(op, s, w, 0, "", a, b)
}

func (tt *TermTab) Un(op Op, a *Term) *Term {
	if a.isConst() {
		n := evalUn(op, a.n, a.w)
		if a.sort == SFP {
			return tt.mk(OConst, SFP, 64, n, "")
		}
		return tt.BV(n, a.w)
	}
	return tt.mk(op, a.sort, a.w, 0, "", a)
}

// Resize converts BV a to width w.
func (tt *TermTab) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if w > a.w && signed {
			return tt.BV(uint64(sx(a.n, a.w)), w)
		}
		return tt.BV(a.n, w)
	}
	if w < a.w {
		if (a.op == OZext || a.op == OSext) && a.args[0].w >= w {
			return tt.Resize(a.args[0], w, signed)
		}
		return tt.mk(OExtract, SBV, w, 0, "", a)
	}
	if signed {
		return tt.mk(OSext, SBV, w, 0, "", a)
	}
	return tt.mk(OZext, SBV, w, 0, "", a)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalUn(op Op, a uint64, w uint8) uint64 {
	switch op {
	case ONeg:
		return (-a) & mask(w)
	case OBNot:
		return (^a) & mask(w)
	case OFNeg:
		return a ^ (1 << 63)
	}
	panic("evalUn")
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sx(a, w) < sx(b, w))
	case OSle:
		return b2u(sx(a, w) <= sx(b, w))
	case OFEq:
		return b2u(math.Float64frombits(a) == math.Float64frombits(b))
	case OFLt:
		return b2u(math.Float64frombits(a) < math.Float64frombits(b))
	case OFLe:
		return b2u(math.Float64frombits(a) <= math.Float64frombits(b))
	}
	panic("evalBin")
}

// Model maps variable names to bits.
type Model map[string]uint64

// Eval evaluates t under m (unassigned variables are 0).
func (t *Term) Eval(m Model) uint64 {
	return t.eval(m, map[int32]uint64{})
}

func (t *Term) eval(m Model, memo map[int32]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.n
	case OVar:
		return m[t.name]
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - t.args[0].eval(m, memo)
	case OAnd:
		r = t.args[0].eval(m, memo)
		if r != 0 {
			r = t.args[1].eval(m, memo)
		}
	case OOr:
		r = t.args[0].eval(m, memo)
		if r == 0 {
			r = t.args[1].eval(m, memo)
		}
	case OEq:
		r = b2u(t.args[0].eval(m, memo) == t.args[1].eval(m, memo))
	case OIte:
		if t.args[0].eval(m, memo) != 0 {
			r = t.args[1].eval(m, memo)
		} else {
			r = t.args[2].eval(m, memo)
		}
	case OZext:
		r = t.args[0].eval(m, memo)
	case OSext:
		r = uint64(sx(t.args[0].eval(m, memo), t.args[0].w)) & mask(t.w)
	case OExtract:
		r = t.args[0].eval(m, memo) & mask(t.w)
	case ONeg, OBNot, OFNeg:
		r = evalUn(t.op, t.args[0].eval(m, memo), t.w)
	default:
		r = evalBin(t.op, t.args[0].eval(m, memo), t.args[1].eval(m, memo), t.args[0].w)
	}
	memo[t.id] = r
	return r
}

// SMT prints the term as an SMT-LIB expression (with let for shared nodes).
func (t *Term) SMT() string {
	if t.smt != "" {
		return t.smt
	}
	cnt := map[int32]int{}
	var order []*Term
	var walk func(x *Term)
	walk = func(x *Term) {
		cnt[x.id]++
		if cnt[x.id] > 1 {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		order = append(order, x)
	}
	walk(t)
	names := map[int32]string{}
	var sb strings.Builder
	closes := 0
	for _, x := range order {
		if cnt[x.id] > 1 && len(x.args) > 0 && x != t {
			nm := "?t" + strconv.Itoa(int(x.id))
			sb.WriteString("(let ((" + nm + " ")
			x.print(&sb, names)
			sb.WriteString(")) ")
			names[x.id] = nm
			closes++
		}
	}
	t.print(&sb, names)
	for i := 0; i < closes; i++ {
		sb.WriteByte(')')
	}
	t.smt = sb.String()
	return t.smt
}

func (t *Term) print(sb *strings.Builder, names map[int32]string) {
	if n, ok := names[t.id]; ok {
		sb.WriteString(n)
		return
	}
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.n != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
		case SBV:
			fmt.Fprintf(sb, "(_ bv%d %d)", t.n, t.w)
		case SFP:
			fmt.Fprintf(sb, "((_ to_fp 11 53) #x%016x)", t.n)
		}
		return
	case OVar:
		sb.WriteString(t.name)
		return
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.args[0].w)
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.args[0].w)
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.w-1)
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		sb.WriteByte(' ')
	}
	for i, a := range t.args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		a.print(sb, names)
	}
	sb.WriteByte(')')
}

func (t *Term) sortSMT() string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	return "(_ FloatingPoint 11 53)"
}

// parseSMTValue parses a value printed by z3.
func parseSMTValue(s string) (uint64, bool) {
	s = strings.TrimSpace(s)
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case strings.HasPrefix(s, "#x"):
		v, ok := new(big.Int).SetString(s[2:], 16)
		if !ok {
			return 0, false
		}
		return v.Uint64(), true
	case strings.HasPrefix(s, "#b"):
		v, ok := new(big.Int).SetString(s[2:], 2)
		if !ok {
			return 0, false
		}
		return v.Uint64(), true
	case strings.HasPrefix(s, "(fp "):
		p := strings.Fields(strings.Trim(s, "()"))
		if len(p) != 4 {
			return 0, false
		}
		a, _ := parseSMTValue(p[1])
		b, _ := parseSMTValue(p[2])
		c, _ := parseSMTValue(p[3])
		return a<<63 | b<<52 | c, true
	case strings.HasPrefix(s, "(_ +zero"):
		return 0, true
	case strings.HasPrefix(s, "(_ -zero"):
		return 1 << 63, true
	case strings.HasPrefix(s, "(_ +oo"):
		return math.Float64bits(math.Inf(1)), true
	case strings.HasPrefix(s, "(_ -oo"):
		return math.Float64bits(math.Inf(-1)), true
	case strings.HasPrefix(s, "(_ NaN"):
		return math.Float64bits(math.NaN()), true
	}
	return 0, false
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
