package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value representation (dynamic type of `any`):
//
//	bool | *Term(SBool)              booleans
//	int64 | *Term(SBV)               integers of all widths (uint64 bit pattern for uint64)
//	float64 | *Term(SFP)             floats
//	complex128                       complex numbers
//	string | *SymStr                 strings
//	*any                             pointers (address of a slot)
//	Struct, Array                    aggregates
//	Slice                            slices
//	*Map                             maps
//	Iface                            interfaces
//	*FuncVal                         functions
//	Tuple                            multiple results
//	RV                               reflect.Value
//	*TI                              dynamic value of reflect.Type (*reflect.rtype)
type (
	Struct []any
	Array  []any
	Slice  []any
	Tuple  []any
	Iface  struct {
		t *TI
		v any
	}
	FuncVal struct {
		fn     *ssa.Function
		env    []any
		native func(r *Run, args []any) any
		name   string
	}
	SymStr struct{ b []any } // int64 or *Term(BV8)
	RV     struct {
		t    *TI
		v    any
		addr *any
		ro   bool
		ero  bool // obtained through an unexported embedded field (not sticky)
	}
	// Opaque carries an engine-native object behind a pointer.
	Opaque struct{ x any }
)

// Map is a Go map; entries are kept in insertion order.
type Map struct {
	entries []*mapEntry
	idx     map[any]*mapEntry
	nsym    int // number of live entries with symbolic keys
	n       int
}

type mapEntry struct {
	k, v    any
	hk      any
	deleted bool
}

func newMap() *Map { return &Map{idx: map[any]*mapEntry{}} }

// TI is a canonical type: two Go types are identical iff their *TI are equal.
type TI struct {
	t    types.Type
	u    types.Type
	id   int
	kind int // reflect.Kind

	mu      sync.Mutex
	methods map[string]*ssa.Function
	impl    map[*TI]bool
	ptr     *TI
	elem    *TI
	jfields *jsonFields
	msetN   int
}

// Types interns types.
type Types struct {
	mu    sync.Mutex
	byPtr sync.Map // types.Type -> *TI
	canon typeutil.Map
	n     int
	sizes types.Sizes
}

func newTypes() *Types {
	t := &Types{sizes: types.SizesFor("gc", "amd64")}
	t.canon.SetHasher(typeutil.MakeHasher())
	return t
}

func (ts *Types) of(t types.Type) *TI {
	if v, ok := ts.byPtr.Load(t); ok {
		return v.(*TI)
	}
	ts.mu.Lock()
	defer ts.mu.Unlock()
	ut := types.Unalias(t)
	if v := ts.canon.At(ut); v != nil {
		ts.byPtr.Store(t, v)
		return v.(*TI)
	}
	ts.n++
	ti := &TI{t: ut, u: ut.Underlying(), id: ts.n, methods: map[string]*ssa.Function{}, impl: map[*TI]bool{}}
	ti.kind = kindOf(ti.u)
	ts.canon.Set(ut, ti)
	ts.byPtr.Store(t, ti)
	return ti
}

// reflect kinds
const (
	kInvalid = iota
	kBool
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kUintptr
	kFloat32
	kFloat64
	kComplex64
	kComplex128
	kArray
	kChan
	kFunc
	kInterface
	kMap
	kPointer
	kSlice
	kString
	kStruct
	kUnsafePointer
)

func kindOf(u types.Type) int {
	switch t := u.(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return kBool
		case types.Int, types.UntypedInt:
			return kInt
		case types.Int8:
			return kInt8
		case types.Int16:
			return kInt16
		case types.Int32, types.UntypedRune:
			return kInt32
		case types.Int64:
			return kInt64
		case types.Uint:
			return kUint
		case types.Uint8:
			return kUint8
		case types.Uint16:
			return kUint16
		case types.Uint32:
			return kUint32
		case types.Uint64:
			return kUint64
		case types.Uintptr:
			return kUintptr
		case types.Float32:
			return kFloat32
		case types.Float64, types.UntypedFloat:
			return kFloat64
		case types.Complex64:
			return kComplex64
		case types.Complex128, types.UntypedComplex:
			return kComplex128
		case types.String, types.UntypedString:
			return kString
		case types.UnsafePointer:
			return kUnsafePointer
		}
	case *types.Array:
		return kArray
	case *types.Chan:
		return kChan
	case *types.Signature:
		return kFunc
	case *types.Interface:
		return kInterface
	case *types.Map:
		return kMap
	case *types.Pointer:
		return kPointer
	case *types.Slice:
		return kSlice
	case *types.Struct:
		return kStruct
	}
	return kInvalid
}

func kindInt(k int) bool    { return k >= kInt && k <= kUintptr }
func kindSigned(k int) bool { return k >= kInt && k <= kInt64 }

func kindWidth(k int) uint8 {
	switch k {
	case kInt8, kUint8:
		return 8
	case kInt16, kUint16:
		return 16
	case kInt32, kUint32:
		return 32
	}
	return 64
}

// norm truncates n to the width of kind k.
func norm(n int64, k int) int64 {
	switch k {
	case kInt8:
		return int64(int8(n))
	case kInt16:
		return int64(int16(n))
	case kInt32:
		return int64(int32(n))
	case kUint8:
		return int64(uint8(n))
	case kUint16:
		return int64(uint16(n))
	case kUint32:
		return int64(uint32(n))
	}
	return n
}

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

// zero returns the zero value of t.
func zero(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*any)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*any)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncVal)(nil)
	case *types.Chan:
		return (*any)(nil)
	case *types.Struct:
		if isReflectValue(t) {
			return RV{}
		}
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Tuple:
		a := make(Tuple, u.Len())
		for i := range a {
			a[i] = zero(u.At(i).Type())
		}
		return a
	}
	unsupported("zero of " + t.String())
	return nil
}

func copyVal(v any) any {
	switch v := v.(type) {
	case Struct:
		out := make(Struct, len(v))
		for i, x := range v {
			out[i] = copyVal(x)
		}
		return out
	case Array:
		out := make(Array, len(v))
		for i, x := range v {
			out[i] = copyVal(x)
		}
		return out
	}
	return v
}

// storeTo stores v in slot keeping the identity of inner slots.
func storeTo(addr *any, v any) {
	switch v := v.(type) {
	case Struct:
		if old, ok := (*addr).(Struct); ok && len(old) == len(v) {
			for i := range v {
				storeTo(&old[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	case Array:
		if old, ok := (*addr).(Array); ok && len(old) == len(v) {
			for i := range v {
				storeTo(&old[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

// mkStr normalizes a byte sequence to string or *SymStr.
func mkStr(b []any) any {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SymStr{b: append([]any(nil), b...)}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strLen(s any) int {
	switch s := s.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", s))
}

func strByte(s any, i int) any {
	switch s := s.(type) {
	case string:
		return int64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic(fmt.Sprintf("strByte of %T", s))
}

func strSlice(s any, i, j int) any {
	switch s := s.(type) {
	case string:
		return s[i:j]
	case *SymStr:
		if i == 0 && j == len(s.b) {
			return s
		}
		return mkStr(s.b[i:j])
	}
	panic(fmt.Sprintf("strSlice of %T", s))
}

func strBytes(s any) []any {
	switch s := s.(type) {
	case string:
		out := make([]any, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = int64(s[i])
		}
		return out
	case *SymStr:
		return append([]any(nil), s.b...)
	}
	panic(fmt.Sprintf("strBytes of %T", s))
}

func strConcat(a, b any) any {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	return &SymStr{b: append(strBytes(a), strBytes(b)...)}
}

// SB builds strings from concrete and symbolic parts.
type SB struct {
	b   []byte
	sym []any // non-nil once symbolic
}

func (s *SB) str(x string) {
	if s.sym == nil {
		s.b = append(s.b, x...)
		return
	}
	for i := 0; i < len(x); i++ {
		s.sym = append(s.sym, int64(x[i]))
	}
}

func (s *SB) toSym() {
	if s.sym == nil {
		s.sym = make([]any, len(s.b), len(s.b)+16)
		for i, c := range s.b {
			s.sym[i] = int64(c)
		}
	}
}

func (s *SB) byte(x any) {
	switch x := x.(type) {
	case int64:
		if s.sym == nil {
			s.b = append(s.b, byte(x))
		} else {
			s.sym = append(s.sym, x)
		}
	case *Term:
		s.toSym()
		s.sym = append(s.sym, x)
	default:
		panic(fmt.Sprintf("SB.byte %T", x))
	}
}

func (s *SB) val(x any) {
	switch x := x.(type) {
	case string:
		s.str(x)
	case *SymStr:
		s.toSym()
		s.sym = append(s.sym, x.b...)
	default:
		panic(fmt.Sprintf("SB.val %T", x))
	}
}

func (s *SB) result() any {
	if s.sym == nil {
		return string(s.b)
	}
	return mkStr(s.sym)
}

func (s *SB) bytes() []any {
	if s.sym != nil {
		return s.sym
	}
	out := make([]any, len(s.b))
	for i, c := range s.b {
		out[i] = int64(c)
	}
	return out
}

type ptrKey struct{ p *any }
type ifKey struct {
	t *TI
	k any
}
type strKey struct{ s string }

// hashKey returns a comparable key for concrete values; ok is false if the value has symbolic parts.
func hashKey(v any) (any, bool) {
	switch v := v.(type) {
	case string:
		return v, true
	case int64, bool, complex128:
		return v, true
	case float64:
		if v != v {
			return nil, false
		}
		return v, true
	case *Term, *SymStr:
		return nil, false
	case *any:
		return ptrKey{v}, true
	case Iface:
		if v.t == nil {
			return ifKey{}, true
		}
		k, ok := hashKey(v.v)
		return ifKey{v.t, k}, ok
	case *TI:
		return v, true
	case *Opaque:
		return v, true
	case Struct:
		var sb strings.Builder
		for _, x := range v {
			k, ok := hashKey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return strKey{sb.String()}, true
	case Array:
		var sb strings.Builder
		for _, x := range v {
			k, ok := hashKey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return strKey{sb.String()}, true
	}
	panic(fmt.Sprintf("unhashable %T", v))
}

// eqVal compares two values of the same static type. Result is bool or *Term.
func (r *Run) eqVal(a, b any) any {
	switch x := a.(type) {
	case string:
		switch y := b.(type) {
		case string:
			return x == y
		case *SymStr:
			return r.strEq(a, b)
		}
	case *SymStr:
		return r.strEq(a, b)
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case *Term:
			return r.tb(r.tt.Eq(r.tt.BV(uint64(x), y.w), y))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			return r.tb(r.tt.Eq(r.tt.Bool(x), y))
		}
	case float64:
		switch y := b.(type) {
		case float64:
			return x == y
		case *Term:
			return r.tb(r.tt.Bin(OFEq, r.tt.FP(x), y))
		}
	case *Term:
		var yt *Term
		switch y := b.(type) {
		case *Term:
			yt = y
		case int64:
			yt = r.tt.BV(uint64(y), x.w)
		case bool:
			yt = r.tt.Bool(y)
		case float64:
			yt = r.tt.FP(y)
		}
		if x.sort == SFP {
			return r.tb(r.tt.Bin(OFEq, x, yt))
		}
		return r.tb(r.tt.Eq(x, yt))
	case complex128:
		return x == b.(complex128)
	case *any:
		return x == b.(*any)
	case *Map:
		return x == b.(*Map)
	case *FuncVal:
		return x == b.(*FuncVal)
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && x == y
	case *TI:
		y, ok := b.(*TI)
		return ok && x == y
	case Slice:
		if x == nil || b.(Slice) == nil {
			return x == nil && b.(Slice) == nil
		}
	case Iface:
		y := b.(Iface)
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		if !comparable_(x.t.t) {
			r.goPanicStr("runtime error: comparing uncomparable type " + x.t.t.String())
		}
		return r.eqVal(x.v, y.v)
	case Struct:
		y := b.(Struct)
		var res any = true
		for i := range x {
			res = r.and(res, r.eqVal(x[i], y[i]))
			if res == false {
				return false
			}
		}
		return res
	case Array:
		y := b.(Array)
		var res any = true
		for i := range x {
			res = r.and(res, r.eqVal(x[i], y[i]))
			if res == false {
				return false
			}
		}
		return res
	case RV:
		unsupported("comparing reflect.Value")
	}
	unsupported(fmt.Sprintf("eq %T %T", a, b))
	return nil
}

func comparable_(t types.Type) bool {
	return types.Comparable(t)
}

// tb turns a constant boolean term into bool.
func (r *Run) tb(t *Term) any {
	if t.isConst() {
		return t.n != 0
	}
	return t
}

func (r *Run) bt(v any) *Term {
	switch v := v.(type) {
	case bool:
		return r.tt.Bool(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("bt %T", v))
}

func (r *Run) and(a, b any) any {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return r.tb(r.tt.And(a.(*Term), b.(*Term)))
}

func (r *Run) or(a, b any) any {
	if x, ok := a.(bool); ok {
		if x {
			return true
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if y {
			return true
		}
		return a
	}
	return r.tb(r.tt.Or(a.(*Term), b.(*Term)))
}

func (r *Run) not(a any) any {
	if x, ok := a.(bool); ok {
		return !x
	}
	return r.tb(r.tt.Not(a.(*Term)))
}

// byteTerm lifts a byte value.
func (r *Run) byteTerm(v any) *Term {
	switch v := v.(type) {
	case int64:
		return r.tt.BV(uint64(v), 8)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("byteTerm %T", v))
}

func (r *Run) strEq(a, b any) any {
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	// Quick concrete mismatch.
	for i := 0; i < n; i++ {
		x, ok1 := strByte(a, i).(int64)
		y, ok2 := strByte(b, i).(int64)
		if ok1 && ok2 && x != y {
			return false
		}
	}
	var res any = true
	for i := 0; i < n; i++ {
		x, y := strByte(a, i), strByte(b, i)
		if x == y {
			continue
		}
		res = r.and(res, r.tb(r.tt.Eq(r.byteTerm(x), r.byteTerm(y))))
		if res == false {
			return false
		}
	}
	return res
}

// strLess builds a < b.
func (r *Run) strLess(a, b any) any {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	n := min(strLen(a), strLen(b))
	var res any = strLen(a) < strLen(b)
	for i := n - 1; i >= 0; i-- {
		x, y := r.byteTerm(strByte(a, i)), r.byteTerm(strByte(b, i))
		lt := r.tb(r.tt.Bin(OUlt, x, y))
		eq := r.tb(r.tt.Eq(x, y))
		res = r.or(lt, r.and(eq, res))
	}
	return res
}

// mapFind looks a key up (may fork on symbolic equality).
func (r *Run) mapFind(m *Map, k any) *mapEntry {
	if m == nil || m.n == 0 {
		return nil
	}
	if hk, ok := hashKey(k); ok {
		if e := m.idx[hk]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.entries {
			if !e.deleted && e.hk == nil && r.branchAny(r.eqVal(e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.entries {
		if !e.deleted && r.branchAny(r.eqVal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (r *Run) mapSet(m *Map, k, v any) {
	if e := r.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	if hk, ok := hashKey(k); ok {
		e.hk = hk
		m.idx[hk] = e
	} else {
		m.nsym++
	}
	m.entries = append(m.entries, e)
	m.n++
}

func (r *Run) mapDelete(m *Map, k any) {
	e := r.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if e.hk != nil {
		delete(m.idx, e.hk)
	} else {
		m.nsym--
	}
	if len(m.entries) > 2*m.n+8 {
		m.entries = m.live()
	}
}

func (m *Map) live() []*mapEntry {
	if m == nil {
		return nil
	}
	out := make([]*mapEntry, 0, m.n)
	for _, e := range m.entries {
		if !e.deleted {
			out = append(out, e)
		}
	}
	return out
}

// sortedEntries orders entries by string key (forks on symbolic order).
func (r *Run) sortedEntries(m *Map, key func(*mapEntry) any) []*mapEntry {
	es := m.live()
	keys := make([]any, len(es))
	allConc := true
	for i, e := range es {
		keys[i] = key(e)
		if _, ok := keys[i].(string); !ok {
			allConc = false
		}
	}
	idx := make([]int, len(es))
	for i := range idx {
		idx[i] = i
	}
	if allConc {
		sort.SliceStable(idx, func(i, j int) bool { return keys[idx[i]].(string) < keys[idx[j]].(string) })
	} else {
		for i := 1; i < len(idx); i++ {
			for j := i; j > 0 && r.branchAny(r.strLess(keys[idx[j]], keys[idx[j-1]])); j-- {
				idx[j], idx[j-1] = idx[j-1], idx[j]
			}
		}
	}
	out := make([]*mapEntry, len(es))
	for i, k := range idx {
		out[i] = es[k]
	}
	return out
}

// size classes of the Go allocator, used for append growth.
var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen int, esize int64) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esize <= 0 {
		return newcap
	}
	mem := int64(newcap) * esize
	if mem <= 32768 {
		i := sort.Search(len(sizeClasses), func(i int) bool { return sizeClasses[i] >= mem })
		mem = sizeClasses[i]
	} else {
		mem = (mem + 8191) &^ 8191
	}
	return int(mem / esize)
}

func (r *Run) appendSlice(s Slice, esize int64, vs []any) Slice {
	if len(vs) == 0 {
		return s
	}
	n := len(s) + len(vs)
	if n > cap(s) {
		ns := make(Slice, len(s), growCap(cap(s), n, esize))
		copy(ns, s)
		s = ns
	}
	for _, v := range vs {
		s = append(s, copyVal(v))
	}
	return s
}

func fmtFloat(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

var _ = math.MaxInt64
