package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoPath    = "github.com/swaggest/openapi-go"
	harnessPath = "verif/harness/h"
	symPath     = "verif/harness/sym"
)

var intrinsics = map[string]func(r *Run, fr *Frame, a []any) any{}

var stdInits = map[string]func(r *Run, pkg *ssa.Package){}

// Engine holds the program under verification.
type Engine struct {
	prog  *ssa.Program
	types *Types
	mvMu  sync.Mutex
	hpkg  *ssa.Package
	ppMu  sync.Map

	rtypeTI           *TI
	anyTI             *TI
	anySliceTI        *TI
	anyMapTI          *TI
	errorStringTI     *TI
	runtimeErrTI      *TI
	jsonMarshalerTI   *TI
	jsonUnmarshalerTI *TI
	textMarshalerTI   *TI
	textUnmarshalerTI *TI
	errorTI           *TI
	stringerTI        *TI

	loadTime time.Duration
	files    []string
}

type config struct {
	maxSteps int64
	solverMS int
	debug    bool
	tier     int
}

func load(dir string) (*Engine, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, e
		}
	}
	var bad error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoPath) {
			for _, e := range p.Errors {
				bad = e
			}
		}
	})
	if bad != nil {
		return nil, bad
	}
	prog, ips := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, types: newTypes(), hpkg: ips[0]}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoPath) {
			e.files = append(e.files, p.CompiledGoFiles...)
		}
	})
	look := func(pkg, name string) *TI {
		p := prog.ImportedPackage(pkg)
		if p == nil {
			return nil
		}
		o := p.Pkg.Scope().Lookup(name)
		if o == nil {
			panic("missing " + pkg + "." + name)
		}
		return e.types.of(o.Type())
	}
	ptr := func(t *TI) *TI { return e.types.of(types.NewPointer(t.t)) }
	e.rtypeTI = ptr(look("reflect", "rtype"))
	empty := types.NewInterfaceType(nil, nil)
	empty.Complete()
	e.anyTI = e.types.of(empty)
	e.anySliceTI = e.types.of(types.NewSlice(empty))
	e.anyMapTI = e.types.of(types.NewMap(types.Typ[types.String], empty))
	e.errorStringTI = ptr(look("errors", "errorString"))
	e.runtimeErrTI = look("runtime", "errorString")
	e.jsonMarshalerTI = look("encoding/json", "Marshaler")
	e.jsonUnmarshalerTI = look("encoding/json", "Unmarshaler")
	e.textMarshalerTI = look("encoding", "TextMarshaler")
	e.textUnmarshalerTI = look("encoding", "TextUnmarshaler")
	e.stringerTI = look("fmt", "Stringer")
	e.errorTI = e.types.of(types.Universe.Lookup("error").Type())
	e.loadTime = time.Since(t0)
	return e, nil
}

// isModule tells whether f belongs to the code under test.
func (e *Engine) isModule(f *ssa.Function) bool { return e.inPackage(f, repoPath) }

// inPackage tells whether f belongs to a package with the given path prefix.
func (e *Engine) inPackage(f *ssa.Function, prefix string) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil {
		if o := f.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil || p.Pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), prefix)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), prefix)
}

// perPath tells whether the globals of pkg are re-initialised on every path.
func (e *Engine) perPath(p *ssa.Package) bool {
	if p == nil {
		return false
	}
	if v, ok := e.ppMu.Load(p); ok {
		return v.(bool)
	}
	pp := p.Pkg.Path()
	v := strings.HasPrefix(pp, repoPath) || strings.HasPrefix(pp, "github.com/swaggest/jsonschema-go") ||
		strings.HasPrefix(pp, "github.com/swaggest/refl") || strings.HasPrefix(pp, "verif/harness")
	e.ppMu.Store(p, v)
	return v
}

func (e *Engine) runtimeError(msg string) any {
	return Iface{e.runtimeErrTI, strings.TrimPrefix(msg, "runtime error: ")}
}

// Worker explores paths.
type Worker struct {
	eng        *Engine
	solver     *Solver
	cfg        *config
	fns        map[*ssa.Function]*Fn
	fvals      map[*ssa.Function]*FuncVal
	stdGlobals map[*ssa.Global]*any
	stdFailed  map[*ssa.Package]string
	stdStored  map[*ssa.Global]bool
	stdInit    map[*ssa.Package]bool
	ptrIDs     map[*any]int64
	rng        *rand.Rand

	unknownBranches int
	unknownAsserts  int
	assertQueries   int
	assertUnsat     int
	notes           map[string]int

	job *Job
	x   *Explorer
}

func newWorker(e *Engine, cfg *config, seed int64) (*Worker, error) {
	s, err := newSolver(cfg.solverMS)
	if err != nil {
		return nil, err
	}
	return &Worker{eng: e, solver: s, cfg: cfg, fns: map[*ssa.Function]*Fn{}, fvals: map[*ssa.Function]*FuncVal{},
		stdGlobals: map[*ssa.Global]*any{}, stdFailed: map[*ssa.Package]string{}, stdStored: map[*ssa.Global]bool{}, stdInit: map[*ssa.Package]bool{},
		notes: map[string]int{}, rng: rand.New(rand.NewSource(seed))}, nil
}

func (w *Worker) note(s string) { w.notes[s]++ }

func (w *Worker) push(r *Run, alt int16, m Model) {
	p := make([]int16, len(r.dec)+1)
	copy(p, r.dec)
	p[len(r.dec)] = alt
	w.x.pushItem(w.job, item{prefix: p, model: m})
}

type item struct {
	prefix []int16
	model  Model
}

// Job is one harness function under exploration.
type Job struct {
	name  string
	fn    *ssa.Function
	queue []item
	busy  int
	spent time.Duration

	paths, complete, pruned, limited, unsup, internal, infeasible int
	branches, steps                                               int64
	asserts, symAsserts                                           int
	covers                                                        map[string]int
	unsupMsgs                                                     map[string]int
	limitMsgs                                                     map[string]int
	samples                                                       []*Witness
	nSample                                                       int
	cands                                                         map[string]int
	dropped                                                       int
	maxDec                                                        int
}

// Witness is a concrete assignment for one path.
type Witness struct {
	Fn     string    `json:"fn"`
	Tier   int       `json:"tier"`
	Inputs []WInput  `json:"inputs"`
	Kind   string    `json:"-"` // violation, panic, limit, unsupported, sample
	Msg    string    `json:"-"`
	Obs    []ObsPair `json:"-"`
	Dec    int       `json:"-"`
	Where  string    `json:"-"`
}

// WInput is a concrete harness input.
type WInput struct {
	K string  `json:"k"`
	N string  `json:"n"`
	I int64   `json:"i,omitempty"`
	S string  `json:"s,omitempty"` // latin-1 hex for strings
	F string  `json:"f,omitempty"`
	X float64 `json:"-"`
}

// ObsPair is a named observation.
type ObsPair struct{ Name, Val string }

// Explorer schedules paths over workers.
type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []*Job
	deadline time.Time
	stop     bool
	onCand   func(w *Witness) // may be called concurrently
	rng      *rand.Rand
	maxQueue int
	pops     int
}

func (x *Explorer) pushItem(j *Job, it item) {
	x.mu.Lock()
	if len(j.queue) >= x.maxQueue {
		j.dropped++
	} else {
		j.queue = append(j.queue, it)
	}
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) pop() (*Job, item, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop || time.Now().After(x.deadline) {
			x.stop = true
			x.cond.Broadcast()
			return nil, item{}, false
		}
		var best *Job
		busy := 0
		for _, j := range x.jobs {
			busy += j.busy
			if len(j.queue) > 0 && (best == nil || j.spent < best.spent) {
				best = j
			}
		}
		if best != nil {
			x.pops++
			n := len(best.queue)
			i := n - 1
			if x.pops%3 == 0 {
				i = x.rng.Intn(n)
			}
			it := best.queue[i]
			best.queue[i] = best.queue[n-1]
			best.queue[n-1] = item{}
			best.queue = best.queue[:n-1]
			best.busy++
			best.spent += time.Millisecond
			return best, it, true
		}
		if busy == 0 {
			x.stop = true
			x.cond.Broadcast()
			return nil, item{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) run(ws []*Worker) {
	done := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				x.cond.Broadcast()
			}
		}
	}()
	var wg sync.WaitGroup
	for _, w := range ws {
		w.x = x
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				j, it, ok := x.pop()
				if !ok {
					return
				}
				w.job = j
				t0 := time.Now()
				w.path(j, it)
				d := time.Since(t0)
				x.mu.Lock()
				j.busy--
				j.spent += d
				x.mu.Unlock()
				x.cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
	close(done)
}

// path executes one path of j.
func (w *Worker) path(j *Job, it item) {
	r := &Run{w: w, tt: newTermTab(), prefix: it.prefix, model: it.model, dom: map[string]*domain{},
		globals: map[*ssa.Global]*any{}, symTags: map[string]any{}, covers: map[string]bool{}, dbg: map[string]int{}}
	if it.model == nil && len(it.prefix) == 0 {
		r.model = Model{}
	}
	w.ptrIDs = map[*any]int64{}
	kind, msg, where := "", "", ""
	var vmodel Model
	func() {
		defer func() {
			e := recover()
			switch e := e.(type) {
			case nil:
				kind = "complete"
			case *pathEnd:
				kind, msg = e.kind, e.msg
			case *unsupportedErr:
				kind, msg, where = "unsupported", e.msg, r.stack()
			case *GoPanic:
				kind, msg, where = "panic", r.panicText(e), e.where
			case *violation:
				kind, msg, vmodel = "violation", e.msg, e.model
			default:
				kind = "internal"
				msg = fmt.Sprint(e)
				where = r.stack()
				if w.cfg.debug {
					where += "\n" + string(debug.Stack())
				}
			}
		}()
		r.initMode++
		r.callFn(nil, w.compile(w.eng.hpkg.Func("init")), nil, nil)
		r.initMode--
		r.steps = 0
		r.callFn(nil, w.compile(j.fn), nil, nil)
	}()
	if w.cfg.debug && (kind == "unsupported" || kind == "internal" || kind == "limit") {
		fmt.Fprintf(os.Stderr, "[%s] %s: %s @ %s\n", j.name, kind, msg, where)
	}
	var wit *Witness
	switch kind {
	case "violation", "panic", "limit", "unsupported", "internal":
		if vmodel == nil {
			vmodel = r.ensureModel()
		}
		if vmodel != nil {
			wit = r.witness(j, kind, msg, vmodel)
			wit.Where = where
		}
	}
	x := w.x
	x.mu.Lock()
	j.paths++
	j.branches += int64(len(r.dec))
	if len(r.dec) > j.maxDec {
		j.maxDec = len(r.dec)
	}
	j.steps += r.steps
	j.asserts += r.asserts
	j.symAsserts += r.symAsrt
	sample := false
	switch kind {
	case "complete":
		j.complete++
		for c := range r.covers {
			j.covers[c]++
		}
		// sample completed paths: first few, then ever more rarely
		j.nSample++
		n := j.nSample
		if n <= 4 || n&(n-1) == 0 || n%500 == 0 {
			sample = true
		}
	case "assume":
		j.pruned++
	case "infeasible":
		j.infeasible++
	case "limit":
		j.limited++
		j.limitMsgs[firstN(msg, 160)]++
	case "unsupported":
		j.unsup++
		j.unsupMsgs[msg]++
	case "internal":
		j.internal++
		j.unsupMsgs["internal: "+msg]++
	}
	report := false
	if wit != nil {
		key := kind + "|" + msg
		j.cands[key]++
		lim := 6
		if kind == "unsupported" || kind == "internal" {
			lim = 3
		}
		// a candidate that is not confirmed natively must not hide others of the same kind
		n := j.cands[key]
		report = n <= lim || kind != "limit" && lim == 6 && (n&(n-1) == 0 || n%50 == 0)
	}
	x.mu.Unlock()
	if sample {
		if m := r.ensureModel(); m != nil {
			wit = r.witness(j, "sample", "", m)
			report = true
		}
	}
	if report && x.onCand != nil {
		x.onCand(wit)
	}
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// witness concretizes the inputs of the path.
func (r *Run) witness(j *Job, kind, msg string, m Model) *Witness {
	w := &Witness{Fn: j.name, Tier: r.w.cfg.tier, Kind: kind, Msg: msg, Dec: len(r.dec)}
	for _, in := range r.inputs {
		x := WInput{K: in.Kind, N: in.Name}
		switch in.Kind {
		case "bool":
			x.I = int64(in.Term.Eval(m))
		case "int":
			x.I = int64(in.Term.Eval(m))
		case "choice":
			x.I = in.Val
		case "float":
			x.F = fmt.Sprintf("%016x", in.Term.Eval(m))
		case "str":
			var sb strings.Builder
			for _, t := range in.Str {
				fmt.Fprintf(&sb, "%02x", t.Eval(m))
			}
			x.S = sb.String()
		}
		w.Inputs = append(w.Inputs, x)
	}
	for _, o := range r.obsVals {
		w.Obs = append(w.Obs, ObsPair{o.name, r.concreteString(o.v, m)})
	}
	return w
}

func (r *Run) concreteString(v any, m Model) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			switch x := x.(type) {
			case int64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(x.Eval(m))
			}
		}
		return string(b)
	}
	return fmt.Sprint(v)
}

// iterOrderAt returns the entries of m in the order a range statement of fr sees them.
func (r *Run) iterOrderAt(fr *Frame, m *Map) []*mapEntry {
	if m == nil {
		return nil
	}
	if fr != nil && fr.fn.ordered {
		return r.iterOrder(m)
	}
	return m.live()
}

// equalFold compares two strings ignoring ASCII case.
func (r *Run) equalFold(a string, b any) any {
	if s, ok := b.(string); ok {
		return strings.EqualFold(a, s)
	}
	return r.strEq(r.mapASCII(foldRunes(a), false), r.mapASCII(foldRunes(b), false))
}

func (w *Worker) coverage() map[string][2]int {
	out := map[string][2]int{}
	for f, fn := range w.fns {
		if !fn.module || fn.intr != nil {
			continue
		}
		n := 0
		for _, c := range fn.cov {
			if c {
				n++
			}
		}
		if n > 0 {
			out[f.String()] = [2]int{n, len(fn.cov)}
		}
	}
	return out
}

func sortedStr[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// blocks adds the source lines of blocks, and whether they were run.
func (w *Worker) blocks(out map[string]bool) {
	for f, fn := range w.fns {
		if !fn.module || fn.intr != nil {
			continue
		}
		for i, c := range fn.cov {
			var pos token.Pos
			for _, in := range f.Blocks[i].Instrs {
				if pos = in.Pos(); pos.IsValid() {
					break
				}
			}
			if !pos.IsValid() {
				continue
			}
			at := f.Prog.Fset.Position(pos)
			k := fmt.Sprintf("%s:%d %s#%d", at.Filename, at.Line, f, i)
			out[k] = out[k] || c
		}
	}
}
