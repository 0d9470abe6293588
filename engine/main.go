package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- native replay ----------

type replayRes struct {
	Status string      `json:"status"` // ok, assume, assert, panic, crash, hang, error
	Msg    string      `json:"msg"`
	Obs    [][2]string `json:"obs"`
	Covers []string    `json:"covers"`
}

type replayer struct {
	bin string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tailBuf
	n   int
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (rp *replayer) start() error {
	rp.cmd = exec.Command(rp.bin)
	rp.cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=single")
	in, err := rp.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := rp.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	rp.err = &tailBuf{}
	rp.cmd.Stderr = rp.err
	rp.in, rp.out = in, bufio.NewReaderSize(out, 1<<20)
	return rp.cmd.Start()
}

func (rp *replayer) stop() {
	if rp.cmd != nil {
		rp.in.Close()
		rp.cmd.Process.Kill()
		rp.cmd.Wait()
		rp.cmd = nil
	}
}

type replayReq struct {
	*Witness
	Tries int `json:"tries"`
}

func (rp *replayer) run(w *Witness, tries int) replayRes {
	if rp.cmd == nil {
		if err := rp.start(); err != nil {
			return replayRes{Status: "error", Msg: err.Error()}
		}
	}
	rp.n++
	b, _ := json.Marshal(replayReq{w, tries})
	type line struct {
		b   []byte
		err error
	}
	ch := make(chan line, 1)
	go func() {
		if _, err := rp.in.Write(append(b, '\n')); err != nil {
			ch <- line{nil, err}
			return
		}
		l, err := rp.out.ReadBytes('\n')
		ch <- line{l, err}
	}()
	select {
	case l := <-ch:
		if l.err != nil {
			msg := ""
			rp.cmd.Wait()
			rp.err.mu.Lock()
			msg = firstN(string(rp.err.b), 300)
			rp.err.mu.Unlock()
			rp.cmd = nil
			return replayRes{Status: "crash", Msg: strings.ReplaceAll(msg, "\n", " ")}
		}
		var res replayRes
		if err := json.Unmarshal(l.b, &res); err != nil {
			return replayRes{Status: "error", Msg: err.Error() + ": " + string(l.b)}
		}
		return res
	case <-time.After(20 * time.Second):
		rp.stop()
		return replayRes{Status: "hang", Msg: "no answer within 20 s"}
	}
}

// ---------- property run ----------

type propRun struct {
	id        string
	mu        sync.Mutex
	rps       chan *replayer
	confirmed map[string]*confirmedV
	order     []string
	spurious  map[string]int
	spurWit   map[string]*Witness
	replays   int
	sampleOK  int
	sampleBad []string
	samples   []any
	x         *Explorer
	known     []knownFinding
	stopFirst bool
}

type confirmedV struct {
	key   string
	msg   string
	wit   *Witness
	res   replayRes
	known string
}

type knownFinding struct{ prop, key, what string }

func loadKnown(file, id string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 3)
		if len(f) != 3 || strings.TrimPrefix(f[0], "property=") != id {
			continue
		}
		out = append(out, knownFinding{id, strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return out
}

func (p *propRun) isKnown(key string) string {
	for _, k := range p.known {
		if k.key == key {
			return k.what
		}
	}
	return ""
}

// cand replays a candidate witness natively.
func (p *propRun) cand(w *Witness) {
	rp := <-p.rps
	tries := 1
	if w.Kind == "violation" || w.Kind == "panic" {
		tries = 400
	}
	res := rp.run(w, tries)
	p.rps <- rp
	p.mu.Lock()
	defer p.mu.Unlock()
	p.replays++
	bad := false
	switch res.Status {
	case "assert", "panic", "crash":
		bad = true
	case "hang":
		bad = w.Kind == "limit"
	}
	if bad {
		msg := res.Msg
		if res.Status != "assert" {
			msg = res.Status + ": " + firstN(msg, 200)
		}
		key := w.Fn + "|" + normMsg(msg)
		if c := p.confirmed[key]; c == nil || len(w.Inputs) < len(c.wit.Inputs) {
			if c == nil {
				p.order = append(p.order, key)
			}
			p.confirmed[key] = &confirmedV{key: key, msg: msg, wit: w, res: res, known: p.isKnown(key)}
		}
		if p.confirmed[key].known == "" && p.stopFirst {
			p.x.mu.Lock()
			p.x.stop = true
			p.x.mu.Unlock()
			p.x.cond.Broadcast()
		}
		return
	}
	switch w.Kind {
	case "violation", "panic":
		k := w.Fn + ": " + w.Kind + ": " + w.Msg + " (native: " + res.Status + " " + res.Msg + ")"
		p.spurious[k]++
		if p.spurWit[k] == nil {
			p.spurWit[k] = w
		}
	case "sample":
		mism := ""
		if res.Status != "ok" {
			mism = "native status " + res.Status + " " + res.Msg
		} else if len(res.Obs) != len(w.Obs) {
			mism = fmt.Sprintf("observations %d vs %d", len(res.Obs), len(w.Obs))
		} else {
			for i, o := range w.Obs {
				if res.Obs[i][0] != o.Name || res.Obs[i][1] != o.Val {
					mism = fmt.Sprintf("observation %s: engine %q, native %q", o.Name, firstN(o.Val, 600), firstN(res.Obs[i][1], 600))
					break
				}
			}
		}
		if mism == "" {
			p.sampleOK++
			if len(p.samples) < 12 {
				p.samples = append(p.samples, map[string]any{"fn": w.Fn, "inputs": showInputs(w)})
			}
		} else if len(p.sampleBad) < 10 {
			p.sampleBad = append(p.sampleBad, w.Fn+": "+mism+" inputs="+showInputs(w))
		}
	}
}

var numRe = regexp.MustCompile(`0x[0-9a-f]+|\[[0-9:]+\]|with (length|capacity) [0-9]+`)

func normMsg(s string) string { return numRe.ReplaceAllString(strings.ReplaceAll(s, "\n", " "), "N") }

func showInputs(w *Witness) string {
	var sb strings.Builder
	for i, in := range w.Inputs {
		if i > 0 {
			sb.WriteString(" ")
		}
		switch in.K {
		case "str":
			b := make([]byte, len(in.S)/2)
			for j := range b {
				n, _ := strconv.ParseUint(in.S[2*j:2*j+2], 16, 8)
				b[j] = byte(n)
			}
			fmt.Fprintf(&sb, "%s=%q", in.N, b)
		case "float":
			fmt.Fprintf(&sb, "%s=bits:%s", in.N, in.F)
		default:
			fmt.Fprintf(&sb, "%s=%d", in.N, in.I)
		}
	}
	return firstN(sb.String(), 700)
}

func main() {
	prop := flag.String("prop", "", "property id")
	fnRe := flag.String("fn", "", "only harness functions matching")
	hdir := flag.String("harness", "/verif/harness", "harness module")
	runner := flag.String("runner", "", "native runner binary")
	out := flag.String("evidence", "", "evidence file")
	known := flag.String("known", "", "known findings file")
	repDir := flag.String("replays", "", "replay directory")
	budget := flag.Duration("budget", 60*time.Second, "exploration time")
	tierS := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	nw := flag.Int("workers", runtime.NumCPU(), "workers")
	maxSteps := flag.Int64("steps", 20_000_000, "step limit per path")
	smtMS := flag.Int("smt-ms", 10000, "solver timeout")
	dbg := flag.Bool("debug", false, "debug output")
	verbose := flag.Bool("v", false, "summary on stderr")
	keep := flag.Bool("keep-going", false, "do not stop at the first violation")
	memProf := flag.String("memprofile", "", "write heap profiles FILE.0, FILE.1... every 10 s")
	list := flag.Bool("list", false, "list harness functions")
	flag.Parse()
	debug.SetMaxStack(2 << 30)
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(6 << 30)

	t0 := time.Now()
	e, err := load(*hdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "engine: cannot load the code under test:", err)
		os.Exit(3)
	}
	cfg := &config{maxSteps: *maxSteps, solverMS: *smtMS, debug: *dbg}
	if *tierS == "thorough" {
		cfg.tier = 1
	}
	var fns []*ssa.Function
	for _, m := range e.hpkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(f.Name(), "C") || !strings.Contains(f.Name(), "_") || len(f.Params) != 0 {
			continue
		}
		if *prop != "" && !strings.HasPrefix(f.Name(), *prop+"_") {
			continue
		}
		if *fnRe != "" && !regexp.MustCompile(*fnRe).MatchString(f.Name()) {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	if *list {
		for _, f := range fns {
			fmt.Println(f.Name())
		}
		return
	}
	if len(fns) == 0 {
		fmt.Fprintln(os.Stderr, "engine: no harness functions for", *prop)
		os.Exit(3)
	}

	x := &Explorer{rng: rand.New(rand.NewSource(*seed)), maxQueue: 400000}
	x.cond = sync.NewCond(&x.mu)
	for _, f := range fns {
		x.jobs = append(x.jobs, &Job{name: f.Name(), fn: f, queue: []item{{}}, covers: map[string]int{},
			unsupMsgs: map[string]int{}, limitMsgs: map[string]int{}, cands: map[string]int{}})
	}
	p := &propRun{id: *prop, rps: make(chan *replayer, 4), confirmed: map[string]*confirmedV{}, spurious: map[string]int{},
		spurWit: map[string]*Witness{}, x: x, stopFirst: !*keep}
	if *known != "" {
		p.known = loadKnown(*known, *prop)
	}
	if *runner != "" {
		for i := 0; i < cap(p.rps); i++ {
			p.rps <- &replayer{bin: *runner}
		}
		x.onCand = p.cand
	} else {
		x.onCand = func(w *Witness) {
			if w.Kind == "violation" || w.Kind == "panic" {
				p.mu.Lock()
				p.spurious[w.Fn+": "+w.Kind+": "+w.Msg+" @ "+w.Where]++
				p.spurWit[w.Fn+": "+w.Kind+": "+w.Msg+" @ "+w.Where] = w
				p.mu.Unlock()
			}
		}
	}
	var ws []*Worker
	for i := 0; i < *nw; i++ {
		w, err := newWorker(e, cfg, *seed+int64(i))
		if err != nil {
			fmt.Fprintln(os.Stderr, "engine:", err)
			os.Exit(3)
		}
		ws = append(ws, w)
	}
	x.deadline = time.Now().Add(*budget)
	if *memProf != "" {
		go func() {
			for i := 0; ; i++ {
				time.Sleep(10 * time.Second)
				if f, err := os.Create(fmt.Sprintf("%s.%d", *memProf, i)); err == nil {
					pprof.Lookup("heap").WriteTo(f, 0)
					f.Close()
				}
			}
		}()
	}
	t1 := time.Now()
	x.run(ws)
	explore := time.Since(t1)
	for _, w := range ws {
		w.solver.close()
	}
	if *runner != "" {
		for i := 0; i < cap(p.rps); i++ {
			(<-p.rps).stop()
		}
	}
	nviol := report(p, *repDir, *tierS)
	ev := evidence(p, e, ws, x, *tierS, *seed, t0, explore, nviol)
	if *out != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		tmp := *out + ".tmp"
		if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err == nil {
			os.Rename(tmp, *out)
		}
	}
	if *verbose || *dbg {
		summary(p, ws, x, e, explore)
	}
	if nviol > 0 {
		os.Exit(1)
	}
}

func report(p *propRun, dir, tier string) int {
	n := 0
	for _, k := range p.known {
		line := "KNOWN-FINDING: property=" + p.id + " " + k.what
		fmt.Println(line)
	}
	for _, key := range p.order {
		c := p.confirmed[key]
		if c.known != "" {
			continue
		}
		n++
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.id, n))
		if dir != "" {
			os.MkdirAll(dir, 0o755)
			b, _ := json.MarshalIndent(map[string]any{"property": p.id, "fn": c.wit.Fn, "tier": c.wit.Tier, "inputs": c.wit.Inputs,
				"message": c.msg, "readable": showInputs(c.wit), "found_as": c.wit.Kind}, "", " ")
			os.WriteFile(path, b, 0o644)
		}
		fmt.Printf("%s: %s\n  inputs: %s\n", c.wit.Fn, c.msg, showInputs(c.wit))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	}
	return n
}

func evidence(p *propRun, e *Engine, ws []*Worker, x *Explorer, tier string, seed int64, t0 time.Time, explore time.Duration, nviol int) any {
	var states, trans, steps int64
	exhaustive := true
	hs := []any{}
	var assumptions []string
	var rest []string
	for _, j := range x.jobs {
		states += int64(j.paths)
		trans += j.branches
		steps += j.steps
		ex := len(j.queue) == 0 && j.unsup == 0 && j.limited == 0 && j.dropped == 0 && j.internal == 0
		if !ex {
			exhaustive = false
		}
		h := map[string]any{"harness": j.name, "paths": j.paths, "completed": j.complete, "pruned_by_assumption": j.pruned,
			"assertions": j.asserts, "assertions_decided_by_solver": j.symAsserts, "max_decisions": j.maxDec, "exhausted_within_bounds": ex}
		if len(j.queue) > 0 || j.dropped > 0 {
			h["paths_left_when_time_ran_out"] = len(j.queue) + j.dropped
		}
		if j.unsup+j.internal > 0 {
			h["paths_not_encodable"] = j.unsupMsgs
		}
		if j.limited > 0 {
			h["paths_cut_by_limits"] = j.limitMsgs
		}
		if len(j.covers) > 0 {
			h["goals_reached"] = j.covers
		}
		hs = append(hs, h)
	}
	_ = rest
	q, uq, sat, uns, st := 0, 0, 0, 0, time.Duration(0)
	aq, au, ub, ua := 0, 0, 0, 0
	cov := map[string][2]int{}
	for _, w := range ws {
		s := w.solver
		q += s.Queries
		uq += s.Unknowns
		sat += s.Sat
		uns += s.Unsat
		st += s.Time
		aq += w.assertQueries
		au += w.assertUnsat
		ub += w.unknownBranches
		ua += w.unknownAsserts
		for f, c := range w.coverage() {
			o := cov[f]
			if c[0] > o[0] {
				o = c
			}
			cov[f] = o
		}
	}
	if f := os.Getenv("VERIF_BLOCKS"); f != "" { // for tools/uncovered.py
		bs := map[string]bool{}
		for _, w := range ws {
			w.blocks(bs)
		}
		var t strings.Builder
		for _, k := range sortedStr(bs) {
			fmt.Fprintln(&t, k, bs[k])
		}
		os.WriteFile(f+"/"+p.id, []byte(t.String()), 0o644)
	}
	var fl []string
	for f, c := range cov {
		fl = append(fl, fmt.Sprintf("%s (%d of %d blocks)", strings.ReplaceAll(f, "github.com/swaggest/openapi-go", "openapi-go"), c[0], c[1]))
	}
	sort.Strings(fl)
	assumptions = append(assumptions,
		"Go semantics of the SSA interpreter, the encoding/json, reflect, regexp, fmt and strconv models of the engine, and z3",
		"native libraries trusted: yaml.v2 text syntax, net/http status texts",
		"bounds are those written in the harness functions under /verif/harness/h (lengths, nesting, number of entries); inputs outside of them are not covered")
	if !exhaustive {
		assumptions = append(assumptions, "not every harness was exhausted: see harnesses[*].paths_left_when_time_ran_out, paths_not_encodable and paths_cut_by_limits for what was left out")
	}
	samples := p.samples
	if samples == nil {
		samples = []any{}
	}
	cv := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": p.sampleOK, "samples": samples,
		"exhaustive":                     exhaustive,
		"harnesses":                      hs,
		"interpreted_ssa_instructions":   steps,
		"functions_encoded":              fl,
		"solver_queries":                 q,
		"solver_sat":                     sat,
		"solver_unsat":                   uns,
		"solver_unknown":                 uq,
		"solver_seconds":                 round(st.Seconds()),
		"assertion_queries":              aq,
		"assertion_queries_unsat":        au,
		"assertion_queries_unknown":      ua,
		"branch_queries_unknown":         ub,
		"native_replays":                 p.replays,
		"encoding_mismatches":            p.sampleBad,
		"counterexamples_not_reproduced": p.spurious,
		"counterexamples_known":          len(p.order) - nviol,
		"exploration_seconds":            round(explore.Seconds()),
		"explanation":                    "states are symbolic paths of the harness functions through the code of /repo (SSA built from its current source); transitions are the branch decisions on them; each path stands for all inputs satisfying its path condition",
	}
	return map[string]any{"property": p.id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cv,
		"assumptions": assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": nviol}
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }

func summary(p *propRun, ws []*Worker, x *Explorer, e *Engine, explore time.Duration) {
	fmt.Fprintf(os.Stderr, "load %.1fs explore %.1fs\n", e.loadTime.Seconds(), explore.Seconds())
	for _, j := range x.jobs {
		fmt.Fprintf(os.Stderr, "%-34s paths=%d ok=%d pruned=%d limit=%d unsup=%d internal=%d infeas=%d left=%d asserts=%d sym=%d spent=%.1fs steps=%d covers=%v\n", j.name, j.paths, j.complete, j.pruned,
			j.limited, j.unsup, j.internal, j.infeasible, len(j.queue)+j.dropped, j.asserts, j.symAsserts, j.spent.Seconds(), j.steps, j.covers)
		for _, m := range sortedStr(j.unsupMsgs) {
			fmt.Fprintf(os.Stderr, "    unsup %d: %s\n", j.unsupMsgs[m], firstN(m, 300))
		}
		for _, m := range sortedStr(j.limitMsgs) {
			fmt.Fprintf(os.Stderr, "    limit %d: %s\n", j.limitMsgs[m], m)
		}
	}
	q, st := 0, time.Duration(0)
	for _, w := range ws {
		q += w.solver.Queries
		st += w.solver.Time
		for n, c := range w.notes {
			fmt.Fprintf(os.Stderr, "note %d: %s\n", c, n)
		}
	}
	fmt.Fprintf(os.Stderr, "solver queries=%d time=%.1fs; replays=%d samplesOK=%d\n", q, st.Seconds(), p.replays, p.sampleOK)
	for _, s := range p.sampleBad {
		fmt.Fprintln(os.Stderr, "MISMATCH", s)
	}
	for _, k := range sortedStr(p.spurious) {
		fmt.Fprintf(os.Stderr, "SPURIOUS %d: %s\n     %s @ %s\n", p.spurious[k], k, showInputs(p.spurWit[k]), p.spurWit[k].Where)
	}
	for _, k := range p.order {
		c := p.confirmed[k]
		if c.known != "" {
			fmt.Fprintf(os.Stderr, "known: %s %s\n", k, showInputs(c.wit))
		}
	}
}
