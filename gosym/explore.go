package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Decision struct {
	kind  byte // b branch, i implied branch, c choose, v concretise
	taken bool
	val   uint64
}

type Work struct {
	prefix []Decision
	model  []uint64
}

type inputRec struct {
	kind string
	v    Value
}

type Violation struct {
	Msg      string
	Kind     string // assert, panic, hang
	Inputs   []string
	Path     []Decision
	Where    string
	MapOrder bool
}

type PathRec struct {
	Inputs []string
	Trace  []string
	Exact  bool
}

type Engine struct {
	harness  *Func
	name     string
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Work
	active   int
	stop     bool
	deadline time.Time
	maxPaths int
	maxSteps int
	verbose  bool
	seed     int64
	solverMs int

	paths, done, pruned, unsups, limits, violPaths int
	truncated                                      int
	asserts, forks                                 int64
	notes                                          map[string]int
	viols                                          []Violation
	samples                                        []PathRec
	reached                                        map[string]int
	covered                                        []bool
	queries, hits, unknown, fast                   int
	solverT                                        time.Duration
	maxQ                                           time.Duration
	steps                                          int64
	vars                                           int
	rng                                            *rand.Rand
	exhausted                                      bool
	timedOut                                       bool
	maxViol                                        int
	exitPaths                                      int
	internal                                       []string
	maxPathSteps                                   int
}

type Worker struct {
	id  int
	eng *Engine
	tt  *TermTab
	sol *Solver

	globals   []*Obj
	inited    []uint8
	objSeq    int64
	epoch     int32
	initDepth int
	journal   []undo

	mcache  map[mkey]*Func
	mncache map[mnkey]*Func
	icache  map[ikey]bool

	// path state
	prefix       []Decision
	pos          int
	dec          []Decision
	model        []uint64
	pc           []*Term
	pcRoot       []int32
	uf           []int32
	varN         int
	inputs       []inputRec
	steps        int
	maxSteps     int
	depth        int
	regTop       int
	cur          *frame
	spec         int
	specMark     int64
	specCond     *Term
	noMerge      bool
	mergeFail    map[*Block]int8
	mapOrder     bool
	mapOrderUsed bool
	mapForks     int
	mapRev       bool
	exact        bool
	asserted     int
	trace        []inputRec
	cov          []bool
	pathNotes    []string
	ctx          map[string]any
	xid          int
	rng          *rand.Rand
	pools        map[*Obj][]Value
	rcache       map[string]any
	tryDepth     int
}

func NewWorker(e *Engine, id int) *Worker {
	w := &Worker{id: id, eng: e, tt: NewTermTab()}
	w.globals = make([]*Obj, len(P.glist))
	w.inited = make([]uint8, len(P.pkgs))
	w.mcache = map[mkey]*Func{}
	w.mncache = map[mnkey]*Func{}
	w.icache = map[ikey]bool{}
	w.rcache = map[string]any{}
	ms := e.solverMs
	if ms == 0 {
		ms = 10000
	}
	w.sol = NewSolver(w.tt, solverBin, ms)
	w.rng = rand.New(rand.NewSource(e.seed*1000 + int64(id)))
	return w
}

var solverBin = func() string {
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}()

func (w *Worker) note(s string) {
	w.pathNotes = append(w.pathNotes, s)
	w.eng.mu.Lock()
	w.eng.notes[s]++
	w.eng.mu.Unlock()
}

// incomplete marks the exploration as not covering everything within the bounds
func (w *Worker) incomplete(why string) {
	w.eng.mu.Lock()
	w.eng.truncated++
	w.eng.notes[why]++
	w.eng.mu.Unlock()
}

// ---------- symbolic decisions

func (w *Worker) find(x int32) int32 {
	for w.uf[x] != x {
		w.uf[x] = w.uf[w.uf[x]]
		x = w.uf[x]
	}
	return x
}

func (w *Worker) addPC(t *Term) {
	if t.isC() {
		return
	}
	if t.op == OAnd {
		w.addPC(t.a)
		w.addPC(t.b)
		return
	}
	for _, x := range w.pc {
		if x == t {
			return
		}
	}
	w.pc = append(w.pc, t)
	for len(w.uf) < w.varN {
		w.uf = append(w.uf, int32(len(w.uf)))
	}
	if len(t.vars) > 0 {
		r := w.find(t.vars[0])
		for _, v := range t.vars[1:] {
			w.uf[w.find(v)] = r
		}
	}
}

func (w *Worker) slicePC(c *Term) []*Term {
	for len(w.uf) < w.varN {
		w.uf = append(w.uf, int32(len(w.uf)))
	}
	roots := map[int32]bool{}
	for _, v := range c.vars {
		roots[w.find(v)] = true
	}
	var out []*Term
	for _, p := range w.pc {
		if len(p.vars) > 0 && roots[w.find(p.vars[0])] {
			out = append(out, p)
		}
	}
	return append(out, c)
}

func (w *Worker) checkSat(c *Term) (SatRes, map[int32]uint64) { return w.check(c, false) }

func (w *Worker) check(c *Term, assertion bool) (SatRes, map[int32]uint64) {
	if c.isC() {
		if c.val == 0 {
			return Unsat, nil
		}
		return Sat, nil
	}
	if w.eng.pastDeadline() {
		panic(abort{abStop, "time budget"})
	}
	return w.sol.Check(w.slicePC(c), assertion)
}

func (e *Engine) pastDeadline() bool {
	return !e.deadline.IsZero() && time.Now().After(e.deadline)
}

func (w *Worker) mergedModel(m map[int32]uint64) []uint64 {
	n := len(w.model)
	if n < w.varN {
		n = w.varN
	}
	out := make([]uint64, n)
	copy(out, w.model)
	for k, v := range m {
		if int(k) < len(out) {
			out[k] = v
		}
	}
	return out
}

func (w *Worker) evalM(t *Term) uint64 { return w.tt.Eval(t, w.model) }

func (w *Worker) push(d Decision, m []uint64) {
	p := make([]Decision, len(w.dec)+1)
	copy(p, w.dec)
	p[len(w.dec)] = d
	w.eng.add(Work{p, m})
}

func (w *Worker) branchV(t *Term) bool { return w.branch(t) }

func (w *Worker) branch(t *Term) bool {
	if t.isC() {
		return t.val != 0
	}
	if w.spec > 0 {
		panic(specFail{"branch"})
	}
	if w.initDepth > 0 {
		panic(unsup("symbolic branch in package init"))
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.dec = append(w.dec, d)
		if d.kind == 'b' {
			if d.taken {
				w.addPC(t)
			} else {
				w.addPC(w.tt.Not(t))
			}
		} else if d.kind != 'i' {
			panic("replay mismatch: branch vs " + string(d.kind))
		}
		return d.taken
	}
	side := w.evalM(t) != 0
	sc, oc := t, w.tt.Not(t)
	if !side {
		sc, oc = oc, sc
	}
	res, m := w.checkSat(oc)
	switch res {
	case Sat:
		w.push(Decision{'b', !side, 0}, w.mergedModel(m))
		atomic.AddInt64(&w.eng.forks, 1)
	case Unsat:
		w.dec = append(w.dec, Decision{'i', side, 0})
		return side
	case Unknown:
		w.incomplete("solver gave no answer at a branch in " + w.where())
	}
	w.dec = append(w.dec, Decision{'b', side, 0})
	w.addPC(sc)
	return side
}

// choose forks into n alternatives
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.spec > 0 {
		panic(specFail{"choose"})
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.dec = append(w.dec, d)
		if d.kind != 'c' {
			panic("replay mismatch: choose vs " + string(d.kind))
		}
		return int(d.val)
	}
	mm := append([]uint64(nil), w.model...)
	for i := n - 1; i > 0; i-- {
		w.push(Decision{'c', true, uint64(i)}, mm)
	}
	atomic.AddInt64(&w.eng.forks, int64(n-1))
	w.dec = append(w.dec, Decision{'c', true, 0})
	return 0
}

const concLimit = 24

// concTerm enumerates the values of t (each on its own path)
func (w *Worker) concTerm(t *Term) uint64 { return w.concTermN(t, concLimit) }

func (w *Worker) concTermN(t *Term, limit int) uint64 {
	if t.isC() {
		return t.val
	}
	if w.spec > 0 {
		panic(specFail{"concretise"})
	}
	for k := 0; ; k++ {
		if w.pos < len(w.prefix) {
			d := w.prefix[w.pos]
			if d.kind != 'v' && d.kind != 'w' {
				panic("replay mismatch: concretise vs " + string(d.kind))
			}
			w.pos++
			w.dec = append(w.dec, d)
			eq := w.eqConst(t, d.val)
			if d.taken {
				if d.kind == 'v' {
					w.addPC(eq)
				}
				return d.val
			}
			w.addPC(w.tt.Not(eq))
			continue
		}
		v := w.evalM(t)
		eq := w.eqConst(t, v)
		if k >= limit {
			w.incomplete("more than " + fmt.Sprint(limit) + " values at a concretisation in " + w.where())
			w.exact = false
		} else {
			res, m := w.checkSat(w.tt.Not(eq))
			switch res {
			case Sat:
				w.push(Decision{'v', false, v}, w.mergedModel(m))
			case Unknown:
				w.incomplete("solver gave no answer at a concretisation in " + w.where())
			}
		}
		w.dec = append(w.dec, Decision{'v', true, v})
		w.addPC(eq)
		return v
	}
}

func (w *Worker) eqConst(t *Term, v uint64) *Term {
	if t.w == WF64 {
		c := w.tt.Const(WF64, v)
		if f(v) != f(v) {
			return w.tt.Not(w.tt.FBin(OFEq, t, t))
		}
		if t.op == OFBits {
			return w.tt.Eq(t.a, w.tt.Const(64, v))
		}
		return w.tt.FBin(OFEq, t, c)
	}
	return w.tt.Eq(t, w.tt.Const(t.w, v))
}

func (w *Worker) concInt(v Value) int {
	if v.p == nil {
		return int(int64(v.n))
	}
	t, ok := v.p.(*Term)
	if !ok {
		panic(fmt.Sprintf("concInt of %T", v.p))
	}
	return int(sx(w.concTerm(t), t.w))
}

// conc gives a concrete scalar for v (first model value only; other values are reported as outside the bound)
func (w *Worker) concScalar(v Value, k kclass) Value {
	t, ok := v.p.(*Term)
	if !ok {
		return v
	}
	return Value{n: norm(w.concTerm(t), k, t.w)}
}

// concStr makes a string concrete. Every byte value is enumerated up to the limit.
func (w *Worker) concStr(v Value) string { return w.concStrN(v, 4) }

func (w *Worker) concStrN(v Value, limit int) string {
	v = force(v)
	if s, ok := strConc(v); ok {
		return s
	}
	bs := strBytes(v)
	out := make([]byte, len(bs))
	for i, b := range bs {
		if b.p == nil {
			out[i] = byte(b.n)
		} else {
			out[i] = byte(w.concTermN(b.p.(*Term), limit))
		}
	}
	return string(out)
}

func (w *Worker) assume(t *Term) {
	if t.isC() {
		if t.val == 0 {
			panic(abort{abAssume, ""})
		}
		return
	}
	if w.evalM(t) != 0 {
		w.addPC(t)
		return
	}
	if w.pos < len(w.prefix) {
		// the model of the work item satisfies every assumption made before its last decision,
		// so this can only be an assumption after the prefix's information: fall through to the solver
	}
	res, m := w.checkSat(t)
	switch res {
	case Unsat:
		panic(abort{abAssume, ""})
	case Unknown:
		w.incomplete("solver gave no answer at an assumption in " + w.where())
		panic(abort{abAssume, ""})
	}
	w.model = w.mergedModel(m)
	w.addPC(t)
}

func (w *Worker) assert(t *Term, msg string) {
	w.asserted++
	atomic.AddInt64(&w.eng.asserts, 1)
	if t.isC() && t.val != 0 {
		return
	}
	if w.pos < len(w.prefix) {
		// decided on the parent path under the same path condition
		w.addPC(t)
		return
	}
	nt := w.tt.Not(t)
	if t.isC() || w.evalM(nt) != 0 {
		w.violate(w.model, "assert", msg)
		if t.isC() {
			panic(abort{abViol, msg})
		}
		w.assume(t)
		return
	}
	res, m := w.check(nt, true)
	switch res {
	case Sat:
		w.violate(w.mergedModel(m), "assert", msg)
	case Unknown:
		w.incomplete("solver gave no answer for assertion: " + msg)
	case Unsat:
		return
	}
	w.addPC(t)
}

func (w *Worker) violate(model []uint64, kind, msg string) {
	v := Violation{Msg: msg, Kind: kind, Inputs: w.inputVals(model), Path: append([]Decision(nil), w.dec...), Where: w.where(), MapOrder: w.mapOrderUsed}
	e := w.eng
	e.mu.Lock()
	same := 0
	for _, o := range e.viols {
		if o.Kind == kind && o.Msg == msg {
			same++
		}
	}
	if same < 3 {
		e.viols = append(e.viols, v)
	}
	if len(e.viols) >= e.maxViol {
		e.stop = true
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (w *Worker) inputVals(model []uint64) []string {
	var out []string
	w.tt.ep++
	ev := func(v Value) uint64 {
		if t, ok := v.p.(*Term); ok {
			return w.tt.eval(t, model)
		}
		return v.n
	}
	for _, in := range w.inputs {
		switch in.kind {
		case "s":
			b := strBytes(force(in.v))
			bs := make([]byte, len(b))
			for i := range b {
				bs[i] = byte(ev(b[i]))
			}
			out = append(out, "s"+fmt.Sprintf("%x", bs))
		default:
			x := ev(in.v)
			if t, ok := in.v.p.(*Term); ok && t.w == 64 {
				out = append(out, fmt.Sprintf("%s%d", in.kind, int64(x)))
			} else {
				out = append(out, fmt.Sprintf("%s%d", in.kind, int64(x)))
			}
		}
	}
	return out
}

func (w *Worker) newVar(width uint8, init uint64) *Term {
	idx := w.varN
	w.varN++
	for len(w.model) < w.varN {
		w.model = append(w.model, init)
		if len(w.model) < w.varN {
			w.model[len(w.model)-1] = 0
		}
	}
	return w.tt.Var(idx, width)
}

// ---------- queue

func (e *Engine) add(w Work) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Engine) take(rng *rand.Rand) (Work, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || (!e.deadline.IsZero() && time.Now().After(e.deadline)) || (e.maxPaths > 0 && e.paths >= e.maxPaths) {
			if !e.stop && (len(e.queue) > 0 || e.active > 0) {
				e.timedOut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return Work{}, false
		}
		if n := len(e.queue); n > 0 {
			i := n - 1
			if rng.Intn(3) == 0 {
				i = rng.Intn(n)
			}
			x := e.queue[i]
			e.queue[i] = e.queue[n-1]
			e.queue[n-1] = Work{}
			e.queue = e.queue[:n-1]
			e.active++
			e.paths++
			return x, true
		}
		if e.active == 0 {
			e.exhausted = true
			e.cond.Broadcast()
			return Work{}, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) finish() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.queue) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

// ---------- path execution

func (w *Worker) resetPath(x Work) {
	w.epoch++
	w.prefix, w.pos = x.prefix, 0
	w.dec = w.dec[:0:0]
	w.model = append([]uint64(nil), x.model...)
	w.pc = nil
	w.uf = w.uf[:0]
	w.varN = 0
	w.inputs = nil
	w.steps = 0
	w.depth = 0
	w.cur = nil
	w.spec = 0
	w.specCond = nil
	w.mergeFail = map[*Block]int8{}
	w.mapOrder, w.mapOrderUsed = false, false
	w.mapForks, w.mapRev = 0, false
	w.exact = true
	w.asserted = 0
	w.trace = nil
	w.pathNotes = nil
	w.ctx = map[string]any{}
	w.xid = 0
	w.pools = nil
	w.tryDepth = 0
	// keep the term table from growing without bound
	if len(w.tt.tab) > 3000000 {
		w.tt = NewTermTab()
		w.sol.tt = w.tt
		w.sol.cache = map[string]cacheEnt{}
		w.sol.start()
	}
}

func (w *Worker) runPath(x Work) {
	e := w.eng
	w.resetPath(x)
	status := "done"
	msg := ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch a := r.(type) {
			case abort:
				msg = a.msg
				switch a.kind {
				case abAssume:
					status = "assume"
				case abUnsup:
					status = "unsup"
				case abLimit:
					status = "limit"
				case abStop:
					status = "stop"
				case abExit:
					status = "exit"
				case abViol:
					status = "viol"
				}
			case tpanic:
				status = "panic"
				msg = w.panicText(a.v) + " in " + a.where
				w.violate(w.model, "panic", msg)
			case specFail:
				status = "internal"
				msg = "specFail escaped: " + a.why
			default:
				status = "internal"
				msg = fmt.Sprint(r)
				if len(msg) > 300 {
					msg = msg[:300]
				}
				if e.verbose {
					fmt.Println("INTERNAL", msg, "cur", w.where())
					debug.PrintStack()
				}
			}
		}()
		w.maxSteps = e.maxSteps
		if w.initDepth != 0 {
			w.initDepth = 0
		}
		w.call(e.harness, nil, nil, nil)
	}()
	if status == "done" && w.pos < len(w.prefix) {
		status, msg = "internal", "prefix not consumed"
	}
	e.mu.Lock()
	e.steps += int64(w.steps)
	if w.steps > e.maxPathSteps {
		e.maxPathSteps = w.steps
	}
	if w.varN > e.vars {
		e.vars = w.varN
	}
	switch status {
	case "done", "viol", "panic":
		e.done++
		if status == "done" && w.asserted == 0 {
			e.notes["path without assertion"]++
		}
	case "assume":
		e.pruned++
	case "exit":
		e.exitPaths++
	case "unsup":
		e.unsups++
		e.notes["outside the encoding: "+msg]++
	case "limit":
		e.limits++
		e.notes["bound reached: "+msg]++
	case "internal":
		e.unsups++
		e.notes["internal: "+msg]++
		e.internal = append(e.internal, msg)
	case "stop":
		e.timedOut = true
		// kept for another round: the alternatives of the decisions made so far are already queued
		if len(w.dec) < len(x.prefix) {
			e.queue = append(e.queue, x)
		} else {
			e.queue = append(e.queue, Work{append([]Decision(nil), w.dec...), append([]uint64(nil), w.model...)})
		}
		e.paths--
	}
	if status == "limit" && (strings.HasPrefix(msg, "step limit") || msg == "call depth") {
		// candidate for non-termination: decided by the native replay
		e.viols = append(e.viols, Violation{Msg: msg, Kind: "hang", Inputs: w.inputVals(w.model), Where: w.where()})
	}
	keep := status == "done" && (len(e.samples) < 64 || e.rng.Intn(e.done+1) < 64)
	e.mu.Unlock()
	if keep {
		rec := PathRec{Inputs: w.inputVals(w.model), Exact: w.exact}
		for _, t := range w.trace {
			rec.Trace = append(rec.Trace, w.traceVal(t, w.model))
		}
		e.mu.Lock()
		if len(e.samples) < 64 {
			e.samples = append(e.samples, rec)
		} else {
			e.samples[e.rng.Intn(64)] = rec
		}
		e.mu.Unlock()
	}
	if e.verbose && status != "done" && status != "assume" {
		fmt.Printf("PATH %s %s inputs=%v\n", status, msg, w.inputVals(w.model))
	}
	w.rollback()
}

// traceVal renders an observed value concretely
func (w *Worker) traceVal(t inputRec, model []uint64) string {
	w.tt.ep++
	switch t.kind {
	case "s":
		b := strBytes(force(t.v))
		bs := make([]byte, len(b))
		for i := range b {
			if x, ok := b[i].p.(*Term); ok {
				bs[i] = byte(w.tt.eval(x, model))
			} else {
				bs[i] = byte(b[i].n)
			}
		}
		return "s" + fmt.Sprintf("%x", bs)
	}
	x := t.v.n
	if tm, ok := t.v.p.(*Term); ok {
		x = w.tt.eval(tm, model)
	}
	return fmt.Sprintf("%s%d", t.kind, int64(x))
}

func (e *Engine) workerLoop(id int, ws []*Worker) {
	w := ws[id]
	w.cov = make([]bool, 200000)
	for {
		x, ok := e.take(w.rng)
		if !ok {
			break
		}
		w.runPath(x)
		e.finish()
	}
	e.mu.Lock()
	e.queries += w.sol.Queries
	e.hits += w.sol.Hits
	e.fast += w.sol.Fast
	e.unknown += w.sol.Unk
	e.solverT += w.sol.Time
	if w.sol.MaxT > e.maxQ {
		e.maxQ = w.sol.MaxT
	}
	if e.covered == nil {
		e.covered = make([]bool, len(w.cov))
	}
	for i, c := range w.cov {
		if c {
			e.covered[i] = true
		}
	}
	e.mu.Unlock()
}

func NewEngine(h *Func, name string) *Engine {
	e := &Engine{harness: h, name: name, notes: map[string]int{}, reached: map[string]int{}, maxSteps: 30_000_000, maxViol: 8, rng: rand.New(rand.NewSource(1))}
	e.cond = sync.NewCond(&e.mu)
	return e
}

// workers are reused across harnesses of one process, so that package initialisation is paid once
var workerPool []*Worker

func (e *Engine) Run(n int) {
	for len(workerPool) < n {
		workerPool = append(workerPool, NewWorker(e, len(workerPool)))
	}
	ws := workerPool[:n]
	for _, w := range ws {
		w.eng = e
		w.sol.Queries, w.sol.Hits, w.sol.Fast, w.sol.Unk, w.sol.Time, w.sol.MaxT = 0, 0, 0, 0, 0, 0
		if e.solverMs != 0 && w.sol.timeout != e.solverMs {
			w.sol.timeout = e.solverMs
			w.sol.start()
		}
	}
	if e.timedOut {
		e.timedOut, e.stop = false, false // another round
	} else {
		e.add(Work{})
	}
	// wake up waiting workers at the deadline
	fin := make(chan bool)
	go func() {
		for {
			select {
			case <-fin:
				return
			case <-time.After(200 * time.Millisecond):
				e.cond.Broadcast()
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintln(os.Stderr, "worker crashed:", r)
					debug.PrintStack()
					e.mu.Lock()
					e.internal = append(e.internal, fmt.Sprint("worker crashed: ", r))
					e.stop = true
					e.cond.Broadcast()
					e.mu.Unlock()
				}
			}()
			e.workerLoop(i, ws)
		}(i)
	}
	wg.Wait()
	close(fin)
}

// pending reports whether another round can explore more.
func (e *Engine) pending() bool {
	return e.timedOut && len(e.queue) > 0 && len(e.viols) == 0 && len(e.internal) == 0
}

func (e *Engine) complete() bool {
	return e.exhausted && e.truncated == 0 && e.unsups == 0 && e.limits == 0 && !e.timedOut && e.unknown == 0
}

func (e *Engine) noteList() []string {
	var out []string
	for k, v := range e.notes {
		out = append(out, fmt.Sprintf("%s (x%d)", k, v))
	}
	sort.Strings(out)
	return out
}
