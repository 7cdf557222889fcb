package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- aborts

type abortKind int

const (
	abAssume abortKind = iota // assumption failed: path not part of the claim
	abUnsup                   // construct outside the encoding
	abLimit                   // step/depth bound
	abStop                    // exploration stopped
	abExit                    // os.Exit called
	abViol
)

type abort struct {
	kind abortKind
	msg  string
}

func unsup(msg string) abort { return abort{abUnsup, msg} }

// tpanic is a panic of the program under analysis
type tpanic struct {
	v     Value // interface value
	where string
}

type deferred struct {
	in   *Instr
	fn   *Func
	bind []Value
	args []Value
	nat  func(w *Worker, args []Value) Value
	blt  string
	t    types.Type
	n    int
}

type frame struct {
	f         *Func
	regs      []Value
	caller    *frame
	defers    []deferred
	panicking bool
	pv        tpanic
	result    Value
	block     *Block
	pos       token.Pos
}

func (w *Worker) get(fr *frame, o opnd) Value {
	switch o.k {
	case 1:
		return fr.regs[o.i]
	case 2:
		return fr.f.consts[o.i]
	case 3:
		return Value{p: w.global(o.i)}
	}
	return Value{}
}

func (w *Worker) global(i int32) *Obj {
	o := w.globals[i]
	if o == nil {
		g := P.glist[i]
		t := deref(g.Type())
		o = &Obj{size: cellsOf(t), typ: t}
		if o.size <= 64 {
			o.cells = make([]Value, o.size)
		}
		w.objSeq++
		o.id = w.objSeq
		w.globals[i] = o
	}
	g := P.glist[i]
	pi := P.pkgIdx[g.Pkg]
	if w.inited[pi] == 0 {
		w.ensureInit(pi)
	}
	return o
}

func (w *Worker) ensureInit(pi int) {
	if w.inited[pi] != 0 {
		return
	}
	w.inited[pi] = 1
	pk := P.pkgs[pi]
	if skipInit[pk.Pkg.Path()] {
		return
	}
	fn := pk.Func("init")
	if fn == nil {
		return
	}
	ep := w.epoch
	w.epoch = 0
	w.initDepth++
	sm := w.noMerge
	w.noMerge = true
	spec := w.spec
	w.spec = 0
	steps, maxSteps := w.steps, w.maxSteps
	w.maxSteps += 20_000_000
	defer func() {
		w.steps, w.maxSteps, w.spec = steps, maxSteps, spec
		w.epoch = ep
		w.initDepth--
		w.noMerge = sm
		if r := recover(); r != nil {
			switch e := r.(type) {
			case abort:
				if e.kind == abUnsup || e.kind == abLimit {
					w.note("init of " + pk.Pkg.Path() + " incomplete: " + e.msg)
					if w.eng != nil && w.eng.verbose {
						fmt.Println("INIT", pk.Pkg.Path(), e.msg)
					}
					return
				}
			case tpanic:
				w.note("init of " + pk.Pkg.Path() + " panics: " + w.panicText(e.v))
				return
			}
			panic(r)
		}
	}()
	w.call(P.Func(fn), nil, nil, nil)
}

// ---------- calls

const maxDepth = 2500

func (w *Worker) call(f *Func, args []Value, bind []Value, caller *frame) Value {
	f.prepare()
	if f.intr != nil {
		return f.intr(w, args)
	}
	if f.redir != nil {
		return w.call(f.redir, args, nil, caller)
	}
	if f.fast != nil {
		if v, ok := f.fast(w, args); ok {
			return v
		}
	}
	if w.initDepth > 0 && f.isInit() && caller != nil {
		// calls to other packages' init: these are initialised lazily, except first-party and third-party ones
		if f.pkg != nil && f.pkg != caller.f.pkg {
			if eagerInit(f.pkg.Pkg.Path()) {
				w.ensureInit(f.pkgIdx)
			}
			return Value{}
		}
	}
	w.depth++
	if w.depth > maxDepth {
		w.depth = 0
		panic(abort{abLimit, "call depth"})
	}
	if w.cov != nil && w.initDepth == 0 && int(f.gid) < len(w.cov) {
		w.cov[f.gid] = true
	}
	regs := w.allocRegs(f.nregs)
	copy(regs, args)
	copy(regs[f.nparam:], bind)
	fr := &frame{f: f, regs: regs, caller: caller}
	sp := w.regTop
	if f.hasDef {
		w.runDeferFrame(fr)
	} else {
		w.run(fr, f.blocks[0], -1)
	}
	w.freeRegs(sp, f.nregs)
	w.depth--
	return fr.result
}

func (f *Func) isInit() bool {
	return f.ssa.Name() == "init" && f.ssa.Synthetic != ""
}

// register stack
func (w *Worker) allocRegs(n int) []Value {
	return make([]Value, n)
}
func (w *Worker) freeRegs(sp int, n int) {}

func (w *Worker) runDeferFrame(fr *frame) {
	depth := w.depth
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(tpanic)
			if !ok {
				if re, isrt := r.(error); isrt {
					panic(fmt.Sprintf("internal: %v in %s", re, fr.f.name))
				}
				panic(r)
			}
			w.depth = depth
			fr.panicking = true
			fr.pv = tp
			w.runDefers(fr) // re-panics if not recovered
			if fr.f.recov != nil {
				w.run(fr, fr.f.recov, -1)
			} else {
				fr.result = w.zeroResult(fr.f)
			}
		}()
		w.run(fr, fr.f.blocks[0], -1)
	}()
	w.depth = depth
}

func (w *Worker) zeroResult(f *Func) Value {
	if len(f.res) > 1 {
		return Value{p: make(Tuple, len(f.res))}
	}
	return Value{}
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		w.runOneDefer(fr, &d)
	}
	if fr.panicking {
		panic(fr.pv)
	}
}

func (w *Worker) runOneDefer(fr *frame, d *deferred) {
	depth := w.depth
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(tpanic); ok {
				w.depth = depth
				fr.panicking = true
				fr.pv = tp
				return
			}
			panic(r)
		}
	}()
	w.doCall(fr, d)
}

func (w *Worker) doCall(fr *frame, d *deferred) Value {
	switch {
	case d.nat != nil:
		return d.nat(w, d.args)
	case d.fn != nil:
		return w.call(d.fn, d.args, d.bind, fr)
	case d.blt != "":
		return w.builtin(fr, d.in, d.blt, d.args)
	}
	panic("doCall")
}

// resolve a call instruction into a callable
func (w *Worker) resolve(fr *frame, in *Instr, op opcode) deferred {
	args := make([]Value, len(in.args), len(in.args)+1)
	for i, a := range in.args {
		args[i] = w.get(fr, a)
	}
	d := deferred{in: in, args: args}
	switch op {
	case iCall:
		d.fn = in.fn
	case iInvoke:
		x := w.get(fr, in.a)
		if x.p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		ifc, ok := x.p.(*Iface)
		if !ok {
			panic(fmt.Sprintf("invoke on %T in %s", x.p, fr.f.name))
		}
		m := in.aux.(*types.Func)
		d.fn = w.lookupMethod(ifc.t, m)
		d.args = append([]Value{ifc.v}, args...)
	case iCallDyn:
		x := w.get(fr, in.a)
		if x.p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		cl := x.p.(*Closure)
		d.fn, d.bind, d.nat = cl.fn, cl.bind, cl.nat
	case iBuiltin:
		d.blt = in.aux.(string)
	}
	return d
}

type mkey struct {
	t *RT
	m *types.Func
}

func (w *Worker) lookupMethod(t *RT, m *types.Func) *Func {
	k := mkey{t, m}
	if f, ok := w.mcache[k]; ok {
		return f
	}
	f := findMethod(t.t, m.Pkg(), m.Name())
	if f == nil {
		panic(fmt.Sprintf("no method %s on %s", m.Name(), t.t))
	}
	w.mcache[k] = f
	return f
}

func findMethod(t types.Type, pkg *types.Package, name string) *Func {
	P.bmu.Lock()
	defer P.bmu.Unlock()
	sel := P.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	fn := P.prog.MethodValue(sel)
	if fn == nil {
		return nil
	}
	return P.Func(fn)
}

// callMethod calls a method by name on an interface value, if it has it
func (w *Worker) callMethod(ifc *Iface, name string, args ...Value) (Value, bool) {
	key := mnkey{ifc.t, name}
	f, ok := w.mncache[key]
	if !ok {
		f = findMethod(ifc.t.t, nil, name)
		w.mncache[key] = f
	}
	if f == nil {
		return Value{}, false
	}
	return w.call(f, append([]Value{ifc.v}, args...), nil, nil), true
}

type mnkey struct {
	t *RT
	n string
}

func (w *Worker) callValue(fv Value, args ...Value) Value {
	if fv.p == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	cl := fv.p.(*Closure)
	if cl.nat != nil {
		return cl.nat(w, args)
	}
	return w.call(cl.fn, args, cl.bind, nil)
}

var rtErrString *RT

func (w *Worker) rtPanic(msg string) {
	if w.spec > 0 {
		panic(specFail{"panic"})
	}
	pk := P.byPath["runtime"]
	v := Value{}
	if pk != nil && pk.Type("errorString") != nil {
		if rtErrString == nil {
			rtErrString = TT.RT(pk.Type("errorString").Type())
		}
		v = mkIface(rtErrString, mkStr(msg))
	} else {
		v = mkIface(TT.RT(types.Typ[types.String]), mkStr("runtime error: "+msg))
	}
	panic(tpanic{v, w.where()})
}

func (w *Worker) where() string {
	if w.cur == nil {
		return ""
	}
	return shortName(w.cur.f.name)
}

func (w *Worker) panicText(v Value) string {
	ifc, ok := v.p.(*Iface)
	if !ok {
		return "nil"
	}
	switch x := ifc.v.p.(type) {
	case string:
		return ifc.t.String() + ": " + x
	}
	if ifc.v.p == nil {
		return ifc.t.String() + ": " + fmt.Sprint(int64(ifc.v.n))
	}
	text := ifc.t.String()
	func() {
		defer func() { recover() }()
		if ifc.t.String() == "string" {
			b := []byte{}
			for i := 0; i < strLen(ifc.v); i++ {
				b = append(b, byte(w.evalM(w.toTerm(strByte(ifc.v, i), 8))))
			}
			text += ": " + string(b)
		}
	}()
	return text
}

// ---------- main loop

func (w *Worker) enter(fr *frame, from *Block, edge int, to *Block) {
	if to.hasPhi {
		pi := predIndex(from, edge, to)
		w.doPhis(fr, to, pi)
	}
}

func predIndex(from *Block, edge int, to *Block) int {
	// the k-th edge from->to corresponds to the k-th occurrence of from in to.preds
	k := 0
	for e := 0; e < edge; e++ {
		if from.succs[e] == to {
			k++
		}
	}
	for i, p := range to.preds {
		if p == from {
			if k == 0 {
				return i
			}
			k--
		}
	}
	panic("predIndex")
}

func (w *Worker) doPhis(fr *frame, to *Block, pi int) {
	mv := to.phis[pi]
	if len(mv) == 1 {
		fr.regs[mv[0].dst] = w.get(fr, mv[0].src)
		return
	}
	var tmp [8]Value
	t := tmp[:0]
	for i := range mv {
		t = append(t, w.get(fr, mv[i].src))
	}
	for i := range mv {
		fr.regs[mv[i].dst] = t[i]
	}
}

func (w *Worker) run(fr *frame, b *Block, _ int) {
	prevCur := w.cur
	w.cur = fr
	for {
		fr.block = b
		w.steps += len(b.ins) + 1
		if w.steps > w.maxSteps {
			panic(abort{abLimit, "step limit in " + shortName(fr.f.name)})
		}
		n := len(b.ins)
		for i := 0; i < n-1; i++ {
			w.exec(fr, &b.ins[i])
		}
		in := &b.ins[n-1]
		switch in.op {
		case iJump:
			to := b.succs[0]
			w.enter(fr, b, 0, to)
			b = to
		case iIf:
			c := w.get(fr, in.a)
			e := 0
			if c.p == nil {
				if c.n == 0 {
					e = 1
				}
			} else {
				t := c.p.(*Term)
				if nb, done := w.tryMerge(fr, b, t); done {
					w.cur = prevCur
					return
				} else if nb != nil {
					b = nb
					continue
				}
				if !w.branch(t) {
					e = 1
				}
			}
			to := b.succs[e]
			w.enter(fr, b, e, to)
			b = to
		case iReturn:
			switch len(in.args) {
			case 0:
				fr.result = Value{}
			case 1:
				fr.result = w.get(fr, in.args[0])
			default:
				t := make(Tuple, len(in.args))
				for i, a := range in.args {
					t[i] = w.get(fr, a)
				}
				fr.result = Value{p: t}
			}
			w.cur = prevCur
			return
		case iPanic:
			v := w.get(fr, in.a)
			if w.spec > 0 {
				panic(specFail{"panic"})
			}
			if v.p == nil {
				w.rtPanic("panic called with nil argument")
			}
			panic(tpanic{v, shortName(fr.f.name)})
		default:
			w.exec(fr, in)
			panic("block does not end in control instruction in " + fr.f.name)
		}
	}
}

func (w *Worker) nilDeref() {
	w.rtPanic("invalid memory address or nil pointer dereference")
}

func (w *Worker) load(p Value, n int, agg bool) Value {
	switch o := p.p.(type) {
	case *Obj:
		if agg {
			return w.loadCells(o, int(p.n), n)
		}
		i := int(p.n)
		if i < len(o.cells) {
			return o.cells[i]
		}
		if i >= o.size && n > 0 {
			panic(fmt.Sprintf("load out of object %d/%d %v in %s", i, o.size, o.typ, w.where()))
		}
		return Value{}
	case nil:
		w.nilDeref()
	case *SymPtr:
		return w.loadSym(o, n, agg)
	}
	panic(unsup(fmt.Sprintf("load from %T in %s", p.p, w.where())))
}

func (w *Worker) store(p Value, v Value, n int, agg bool) {
	o, ok := p.p.(*Obj)
	if !ok {
		if p.p == nil {
			w.nilDeref()
		}
		if sp, ok := p.p.(*SymPtr); ok {
			o, p = w.resolveSymPtr(sp)
		} else {
			panic(unsup(fmt.Sprintf("store to %T", p.p)))
		}
	}
	if w.spec > 0 && !w.specLocal(o) {
		panic(specFail{"store"})
	}
	if agg {
		w.storeCells(o, int(p.n), n, v)
		return
	}
	if o.epoch == w.epoch && int(p.n) < len(o.cells) {
		o.cells[p.n] = v
		return
	}
	w.set(o, int(p.n), v)
}

func (w *Worker) specLocal(o *Obj) bool { return o.id > w.specMark }

func (w *Worker) resolveSymPtr(sp *SymPtr) (*Obj, Value) {
	i := w.concTerm(sp.idx)
	return sp.obj, Value{p: sp.obj, n: uint64(sp.off + int(i)*sp.esz + sp.add)}
}

func sameVal(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	defer func() { recover() }()
	switch x := a.p.(type) {
	case nil:
		return b.p == nil
	case string:
		y, ok := b.p.(string)
		return ok && x == y
	case *Term:
		y, ok := b.p.(*Term)
		return ok && x == y
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && (x == y || x.t == y.t && sameVal(x.v, y.v))
	case *Closure:
		y, ok := b.p.(*Closure)
		return ok && (x == y || (x.fn != nil && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0))
	case *SymStr:
		y, ok := b.p.(*SymStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case Agg:
		y, ok := b.p.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.p.(*SliceV)
		return ok && *x == *y
	case Tuple, *LazyStr, *SymPtr:
		return false
	case *Obj:
		y, ok := b.p.(*Obj)
		return ok && x == y
	case *MapObj:
		y, ok := b.p.(*MapObj)
		return ok && x == y
	}
	return false
}

// loadSym loads an element at a symbolic (in-range) index
func (w *Worker) loadSym(sp *SymPtr, n int, agg bool) Value {
	elem := func(i int) Value {
		base := sp.off + i*sp.esz + sp.add
		if agg {
			return w.loadCells(sp.obj, base, n)
		}
		return sp.obj.get(base)
	}
	// group consecutive indices with equal values
	type grp struct {
		v      Value
		ranges [][2]int
	}
	var gs []grp
	scalar := true
	kw := uint8(0)
outer:
	for i := 0; i < sp.n; i++ {
		v := elem(i)
		if v.p != nil {
			if t, ok := v.p.(*Term); ok {
				kw = t.w
			} else {
				scalar = false
			}
		}
		for g := range gs {
			if sameVal(gs[g].v, v) {
				r := gs[g].ranges
				if r[len(r)-1][1] == i-1 {
					r[len(r)-1][1] = i
				} else {
					gs[g].ranges = append(r, [2]int{i, i})
				}
				continue outer
			}
		}
		gs = append(gs, grp{v, [][2]int{{i, i}}})
		if len(gs) > 300 {
			panic(unsup("symbolic index into large table"))
		}
	}
	if len(gs) == 1 {
		return gs[0].v
	}
	cond := func(g *grp) *Term {
		c := w.tt.F
		for _, r := range g.ranges {
			lo, hi := w.tt.Const(sp.idx.w, uint64(r[0])), w.tt.Const(sp.idx.w, uint64(r[1]))
			var x *Term
			if r[0] == r[1] {
				x = w.tt.Eq(sp.idx, lo)
			} else {
				x = w.tt.And(w.tt.Ule(lo, sp.idx), w.tt.Ule(sp.idx, hi))
			}
			c = w.tt.Or(c, x)
		}
		return c
	}
	if scalar && !agg {
		if kw == 0 && sp.kw != 0 {
			kw = sp.kw
		}
		if kw != 0 || sp.kw != 0 || sp.isBool {
			// largest group last (default)
			best := 0
			for i := range gs {
				if len(gs[i].ranges) > len(gs[best].ranges) {
					best = i
				}
			}
			r := w.toTerm(gs[best].v, kw)
			for i := range gs {
				if i != best {
					r = w.tt.Ite(cond(&gs[i]), w.toTerm(gs[i].v, kw), r)
				}
			}
			return fromTerm(r, sp.kc)
		}
	}
	if w.spec > 0 {
		panic(specFail{"symload"})
	}
	for i := 0; i < len(gs)-1; i++ {
		if w.branch(cond(&gs[i])) {
			return gs[i].v
		}
	}
	return gs[len(gs)-1].v
}

// index evaluates and bounds-checks an index. Returns concrete index, or -1 and term.
func (w *Worker) index(v Value, k kclass, wd uint8, n int) (int, *Term) {
	if v.p == nil {
		i := int64(v.n)
		if k == kUint && i < 0 || i < 0 || i >= int64(n) {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := v.p.(*Term)
	// extend to 64
	if k == kInt {
		t = w.tt.Sext(t, 64)
	} else {
		t = w.tt.Zext(t, 64)
	}
	if t.isC() {
		return w.index(Value{n: t.val}, k, 64, n)
	}
	ok := w.tt.Ult(t, w.tt.Const(64, uint64(n)))
	if !ok.isC() || ok.val == 0 {
		if w.spec > 0 {
			if ok.isC() {
				panic(specFail{"bounds"})
			}
			w.specGuard(ok)
		} else if !w.branchV(ok) {
			w.rtPanic("index out of range")
		}
	}
	return -1, t
}

func (w *Worker) exec(fr *frame, in *Instr) {
	switch in.op {
	case iNop:
	case iAlloc:
		fr.regs[in.dst] = Value{p: w.newObj(in.n, in.t)}
	case iBin:
		fr.regs[in.dst] = w.binop(in, w.get(fr, in.a), w.get(fr, in.b))
	case iCmp:
		fr.regs[in.dst] = w.cmp(in, w.get(fr, in.a), w.get(fr, in.b))
	case iEqGen:
		a, b := w.get(fr, in.a), w.get(fr, in.b)
		if in.flag { // X concrete, Y interface
			a = mkIface(TT.RT(in.ssa.(*ssa.BinOp).X.Type()), a)
			in2 := in.ssa.(*ssa.BinOp).Y.Type()
			r := w.eqVals(in2, a, b)
			fr.regs[in.dst] = w.boolVal(r, in.tok == token.NEQ)
			return
		}
		if in.flag2 {
			b = mkIface(TT.RT(in.ssa.(*ssa.BinOp).Y.Type()), b)
		}
		r := w.eqVals(in.t, a, b)
		fr.regs[in.dst] = w.boolVal(r, in.tok == token.NEQ)
	case iNot:
		v := w.get(fr, in.a)
		if v.p == nil {
			fr.regs[in.dst] = Value{n: v.n ^ 1}
		} else {
			fr.regs[in.dst] = Value{p: w.tt.Not(v.p.(*Term))}
		}
	case iNeg:
		v := w.get(fr, in.a)
		switch {
		case in.k == kComplex:
			fr.regs[in.dst] = Value{p: -cplx(v)}
		case v.p == nil && in.w == WF64:
			fr.regs[in.dst] = mkF(-f(v.n))
		case v.p == nil:
			fr.regs[in.dst] = Value{n: norm(-v.n, in.k, in.w)}
		case in.w == WF64:
			fr.regs[in.dst] = Value{p: w.tt.FNeg(v.p.(*Term))}
		default:
			fr.regs[in.dst] = fromTerm(w.tt.Neg(v.p.(*Term)), in.k)
		}
	case iCompl:
		v := w.get(fr, in.a)
		if v.p == nil {
			fr.regs[in.dst] = Value{n: norm(^v.n, in.k, in.w)}
		} else {
			fr.regs[in.dst] = fromTerm(w.tt.BNot(v.p.(*Term)), in.k)
		}
	case iLoad:
		fr.regs[in.dst] = w.load(w.get(fr, in.a), in.n, in.flag)
	case iStore:
		w.store(w.get(fr, in.a), w.get(fr, in.b), in.n, in.flag)
	case iFieldAddr:
		p := w.get(fr, in.a)
		switch o := p.p.(type) {
		case *Obj:
			fr.regs[in.dst] = Value{n: p.n + uint64(in.n), p: o}
		case nil:
			w.nilDeref()
		case *SymPtr:
			c := *o
			c.add += in.n
			if fa, ok := in.ssa.(*ssa.FieldAddr); ok {
				c.kc, c.kw = classify(deref(fa.Type()))
				c.isBool = c.kc == kBool
			}
			fr.regs[in.dst] = Value{p: &c}
		default:
			panic(unsup(fmt.Sprintf("fieldaddr of %T in %s", p.p, fr.f.name)))
		}
	case iField:
		v := w.get(fr, in.a)
		if in.flag {
			fr.regs[in.dst] = aggSub(v, in.n, in.n2)
		} else {
			fr.regs[in.dst] = aggGet(v, in.n)
		}
	case iIndexAddr:
		x := w.get(fr, in.a)
		var obj *Obj
		var off, n int
		if in.flag {
			if x.p == nil {
				w.nilDeref()
			}
			if sp, ok := x.p.(*SymPtr); ok {
				obj, x = w.resolveSymPtr(sp)
			} else {
				obj = x.p.(*Obj)
			}
			off, n = int(x.n), in.n2
		} else if x.p != nil {
			s := x.p.(*SliceV)
			obj, off, n = s.obj, s.off, s.len
		}
		i, t := w.index(w.get(fr, in.b), in.k, in.w, n)
		if t == nil {
			fr.regs[in.dst] = Value{p: obj, n: uint64(off + i*in.n)}
			return
		}
		if in.flag2 {
			sp := &SymPtr{obj: obj, off: off, esz: in.n, idx: t, n: n}
			et := deref(in.ssa.(ssa.Value).Type())
			sp.kc, sp.kw = classify(et)
			sp.isBool = sp.kc == kBool
			fr.regs[in.dst] = Value{p: sp}
			return
		}
		i = int(w.concTerm(t))
		fr.regs[in.dst] = Value{p: obj, n: uint64(off + i*in.n)}
	case iIndex:
		x := w.get(fr, in.a)
		if in.flag {
			x = force(x)
			n := strLen(x)
			i, t := w.index(w.get(fr, in.b), in.k, in.w, n)
			if t == nil {
				fr.regs[in.dst] = strByte(x, i)
				return
			}
			o := &Obj{cells: strBytes(x), size: n}
			fr.regs[in.dst] = w.loadSym(&SymPtr{obj: o, esz: 1, idx: t, n: n, kc: kUint, kw: 8}, 1, false)
			return
		}
		i, t := w.index(w.get(fr, in.b), in.k, in.w, in.n2)
		if t == nil {
			if in.flag2 {
				fr.regs[in.dst] = aggSub(x, i*in.n, in.n)
			} else {
				fr.regs[in.dst] = aggGet(x, i*in.n)
			}
			return
		}
		a, _ := x.p.(Agg)
		o := &Obj{cells: a, size: in.n * in.n2}
		sp := &SymPtr{obj: o, esz: in.n, idx: t, n: in.n2}
		sp.kc, sp.kw = classify(in.ssa.(ssa.Value).Type())
		sp.isBool = sp.kc == kBool
		fr.regs[in.dst] = w.loadSym(sp, in.n, in.flag2)
	case iLookup:
		m := w.get(fr, in.a)
		v, ok := w.mapGet(m, w.get(fr, in.b), in.rt)
		if !ok {
			v = Value{}
		}
		if in.flag {
			fr.regs[in.dst] = Value{p: Tuple{v, mkBool(ok)}}
		} else {
			fr.regs[in.dst] = v
		}
	case iCall, iInvoke, iCallDyn, iBuiltin:
		if in.op == iCall {
			args := make([]Value, len(in.args))
			for i, a := range in.args {
				args[i] = w.get(fr, a)
			}
			fr.regs[in.dst] = w.call(in.fn, args, nil, fr)
			w.cur = fr
			return
		}
		d := w.resolve(fr, in, in.op)
		fr.regs[in.dst] = w.doCall(fr, &d)
		w.cur = fr
	case iDefer:
		d := w.resolve(fr, in, opcode(in.n2))
		if in.flag {
			if df, ok := w.get(fr, in.b).p.(*frame); ok {
				df.defers = append(df.defers, d)
				return
			}
		}
		fr.defers = append(fr.defers, d)
	case iRunDefers:
		w.runDefers(fr)
	case iGo:
		panic(unsup("go statement in " + fr.f.name))
	case iConvert:
		fr.regs[in.dst] = w.convert(in, w.get(fr, in.a))
	case iMove:
		fr.regs[in.dst] = w.get(fr, in.a)
	case iMakeIface:
		fr.regs[in.dst] = mkIface(in.rt, w.get(fr, in.a))
	case iTypeAssert:
		x := w.get(fr, in.a)
		ok := false
		var ifc *Iface
		if x.p != nil {
			ifc = x.p.(*Iface)
			if in.flag2 {
				ok = w.implements(ifc.t, in.rt)
			} else {
				ok = ifc.t == in.rt
			}
		}
		var v Value
		if ok {
			if in.flag2 {
				v = x
			} else {
				v = ifc.v
			}
		} else if !in.flag {
			d := "nil"
			if ifc != nil {
				d = ifc.t.String()
			}
			w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.rt))
		}
		if in.flag {
			fr.regs[in.dst] = Value{p: Tuple{v, mkBool(ok)}}
		} else {
			fr.regs[in.dst] = v
		}
	case iExtract:
		v := w.get(fr, in.a)
		if v.p == nil {
			fr.regs[in.dst] = Value{}
		} else {
			fr.regs[in.dst] = v.p.(Tuple)[in.n]
		}
	case iMakeClosure:
		bind := make([]Value, len(in.args))
		for i, a := range in.args {
			bind[i] = w.get(fr, a)
		}
		fr.regs[in.dst] = Value{p: &Closure{fn: in.fn, bind: bind}}
	case iMakeMap:
		fr.regs[in.dst] = Value{p: w.newMap(in.rt)}
	case iMakeSlice:
		l := w.concInt(w.get(fr, in.a))
		c := l
		if in.b.k != 0 {
			c = w.concInt(w.get(fr, in.b))
		}
		if l < 0 || l > 1<<31 {
			w.rtPanic("makeslice: len out of range")
		}
		if c < l || c > 1<<31 {
			w.rtPanic("makeslice: cap out of range")
		}
		if l > 1<<24 {
			panic(unsup("huge allocation"))
		}
		fr.regs[in.dst] = Value{p: &SliceV{obj: w.newObj(c*in.n, in.t), len: l, cap: c, esz: in.n}}
	case iSlice:
		fr.regs[in.dst] = w.slice(fr, in)
	case iMapUpdate:
		m := w.get(fr, in.a)
		if m.p == nil {
			w.rtPanic("assignment to entry in nil map")
		}
		w.mapSet(m.p.(*MapObj), w.get(fr, in.b), w.get(fr, in.c), in.rt)
	case iRange:
		x := w.get(fr, in.a)
		if in.flag {
			it := &MapIter{}
			if x.p != nil {
				it.m = x.p.(*MapObj)
				for i := range it.m.ents {
					if it.m.ents[i].live {
						it.keys = append(it.keys, i)
					}
				}
				it.n0 = len(it.m.ents)
			}
			fr.regs[in.dst] = Value{p: it}
		} else {
			fr.regs[in.dst] = Value{p: &StrIter{s: force(x)}}
		}
	case iNext:
		x := w.get(fr, in.a)
		switch it := x.p.(type) {
		case *MapIter:
			fr.regs[in.dst] = w.mapNext(it)
		case *StrIter:
			n := strLen(it.s)
			if it.pos >= n {
				fr.regs[in.dst] = Value{p: Tuple{mkBool(false), Value{}, Value{}}}
				return
			}
			r, sz := w.decodeRune(it.s, it.pos)
			fr.regs[in.dst] = Value{p: Tuple{mkBool(true), mkInt(it.pos), r}}
			it.pos += sz
		}
	case iArrPtr:
		x := w.get(fr, in.a)
		if sliceLen(x) < in.n {
			w.rtPanic("cannot convert slice to array pointer")
		}
		if x.p == nil {
			fr.regs[in.dst] = Value{}
			return
		}
		s := x.p.(*SliceV)
		fr.regs[in.dst] = Value{p: s.obj, n: uint64(s.off)}
	case iMakeChan:
		fr.regs[in.dst] = Value{p: &ChanObj{cap: w.concInt(w.get(fr, in.a))}}
	default:
		panic(unsup(fmt.Sprintf("instruction %v in %s", in.ssa, fr.f.name)))
	}
}

func (w *Worker) decodeRune(s Value, pos int) (Value, int) {
	b := strByte(s, pos)
	if b.p == nil {
		if b.n < 0x80 {
			return b, 1
		}
	} else {
		t := b.p.(*Term)
		if w.branch(w.tt.Ult(t, w.tt.Const(8, 0x80))) {
			return fromTerm(w.tt.Zext(t, 32), kInt), 1
		}
	}
	end := min(pos+4, strLen(s))
	sub := strSub(s, pos, end)
	if c, ok := strConc(sub); ok {
		for i, r := range c {
			_ = i
			sz := runeSizeAt(c)
			return Value{n: uint64(int64(r))}, sz
		}
	}
	r := w.callNamed("unicode/utf8", "DecodeRuneInString", sub)
	tu := r.p.(Tuple)
	return tu[0], w.concInt(tu[1])
}

func runeSizeAt(s string) int {
	n := 0
	for i := range s {
		if i > 0 {
			return i
		}
		n++
	}
	return len(s)
}

func (w *Worker) callNamed(pkg, name string, args ...Value) Value {
	pk := P.byPath[pkg]
	if pk == nil {
		panic(unsup("no package " + pkg))
	}
	fn := pk.Func(name)
	if fn == nil {
		panic(unsup("no function " + pkg + "." + name))
	}
	return w.call(P.Func(fn), args, nil, nil)
}

func (w *Worker) boolVal(t *Term, neg bool) Value {
	if neg {
		t = w.tt.Not(t)
	}
	if t.isC() {
		return Value{n: t.val}
	}
	return Value{p: t}
}

func cplx(v Value) complex128 {
	if v.p == nil {
		return 0
	}
	return v.p.(complex128)
}

func (w *Worker) binop(in *Instr, a, b Value) Value {
	k, wd := in.k, in.w
	if in.tok == token.SHL || in.tok == token.SHR {
		return w.shift(in, a, b)
	}
	if a.p == nil && b.p == nil {
		switch k {
		case kInt, kUint:
			x, y := a.n, b.n
			var r uint64
			switch in.tok {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				if y == 0 {
					w.rtPanic("integer divide by zero")
				}
				if k == kInt {
					if int64(y) == -1 {
						r = -x
					} else {
						r = uint64(int64(x) / int64(y))
					}
				} else {
					r = x / y
				}
			case token.REM:
				if y == 0 {
					w.rtPanic("integer divide by zero")
				}
				if k == kInt {
					if int64(y) == -1 {
						r = 0
					} else {
						r = uint64(int64(x) % int64(y))
					}
				} else {
					r = x % y
				}
			case token.AND:
				r = x & y
			case token.OR:
				r = x | y
			case token.XOR:
				r = x ^ y
			case token.AND_NOT:
				r = x &^ y
			}
			return Value{n: norm(r, k, wd)}
		case kF64, kF32:
			x, y := f(a.n), f(b.n)
			var r float64
			switch in.tok {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			}
			return Value{n: norm(fb(r), k, wd)}
		case kBool:
			switch in.tok {
			case token.AND, token.LAND:
				return Value{n: a.n & b.n}
			case token.OR, token.LOR:
				return Value{n: a.n | b.n}
			case token.XOR:
				return Value{n: a.n ^ b.n}
			}
		}
	}
	switch k {
	case kString:
		return strConcat(a, b)
	case kComplex:
		x, y := cplx(a), cplx(b)
		switch in.tok {
		case token.ADD:
			return Value{p: x + y}
		case token.SUB:
			return Value{p: x - y}
		case token.MUL:
			return Value{p: x * y}
		case token.QUO:
			return Value{p: x / y}
		}
	case kInt, kUint:
		x, y := w.toTerm(a, wd), w.toTerm(b, wd)
		var r *Term
		switch in.tok {
		case token.ADD:
			r = w.tt.bin(OAdd, x, y)
		case token.SUB:
			r = w.tt.bin(OSub, x, y)
		case token.MUL:
			r = w.tt.bin(OMul, x, y)
		case token.QUO, token.REM:
			z := w.tt.Eq(y, w.tt.Const(wd, 0))
			if !z.isC() || z.val != 0 {
				if w.spec > 0 {
					if z.isC() {
						panic(specFail{"div"})
					}
					w.specGuard(w.tt.Not(z))
				} else if w.branchV(z) {
					w.rtPanic("integer divide by zero")
				}
			}
			op := OUDiv
			if in.tok == token.REM {
				op = OURem
			}
			if k == kInt {
				op = OSDiv
				if in.tok == token.REM {
					op = OSRem
				}
			}
			r = w.tt.bin(op, x, y)
		case token.AND:
			r = w.tt.bin(OBAnd, x, y)
		case token.OR:
			r = w.tt.bin(OBOr, x, y)
		case token.XOR:
			r = w.tt.bin(OBXor, x, y)
		case token.AND_NOT:
			r = w.tt.bin(OBAnd, x, w.tt.BNot(y))
		}
		return fromTerm(r, k)
	case kF64:
		x, y := w.toTerm(a, WF64), w.toTerm(b, WF64)
		op := map[token.Token]Op{token.ADD: OFAdd, token.SUB: OFSub, token.MUL: OFMul, token.QUO: OFDiv}[in.tok]
		return fromTerm(w.tt.FBin(op, x, y), k)
	case kBool:
		x, y := w.toTerm(a, WBool), w.toTerm(b, WBool)
		switch in.tok {
		case token.AND, token.LAND:
			return fromTerm(w.tt.And(x, y), k)
		case token.OR, token.LOR:
			return fromTerm(w.tt.Or(x, y), k)
		}
	}
	panic(unsup(fmt.Sprintf("binop %v on %v (%T %T)", in.tok, in.t, a.p, b.p)))
}

func (w *Worker) shift(in *Instr, a, b Value) Value {
	k, wd := in.k, in.w
	if a.p == nil && b.p == nil {
		c := b.n
		if in.k2 == kInt && int64(c) < 0 {
			w.rtPanic("negative shift amount")
		}
		var r uint64
		if in.tok == token.SHL {
			if c < 64 {
				r = a.n << c
			}
		} else if k == kInt {
			if c > 63 {
				c = 63
			}
			r = uint64(int64(a.n) >> c)
		} else if c < 64 {
			r = a.n >> c
		}
		return Value{n: norm(r, k, wd)}
	}
	x := w.toTerm(a, wd)
	y := w.toTerm(b, in.w2)
	if in.k2 == kInt {
		neg := w.tt.Slt(y, w.tt.Const(in.w2, 0))
		if !neg.isC() || neg.val != 0 {
			if w.spec > 0 {
				w.specGuard(w.tt.Not(neg))
			} else if w.branchV(neg) {
				w.rtPanic("negative shift amount")
			}
		}
	}
	inr := w.tt.Ult(w.tt.Zext(y, 64), w.tt.Const(64, uint64(wd)))
	var cnt *Term
	if in.w2 > wd {
		cnt = w.tt.Trunc(y, wd)
	} else {
		cnt = w.tt.Zext(y, wd)
	}
	var r *Term
	if in.tok == token.SHL {
		r = w.tt.Ite(inr, w.tt.bin(OShl, x, cnt), w.tt.Const(wd, 0))
	} else if k == kInt {
		r = w.tt.Ite(inr, w.tt.bin(OAshr, x, cnt), w.tt.bin(OAshr, x, w.tt.Const(wd, uint64(wd-1))))
	} else {
		r = w.tt.Ite(inr, w.tt.bin(OLshr, x, cnt), w.tt.Const(wd, 0))
	}
	return fromTerm(r, k)
}

func cmpRes(tok token.Token, c int) bool {
	switch tok {
	case token.EQL:
		return c == 0
	case token.NEQ:
		return c != 0
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	case token.GEQ:
		return c >= 0
	}
	panic("cmp")
}

func (w *Worker) cmp(in *Instr, a, b Value) Value {
	k, wd := in.k, in.w
	if k == kString {
		a, b = force(a), force(b)
		x, ok1 := strConc(a)
		y, ok2 := strConc(b)
		if ok1 && ok2 {
			return mkBool(cmpRes(in.tok, strings.Compare(x, y)))
		}
		switch in.tok {
		case token.EQL, token.NEQ:
			return w.boolVal(w.strEq(a, b), in.tok == token.NEQ)
		case token.LSS:
			return w.boolVal(w.strLess(a, b), false)
		case token.GTR:
			return w.boolVal(w.strLess(b, a), false)
		case token.LEQ:
			return w.boolVal(w.strLess(b, a), true)
		default:
			return w.boolVal(w.strLess(a, b), true)
		}
	}
	if a.p == nil && b.p == nil {
		switch k {
		case kInt:
			c := 0
			if int64(a.n) < int64(b.n) {
				c = -1
			} else if a.n != b.n {
				c = 1
			}
			return mkBool(cmpRes(in.tok, c))
		case kUint, kBool:
			c := 0
			if a.n < b.n {
				c = -1
			} else if a.n != b.n {
				c = 1
			}
			return mkBool(cmpRes(in.tok, c))
		case kF64, kF32:
			x, y := f(a.n), f(b.n)
			switch in.tok {
			case token.EQL:
				return mkBool(x == y)
			case token.NEQ:
				return mkBool(x != y)
			case token.LSS:
				return mkBool(x < y)
			case token.LEQ:
				return mkBool(x <= y)
			case token.GTR:
				return mkBool(x > y)
			default:
				return mkBool(x >= y)
			}
		}
	}
	x, y := w.toTerm(a, wd), w.toTerm(b, wd)
	var r *Term
	tt := w.tt
	switch k {
	case kF64, kF32:
		switch in.tok {
		case token.EQL:
			r = tt.FBin(OFEq, x, y)
		case token.NEQ:
			r = tt.Not(tt.FBin(OFEq, x, y))
		case token.LSS:
			r = tt.FBin(OFLt, x, y)
		case token.LEQ:
			r = tt.FBin(OFLe, x, y)
		case token.GTR:
			r = tt.FBin(OFLt, y, x)
		default:
			r = tt.FBin(OFLe, y, x)
		}
	case kInt, kUint, kBool:
		lt, le := tt.Ult, tt.Ule
		if k == kInt {
			lt, le = tt.Slt, tt.Sle
		}
		switch in.tok {
		case token.EQL:
			r = tt.Eq(x, y)
		case token.NEQ:
			r = tt.Not(tt.Eq(x, y))
		case token.LSS:
			r = lt(x, y)
		case token.LEQ:
			r = le(x, y)
		case token.GTR:
			r = lt(y, x)
		default:
			r = le(y, x)
		}
	default:
		panic(unsup("cmp kind"))
	}
	return w.boolVal(r, false)
}

func (w *Worker) strEq(a, b Value) *Term {
	a, b = force(a), force(b)
	if strLen(a) != strLen(b) {
		return w.tt.F
	}
	if x, ok := strConc(a); ok {
		if y, ok := strConc(b); ok {
			return w.tt.Bool(x == y)
		}
	}
	r := w.tt.T
	n := strLen(a)
	for i := 0; i < n; i++ {
		x, y := strByte(a, i), strByte(b, i)
		if x.p == nil && y.p == nil {
			if x.n != y.n {
				return w.tt.F
			}
			continue
		}
		r = w.tt.And(r, w.tt.Eq(w.toTerm(x, 8), w.toTerm(y, 8)))
		if r.isC() && r.val == 0 {
			return r
		}
	}
	return r
}

func (w *Worker) strLess(a, b Value) *Term {
	n, m := strLen(a), strLen(b)
	r := w.tt.Bool(n < m)
	for i := min(n, m) - 1; i >= 0; i-- {
		x, y := w.toTerm(strByte(a, i), 8), w.toTerm(strByte(b, i), 8)
		r = w.tt.Ite(w.tt.Eq(x, y), r, w.tt.Ult(x, y))
	}
	return r
}

// eqVals compares two values of static type t
func (w *Worker) eqVals(t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if a.p == nil || b.p == nil {
			return w.tt.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.t != y.t {
			return w.tt.F
		}
		if !types.Comparable(x.t.t) {
			w.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return w.eqVals(x.t.t, x.v, y.v)
	case *types.Struct:
		r := w.tt.T
		offs := fieldOffsets(u)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if u.Field(i).Name() == "_" {
				continue
			}
			r = w.tt.And(r, w.eqVals(ft, aggField(a, offs[i], ft), aggField(b, offs[i], ft)))
			if r.isC() && r.val == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		r := w.tt.T
		n := cellsOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = w.tt.And(r, w.eqVals(u.Elem(), aggField(a, i*n, u.Elem()), aggField(b, i*n, u.Elem())))
			if r.isC() && r.val == 0 {
				return r
			}
		}
		return r
	case *types.Basic:
		k, wd := classify(t)
		switch k {
		case kString:
			return w.strEq(a, b)
		case kF64, kF32:
			return w.tt.FBin(OFEq, w.toTerm(a, WF64), w.toTerm(b, WF64))
		case kInt, kUint, kBool:
			return w.tt.Eq(w.toTerm(a, wd), w.toTerm(b, wd))
		case kComplex:
			return w.tt.Bool(cplx(a) == cplx(b))
		}
		// unsafe.Pointer, untyped nil
		return w.tt.Bool(ptrEq(a, b))
	case *types.Signature, *types.Slice, *types.Map:
		return w.tt.Bool(a.p == nil && b.p == nil)
	}
	if sp, ok := a.p.(*SymPtr); ok {
		_, a = w.resolveSymPtr(sp)
	}
	if sp, ok := b.p.(*SymPtr); ok {
		_, b = w.resolveSymPtr(sp)
	}
	return w.tt.Bool(ptrEq(a, b))
}

func ptrEq(a, b Value) bool {
	if a.p == nil || b.p == nil {
		return a.p == nil && b.p == nil
	}
	return a.p == b.p && a.n == b.n
}

func (w *Worker) implements(t *RT, it *RT) bool {
	k := ikey{t, it}
	if r, ok := w.icache[k]; ok {
		return r
	}
	i := it.t.Underlying().(*types.Interface)
	P.bmu.Lock()
	m, _ := types.MissingMethod(t.t, i, true)
	P.bmu.Unlock()
	r := m == nil
	w.icache[k] = r
	return r
}

type ikey struct{ a, b *RT }

func (w *Worker) convert(in *Instr, v Value) Value {
	k, wd, k2, w2 := in.k, in.w, in.k2, in.w2
	num := func(k kclass) bool { return k == kInt || k == kUint || k == kF64 || k == kF32 }
	if num(k) && num(k2) {
		if v.p == nil {
			switch {
			case k == kF64 || k == kF32:
				x := f(v.n)
				switch k2 {
				case kF64, kF32:
					return Value{n: norm(v.n, k2, w2)}
				case kInt:
					return Value{n: norm(uint64(int64(x)), k2, w2)}
				default:
					return Value{n: norm(uint64(x), k2, w2)}
				}
			case k2 == kF64 || k2 == kF32:
				var x float64
				if k == kInt {
					x = float64(int64(v.n))
				} else {
					x = float64(v.n)
				}
				return Value{n: norm(fb(x), k2, w2)}
			}
			return Value{n: norm(v.n, k2, w2)}
		}
		t := v.p.(*Term)
		switch {
		case k == kF64 || k == kF32:
			switch k2 {
			case kF64:
				return v
			case kInt:
				return fromTerm(w.tt.Trunc(w.tt.ToS(t), w2), k2)
			case kUint:
				// in range of int64
				return fromTerm(w.tt.Trunc(w.tt.ToS(t), w2), k2)
			}
		case k2 == kF64:
			if k == kInt {
				return fromTerm(w.tt.FromS(t), k2)
			}
			return fromTerm(w.tt.FromU(t), k2)
		case k2 == kInt || k2 == kUint:
			if w2 > wd {
				if k == kInt {
					return fromTerm(w.tt.Sext(t, w2), k2)
				}
				return fromTerm(w.tt.Zext(t, w2), k2)
			}
			return fromTerm(w.tt.Trunc(t, w2), k2)
		}
		c := w.concTerm(t)
		return w.convert(in, Value{n: norm(c, k, wd)})
	}
	if k2 == kComplex {
		return v
	}
	src := in.aux.(types.Type)
	if k2 == kString {
		if k == kString {
			return v
		}
		if k == kInt || k == kUint { // string(rune)
			return w.runeString(v)
		}
		if s, ok := src.Underlying().(*types.Slice); ok {
			ek, ew := classify(s.Elem())
			vals := w.sliceVals(v)
			if ew == 8 {
				return mkSym(append([]Value(nil), vals...))
			}
			_ = ek
			r := Value{}
			conc := true
			for _, x := range vals {
				if x.p != nil {
					conc = false
				}
			}
			if conc {
				rs := make([]rune, len(vals))
				for i, x := range vals {
					rs[i] = rune(x.n)
				}
				return mkStr(string(rs))
			}
			for _, x := range vals {
				r = strConcat(r, w.runeString(x))
			}
			return r
		}
	}
	if k == kString {
		if s, ok := in.t.Underlying().(*types.Slice); ok {
			v = force(v)
			_, ew := classify(s.Elem())
			if ew == 8 {
				return w.mkByteSlice(v)
			}
			var out []Value
			n := strLen(v)
			for p := 0; p < n; {
				r, sz := w.decodeRune(v, p)
				out = append(out, r)
				p += sz
			}
			return w.mkSlice(out)
		}
	}
	// pointer <-> unsafe.Pointer
	if b, ok := in.t.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
		if v.p == nil {
			return v
		}
		if o, ok := v.p.(*Obj); ok {
			return Value{n: uint64(o.id)*1024 + v.n}
		}
		panic(unsup("pointer to uintptr"))
	}
	if b, ok := src.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
		if v.p == nil && v.n == 0 {
			return v
		}
		panic(unsup("uintptr to pointer"))
	}
	return v
}

func (w *Worker) runeString(v Value) Value {
	if v.p == nil {
		return mkStr(string(rune(int64(v.n))))
	}
	t := v.p.(*Term)
	t32 := t
	if t.w > 32 {
		t32 = w.tt.Trunc(t, 32)
	} else if t.w < 32 {
		t32 = w.tt.Zext(t, 32)
	}
	if w.branch(w.tt.Ult(t32, w.tt.Const(32, 0x80))) {
		return mkSym([]Value{fromTerm(w.tt.Trunc(t32, 8), kUint)})
	}
	sl := w.callNamed("unicode/utf8", "AppendRune", Value{}, fromTerm(t32, kInt))
	return mkSym(append([]Value(nil), w.sliceVals(sl)...))
}

func (w *Worker) slice(fr *frame, in *Instr) Value {
	x := w.get(fr, in.a)
	var lo, hi, mx int
	optI := func(o opnd, d int) int {
		if o.k == 0 {
			return d
		}
		return w.concInt(w.get(fr, o))
	}
	oob := func(what string) {
		w.rtPanic("slice bounds out of range " + what)
	}
	if in.flag2 {
		x = force(x)
		n := strLen(x)
		lo = optI(in.b, 0)
		hi = optI(in.c, n)
		if hi < 0 || hi > n {
			oob(fmt.Sprintf("[:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			oob(fmt.Sprintf("[%d:%d]", lo, hi))
		}
		return strSub(x, lo, hi)
	}
	var obj *Obj
	var off, ln, cp int
	if in.flag {
		if x.p == nil {
			w.nilDeref()
		}
		if sp, ok := x.p.(*SymPtr); ok {
			_, x = w.resolveSymPtr(sp)
		}
		obj = x.p.(*Obj)
		off, ln, cp = int(x.n), in.n2, in.n2
	} else if x.p != nil {
		s := x.p.(*SliceV)
		obj, off, ln, cp = s.obj, s.off, s.len, s.cap
	}
	lo = optI(in.b, 0)
	hi = optI(in.c, ln)
	mx = cp
	if len(in.args) > 0 {
		mx = w.concInt(w.get(fr, in.args[0]))
		if mx < 0 || mx > cp {
			oob(fmt.Sprintf("[::%d] with capacity %d", mx, cp))
		}
	}
	if hi < 0 || hi > mx {
		oob(fmt.Sprintf("[:%d] with capacity %d", hi, cp))
	}
	if lo < 0 || lo > hi {
		oob(fmt.Sprintf("[%d:%d]", lo, hi))
	}
	if x.p == nil {
		return Value{}
	}
	return Value{p: &SliceV{obj: obj, off: off + lo*in.n, len: hi - lo, cap: mx - lo, esz: in.n}}
}

// ---------- builtins

func (w *Worker) builtin(fr *frame, in *Instr, name string, args []Value) Value {
	switch name {
	case "len":
		return mkInt(w.lenOf(args[0], in.t))
	case "cap":
		switch s := args[0].p.(type) {
		case *SliceV:
			return mkInt(s.cap)
		case *ChanObj:
			return mkInt(s.cap)
		}
		if args[0].p == nil {
			return Value{}
		}
		return mkInt(w.lenOf(args[0], in.t))
	case "append":
		return w.appendSlice(args[0], args[1], in.n)
	case "copy":
		return mkInt(w.copySlice(args[0], args[1], in.n))
	case "delete":
		if args[0].p != nil {
			w.mapDelete(args[0].p.(*MapObj), args[1])
		}
		return Value{}
	case "clear":
		switch m := args[0].p.(type) {
		case *MapObj:
			w.specNo("clear")
			w.touchMap(m)
			m.ents = nil
			m.idx = map[any]int{}
			m.nsym, m.count = 0, 0
		case *SliceV:
			for i := 0; i < m.len*m.esz; i++ {
				w.set(m.obj, m.off+i, Value{})
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		return w.recover(fr)
	case "min", "max":
		r := args[0]
		k, wd := classify(in.t)
		for _, b := range args[1:] {
			tok := token.LSS
			if name == "max" {
				tok = token.GTR
			}
			c := w.cmp(&Instr{tok: tok, k: k, w: wd}, b, r)
			if c.p == nil {
				if c.n != 0 {
					r = b
				}
			} else if k == kString {
				if w.branch(c.p.(*Term)) {
					r = b
				}
			} else {
				r = fromTerm(w.tt.Ite(c.p.(*Term), w.toTerm(b, wd), w.toTerm(r, wd)), k)
			}
		}
		return r
	case "wrapnilchk":
		if args[0].p == nil {
			w.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return Value{p: fr}
	case "String": // unsafe.String
		n := w.concInt(args[1])
		if n == 0 {
			return Value{}
		}
		o := args[0].p.(*Obj)
		out := make([]Value, n)
		for i := range out {
			out[i] = o.get(int(args[0].n) + i)
		}
		return mkSym(out)
	case "SliceData":
		s := sliceOf(args[0])
		if s == nil {
			return Value{}
		}
		return Value{p: s.obj, n: uint64(s.off)}
	case "StringData":
		b := strBytes(force(args[0]))
		o := w.newObj(len(b), nil)
		o.cells = append([]Value(nil), b...)
		return Value{p: o}
	case "Slice":
		n := w.concInt(args[1])
		if args[0].p == nil {
			return Value{}
		}
		esz := 1
		if pt, ok := in.t.Underlying().(*types.Pointer); ok {
			esz = cellsOf(pt.Elem())
		}
		o := args[0].p.(*Obj)
		return Value{p: &SliceV{obj: o, off: int(args[0].n), len: n, cap: n, esz: esz}}
	case "close":
		args[0].p.(*ChanObj).closed = true
		return Value{}
	case "real":
		return mkF(real(cplx(args[0])))
	case "imag":
		return mkF(imag(cplx(args[0])))
	case "complex":
		return Value{p: complex(f(args[0].n), f(args[1].n))}
	}
	panic(unsup("builtin " + name))
}

func (w *Worker) specNo(what string) {
	if w.spec > 0 {
		panic(specFail{what})
	}
}

func (w *Worker) lenOf(v Value, t types.Type) int {
	switch x := v.p.(type) {
	case nil:
		if t != nil {
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			if a, ok := u.(*types.Array); ok {
				return int(a.Len())
			}
		}
		return 0
	case string, *SymStr, *LazyStr:
		return strLen(force(v))
	case *SliceV:
		return x.len
	case *MapObj:
		return x.count
	case *ChanObj:
		return len(x.buf)
	case Agg, *Obj:
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return int(a.Len())
		}
	}
	panic(fmt.Sprintf("len of %T", v.p))
}

func (w *Worker) appendSlice(a, b Value, esz int) Value {
	var src []Value
	bn := 0
	switch x := b.p.(type) {
	case nil:
		return a
	case *SliceV:
		bn = x.len
		if bn == 0 {
			return a
		}
		src = make([]Value, bn*x.esz)
		for i := range src {
			src[i] = x.obj.get(x.off + i)
		}
	default:
		src = strBytes(force(b))
		bn = len(src)
		if bn == 0 {
			return a
		}
	}
	s := sliceOf(a)
	if s == nil {
		o := w.newObj(growCap(0, bn)*esz, nil)
		n := growCap(0, bn)
		o.cells = make([]Value, len(src), n*esz)
		copy(o.cells, src)
		return Value{p: &SliceV{obj: o, len: bn, cap: n, esz: esz}}
	}
	if s.len+bn <= s.cap {
		if w.spec > 0 && !w.specLocal(s.obj) {
			panic(specFail{"append"})
		}
		base := s.off + s.len*s.esz
		for i := range src {
			w.set(s.obj, base+i, src[i])
		}
		return Value{p: &SliceV{obj: s.obj, off: s.off, len: s.len + bn, cap: s.cap, esz: esz}}
	}
	nc := growCap(s.cap, s.len+bn)
	o := w.newObj(nc*esz, nil)
	o.cells = make([]Value, (s.len+bn)*esz, nc*esz)
	for i := 0; i < s.len*esz; i++ {
		o.cells[i] = s.obj.get(s.off + i)
	}
	copy(o.cells[s.len*esz:], src)
	return Value{p: &SliceV{obj: o, len: s.len + bn, cap: nc, esz: esz}}
}

// growCap follows the runtime for small pointer-size element slices (what matters for aliasing)
func growCap(old, need int) int {
	if need > 2*old {
		// size classes for 8-byte elements: 1,2,3,4,6,8,10,12,14,16,...
		return roundCap(need)
	}
	if old < 256 {
		return roundCap(2 * old)
	}
	n := old
	for n < need {
		n += (n + 3*256) / 4
	}
	return roundCap(n)
}

func roundCap(n int) int {
	switch {
	case n <= 4:
		return n
	case n <= 16:
		return (n + 1) &^ 1
	case n <= 32:
		return (n + 3) &^ 3
	}
	return n
}

func (w *Worker) copySlice(a, b Value, esz int) int {
	d := sliceOf(a)
	if d == nil {
		return 0
	}
	var src []Value
	n := 0
	switch x := b.p.(type) {
	case nil:
		return 0
	case *SliceV:
		n = min(d.len, x.len)
		src = make([]Value, n*x.esz)
		for i := range src {
			src[i] = x.obj.get(x.off + i)
		}
	default:
		src = strBytes(force(b))
		n = min(d.len, len(src))
		src = src[:n]
	}
	if n > 0 && w.spec > 0 && !w.specLocal(d.obj) {
		panic(specFail{"copy"})
	}
	for i := range src {
		w.set(d.obj, d.off+i, src[i])
	}
	return n
}

func (w *Worker) recover(fr *frame) Value {
	if fr != nil && fr.caller != nil && fr.caller.panicking {
		c := fr.caller
		c.panicking = false
		return c.pv.v
	}
	return Value{}
}

// ---------- maps

func (w *Worker) newMap(kt *RT) *MapObj {
	w.objSeq++
	return &MapObj{idx: map[any]int{}, epoch: w.epoch, id: w.objSeq, kt: kt}
}

type ptrKey struct {
	p any
	n uint64
}
type ifKey struct {
	t *RT
	k any
}

// concKey gives a Go-comparable key for a concrete value, or nil if symbolic
func (w *Worker) concKey(t types.Type, v Value) any {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if v.p == nil {
			return ifKey{}
		}
		i := v.p.(*Iface)
		if !types.Comparable(i.t.t) {
			w.rtPanic("hash of unhashable type " + i.t.String())
		}
		k := w.concKey(i.t.t, i.v)
		if k == nil {
			return nil
		}
		return ifKey{i.t, k}
	case *types.Struct:
		var sb strings.Builder
		offs := fieldOffsets(u)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			k := w.concKey(ft, aggField(v, offs[i], ft))
			if k == nil {
				return nil
			}
			fmt.Fprintf(&sb, "%T:%v\x00", k, k)
		}
		return sb.String() + "\x01struct"
	case *types.Array:
		var sb strings.Builder
		n := cellsOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			k := w.concKey(u.Elem(), aggField(v, i*n, u.Elem()))
			if k == nil {
				return nil
			}
			fmt.Fprintf(&sb, "%T:%v\x00", k, k)
		}
		return sb.String() + "\x01array"
	case *types.Basic:
		k, _ := classify(t)
		switch k {
		case kString:
			v = force(v)
			s, ok := strConc(v)
			if !ok {
				return nil
			}
			return s
		case kF64, kF32:
			if v.p != nil {
				return nil
			}
			x := f(v.n)
			if x == 0 {
				return math.Float64bits(0)
			}
			return v.n
		case kComplex:
			return cplx(v)
		}
		if v.p == nil {
			return v.n
		}
		if _, ok := v.p.(*Term); ok {
			return nil
		}
	}
	return ptrKey{v.p, v.n}
}

func (w *Worker) mapFind(m *MapObj, k Value, kt *RT) int {
	ck := w.concKey(kt.t, k)
	if ck != nil {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live {
			continue
		}
		if ck != nil && !e.sym {
			continue
		}
		c := w.eqVals(kt.t, e.k, k)
		if c.isC() {
			if c.val != 0 {
				return i
			}
			continue
		}
		if w.branch(c) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapGet(mv Value, k Value, kt *RT) (Value, bool) {
	if mv.p == nil {
		return Value{}, false
	}
	m := mv.p.(*MapObj)
	i := w.mapFind(m, k, kt)
	if i < 0 {
		return Value{}, false
	}
	return m.ents[i].v, true
}

func (w *Worker) mapSet(m *MapObj, k, v Value, kt *RT) {
	if w.spec > 0 {
		panic(specFail{"map"})
	}
	i := w.mapFind(m, k, kt)
	w.touchMap(m)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	ck := w.concKey(kt.t, k)
	m.ents = append(m.ents, MapEnt{k: k, v: v, live: true, sym: ck == nil})
	m.count++
	if ck != nil {
		m.idx[ck] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (w *Worker) mapDelete(m *MapObj, k Value) {
	if w.spec > 0 {
		panic(specFail{"map"})
	}
	i := w.mapFind(m, k, m.kt)
	if i < 0 {
		return
	}
	w.touchMap(m)
	e := &m.ents[i]
	if e.sym {
		m.nsym--
	} else {
		delete(m.idx, w.concKey(m.kt.t, e.k))
	}
	e.live = false
	e.k, e.v = Value{}, Value{}
	m.count--
}

func (w *Worker) mapNext(it *MapIter) Value {
	for len(it.keys) > 0 || (it.m != nil && it.n0 < len(it.m.ents)) {
		if len(it.keys) == 0 {
			// entries added during iteration: may or may not be produced; produce them
			for j := it.n0; j < len(it.m.ents); j++ {
				if it.m.ents[j].live {
					it.keys = append(it.keys, j)
				}
			}
			it.n0 = len(it.m.ents)
			continue
		}
		pick := 0
		if w.mapOrder && w.initDepth == 0 && len(it.keys) > 1 {
			// drop dead first
			k := it.keys[:0]
			for _, j := range it.keys {
				if it.m.ents[j].live {
					k = append(k, j)
				}
			}
			it.keys = k
			if len(it.keys) == 0 {
				continue
			}
			if len(it.keys) > 1 && !it.noFork {
				n := len(it.keys)
				if w.mapRev {
					pick = n - 1
					w.mapOrderUsed = true
				} else if w.mapForks > 0 {
					w.mapForks--
					pick = w.choose(n)
					w.mapOrderUsed = true
				}
			}
		}
		j := it.keys[pick]
		if pick == 0 {
			it.keys = it.keys[1:]
		} else {
			nk := make([]int, 0, len(it.keys)-1)
			nk = append(nk, it.keys[:pick]...)
			nk = append(nk, it.keys[pick+1:]...)
			it.keys = nk
		}
		e := &it.m.ents[j]
		if !e.live {
			continue
		}
		return Value{p: Tuple{mkBool(true), e.k, e.v}}
	}
	return Value{p: Tuple{mkBool(false), Value{}, Value{}}}
}

// ---------- lazily formatted strings

type LazyStr struct {
	f    func() Value
	done bool
	v    Value
}

func force(v Value) Value {
	if l, ok := v.p.(*LazyStr); ok {
		if !l.done {
			l.v = force(l.f())
			l.done = true
		}
		return l.v
	}
	return v
}

var _ = ssa.NaiveForm
