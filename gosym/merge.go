package main

// If-conversion: when a branch on a symbolic condition opens a small acyclic, side-effect free region
// with a single join (or ends in returns), both sides are evaluated speculatively and the results are
// joined with ite terms instead of forking the path.

type specFail struct{ why string }

type mergeInfo struct {
	join  *Block // nil: function exit
	order []*Block
}

func (f *Func) postdom() []*Block {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.ipdom != nil {
		return f.ipdom
	}
	n := len(f.blocks)
	f.ipdom = make([]*Block, n)
	if n > 400 {
		return f.ipdom
	}
	wds := (n + 1 + 63) / 64
	full := make([]uint64, wds)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i < n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[n] = make([]uint64, wds)
	pd[n][n/64] |= 1 << (n % 64)
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := f.blocks[i]
			var nw []uint64
			if len(b.succs) == 0 {
				nw = append([]uint64(nil), pd[n]...)
			} else {
				nw = append([]uint64(nil), pd[b.succs[0].idx]...)
				for _, s := range b.succs[1:] {
					for k := range nw {
						nw[k] &= pd[s.idx][k]
					}
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	cnt := func(x []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if x[i/64]>>(i%64)&1 != 0 {
				c++
			}
		}
		return c
	}
	cs := make([]int, n+1)
	for i := range pd {
		cs[i] = cnt(pd[i])
	}
	for i := 0; i < n; i++ {
		// immediate postdominator: the strict postdominator with the largest set
		best, bc := -1, -1
		for j := 0; j <= n; j++ {
			if j != i && pd[i][j/64]>>(j%64)&1 != 0 && cs[j] > bc {
				best, bc = j, cs[j]
			}
		}
		if best >= 0 && best < n {
			f.ipdom[i] = f.blocks[best]
		}
	}
	return f.ipdom
}

const maxRegion = 24

func (f *Func) mergeRegion(b *Block) *mergeInfo {
	ip := f.postdom()
	f.mu.Lock()
	defer f.mu.Unlock()
	if b.mdone {
		return b.merge
	}
	b.mdone = true
	if len(f.blocks) > 400 {
		return nil
	}
	join := ip[b.idx]
	// collect region by DFS, topological order; reject cycles
	state := map[*Block]int{}
	var order []*Block
	ok := true
	var dfs func(x *Block)
	dfs = func(x *Block) {
		if !ok || x == join {
			return
		}
		switch state[x] {
		case 1:
			ok = false
			return
		case 2:
			return
		}
		state[x] = 1
		if len(state) > maxRegion {
			ok = false
			return
		}
		if x == b {
			ok = false
			return
		}
		for i := range x.ins {
			switch in := &x.ins[i]; in.op {
			case iPanic, iDefer, iRunDefers, iGo, iMapUpdate, iSend, iRecv, iUnsup, iRange, iNext, iMakeChan:
				ok = false
				return
			case iReturn:
				if join != nil || f.hasDef {
					ok = false
					return
				}
			case iBuiltin:
				switch in.aux.(string) {
				case "delete", "clear", "recover", "close", "print", "println", "ssa:deferstack":
					ok = false
					return
				}
			}
		}
		for _, s := range x.succs {
			dfs(s)
		}
		state[x] = 2
		order = append(order, x)
	}
	for _, s := range b.succs {
		dfs(s)
	}
	if !ok {
		return nil
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	// every region block must only be entered from the region or b
	in := map[*Block]bool{b: true}
	for _, x := range order {
		in[x] = true
	}
	for _, x := range order {
		for _, p := range x.preds {
			if !in[p] {
				return nil
			}
		}
	}
	b.merge = &mergeInfo{join, order}
	return b.merge
}

const specSteps = 4000

// tryMerge returns (join block, false), or (nil, true) if the function result was computed, or (nil,false) to fork.
func (w *Worker) tryMerge(fr *frame, b *Block, c *Term) (nb *Block, done bool) {
	if w.noMerge || w.initDepth > 0 {
		return nil, false
	}
	if w.mergeFail[b] >= 3 {
		return nil, false
	}
	if w.tryDepth > 6 {
		return nil, false
	}
	mi := fr.f.mergeRegion(b)
	if mi == nil {
		return nil, false
	}
	depth, steps, maxS, cur := w.depth, w.steps, w.maxSteps, w.cur
	w.spec++
	w.tryDepth++
	if w.spec == 1 {
		if steps+specSteps < maxS {
			w.maxSteps = steps + specSteps
		}
	}
	var res Value
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				switch a := r.(type) {
				case specFail:
					ok = false
					return
				case abort:
					if a.kind == abLimit || a.kind == abUnsup {
						ok = false
						return
					}
				}
				w.spec--
				w.tryDepth--
				panic(r)
			}
		}()
		res, ok = w.specRegion(fr, b, c, mi)
		return ok
	}()
	w.spec--
	w.tryDepth--
	w.maxSteps = maxS
	w.depth, w.cur = depth, cur
	if !ok {
		w.mergeFail[b]++
		if w.spec > 0 {
			panic(specFail{"nested"})
		}
		return nil, false
	}
	if mi.join == nil {
		fr.result = res
		return nil, true
	}
	fr.block = mi.join
	return mi.join, false
}

type edgeIn struct {
	c    *Term
	from *Block
	pi   int
}

func (w *Worker) specRegion(fr *frame, b *Block, c *Term, mi *mergeInfo) (Value, bool) {
	tt := w.tt
	in := map[*Block][]edgeIn{}
	addEdge := func(from *Block, e int, cond *Term) {
		if cond.isC() && cond.val == 0 {
			return
		}
		to := from.succs[e]
		pi := -1
		if to.hasPhi {
			pi = predIndex(from, e, to)
		}
		in[to] = append(in[to], edgeIn{cond, from, pi})
	}
	addEdge(b, 0, c)
	addEdge(b, 1, tt.Not(c))
	type retv struct {
		c *Term
		v Value
	}
	var rets []retv
	saveG, saveM := w.specCond, w.specMark
	defer func() { w.specCond, w.specMark = saveG, saveM }()
	for _, x := range mi.order {
		es := in[x]
		if len(es) == 0 {
			continue
		}
		cond := tt.F
		for _, e := range es {
			cond = tt.Or(cond, e.c)
		}
		w.specCond = tt.And(saveGOr(tt, saveG), cond)
		if !w.mergePhis(fr, x, es) {
			return Value{}, false
		}
		w.specMark = w.objSeq // stores are only allowed to objects created in this very block
		n := len(x.ins)
		w.steps += n
		if w.steps > w.maxSteps {
			return Value{}, false
		}
		for i := 0; i < n-1; i++ {
			w.exec(fr, &x.ins[i])
		}
		last := &x.ins[n-1]
		switch last.op {
		case iJump:
			addEdge(x, 0, cond)
		case iIf:
			v := w.get(fr, last.a)
			t := w.toTerm(v, WBool)
			addEdge(x, 0, tt.And(cond, t))
			addEdge(x, 1, tt.And(cond, tt.Not(t)))
		case iReturn:
			var v Value
			switch len(last.args) {
			case 0:
			case 1:
				v = w.get(fr, last.args[0])
			default:
				tp := make(Tuple, len(last.args))
				for i, a := range last.args {
					tp[i] = w.get(fr, a)
				}
				v = Value{p: tp}
			}
			rets = append(rets, retv{cond, v})
		default:
			return Value{}, false
		}
	}
	if mi.join == nil {
		if len(rets) == 0 {
			return Value{}, false
		}
		v := rets[len(rets)-1].v
		for i := len(rets) - 2; i >= 0; i-- {
			var ok bool
			if v, ok = w.mergeVal(rets[i].c, rets[i].v, v, fr.f.resKind); !ok {
				return Value{}, false
			}
		}
		return v, true
	}
	es := in[mi.join]
	if len(es) == 0 {
		return Value{}, false
	}
	return Value{}, w.mergePhis(fr, mi.join, es)
}

func saveGOr(tt *TermTab, t *Term) *Term {
	if t == nil {
		return tt.T
	}
	return t
}

func (w *Worker) mergePhis(fr *frame, to *Block, es []edgeIn) bool {
	if !to.hasPhi {
		return true
	}
	mv := to.phis[es[0].pi]
	out := make([]Value, len(mv))
	for i := range mv {
		v := w.get(fr, to.phis[es[len(es)-1].pi][i].src)
		for j := len(es) - 2; j >= 0; j-- {
			x := w.get(fr, to.phis[es[j].pi][i].src)
			var ok bool
			if v, ok = w.mergeVal(es[j].c, x, v, to.phiKind[i]); !ok {
				return false
			}
		}
		out[i] = v
	}
	for i := range mv {
		fr.regs[mv[i].dst] = out[i]
	}
	return true
}

type vkind struct {
	k    kclass
	w    uint8
	tup  []vkind
	leaf bool
}

// mergeVal builds ite(c, a, b) for values of the given static kind
func (w *Worker) mergeVal(c *Term, a, b Value, vk vkind) (Value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if c.isC() {
		if c.val != 0 {
			return a, true
		}
		return b, true
	}
	if vk.tup != nil {
		x, ok1 := a.p.(Tuple)
		y, ok2 := b.p.(Tuple)
		if !ok1 || !ok2 {
			return Value{}, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			v, ok := w.mergeVal(c, x[i], y[i], vk.tup[i])
			if !ok {
				return Value{}, false
			}
			out[i] = v
		}
		return Value{p: out}, true
	}
	switch vk.k {
	case kBool, kInt, kUint, kF64:
		if vk.w == 64 && vk.k != kF64 {
			if x, y := w.toTerm(a, vk.w), w.toTerm(b, vk.w); x.isC() && y.isC() && x.val != y.val && int64(x.val) >= 0 && int64(y.val) >= 0 {
				return Value{}, false // a width or an index: positions computed from it would be symbolic
			}
		}
		return fromTerm(w.tt.Ite(c, w.toTerm(a, vk.w), w.toTerm(b, vk.w)), vk.k), true
	case kString:
		if isLazy(a) || isLazy(b) {
			return Value{}, false
		}
		if strLen(a) != strLen(b) {
			return Value{}, false
		}
		n := strLen(a)
		out := make([]Value, n)
		for i := range out {
			x, y := strByte(a, i), strByte(b, i)
			out[i] = fromTerm(w.tt.Ite(c, w.toTerm(x, 8), w.toTerm(y, 8)), kUint)
		}
		return mkSym(out), true
	}
	return Value{}, false
}

// specGuard: the operation about to be evaluated speculatively is only defined if g holds
func (w *Worker) specGuard(g *Term) {
	if g.isC() && g.val != 0 {
		return
	}
	// provable under the path condition and the region condition?
	if w.specCond != nil {
		c := w.tt.And(w.specCond, w.tt.Not(g))
		if c.isC() && c.val == 0 {
			return
		}
		if c.size < 400 {
			r, _ := w.checkSat(c)
			if r == Unsat {
				return
			}
		}
	}
	panic(specFail{"guard"})
}
