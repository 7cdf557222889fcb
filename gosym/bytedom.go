package main

// Exact decisions over single bytes: a condition in which one 8-bit variable occurs is the set of the byte values that
// satisfy it. Branch feasibility over such conditions is decided on these sets, without asking the solver; assertions
// always go to the solver.

type byteSet [4]uint64

func (b *byteSet) has(v int) bool { return b[v>>6]>>(v&63)&1 != 0 }

func (b *byteSet) count() int {
	n := 0
	for v := 0; v < 256; v++ {
		if b.has(v) {
			n++
		}
	}
	return n
}

// pick prefers the given value, then letters
func (b *byteSet) pick() (uint64, bool) {
	for v := 'a'; v < 'a'+256; v++ {
		if b.has(int(v & 255)) {
			return uint64(v & 255), true
		}
	}
	return 0, false
}

const maxDomSize = 1 << 16

// domain is the set of values of the only variable of t, an 8-bit one, for which t holds; nil if t is not of that form.
func (tt *TermTab) domain(t *Term) *byteSet {
	if len(t.vars) != 1 || t.vw != 8 || t.w != WBool {
		return nil
	}
	if t.dom != nil {
		return t.dom
	}
	var r byteSet
	switch {
	case t.op == ONot:
		d := tt.domain(t.a)
		if d == nil {
			return nil
		}
		for i := range r {
			r[i] = ^d[i]
		}
	case (t.op == OAnd || t.op == OOr) && len(t.a.vars) == 1 && len(t.b.vars) == 1:
		x, y := tt.domain(t.a), tt.domain(t.b)
		if x == nil || y == nil {
			return nil
		}
		for i := range r {
			if t.op == OAnd {
				r[i] = x[i] & y[i]
			} else {
				r[i] = x[i] | y[i]
			}
		}
	default:
		if t.size > maxDomSize {
			return nil
		}
		v := int(t.vars[0])
		for len(tt.scratch) <= v {
			tt.scratch = append(tt.scratch, 0)
		}
		old := tt.scratch[v]
		for x := 0; x < 256; x++ {
			tt.scratch[v] = uint64(x)
			if tt.Eval(t, tt.scratch) != 0 {
				r[x>>6] |= 1 << (x & 63)
			}
		}
		tt.scratch[v] = old
	}
	t.dom = &r
	return t.dom
}

// byteCheck decides cs if it can do so on byte sets.
func (s *Solver) byteCheck(cs []*Term) (SatRes, map[int32]uint64, bool) {
	doms := map[int32]byteSet{}
	var multi []*Term
	for _, c := range cs {
		if c.isC() {
			if c.val == 0 {
				return Unsat, nil, true
			}
			continue
		}
		d := s.tt.domain(c)
		if d == nil {
			multi = append(multi, c)
			continue
		}
		v := c.vars[0]
		o, ok := doms[v]
		if !ok {
			o = *d
		} else {
			for i := range o {
				o[i] &= d[i]
			}
		}
		if o == (byteSet{}) {
			return Unsat, nil, true
		}
		doms[v] = o
	}
	m := map[int32]uint64{}
	if len(multi) > 0 {
		var vars []int32
		size := int32(0)
		for _, c := range multi {
			vars = mergeVars(vars, c.vars)
			size += c.size
		}
		n := 1
		var sets [][]uint64
		max := int32(0)
		for _, v := range vars {
			d, ok := doms[v]
			if !ok {
				return Unknown, nil, false
			}
			var vals []uint64
			for x := 'a'; x < 'a'+256; x++ {
				if d.has(int(x & 255)) {
					vals = append(vals, uint64(x&255))
				}
			}
			sets = append(sets, vals)
			if n *= len(vals); n > 512 {
				return Unknown, nil, false
			}
			if v > max {
				max = v
			}
		}
		if size > 20000 {
			return Unknown, nil, false
		}
		model := make([]uint64, max+1)
		idx := make([]int, len(vars))
		found := false
	search:
		for {
			for i, v := range vars {
				model[v] = sets[i][idx[i]]
			}
			ok := true
			s.tt.ep++
			for _, c := range multi {
				if s.tt.eval(c, model) == 0 {
					ok = false
					break
				}
			}
			if ok {
				found = true
				break
			}
			for i := 0; ; i++ {
				if i == len(vars) {
					break search
				}
				idx[i]++
				if idx[i] < len(sets[i]) {
					break
				}
				idx[i] = 0
			}
		}
		if !found {
			return Unsat, nil, true
		}
		for _, v := range vars {
			m[v] = model[v]
		}
	}
	for v, d := range doms {
		if _, ok := m[v]; !ok {
			m[v], _ = d.pick()
		}
	}
	return Sat, m, true
}
