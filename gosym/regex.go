package main

import (
	"regexp/syntax"
)

// reMatch decides an unanchored match of the (concrete) expression as one formula over the bytes of s.
// Bytes >= 0x80 are only supported concretely.
func (w *Worker) reMatch(expr string, s Value) Value {
	s = force(s)
	if c, ok := strConc(s); ok {
		return mkBool(reGet(expr).MatchString(c))
	}
	bs := strBytes(s)
	asc := w.tt.T
	for _, b := range bs {
		if b.p != nil {
			asc = w.tt.And(asc, w.tt.Ult(b.p.(*Term), w.tt.Const(8, 0x80)))
		} else if b.n >= 0x80 {
			asc = w.tt.F
		}
	}
	if !w.branch(asc) {
		return mkBool(reGet(expr).MatchString(w.concStr(s)))
	}
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		panic(unsup("regexp " + expr))
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(unsup("regexp " + expr))
	}
	n := len(bs)
	np := len(prog.Inst)
	tt := w.tt
	cur := make([]*Term, np)
	next := make([]*Term, np)
	for i := range cur {
		cur[i], next[i] = tt.F, tt.F
	}
	result := tt.F
	isNL := func(i int) *Term { return tt.Eq(w.toTerm(bs[i], 8), tt.Const(8, '\n')) }
	var word [256]bool
	for c := 0; c < 256; c++ {
		word[c] = c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	isW := func(i int) *Term {
		if i < 0 || i >= n {
			return tt.F
		}
		return w.inSet(w.toTerm(bs[i], 8), &word)
	}
	var add func(set []*Term, pc uint32, pos int, c *Term, seen map[uint32]bool)
	add = func(set []*Term, pc uint32, pos int, c *Term, stack map[uint32]bool) {
		if c.isC() && c.val == 0 {
			return
		}
		if stack[pc] {
			return
		}
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			stack[pc] = true
			add(set, in.Out, pos, c, stack)
			add(set, in.Arg, pos, c, stack)
			delete(stack, pc)
		case syntax.InstCapture, syntax.InstNop:
			stack[pc] = true
			add(set, in.Out, pos, c, stack)
			delete(stack, pc)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(in.Arg)
			if op&syntax.EmptyBeginText != 0 && pos != 0 {
				return
			}
			if op&syntax.EmptyEndText != 0 && pos != n {
				return
			}
			if op&syntax.EmptyBeginLine != 0 && pos != 0 {
				c = tt.And(c, isNL(pos-1))
			}
			if op&syntax.EmptyEndLine != 0 && pos != n {
				c = tt.And(c, isNL(pos))
			}
			if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				b := tt.Not(tt.Eq(isW(pos-1), isW(pos)))
				if op&syntax.EmptyNoWordBoundary != 0 {
					b = tt.Not(b)
				}
				c = tt.And(c, b)
			}
			stack[pc] = true
			add(set, in.Out, pos, c, stack)
			delete(stack, pc)
		case syntax.InstFail:
		default:
			set[pc] = tt.Or(set[pc], c)
		}
	}
	for pos := 0; pos <= n; pos++ {
		add(cur, uint32(prog.Start), pos, tt.T, map[uint32]bool{})
		for i := range next {
			next[i] = tt.F
		}
		for pc := range cur {
			c := cur[pc]
			if c.isC() && c.val == 0 {
				continue
			}
			in := &prog.Inst[pc]
			if in.Op == syntax.InstMatch {
				result = tt.Or(result, c)
				continue
			}
			if pos == n {
				continue
			}
			var set [256]bool
			for r := rune(0); r < 128; r++ {
				ok := false
				switch in.Op {
				case syntax.InstRune1, syntax.InstRune:
					ok = in.MatchRune(r)
				case syntax.InstRuneAny:
					ok = true
				case syntax.InstRuneAnyNotNL:
					ok = r != '\n'
				}
				set[r] = ok
			}
			m := w.inSet(w.toTerm(bs[pos], 8), &set)
			add(next, in.Out, pos+1, tt.And(c, m), map[uint32]bool{})
		}
		cur, next = next, cur
	}
	return w.boolVal(result, false)
}
