// Package c11: list operators against the list model.
package c11

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

// elem is an arbitrary element: mostly an arbitrary integer, or a string, null, or nested list/map.
func elem() *node {
	switch nd.Choice(5) {
	case 0:
		return kit.Str(nd.String(1))
	case 1:
		return kit.Null()
	case 2:
		l := kit.List()
		for i := nd.Choice(3); i > 0; i-- {
			l = kit.List(append([]*node{kit.Int(nd.Int())}, mustItems(l)...)...)
		}
		return l
	case 3:
		return kit.Map("k", kit.Int(nd.Int()))
	}
	return kit.Int(nd.Int())
}

func mustItems(n *node) []*node {
	r, ok := kit.Items(n)
	nd.Assert(ok, "not a list of values")
	return r
}

func elems(max int) []*node {
	out := make([]*node, nd.Choice(max+1))
	for i := range out {
		out[i] = elem()
	}
	return out
}

// ints makes up to max arbitrary integers.
func ints(max int) []*node {
	out := make([]*node, nd.Choice(max+1))
	for i := range out {
		out[i] = kit.Int(nd.Int())
	}
	return out
}

// want asserts that r is the list w, whose elements are the given nodes.
func want(what string, r *node, err error, w []*node) {
	nd.Assert(err == nil, what+" fails")
	items, ok := kit.Items(r)
	nd.Assert(ok, what+" does not give a list")
	nd.Assert(len(items) == len(w), what+" gives a list of the wrong length")
	for i := range w {
		nd.Assert(kit.Same(items[i], w[i]), what+" gives a wrong element")
	}
}

func fails(what string, r *node, err error) {
	nd.Assert(err != nil && r == nil, what+" is not an error")
}

func value(what string, r *node, err error, w *node) {
	nd.Assert(err == nil, what+" fails")
	nd.Assert(kit.Same(r, w), what+" gives a wrong value")
}

// Check_Access: car, cdr, cons, length, at over lists of up to 3 (thorough 4) arbitrary elements
// (integers, strings up to 1 byte, null, nested lists of up to 2 integers, maps) and an arbitrary index.
func Check_Access() {
	es := elems(nd.Size(3, 4))
	orig := append([]*node{}, es...)
	l := kit.List(es...)
	switch nd.Choice(5) {
	case 0:
		r, err := kit.Call("lists.car", l)
		if len(es) == 0 {
			fails("car of an empty list", r, err)
		} else {
			value("car", r, err, es[0])
		}
	case 1:
		r, err := kit.Call("lists.cdr", l)
		if len(es) == 0 {
			fails("cdr of an empty list", r, err)
		} else {
			want("cdr", r, err, es[1:])
		}
	case 2:
		x := elem()
		r, err := kit.Call("lists.cons", x, l)
		want("cons", r, err, append([]*node{x}, es...))
		h, err := kit.Call("lists.car", r)
		value("car of cons", h, err, x)
		t, err := kit.Call("lists.cdr", r)
		want("cdr of cons", t, err, es)
	case 3:
		r, err := kit.Call("lists.length", l)
		value("length", r, err, kit.Int(len(es)))
	case 4:
		i := nd.Int()
		r, err := kit.Call("lists.at", l, kit.Int(i))
		if i < 0 || i >= len(es) {
			fails("at out of range", r, err)
		} else {
			value("at", r, err, es[nd.Concrete(i)])
		}
	}
	want("the list afterwards", l, nil, orig)
}

// Check_Iota: iota(n) and iota(n,start) for every n up to 4 (thorough 8) or negative, every start.
func Check_Iota() {
	n := nd.IntRange(-1<<62, nd.Size(4, 8))
	if nd.Bool() {
		r, err := kit.Call("lists.iota", kit.Int(n))
		if n < 0 {
			fails("iota of a negative count", r, err)
			return
		}
		n = nd.Concrete(n)
		w := make([]*node, n)
		for i := range w {
			w[i] = kit.Int(i)
		}
		want("iota", r, err, w)
		return
	}
	s := nd.Int()
	r, err := kit.Call("lists.iota", kit.Int(n), kit.Int(s))
	if n < 0 || s < 0 {
		fails("iota of a negative argument", r, err)
		return
	}
	n = nd.Concrete(n)
	w := make([]*node, n)
	for i := range w {
		w[i] = kit.Int(s + i)
	}
	want("iota with a start", r, err, w)
}

// fn evaluates [lambda, params, body] in env.
func fn(env *core.Env, body *node, params ...string) *node {
	return kit.MakeLambda(env, body, params...)
}

// Check_MapFilter: map and filter over lists of up to 3 (thorough 4) arbitrary integers with functions
// x -> x*a+b, x -> x<a, x -> x==a, x -> [cons]-pair, the identity and a builtin operator name.
func Check_MapFilter() {
	es := ints(nd.Size(3, 4))
	l := kit.List(es...)
	a, b := nd.Int(), nd.Int()
	env := core.NewEnv()
	env.Set("a", kit.Int(a))
	env.Set("b", kit.Int(b))
	ev := func(n *node) *node { n.Tag = "!yisp"; return n }
	switch nd.Choice(7) {
	case 0:
		f := fn(env, ev(kit.Op("+", ev(kit.Op("*", kit.Sym("x"), kit.Sym("a"))), kit.Sym("b"))), "x")
		r, err := kit.Call("lists.map", l, f)
		w := make([]*node, len(es))
		for i := range es {
			v, _ := kit.IsInt(es[i])
			w[i] = kit.Int(v*a + b)
		}
		want("map", r, err, w)
	case 1:
		f := fn(env, ev(kit.Op("<", kit.Sym("x"), kit.Sym("a"))), "x")
		r, err := kit.Call("lists.filter", l, f)
		w := []*node{}
		for i := range es {
			if v, _ := kit.IsInt(es[i]); v < a {
				w = append(w, es[i])
			}
		}
		want("filter", r, err, w)
	case 2:
		f := fn(env, ev(kit.Op("==", kit.Sym("x"), kit.Sym("a"))), "x")
		r, err := kit.Call("lists.filter", l, f)
		w := []*node{}
		for i := range es {
			if v, _ := kit.IsInt(es[i]); v == a {
				w = append(w, es[i])
			}
		}
		want("filter", r, err, w)
	case 3:
		es = elems(3)
		r, err := kit.Call("lists.map", kit.List(es...), kit.Lambda("x"))
		want("map of the identity", r, err, es)
	case 4:
		q := kit.List(kit.Sym("x"), kit.Sym("a"))
		q.Tag = "!quote"
		r, err := kit.Call("lists.map", l, fn(env, q, "x"))
		w := make([]*node, len(es))
		for i := range es {
			w[i] = kit.List(es[i], kit.Int(a))
		}
		want("map to pairs", r, err, w)
	case 5:
		r, err := kit.Call("lists.map", l, kit.Str("-"))
		want("map of a builtin", r, err, es)
	case 6:
		// A function that fails for one element makes the whole operation fail.
		f := fn(env, ev(kit.Op("/", kit.Sym("a"), kit.Sym("x"))), "x")
		op := []string{"lists.map", "lists.filter"}[nd.Choice(2)]
		r, err := kit.Call(op, l, f)
		bad := false
		for i := range es {
			if v, _ := kit.IsInt(es[i]); v == 0 {
				bad = true
			}
		}
		if bad {
			fails(op+" with a failing function", r, err)
		} else {
			nd.Assert(err == nil, op+" fails")
		}
	}
}

// Check_Reduce: reduce over up to 4 (thorough 5) arbitrary integers is the left fold, for -, + and a lambda
// building nested pairs.
func Check_Reduce() {
	es := ints(nd.Size(4, 5))
	l := kit.List(es...)
	k := nd.Choice(4)
	var f *node
	switch k {
	case 0:
		f = kit.Str("-")
	case 1:
		f = kit.Str("+")
	case 2:
		q := kit.List(kit.Sym("x"), kit.Sym("y"))
		q.Tag = "!quote"
		f = fn(core.NewEnv(), q, "x", "y")
	case 3:
		q := kit.Op("-", kit.Sym("y"), kit.Sym("x"))
		q.Tag = "!yisp"
		f = fn(core.NewEnv(), q, "x", "y")
	}
	r, err := kit.Call("lists.reduce", l, f)
	if len(es) == 0 {
		fails("reduce of an empty list", r, err)
		return
	}
	acc := es[0]
	for _, e := range es[1:] {
		y, _ := kit.IsInt(e)
		x, _ := kit.IsInt(acc)
		switch k {
		case 0:
			acc = kit.Int(x - y)
		case 1:
			acc = kit.Int(x + y)
		case 2:
			acc = kit.List(acc, e)
		case 3:
			acc = kit.Int(y - x)
		}
	}
	value("reduce", r, err, acc)
}

// Check_Flatten: flatten (exactly one level below each list argument) and as-toplevel of up to 2 arguments
// that are scalars or lists of up to 3 elements, themselves scalars, lists and lists of lists.
func Check_Flatten() {
	n := nd.Choice(3)
	args := make([]*node, n)
	flat, top := []*node{}, []*node{}
	for i := range args {
		if nd.Choice(3) == 0 {
			args[i] = kit.Int(nd.Int())
			flat, top = append(flat, args[i]), append(top, args[i])
			continue
		}
		es := make([]*node, nd.Choice(3))
		for j := range es {
			switch nd.Choice(4) {
			case 0:
				es[j] = kit.Int(nd.Int())
				flat = append(flat, es[j])
			case 1:
				es[j] = kit.List()
			case 2:
				in := kit.List(kit.Int(nd.Int()))
				m := kit.Map("a", kit.Null())
				es[j] = kit.List(in, m)
				flat = append(flat, in, m)
			case 3:
				es[j] = kit.Null()
				flat = append(flat, es[j])
			}
			top = append(top, es[j])
		}
		args[i] = kit.List(es...)
	}
	if nd.Bool() {
		r, err := kit.Call("lists.flatten", args...)
		want("flatten", r, err, flat)
	} else {
		r, err := kit.Call("lists.as-toplevel", args...)
		want("as-toplevel", r, err, top)
		nd.Assert(r.IsDocumentRoot, "as-toplevel does not mark its result for splicing")
	}
}

// Check_Contains: contains over up to 2 (thorough 3) arbitrary elements of every data kind and an arbitrary
// value of every data kind agrees with == on the elements.
func Check_Contains() {
	n := nd.Choice(nd.Size(2, 3) + 1)
	es := make([]*node, n)
	for i := range es {
		es[i] = pick()
	}
	x := pick()
	r, err := kit.Call("lists.contains", kit.List(es...), x)
	nd.Assert(err == nil, "contains fails")
	got, ok := kit.IsBool(r)
	nd.Assert(ok, "contains does not give a boolean")
	w := false
	for _, e := range es {
		eq, err := kit.Call("==", e, x)
		nd.Assert(err == nil, "== fails")
		b, _ := kit.IsBool(eq)
		if b {
			w = true
		}
	}
	nd.Assert(got == w, "contains disagrees with the elements being equal to the value")
}

func pick() *node {
	switch nd.Choice(8) {
	case 0:
		return kit.Int(nd.Int())
	case 1:
		return kit.Str(nd.String(1))
	case 2:
		return kit.Bool(nd.Bool())
	case 3:
		return kit.Null()
	case 4:
		return kit.List()
	case 5:
		return kit.List(kit.Int(nd.Int()))
	case 6:
		return kit.Map("a", kit.Int(nd.Int()))
	}
	return kit.Float([]float64{0.5, 1, -3}[nd.Choice(3)])
}

// Check_Errors: every list operator given a non-list (every kind) where a list is required, a wrong argument
// count, or a non-integer index or count reports an error.
func Check_Errors() {
	k := nd.Choice(kit.NKinds)
	nd.Assume(k != kit.KList)
	x := kit.OfKind(k, 1)
	f := kit.Lambda("x")
	l := kit.List(kit.Int(1))
	cases := []func() (*node, error){
		func() (*node, error) { return kit.Call("lists.car", x) },
		func() (*node, error) { return kit.Call("lists.cdr", x) },
		func() (*node, error) { return kit.Call("lists.cons", l, x) },
		func() (*node, error) { return kit.Call("lists.length", x) },
		func() (*node, error) { return kit.Call("lists.at", x, kit.Int(0)) },
		func() (*node, error) { return kit.Call("lists.map", x, f) },
		func() (*node, error) { return kit.Call("lists.filter", x, f) },
		func() (*node, error) { return kit.Call("lists.reduce", x, f) },
		func() (*node, error) { return kit.Call("lists.contains", x, kit.Int(0)) },
		func() (*node, error) { return kit.Call("lists.car") },
		func() (*node, error) { return kit.Call("lists.car", l, l) },
		func() (*node, error) { return kit.Call("lists.cdr") },
		func() (*node, error) { return kit.Call("lists.cdr", l, l) },
		func() (*node, error) { return kit.Call("lists.cons", l) },
		func() (*node, error) { return kit.Call("lists.cons", l, l, l) },
		func() (*node, error) { return kit.Call("lists.length") },
		func() (*node, error) { return kit.Call("lists.length", l, l) },
		func() (*node, error) { return kit.Call("lists.at", l) },
		func() (*node, error) { return kit.Call("lists.contains", l) },
		func() (*node, error) { return kit.Call("lists.map", l) },
		func() (*node, error) { return kit.Call("lists.filter", l) },
		func() (*node, error) { return kit.Call("lists.reduce", l) },
		func() (*node, error) { return kit.Call("lists.iota") },
	}
	if k != kit.KInt {
		cases = append(cases,
			func() (*node, error) { return kit.Call("lists.at", l, x) },
			func() (*node, error) { return kit.Call("lists.iota", x) },
			func() (*node, error) { return kit.Call("lists.iota", kit.Int(1), x) },
		)
	}
	r, err := cases[nd.Choice(len(cases))]()
	fails("a misused list operator", r, err)
}

// Check_Callbacks: map, filter and reduce over lists of up to 3 elements with callbacks that return an
// arbitrary value (any kind) chosen per element, or the arguments they were given: every element is passed
// once, in order, and every result is used as it is.
//
//verif:weight=2
func Check_Callbacks() {
	n := nd.Choice(4)
	es, res, sel := make([]*node, n), make([]*node, n), make([]*node, n)
	back := make([]bool, n)
	v := nd.Int()
	for i := range es {
		switch nd.Choice(5) {
		case 0:
			res[i] = kit.Null()
		case 1:
			res[i] = kit.Int(nd.Int())
		case 2:
			res[i] = kit.List()
		case 3:
			res[i] = kit.Map("a", kit.Str(nd.String(1)))
		case 4:
			res[i] = kit.Bool(nd.Bool())
		}
		es[i] = kit.Map("i", kit.Int(i), "v", kit.Int(v))
		back[i] = nd.Bool()
		sel[i] = kit.Bool(back[i])
	}
	env := core.NewEnv()
	env.Set("res", kit.List(res...))
	env.Set("sel", kit.List(sel...))
	l := kit.List(es...)
	at := func(name, of string) *node {
		q := kit.Op("lists.at", kit.Sym(name), kit.Sym(of+".i"))
		q.Tag = "!yisp"
		return q
	}
	switch nd.Choice(3) {
	case 0:
		f := fn(env, at("res", "x"), "x")
		r, err := kit.Call("lists.map", l, f)
		want("map with an arbitrary function", r, err, res)
	case 1:
		f := fn(env, at("res", "x"), "x")
		r, err := kit.Call("lists.filter", l, f)
		var w []*node
		for i := range es {
			t, e := core.IsTruthy(res[i])
			nd.Assert(e == nil, "a value has no truth value")
			if t {
				w = append(w, es[i])
			}
		}
		want("filter with an arbitrary function", r, err, w)
	case 2:
		q := kit.List(kit.Sym("x"), kit.Sym("y"))
		q.Tag = "!quote"
		body := kit.Op("if", at("sel", "y"), q, at("res", "y"))
		body.Tag = "!yisp"
		r, err := kit.Call("lists.reduce", l, fn(env, body, "x", "y"))
		if n == 0 {
			fails("reduce of an empty list", r, err)
			return
		}
		acc := es[0]
		for i := 1; i < n; i++ {
			if back[i] {
				acc = kit.List(acc, es[i])
			} else {
				acc = res[i]
			}
		}
		value("reduce with an arbitrary function", r, err, acc)
	}
}

// Check_Elements: map, filter and reduce pass elements of every kind through unchanged.
func Check_Elements() {
	n := nd.Choice(nd.Size(3, 4))
	es := make([]*node, n)
	for i := range es {
		es[i] = kit.Any(1 - min(i, 1))
	}
	l := kit.List(es...)
	q := kit.List(kit.Sym("x"), kit.Sym("y"))
	q.Tag = "!quote"
	switch nd.Choice(3) {
	case 0:
		r, err := kit.Call("lists.map", l, kit.Lambda("x"))
		want("map of the identity", r, err, es)
	case 1:
		env := core.NewEnv()
		k := kit.Bool(nd.Bool())
		env.Set("k", k)
		r, err := kit.Call("lists.filter", l, fn(env, kit.Sym("k"), "x"))
		w := es
		if k.Value != true {
			w = nil
		}
		want("filter with a constant", r, err, w)
	case 2:
		r, err := kit.Call("lists.reduce", l, fn(core.NewEnv(), q, "x", "y"))
		if n == 0 {
			fails("reduce of an empty list", r, err)
			return
		}
		acc := es[0]
		for _, e := range es[1:] {
			acc = kit.List(acc, e)
		}
		value("reduce to pairs", r, err, acc)
	}
}

// Check_Toplevel: a list of documents (of lists.as-toplevel or include) of up to 2 arbitrary integers is an element like any other list, alone or between
// others, for every operator but flatten and as-toplevel.
func Check_Toplevel() {
	top := kit.List([]*node{kit.Int(nd.Int()), kit.Int(nd.Int())}[:nd.Choice(3)]...)
	top.IsDocumentRoot = true
	es := []*node{kit.Int(nd.Int()), top, kit.Str("z")}
	lo := nd.Choice(2)
	hi := 2 + nd.Choice(2)
	es = es[lo:hi]
	at := 1 - lo
	l := kit.List(es...)
	switch nd.Choice(9) {
	case 0:
		r, err := kit.Call("lists.car", l)
		value("car", r, err, es[0])
	case 1:
		r, err := kit.Call("lists.cdr", l)
		want("cdr", r, err, es[1:])
	case 2:
		r, err := kit.Call("lists.cons", top, l)
		want("cons", r, err, append([]*node{top}, es...))
	case 3:
		r, err := kit.Call("lists.length", l)
		value("length", r, err, kit.Int(len(es)))
	case 4:
		r, err := kit.Call("lists.at", l, kit.Int(at))
		value("at", r, err, top)
	case 5:
		r, err := kit.Call("lists.contains", l, kit.Copy(top))
		value("contains", r, err, kit.Bool(true))
	case 6:
		r, err := kit.Call("lists.map", l, kit.Lambda("x"))
		want("map of the identity", r, err, es)
	case 7:
		r, err := kit.Call("lists.filter", l, fn(core.NewEnv(), kit.Bool(true), "x"))
		want("filter of all", r, err, es)
	case 8:
		r, err := kit.Call("lists.reduce", l, fn(core.NewEnv(), kit.Sym("y"), "x", "y"))
		value("reduce to the last", r, err, es[len(es)-1])
	}
}

// Check_Long: car, cdr, at, length, cons, map, filter, reduce, flatten, contains and iota over lists of 17, 40 or 70 elements, one of
// which, anywhere in the list (at the start, the middle or the end), is arbitrary.
func Check_Long() {
	n := []int{17, 40, 70}[nd.Choice(3)]
	v := nd.IntRange(-1<<40, 1<<40)
	at := []int{0, n / 2, n - 1}[nd.Choice(3)]
	es := make([]*node, n)
	sum := 0
	for i := range es {
		x := 3 * i
		if i == at {
			x = v
		}
		sum += x
		es[i] = kit.Int(x)
	}
	l := kit.List(append([]*node{}, es...)...)
	switch nd.Choice(9) {
	case 0:
		r, err := kit.Call("lists.car", l)
		value("car", r, err, es[0])
		r, err = kit.Call("lists.cdr", l)
		want("cdr", r, err, es[1:])
	case 1:
		i := []int{0, at, n - 2, n - 1}[nd.Choice(4)]
		r, err := kit.Call("lists.at", l, kit.Int(i))
		value("at", r, err, es[i])
		r, err = kit.Call("lists.at", l, kit.Int(n))
		fails("at behind the end", r, err)
		r, err = kit.Call("lists.length", l)
		value("length", r, err, kit.Int(n))
	case 2:
		r, err := kit.Call("lists.cons", kit.Null(), l)
		want("cons", r, err, append([]*node{kit.Null()}, es...))
	case 3:
		f := kit.Op("-", kit.Int(7), kit.Sym("x"))
		f.Tag = "!yisp"
		r, err := kit.Call("lists.map", l, fn(core.NewEnv(), f, "x"))
		w := make([]*node, n)
		for i := range es {
			x, _ := kit.IsInt(es[i])
			w[i] = kit.Int(7 - x)
		}
		want("map", r, err, w)
	case 4:
		f := kit.Op(">=", kit.Sym("x"), kit.Int(60))
		f.Tag = "!yisp"
		r, err := kit.Call("lists.filter", l, fn(core.NewEnv(), f, "x"))
		w := []*node{}
		for i := range es {
			if x, _ := kit.IsInt(es[i]); x >= 60 {
				w = append(w, es[i])
			}
		}
		want("filter", r, err, w)
	case 5:
		r, err := kit.Call("lists.reduce", l, kit.Str("+"))
		value("reduce", r, err, kit.Int(sum))
	case 6:
		in := kit.List(es[0])
		r, err := kit.Call("lists.flatten", l, kit.List(in, kit.List()), l)
		want("flatten", r, err, append(append(append([]*node{}, es...), es[0]), es...))
		r, err = kit.Call("lists.as-toplevel", l, kit.Int(1))
		want("as-toplevel", r, err, append(append([]*node{}, es...), kit.Int(1)))
	case 7:
		x := nd.IntRange(-1<<40, 1<<40)
		r, err := kit.Call("lists.contains", l, kit.Int(x))
		w := x == v
		for i := range es {
			if i != at && x == 3*i {
				w = true
			}
		}
		value("contains", r, err, kit.Bool(w))
	case 8:
		r, err := kit.Call("lists.iota", kit.Int(n), kit.Int(at))
		w := make([]*node, n)
		for i := range w {
			w[i] = kit.Int(at + i)
		}
		want("iota", r, err, w)
	}
	want("the list afterwards", l, nil, es)
}

// Check_Empty: an empty list or map written in a program, evaluated or quoted, in a document, in data, as an argument or as a body, is the empty list or map; with an
// arbitrary integer beside it.
func Check_Empty() {
	x := nd.Int()
	e, w := "[]", kit.List()
	if nd.Bool() {
		e, w = "{}", kit.Map()
	}
	if nd.Bool() {
		e = []string{"!yisp ", "!quote ", "!yisp &n "}[nd.Choice(3)] + e
	}
	var text string
	var want *node
	switch nd.Choice(7) {
	case 0:
		text, want = "- "+e+"\n- *x \n", kit.List(w, kit.Int(x))
	case 1:
		text, want = "a: "+e+"\nb: *x \n", kit.Map("a", w, "b", kit.Int(x))
	case 2:
		text, want = "- !yisp [lists.cons, *x , [lists.cons, "+e+", []]]\n", kit.List(kit.List(kit.Int(x), w))
	case 3:
		text, want = "- !yisp [[lambda, [p], "+e+"], *x ]\n", kit.List(w)
	case 4:
		text, want = "- !yisp [if, true, "+e+", *x ]\n", kit.List(w)
	case 5:
		text, want = "- !yisp [progn, *x , "+e+"]\n", kit.List(w)
	case 6:
		text, want = "- !yisp [default, null, "+e+"]\n- *x \n", kit.List(w, kit.Int(x))
	}
	r, err := kit.Run1(text, "x", kit.Int(x))
	nd.Assert(err == nil && kit.Same(r, want), "an empty list or map in a program is something else")
}

// Check_Written: operators applied to lists written in a program: the empty one, bare, quoted or computed, as any operand, and the list of an arbitrary integer.
func Check_Written() {
	x := nd.Int()
	empty := []string{"[]", "[progn, !quote []]", "[lists.cdr, !quote [1]]", "[lists.filter, !quote [1], [lambda, [e], false]]", "[lists.iota, 0]", "[progn, []]", "[maps.get, {k: []}, k]", "[if, true, [], 1]", "[[lambda, [p], *p ], []]", "[[lambda, [], []]]"}[nd.Choice(10)]
	one := "!quote [*x ]"
	uses := []struct {
		expr string
		want *node
	}{
		{"[lists.length, " + empty + "]", kit.Int(0)},
		{"[lists.cons, *x , " + empty + "]", kit.List(kit.Int(x))},
		{"[lists.flatten, " + empty + ", " + one + "]", kit.List(kit.Int(x))},
		{"[lists.flatten, !quote [*x , !yisp " + empty + "]]", kit.List(kit.Int(x))},
		{"[lists.map, " + empty + ", [lambda, [e], *e ]]", kit.List()},
		{"[lists.filter, " + empty + ", [lambda, [e], *e ]]", kit.List()},
		{"[lists.contains, " + empty + ", *x ]", kit.Bool(false)},
		{"[lists.contains, !quote [!yisp " + empty + "], " + empty + "]", kit.Bool(true)},
		{"[\"==\", " + empty + ", [lists.cdr, " + one + "]]", kit.Bool(true)},
		{"[if, " + empty + ", 1, *x ]", kit.Int(x)},
		{"[lists.cons, " + empty + ", " + empty + "]", kit.List(kit.List())},
		{"[lists.as-toplevel, " + empty + ", *x ]", kit.List(kit.Int(x))},
		{"[lists.car, " + empty + "]", nil},
		{"[lists.cdr, " + empty + "]", nil},
		{"[lists.reduce, " + empty + ", +]", nil},
		{"[lists.at, " + empty + ", 0]", nil},
		{"[\"??\", " + empty + ", *x ]", kit.List()},
		{"{k: " + empty + "}", kit.Map("k", kit.List())},
		{empty, kit.List()},
	}
	u := uses[nd.Choice(len(uses))]
	r, err := kit.Run("- !yisp "+u.expr+"\n", "x", kit.Int(x))
	nd.Assert((err == nil) == (u.want != nil), "an operator fails for a written list exactly if it has no result for it")
	if err == nil {
		nd.Assert(len(r) == 1 && kit.Same(r[0], kit.List(u.want)), "an operator has another result for a written list")
	}
}
