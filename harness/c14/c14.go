// Package c14: operators leave the values they are given as they were.
package c14

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

func unchanged(op string, args, copies []*node) {
	for i := range args {
		nd.Assert(kit.SameAll(args[i], copies[i]), op+" changed an argument")
	}
}

func copies(args []*node) []*node {
	out := make([]*node, len(args))
	for i, a := range args {
		out[i] = kit.Copy(a)
	}
	return out
}

// Check_Operators: every operator (except maps.patch and those with external effects) applied to up to 2 (thorough 3)
// arguments out of 14 shapes (numbers, texts, flat and nested lists and maps, pairs, manifests, a function, a type): the arguments and everything below them keep
// their content, tags and types, whether it succeeds or fails.
//
//verif:weight=3
func Check_Operators() {
	op := kit.Pure[nd.Choice(len(kit.Pure))]
	args := make([]*node, nd.Choice(nd.Size(3, 4)))
	for i := range args {
		args[i] = kit.Shape(nd.Choice(kit.NShapes))
	}
	cs := copies(args)
	kit.Call(op, args...)
	unchanged(op, args, cs)
}

// Check_Merge: maps.merge and k8s.patch of values with types that ask for merging of lists (with and without key),
// nested twice, over arbitrary integers.
func Check_Merge() {
	inner := &core.Schema{Type: "array", PatchStrategy: "merge", PatchMergeKey: []string{"", "name"}[nd.Choice(2)],
		Items: &core.Schema{Type: "object", Properties: map[string]*core.Schema{"l": {Type: "array", PatchStrategy: "merge"}}}}
	typ := &core.Schema{Type: "object", Properties: map[string]*core.Schema{"l": inner, "m": {Type: "object", Properties: map[string]*core.Schema{"l": inner}}}}
	item := func() *node {
		return kit.Map("name", kit.Str(nd.StringOf("ab", 1, 1)), "l", kit.List(kit.Int(nd.Int())))
	}
	mk := func() *node {
		l := kit.List()
		switch nd.Choice(3) {
		case 0:
			l = kit.List(item())
		case 1:
			l = kit.List(item(), item())
		}
		m := kit.Map("kind", kit.Str("K"), "l", l, "m", kit.Map("l", kit.List(item())))
		m.Type = typ
		return m
	}
	args := []*node{mk(), mk()}
	op := "maps.merge"
	if nd.Bool() {
		op = "k8s.patch"
		args = []*node{kit.List(args[0]), kit.List(args[1])}
	}
	cs := copies(args)
	r, err := kit.Call(op, args...)
	nd.Assert(err == nil, op+" fails")
	unchanged(op, args, cs)
	// Merging again gives the same and leaves the first result alone.
	rc := kit.Copy(r)
	r2, err := kit.Call(op, args...)
	nd.Assert(err == nil && kit.Same(r2, rc), op+" gives another result the second time")
	nd.Assert(kit.Same(r, rc), op+" changed its earlier result")
	r3, err := kit.Call(op, r, args[1])
	nd.Assert(kit.Same(r, rc), op+" changed its argument")
	_ = r3
	unchanged(op, args, cs)
}

var listOps = []func(l, x *node) (*node, error){
	func(l, x *node) (*node, error) { return kit.Call("lists.cdr", l) },
	func(l, x *node) (*node, error) { return kit.Call("lists.cons", x, l) },
	func(l, x *node) (*node, error) { return kit.Call("lists.flatten", l, x) },
	func(l, x *node) (*node, error) { return kit.Call("lists.flatten", kit.List(l, x)) },
	func(l, x *node) (*node, error) { return kit.Call("lists.as-toplevel", l, x) },
	func(l, x *node) (*node, error) { return kit.Call("lists.map", l, kit.Lambda("x")) },
	func(l, x *node) (*node, error) {
		return kit.Call("lists.map", l, kit.MakeLambda(core.NewEnv(), kit.Op("progn", x), "y"))
	},
	func(l, x *node) (*node, error) { return kit.Call("lists.filter", l, kit.Lambda("x")) },
	func(l, x *node) (*node, error) {
		return kit.Call("lists.filter", l, kit.MakeLambda(core.NewEnv(), kit.Op("progn", kit.Bool(nd.Choice(2) == 1)), "y"))
	},
	func(l, x *node) (*node, error) {
		return kit.Call("lists.reduce", kit.List(l, kit.List(x), l), kit.Str("lists.flatten"))
	},
	func(l, x *node) (*node, error) { return kit.Call("??", l, x) },
	func(l, x *node) (*node, error) {
		typ := &core.Schema{Type: "array", PatchStrategy: "merge"}
		y := kit.List(x)
		y.Type = typ
		return kit.Call("maps.merge", l, y)
	},
	func(l, x *node) (*node, error) {
		return kit.Call("maps.values", kit.Map("l", l, "x", x))
	},
}

// Check_Chains: a list of up to 3 integers is put through one list operator, and its result twice through another
// with different operands: the list, the intermediate result and the first final result keep their content.
func Check_Chains() {
	es := []any{} // with room to spare, as in lists made by operators
	for i := nd.Choice(4); i > 0; i-- {
		es = append(es, kit.Int(nd.Int()))
	}
	l := &node{Kind: core.KindArray, Value: es}
	lc := kit.Copy(l)
	mid, err := listOps[nd.Choice(len(listOps))](l, kit.Int(nd.Int()))
	if err != nil {
		return
	}
	mc := kit.Copy(mid)
	f := listOps[nd.Choice(len(listOps))]
	a, err := f(mid, kit.Int(nd.Int()))
	if err != nil {
		return
	}
	ac := kit.Copy(a)
	f2 := f
	if nd.Bool() {
		f2 = listOps[nd.Choice(len(listOps))]
	}
	_, err = f2(mid, kit.Int(nd.Int()))
	_ = err
	f2(l, kit.Int(nd.Int()))
	nd.Assert(kit.Same(l, lc), "a list changed after it was used")
	nd.Assert(kit.Same(mid, mc), "an intermediate list changed after it was used")
	nd.Assert(kit.Same(a, ac), "an earlier result changed when its argument was used again")
}

// Check_Types: validating or casting a value (types.assert, a cast by tag, a call of a typed function) leaves the
// value as it was, for types with defaults, int-or-string, nested items and additional properties, of one map or a list of two.
func Check_Types() {
	one := 1.0
	typ := &core.Schema{Type: "object", AdditionalProperties: nd.Bool(), Properties: map[string]*core.Schema{
		"a": {Type: "integer", Minimum: &one, Default: 5.0},
		"s": {Type: "string", Format: "int-or-string"},
		"l": {Type: "array", Items: &core.Schema{Type: "object", Properties: map[string]*core.Schema{"d": {Type: "string", Default: "x"}, "p": {Type: "string", Format: "int-or-string"}}}},
		"o": {Type: "object", Properties: map[string]*core.Schema{"d": {Type: "boolean", Default: true}}},
	}}
	m := core.NewYispMap()
	if nd.Bool() {
		m.Set("a", kit.Int(nd.Int()))
	}
	if nd.Bool() {
		m.Set("s", kit.Int(nd.IntRange(0, 9)))
	}
	if nd.Bool() {
		m.Set("l", kit.List(kit.Map(), kit.Map("p", kit.Int(3))))
	}
	if nd.Bool() {
		m.Set("o", kit.Map())
	}
	if nd.Bool() {
		m.Set("more", kit.Int(1))
	}
	x := &node{Kind: core.KindMap, Value: m}
	if nd.Bool() {
		x, typ = kit.List(x, kit.Map("a", kit.Int(7))), &core.Schema{Type: "array", Items: typ}
	}
	c := kit.Copy(x)
	env := core.NewEnv()
	env.Set("t", kit.TypeNode(typ))
	env.Set("x", x)
	switch nd.Choice(4) {
	case 0:
		kit.Call("types.assert", kit.TypeNode(typ), x)
	case 1:
		s := kit.Sym("x")
		s.Tag = "!t"
		if nd.Choice(2) == 1 {
			s = kit.Op("progn", kit.Sym("x"))
			s.Tag = "!t"
		}
		kit.Eval(s, env)
	case 2:
		s := kit.Sym("x")
		s.Tag = "!t"
		l := kit.Map("first", s, "second", kit.Sym("x"))
		l.Tag = "!quote"
		r, err := kit.Eval(l, env)
		if err == nil {
			es, _ := kit.Entries(r)
			nd.Assert(len(es) == 2 && kit.Same(es[1].V, c), "casting a value changed it where it is used again")
		}
	case 3:
		p := kit.Str("p")
		p.Tag = "!t"
		f, err := kit.Eval(kit.List(kit.Str("lambda"), kit.List(p), kit.Sym("p")), env)
		nd.Assert(err == nil, "a typed function cannot be made")
		kit.Engine().Apply(f, []*node{x}, env, core.EvalModeEval)
	}
	nd.Assert(kit.SameAll(x, c), "a type check or cast changed its value")
}

// Check_Long: every operator with one argument, or with a list or map and one of 6 other arguments, on lists and maps of 17 (thorough 40) elements with an arbitrary number of -2 to 41 at
// the first, a middle or the last place; what it was given stays as it was, and so does the first result when the operator is used again.
func Check_Long() {
	n := []int{17, 40}[nd.Choice(nd.Size(1, 2))]
	at := []int{0, 8, n - 1}[nd.Choice(3)]
	var items []*node
	var kv []any
	for i := 0; i < n; i++ {
		x := kit.Int(i)
		if i == at {
			x = kit.Int(nd.IntRange(-2, 41))
		}
		items = append(items, x)
		kv = append(kv, "k"+string(rune('a'+i%26))+string(rune('a'+i/26)), kit.List(kit.Copy(x), kit.Map("v", kit.Copy(x))))
	}
	arg := func() *node {
		if nd.Bool() {
			return kit.List(items...)
		}
		return kit.Map(kv...)
	}
	op := kit.Pure[nd.Choice(len(kit.Pure))]
	args := []*node{arg()}
	switch nd.Choice(7) {
	case 1:
		args = append(args, kit.Copy(args[0]))
	case 2:
		args = append(args, kit.Int(3))
	case 3:
		args = append(args, kit.Lambda("x"))
	case 4:
		args = []*node{kit.Int(3), args[0]}
	case 5:
		args = []*node{kit.Lambda("x"), args[0]}
	case 6:
		args = append(args, kit.Str("kba"))
	}
	cs := copies(args)
	a, err := kit.Call(op, args...)
	unchanged(op, args, cs)
	if err != nil {
		return
	}
	ac := kit.Copy(a)
	_, err = kit.Call(op, args...)
	_ = err
	unchanged(op, args, cs)
	nd.Assert(kit.Same(a, ac), op+" changed its earlier result")
}
