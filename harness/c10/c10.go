// Package c10: typed functions check their arguments, and functions are matched with function types structurally.
package c10

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
	"github.com/totegamma/yisp/internal/zzverif/typemodel"
)

type (
	node = kit.Node
	spec = typemodel.Spec
)

func typed(name, tag string) *node {
	n := kit.Str(name)
	n.Tag = tag
	return n
}

// Check_Calls: a function of up to 3 parameters, each without a type or with one of 4 (thorough 8), called with values of 4
// sorts (arbitrary integers and texts among them): the call succeeds exactly if every argument is of the type of
// its own parameter, and then the body sees the arguments unchanged.
//
//verif:weight=8
func Check_Calls() {
	env := core.NewEnv()
	n := nd.Choice(4)
	var params, args []*node
	want := true
	for i := 0; i < n; i++ {
		name := []string{"p", "q", "r"}[i]
		t := nd.Choice(nd.Size(5, 9))
		if t == 0 {
			params = append(params, kit.Str(name))
		} else {
			env.Set("T"+name, kit.TypeNode(typemodel.Leaf(t-1).Direct()))
			params = append(params, typed(name, "!T"+name))
		}
		var v *node
		switch nd.Choice(4) {
		case 0:
			v = kit.Int(nd.Int())
		case 1:
			v = kit.Str(nd.StringOf("ab", 0, 1))
		case 2:
			v = kit.Null()
		default:
			v = kit.List()
		}
		args = append(args, v)
		if t > 0 && !typemodel.Leaf(t-1).Accepts(v) {
			want = false
		}
	}
	k := 0
	body := kit.Int(1)
	if n > 0 {
		k = nd.Choice(n)
		body = kit.Sym([]string{"p", "q", "r"}[k])
	}
	f, err := kit.Eval(kit.List(kit.Str("lambda"), kit.List(params...), body), env)
	nd.Assert(err == nil, "a typed function is refused")
	r, err := kit.Engine().Apply(f, args, env, core.EvalModeEval)
	nd.Assert((err == nil) == want, "a call succeeds exactly if every argument is of the type of its parameter")
	if err == nil && n > 0 {
		nd.Assert(kit.Same(r, args[k]), "the body sees another argument")
	}
}

// Check_Places: a violating argument is found wherever the function is called: directly, through a variable, by
// lists.map, filter and reduce, in a pipeline, by another function, in a later element; the argument is an arbitrary integer.
func Check_Places() {
	x := nd.Int()
	progs := []string{
		"!yisp [*f , *x ]", "!yisp [[lambda, [g], [*g , *x ]], *f ]", "!yisp [lists.map, !quote [1, *x ], *f ]", "!yisp [lists.filter, !quote [1, *x ], *f ]",
		"!yisp [pipeline, *x , *f ]", "!yisp [lists.reduce, !quote [1, *x ], [lambda, [a, b], [*f , *b ]]]", "!yisp [lists.reduce, !quote [0, 1, *x ], [lambda, [a, !small b], *b ]]",
		"!yisp [[lambda, [y], [*f , *y ]], *x ]", "k: {l: !yisp [*f , *x ]}", "!yisp [lists.map, [lists.map, !quote [2, *x ], [lambda, [e], *e ]], *f ]", "!yisp [[lambda, [!small a, b, !small c], *b ], 1, *x , *x ]",
	}
	text := "!yisp &small [schema, {type: integer, maximum: 9}]\n---\n!yisp &f [lambda, [!small n], *n ]\n---\n" + progs[nd.Choice(len(progs))] + "\n"
	_, err := kit.Run(text, "x", kit.Int(x))
	nd.Assert((err == nil) == (x <= 9), "a function ran with an argument that is not of the type of its parameter, or refused one that is")
}

// Check_Undefined: a type name that is not defined, or that names something else, is an error for a parameter and for
// the return type, at every position; a defined one is not.
func Check_Undefined() {
	env := core.NewEnv()
	env.Set("T", kit.TypeNode(typemodel.Leaf(0).Direct()))
	env.Set("v", kit.Any(0))
	tags := []string{"", "!T", "!int", "!nope", "!v", "!!str"}
	ok := true
	tag := func() string {
		i := nd.Choice(len(tags))
		if i == 3 || i == 4 && func() bool { v, _ := env.Get("v"); return v.Kind != core.KindType }() {
			ok = false
		}
		return tags[i]
	}
	var params []*node
	for i := nd.Choice(4); i > 0; i-- {
		params = append(params, typed("p", tag()))
	}
	ps := kit.List(params...)
	ps.Tag = tag()
	f, err := kit.Eval(kit.List(kit.Str("lambda"), ps, kit.Int(1)), env)
	nd.Assert((err == nil) == ok, "a function is an error exactly if one of its type names is not defined or no type")
	nd.Assert((f == nil) == (err != nil), "neither a value nor an error")
}

var saved = map[string]*spec{
	"R1": {Kind: "integer"},
	"R2": {Kind: "object", Props: []typemodel.Prop{{Name: "a", Type: &spec{Kind: "integer"}}}},
	"R3": {Kind: "integer", Min: typemodel.P(3)},
}

func ref(name string) *spec {
	s := &spec{Kind: "ref", Ref: name, To: saved[name], K8s: nd.Choice(2) == 1}
	s.To.Save(name)
	return s
}

// gen is a type nested up to depth.
func gen(depth int) *spec {
	n := 12
	if depth == 0 {
		n = 5
	}
	switch nd.Choice(n) {
	case 0:
		return &spec{Kind: "integer"}
	case 1:
		return &spec{Kind: "string"}
	case 2:
		return &spec{Kind: "any"}
	case 3:
		return &spec{Kind: "array"}
	case 4:
		return &spec{Kind: "object"}
	case 5:
		return &spec{Kind: "array", Items: gen(depth - 1)}
	case 6:
		return &spec{Kind: "object", Props: []typemodel.Prop{{Name: "a", Type: gen(depth - 1)}}}
	case 7:
		return &spec{Kind: "object", Props: []typemodel.Prop{{Name: "b", Type: gen(depth - 1)}, {Name: "a", Type: gen(0)}}}
	case 8:
		return &spec{Kind: "function", Args: []*spec{gen(depth - 1)}}
	case 9:
		return &spec{Kind: "function", Args: []*spec{gen(0)}, Ret: gen(depth - 1)}
	case 10:
		return ref([]string{"R1", "R2", "R3"}[nd.Choice(3)])
	}
	return &spec{Kind: "oneOf", OneOf: []*spec{gen(depth - 1), gen(0)}}
}

// Check_Equality: structural equality of two types nested 1 (thorough 2) deep - basic types, lists, objects with up to 2
// properties, functions, alternatives, references to cached types - is what the descriptions say, symmetric, and every type equals itself and a copy of itself.
//
//verif:weight=3
func Check_Equality() {
	a := gen(nd.Size(1, 2))
	b := gen(nd.Size(1, 2))
	x, y := a.Direct(), b.Direct()
	want := typemodel.Equal(a, b)
	nd.Assert(x.Equals(y) == want, "types are equal exactly if they are structurally the same")
	nd.Assert(y.Equals(x) == want, "equality of types is not symmetric")
	nd.Assert(x.Equals(x) && x.Equals(a.Direct()), "a type differs from itself")
}

// Check_Deep: the same for types nested 3 deep (thorough 4) that differ in at most one place.
func Check_Deep() {
	build := func(path []int, leaf *spec) *spec {
		for i := len(path) - 1; i >= 0; i-- {
			switch path[i] {
			case 0:
				leaf = &spec{Kind: "array", Items: leaf}
			case 1:
				leaf = &spec{Kind: "object", Props: []typemodel.Prop{{Name: "b", Type: &spec{Kind: "string"}}, {Name: "a", Type: leaf}}}
			case 2:
				leaf = &spec{Kind: "function", Args: []*spec{{Kind: "any"}, leaf}, Ret: &spec{Kind: "null"}}
			case 3:
				leaf = &spec{Kind: "function", Ret: leaf}
			default:
				leaf = &spec{Kind: "oneOf", OneOf: []*spec{{Kind: "string"}, leaf}}
			}
		}
		return leaf
	}
	path := make([]int, nd.Size(3, 4))
	for i := range path {
		path[i] = nd.Choice(5)
	}
	leaves := []*spec{{Kind: "integer"}, {Kind: "float"}, {Kind: "array"}, {Kind: "object"}, {Kind: "function"}, nil}
	i, j := nd.Choice(5), nd.Choice(5)
	a, b := build(path, leaves[i]), build(path, leaves[j])
	x, y := a.Direct(), b.Direct()
	nd.Assert(x.Equals(y) == (i == j) && y.Equals(x) == (i == j), "types are equal exactly if they are structurally the same")
}

// Check_Recursive: comparing types that refer to themselves or to each other ends, and tells a list of numbers from a list of texts.
func Check_Recursive() {
	nd.Setenv("HOME", nd.Dir())
	file := func(name, item, next string) {
		nd.WriteFile(".cache/yisp/schemas/"+name+".json", `{"type":"object","properties":{"v":{"type":"`+item+`"},"next":{"$ref":"`+next+`"}}}`)
	}
	file("A", "integer", "A")
	file("B", "integer", "B")
	file("C", "string", "C")
	file("D", "integer", "E")
	file("E", "integer", "D")
	file("F", "integer", "C")
	ids := []string{"A", "B", "C", "D", "E", "F"}
	class := []int{0, 0, 1, 0, 0, 2}
	i, j := nd.Choice(6), nd.Choice(6)
	x, y := &core.Schema{Ref: ids[i]}, &core.Schema{Ref: "#/definitions/" + ids[j]}
	nd.Assert(x.Equals(y) == (class[i] == class[j]), "types are equal exactly if they are structurally the same")
}

// Check_Functions: a function with up to 2 parameters and a return type, each without a type or one of 3 (thorough 6), is of a function type with
// up to 2 parameter types and possibly a return type exactly if it has as many parameters and every type it states is the
// type's own; through types.assert and, for up to one parameter, also as an argument of a typed parameter and inside a list and a map.
//
//verif:weight=2
func Check_Functions() {
	nd.Setenv("HOME", nd.Dir())
	r := &spec{Kind: "ref", Ref: "R2", To: saved["R2"], K8s: true}
	saved["R2"].Save("R2")
	pool := []*spec{nil, {Kind: "integer"}, saved["R2"], r, {Kind: "string"}, {Kind: "array", Items: &spec{Kind: "integer"}}, {Kind: "function", Args: []*spec{{Kind: "integer"}}}}
	env := core.NewEnv()
	pick := func(none bool) *spec {
		n := nd.Size(4, len(pool))
		if none {
			return pool[nd.Choice(n)]
		}
		return pool[1+nd.Choice(n-1)]
	}
	fn := &spec{Kind: "function"}
	for i := nd.Choice(3); i > 0; i-- {
		fn.Args = append(fn.Args, pick(false))
	}
	if nd.Choice(2) == 1 {
		fn.Ret = pick(false)
	}
	var params []*node
	n := nd.Choice(3)
	want := n == len(fn.Args)
	tag := func(name string, s, other *spec) string {
		if s == nil {
			return ""
		}
		env.Set(name, kit.TypeNode(s.Direct()))
		if other != nil && !typemodel.Equal(s, other) {
			want = false
		}
		return "!" + name
	}
	for i := 0; i < n; i++ {
		var other *spec
		if i < len(fn.Args) {
			other = fn.Args[i]
		}
		params = append(params, typed([]string{"p", "q"}[i], tag([]string{"T1", "T2"}[i], pick(true), other)))
	}
	ps := kit.List(params...)
	ps.Tag = tag("TR", pick(true), fn.Ret)
	f, err := kit.Eval(kit.List(kit.Str("lambda"), ps, kit.Int(1)), env)
	nd.Assert(err == nil, "a typed function is refused")
	t := fn.Direct()
	how := 0
	if len(fn.Args) < 2 {
		how = nd.Choice(3)
	}
	switch how {
	case 0:
		_, err = kit.Call("types.assert", kit.TypeNode(t), f)
	case 1:
		env.Set("F", kit.TypeNode(t))
		g, err2 := kit.Eval(kit.List(kit.Str("lambda"), kit.List(kit.Str("o"), typed("f", "!F")), kit.Int(1)), env)
		nd.Assert(err2 == nil, "a typed function is refused")
		_, err = kit.Engine().Apply(g, []*node{kit.Int(1), f}, env, core.EvalModeEval)
	default:
		err = (&core.Schema{Type: "object", Properties: map[string]*core.Schema{"l": {Type: "array", Items: t}}}).Validate(kit.Map("l", kit.List(f)))
	}
	nd.Assert((err == nil) == want, "a function is of a function type exactly if arity and stated types agree")
}

// Check_Long: a function of 12 typed parameters, of which the first, a middle or the last one has another type, called with values of which one at any of these
// places is arbitrary; and function types of 12 arguments that differ in one of them.
func Check_Long() {
	n := 12
	place := func() int { return []int{0, 6, n - 1}[nd.Choice(3)] }
	at, odd := place(), place()
	leaf := typemodel.Leaf(nd.Choice(nd.Size(4, typemodel.NLeaves)))
	base := &spec{Kind: "integer"}
	kind := func(i int) *spec {
		if i == at {
			return leaf
		}
		return base
	}
	env := core.NewEnv()
	var params, args []*node
	var types []*spec
	want := true
	for i := 0; i < n; i++ {
		name := "p" + string(rune('a'+i))
		env.Set("T"+name, kit.TypeNode(kind(i).Direct()))
		params = append(params, typed(name, "!T"+name))
		v := kit.Int(i)
		if i == odd {
			v = []*node{kit.Int(nd.Int()), kit.Str("x"), kit.Null()}[nd.Choice(3)]
		}
		args = append(args, v)
		want = want && kind(i).Accepts(v)
		types = append(types, base)
	}
	f, err := kit.Eval(kit.List(kit.Str("lambda"), kit.List(params...), kit.Sym("pa")), env)
	nd.Assert(err == nil, "a typed function is refused")
	r, err := kit.Engine().Apply(f, args, env, core.EvalModeEval)
	nd.Assert((err == nil) == want, "a call succeeds exactly if every argument is of the type of its parameter")
	nd.Assert(err != nil || kit.Same(r, args[0]), "the body sees another argument")
	types[odd] = leaf
	ft := &spec{Kind: "function", Args: types, Ret: typemodel.Leaf(0)}
	same := typemodel.Equal(leaf, base) || at == odd
	_, err = kit.Call("types.assert", ft.Type(), f)
	nd.Assert((err == nil) == same, "a function is of a function type exactly if all arguments have the same types")
}

// Check_Changed: an argument that was of the type of the parameter when it was cast, and was then changed by maps.merge, maps.patch or k8s.patch or put together anew, is
// checked again: by a call, in lists.map, inside another typed map, as the value returned by a typed function that is handed on.
func Check_Changed() {
	var x *node
	ok := false
	switch nd.Choice(5) {
	case 0:
		x, ok = kit.Int(nd.IntRange(-3, 12)), true
	case 1:
		x = kit.Str(nd.StringOf("1a", 0, 2))
	case 2:
		x = kit.Null()
	case 3:
		x = kit.List(kit.Int(1))
	case 4:
		x = kit.Bool(true)
	}
	changed := []string{
		"[maps.merge, *v , {a: *x }]",
		"[maps.merge, *v , !T {a: 3}, {a: *x }]",
		"[maps.merge, [maps.merge, *v , {a: *x }], {b: t}]",
		"[maps.patch, [maps.merge, *v , {b: u}], [progn, [lists.cons, [maps.make, op, replace, path, /a, value, *x ], []]]]",
		"[maps.patch, [maps.merge, *v , {b: u}], [progn, [lists.cons, {op: remove, path: /a}, [lists.cons, {op: add, path: /a, value: *x }, []]]]]",
		"[maps.from-entries, [maps.to-entries, [maps.merge, *v , {a: *x }]]]",
	}
	c := changed[nd.Choice(len(changed))]
	uses := []string{
		"!yisp [*f , " + c + "]",
		"!yisp [lists.map, [lists.map, !quote [1], [lambda, [i], " + c + "]], *f ]",
		"!yisp [*g , {t: " + c + "}]",
		"!yisp [[lambda, [w], [*f , *w ]], " + c + "]",
		"!yisp [pipeline, " + c + ", *f ]",
	}
	text := "!yisp &T [schema, {type: object, properties: {a: {type: integer}, b: {type: string}}, required: !quote [a]}]\n---\n" +
		"!yisp &U [schema, {type: object, properties: {t: {type: object, properties: {a: {type: integer}}, additionalProperties: true}}}]\n---\n" +
		"!yisp &f [lambda, [!T p], [maps.get, *p , a]]\n---\n!yisp &g [lambda, [!U p], 1]\n---\n&v !T {a: 1, b: s}\n---\nr: " + uses[nd.Choice(len(uses))] + "\n"
	_, err := kit.Run(text, "x", x)
	nd.Assert((err == nil) == ok, "a changed argument is not checked, or one that is still of its type is refused")
}

// Check_Builtin: the types every program has (null, bool, int, float, string), as the type of either parameter of a written
// function (or as its return type, which restricts no call), named or not, with an arbitrary value of any kind, in a call, lists.map, or pipeline.
func Check_Builtin() {
	names := []string{"null", "bool", "int", "float", "string"}
	t := nd.Choice(len(names))
	var v *node
	k := nd.Choice(7)
	switch k {
	case 0:
		v = kit.Null()
	case 1:
		v = kit.Bool(nd.Bool())
	case 2:
		v = kit.Int(nd.Int())
	case 3:
		v = kit.Float(nd.Float())
	case 4:
		v = kit.Str(nd.StringOf("1a", 0, 2))
	case 5:
		v = kit.List(kit.Int(1))
	case 6:
		v = kit.Map("a", kit.Int(1))
	}
	tag := []string{"!" + names[t] + " ", "!" + names[t] + " ", "!!str ", ""}[nd.Choice(4)]
	want := k == t || tag == "" || tag == "!!str "
	var f string
	switch nd.Choice(4) {
	case 0:
		f = "[lambda, [" + tag + "p], [\"==\", 1, 1]]"
	case 1:
		f = "[lambda, [" + tag + "p], *p ]"
	case 2:
		if tag == "!!str " {
			tag = ""
		}
		f, want = "[lambda, "+tag+"[p], *p ]", true // a return type is part of the function's own type and restricts no call
	case 3:
		f = "[[lambda, [!int n, " + tag + "q], [lambda, [" + tag + "p], *q ]], 3, *v ]"
	}
	use := []string{"[" + f + ", *v ]", "[pipeline, *v , " + f + "]", "[lists.map, [lists.cons, *v , []], " + f + "]", "[*f , *v ]", "[[progn, *f ], *v ]"}[nd.Choice(5)]
	_, err := kit.Run("!yisp &f "+f+"\n---\nr: !yisp "+use+"\n", "v", v)
	nd.Assert((err == nil) == want, "a builtin type of a function accepts a value that is not of it, or refuses one that is")
}
