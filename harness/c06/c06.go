// Package c06: calling functions binds parameters by position with lexical scope.
// The oracle is an evaluator of its own over persistent environments: a function remembers the list of definitions at
// the point where it was written, a call extends that list, and nothing else ever changes it.
package c06

import (
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

// scope is a persistent list of definitions.
type scope struct {
	name  string
	val   value
	outer *scope
}

var depth int

type value struct {
	isInt bool
	i     int
	fun   *fun
}

type fun struct {
	params []string
	body   expr
	scope  *scope
}

// expr is an expression of the fragment; text is its spelling as yisp.
type expr interface {
	text() string
	node() *node
	eval(s *scope) (value, bool)
}

type ref string

func (r ref) text() string { return "*" + string(r) }

func (r ref) eval(s *scope) (value, bool) {
	for ; s != nil; s = s.outer {
		if s.name == string(r) {
			return s.val, true
		}
	}
	return value{}, false
}

func (r ref) node() *node { return kit.Sym(string(r)) }

type add struct{ a, b expr }

func (x add) text() string { return "[+, " + x.a.text() + " , " + x.b.text() + " ]" }

func (x add) eval(s *scope) (value, bool) {
	a, ok := x.a.eval(s)
	if !ok {
		return a, false
	}
	b, ok := x.b.eval(s)
	if !ok || !a.isInt || !b.isInt {
		return b, false
	}
	return value{isInt: true, i: a.i + b.i}, true
}

func (x add) node() *node { return kit.Op("+", x.a.node(), x.b.node()) }

type lam struct {
	params []string
	body   expr
}

func (x lam) text() string {
	return "[lambda, [" + strings.Join(x.params, ", ") + "], " + x.body.text() + " ]"
}

func (x lam) eval(s *scope) (value, bool) {
	return value{fun: &fun{x.params, x.body, s}}, true
}

func (x lam) node() *node {
	ps := make([]*node, len(x.params))
	for i, p := range x.params {
		ps[i] = kit.Str(p)
	}
	return kit.Op("lambda", kit.List(ps...), x.body.node())
}

type call struct {
	f    expr
	args []expr
}

func (x call) text() string {
	t := "[" + x.f.text() + " "
	for _, a := range x.args {
		t += ", " + a.text() + " "
	}
	return t + "]"
}

func (x call) eval(s *scope) (value, bool) {
	f, ok := x.f.eval(s)
	if !ok {
		return f, false
	}
	var args []value
	for _, a := range x.args {
		v, ok := a.eval(s)
		if !ok {
			return v, false
		}
		args = append(args, v)
	}
	if f.fun == nil || len(args) != len(f.fun.params) {
		return value{}, false
	}
	nd.Assume(depth < 8) // no endless recursion
	depth++
	in := f.fun.scope
	for i, p := range f.fun.params {
		in = &scope{p, args[i], in}
	}
	v, ok := f.fun.body.eval(in)
	depth--
	return v, ok
}

func (x call) node() *node {
	items := []*node{x.f.node()}
	for _, a := range x.args {
		items = append(items, a.node())
	}
	return kit.List(items...)
}

var pool = []string{"a", "b", "f"}

func name() string { return pool[nd.Choice(len(pool))] }

func leaf() expr { return ref(name()) }

// gen is any expression nested up to depth.
func gen(depth int) expr {
	if depth == 0 {
		return leaf()
	}
	switch nd.Choice(5) {
	case 0:
		return leaf()
	case 1:
		return add{gen(depth - 1), leaf()}
	case 2:
		return lam{[]string{name()}, gen(depth - 1)}
	case 3:
		return call{gen(depth - 1), []expr{leaf()}}
	}
	return call{lam{[]string{name()}, gen(depth - 1)}, []expr{leaf()}}
}

func same(n *node, v value) bool {
	if v.fun != nil {
		return n.Kind == core.KindLambda
	}
	i, ok := kit.IsInt(n)
	return ok && i == v.i
}

func compare(r *node, err error, v value, ok bool) {
	nd.Assert(ok == (err == nil), "the call fails exactly when a name is undefined, a number of arguments is wrong or a non-function is called")
	if ok && err == nil {
		nd.Assert(same(r, v), "a name was resolved to the wrong definition")
	}
}

// program defines a, then f, then a or b again, and uses them in last.
func program(body, last expr) {
	var top *scope
	depth = 0
	env := core.NewEnv()
	for _, n := range []string{"x", "y"} {
		i := nd.Int()
		top = &scope{n, value{isInt: true, i: i}, top}
		env.Set(n, kit.Int(i))
	}
	def := func(n string, e expr) {
		v, ok := e.eval(top)
		nd.Assume(ok)
		if v.fun != nil && v.fun.scope == top {
			v.fun.scope = &scope{n, v, top}
		}
		top = &scope{n, v, top}
		x := e.node()
		x.Anchor = n
		_, err := kit.Eval(x, env)
		nd.Assert(err == nil, "a definition failed")
	}
	def("a", add{ref("x"), ref("x")})
	def("f", lam{[]string{name()}, body})
	def([]string{"a", "b"}[nd.Choice(2)], add{ref("y"), ref("y")})
	v, ok := last.eval(top)
	r, err := kit.Eval(last.node(), env)
	compare(r, err, v, ok)
}

// Check_Scoping: f is any one-parameter function whose body is nested 1 deep, defined between two definitions
// of a and b (arbitrary integers), then used in any expression nested 1 deep (thorough 2); parameters
// and variables are all drawn from the names a, b and f, so that every kind of shadowing occurs.
//
//verif:weight=3
func Check_Scoping() { program(gen(1), gen(nd.Size(1, 2))) }

// Check_Bodies: the same with any body nested 2 deep (thorough 3), applied to a, b or itself.
//
//verif:weight=3
func Check_Bodies() { program(gen(nd.Size(2, 3)), call{ref("f"), []expr{leaf()}}) }

// Check_Deep: three functions nested in each other with any parameter names out of a and b and any variable at
// the innermost position, applied inside out to arbitrary integers, one call possibly with the argument of another.
func Check_Deep() {
	depth = 0
	x, y, z := nd.Int(), nd.Int(), nd.Int()
	top := &scope{"z", value{isInt: true, i: z}, &scope{"y", value{isInt: true, i: y}, &scope{"x", value{isInt: true, i: x}, nil}}}
	ab := func() string { return []string{"a", "b"}[nd.Choice(2)] }
	v := func() expr { return ref([]string{"a", "b", "x"}[nd.Choice(3)]) }
	inner := lam{[]string{ab()}, add{v(), v()}}
	var mid, e expr
	switch nd.Choice(3) {
	case 0:
		mid = lam{[]string{ab()}, inner}
		e = call{call{call{lam{[]string{ab()}, mid}, []expr{ref("x")}}, []expr{ref("y")}}, []expr{ref("z")}}
	case 1:
		mid = lam{[]string{ab()}, call{inner, []expr{ref("y")}}}
		e = call{call{lam{[]string{ab()}, mid}, []expr{ref("x")}}, []expr{ref("z")}}
	default:
		mid = lam{[]string{ab()}, call{ref("a"), []expr{v()}}}
		e = call{call{lam{[]string{ab()}, mid}, []expr{ref("x")}}, []expr{inner}}
	}
	w, ok := e.eval(top)
	r, err := kit.Run("- !yisp "+e.text()+"\n", "x", kit.Int(x), "y", kit.Int(y), "z", kit.Int(z))
	var res *node
	if err == nil {
		items, _ := kit.Items(r[0])
		res = items[0]
	}
	compare(res, err, w, ok)
}

// Check_Positions: functions of 0 to 3 (thorough 4) parameters applied to 0 to 3 (thorough 4) arguments of any kind: the body sees
// exactly the argument of its position, and any other number of arguments is an error, even if the body uses none.
//
//verif:weight=2
func Check_Positions() {
	params := []string{"p", "q", "r", "s"}[:nd.Choice(nd.Size(4, 5))]
	args := make([]*node, nd.Choice(nd.Size(4, 5)))
	for i := range args {
		args[i] = kit.Any(nd.Size(0, 1))
	}
	k := nd.Choice(len(params) + 1)
	body := kit.Int(42)
	if k < len(params) {
		body = kit.Sym(params[k])
	}
	f := kit.MakeLambda(core.NewEnv(), body, params...)
	r, err := kit.Engine().Apply(f, args, core.NewEnv(), core.EvalModeEval)
	nd.Assert((err == nil) == (len(args) == len(params)), "a call fails exactly when the number of arguments is not the number of parameters")
	if err == nil && k < len(params) {
		nd.Assert(kit.Same(r, args[k]), "a parameter is not the argument in the same position")
	} else if err == nil {
		nd.Assert(kit.Same(r, kit.Int(42)), "a constant body has another value")
	}
}

// Check_BodyForms: the body of a function is evaluated with the parameters in whatever form it is: a variable, a quoted
// or plain list, a map with merge key, a conditional, a nested function, an operator (arguments: arbitrary integers).
func Check_BodyForms() {
	x, y := nd.Int(), nd.Int()
	forms := []struct {
		body string
		want *node
	}{
		{"*p", kit.Int(x)},
		{"*q", kit.Int(y)},
		{"[-, *p , *q ]", kit.Int(x - y)},
		{"!quote [*p , [*q , z], 3]", kit.List(kit.Int(x), kit.List(kit.Int(y), kit.Str("z")), kit.Int(3))},
		{"{p: *q , q: *p }", kit.Map("p", kit.Int(y), "q", kit.Int(x))},
		{"{<<: {p: *q , r: 0}, q: [+, *p , 0]}", kit.Map("p", kit.Int(y), "r", kit.Int(0), "q", kit.Int(x))},
		{"[if, true, *q , *undefined ]", kit.Int(y)},
		{"[[lambda, [q], [-, *q , *p ]], *q ]", kit.Int(y - x)},
		{"[[lambda, [p, q], [-, *p , *q ]], *q , *p ]", kit.Int(y - x)},
		{"[lists.map, [lambda, [e], [-, *e , *p ]], !quote [*q , *p ]]", nil},
		{"[[lambda, [], *p ]]", kit.Int(x)},
		{"[progn, &t [+, *p , *q ], [-, *t , *q ]]", kit.Int(x)},
		{"[pipeline, *p , [lambda, [v], [-, *v , *q ]]]", kit.Int(x - y)},
		{"{a: !quote {b: *p }, c: !yisp [-, *q , *p ]}", kit.Map("a", kit.Map("b", kit.Int(x)), "c", kit.Int(y-x))},
	}
	f := forms[nd.Choice(len(forms))]
	want := f.want
	body := f.body
	if want == nil {
		body = "[lists.map, !quote [*q , *p ], [lambda, [e], [-, *e , *p ]]]"
		want = kit.List(kit.Int(y-x), kit.Int(0))
	}
	r, err := kit.Run1("r: !yisp [[lambda, [p, q], "+body+" ], *x , *y ]\n", "x", kit.Int(x), "y", kit.Int(y), "p", kit.Str("outer p"), "e", kit.Str("outer e"))
	nd.Assert(err == nil, "the call failed")
	if err == nil {
		nd.Assert(kit.Same(r, kit.Map("r", want)), "the body does not see the parameters")
	}
}

// Check_Callers: calling any of 9 functions - some with parameters or nested definitions named like names of the
// caller, some failing - leaves every name the caller can see as it was, and defines nothing new.
func Check_Callers() {
	x := nd.Int()
	env := core.NewEnv().CreateChild()
	for _, n := range []string{"a", "b", "p"} {
		env.Root().Set(n, kit.Int(x))
		env.Set(n, kit.Str(n))
	}
	defs := core.NewEnv()
	if nd.Choice(2) == 1 {
		defs = env
	}
	params := [][]string{{"a"}, {"p", "b"}, {"x", "a"}, {}}[nd.Choice(4)]
	anchored := kit.Int(5)
	anchored.Anchor = "q"
	body := []*node{
		kit.Sym("a"), kit.List(kit.Str("+"), kit.Sym("p"), kit.Int(1)),
		kit.List(kit.List(kit.Str("lambda"), kit.List(kit.Str("a"), kit.Str("b")), kit.Sym("b")), kit.Int(1), kit.Int(2)),
		kit.List(kit.Str("lists.map"), kit.List(kit.Str("lists.iota"), kit.Int(2)), kit.List(kit.Str("lambda"), kit.List(kit.Str("p")), kit.Sym("p"))),
		kit.Sym("undefined"), kit.List(kit.Str("if"), kit.Sym("a"), kit.Sym("b"), kit.Sym("p")),
	}[nd.Choice(6)]
	f := kit.MakeLambda(defs, body, params...)
	snapshot := func(e *core.Env) map[string]*node {
		m := map[string]*node{}
		for k, v := range e.Vars {
			m[k] = v
		}
		return m
	}
	b0, b1 := snapshot(env), snapshot(env.Root())
	args := []*node{f}
	for i := nd.Choice(3); i > 0; i-- {
		args = append(args, kit.Int(i))
	}
	r, err := engine.NewEngine(engine.Options{}).Eval(kit.List(args...), env, core.EvalModeEval)
	nd.Assert((r == nil) != (err == nil), "neither a value nor an error")
	check := func(e *core.Env, b map[string]*node) {
		nd.Assert(len(e.Vars) == len(b), "a call defined a name of its caller")
		for k, v := range b {
			nd.Assert(e.Vars[k] == v, "a call changed a name of its caller")
		}
	}
	check(env, b0)
	check(env.Root(), b1)
}

// Check_Anchors: a name stands for the evaluated value from its definition on, until redefined: in later documents, later
// items, nested lists and maps, inside quoted and evaluated data; before the definition it is an error, as is an undefined
// name anywhere but with ?. 10 programs, values arbitrary integers.
func Check_Anchors() {
	x, y := nd.Int(), nd.Int()
	progs := []struct {
		text string
		want *node
	}{
		{"- &a !yisp [+, *x , 0]\n- *a\n- [*a]\n", kit.List(kit.Int(x), kit.Int(x), kit.List(kit.Int(x)))},
		{"- &a !yisp [+, *x , 0]\n- &a !yisp [+, *y , 0]\n- *a\n", kit.List(kit.Int(x), kit.Int(y), kit.Int(y))},
		{"- *a\n- &a 1\n", nil},
		{"- {k: {l: &a [*x ]}}\n- {m: *a }\n", kit.List(kit.Map("k", kit.Map("l", kit.List(kit.Int(x)))), kit.Map("m", kit.List(kit.Int(x))))},
		{"&a\nk: *x\n---\n- *a.k\n", kit.List(kit.Int(x))},
		{"- !yisp [*a , 1]\n- &a 1\n", nil},
		{"- &f !yisp [lambda, [n], [+, *n , *a ]]\n- &a 1\n- !yisp [*f , *x ]\n", nil},
		{"- &a !yisp [+, *x , 0]\n- &f !yisp [lambda, [n], [-, *n , *a ]]\n- &a 1\n- !yisp [*f , *y ]\n", nil},
		{"- !yisp [-, &a [+, *x , 0], *a ]\n- *a\n", kit.List(kit.Int(0), kit.Int(x))},
		{"- &a !yisp [if, true, &b [+, *x , 0], &c 3]\n- *b\n- *c?\n", kit.List(kit.Int(x), kit.Int(x), kit.Null())},
	}
	i := nd.Choice(len(progs))
	r, err := kit.Run(progs[i].text, "x", kit.Int(x), "y", kit.Int(y))
	if i == 7 {
		nd.Assert(err == nil && len(r) == 1, "the program failed")
		items, _ := kit.Items(r[0])
		v, ok := kit.IsInt(items[len(items)-1])
		nd.Assert(ok && v == y-x, "a function sees definitions made after it was written")
		return
	}
	nd.Assert((err == nil) == (progs[i].want != nil), "a name is an error exactly where it is not defined")
	if err == nil {
		nd.Assert(len(r) > 0 && kit.Same(r[len(r)-1], progs[i].want), "a name does not stand for the value it was given")
	}
}

// Check_Recursion: a function sees itself under its own name: factorial and mutual use through a parameter, for the numbers 0 to 4 (thorough 6).
func Check_Recursion() {
	n := nd.Choice(nd.Size(5, 7))
	k := nd.Int()
	text := []string{
		"- &f !yisp [lambda, [n], [if, [==, *n , 0], *k , [\"*\", *n , [*f , [-, *n , 1]]]]]\n- !yisp [*f , *n ]\n",
		"- &f !yisp [lambda, [f, n], [if, [==, *n , 0], *k , [\"*\", *n , [*f , *f , [-, *n , 1]]]]]\n- !yisp [*f , *f , *n ]\n",
		"- &f !yisp [lambda, [n], 5]\n- &f !yisp [lambda, [n], [if, [==, *n , 0], *k , [\"*\", *n , [*f , [-, *n , 1]]]]]\n- !yisp [*f , *n ]\n",
		"- &f !yisp [lambda, [n], [if, [==, *n , 0], *k , [\"*\", *n , [*f , [-, *n , 1]]]]]\n- &g !yisp [progn, *f ]\n- &f !yisp [lambda, [n], 5]\n- !yisp [*g , *n ]\n",
		"- &g 7\n- &f !yisp [lambda, [n], [if, [==, *n , 0], *k , [\"*\", *n , [*f , [-, *n , 1]]]]]\n- &h !yisp [if, true, *f , *f ]\n- !yisp [*h , *n ]\n",
	}[nd.Choice(5)]
	want := k
	for i := 1; i <= n; i++ {
		want *= i
	}
	r, err := kit.Run1(text, "n", kit.Int(n), "k", kit.Int(k))
	nd.Assert(err == nil, "the recursion failed")
	if err == nil {
		items, _ := kit.Items(r)
		v, ok := kit.IsInt(items[len(items)-1])
		nd.Assert(ok && v == want, "the recursive call went to another function")
	}
}

// Check_Renamed: giving a function another name does not change what its body means.
func Check_Renamed() {
	x := nd.Int()
	r, err := kit.Run1("- &g !yisp [+, *x , 0]\n- &f !yisp [lambda, [], *g ]\n- &g !yisp [progn, *f ]\n- !yisp [*f ]\n", "x", kit.Int(x))
	nd.Assert(err == nil, "the program failed")
	items, _ := kit.Items(r)
	v, ok := kit.IsInt(items[len(items)-1])
	nd.Assert(ok && v == x, "naming a function again changed the names its body refers to")
}

// Check_Paths: *name.key.key follows keys of maps and modules; a missing name or key is an error without ? and null with
// it, at exactly the part the ? is written at, also where the name hides another one; a defined name or key gives its value with or without ?.
func Check_Paths() {
	x := nd.Int()
	env := core.NewEnv()
	env.Set("m", kit.Map("k", kit.Map("l", kit.Int(x)), "z", kit.Null(), "s", kit.Str("t")))
	env.Set("i", kit.Int(x))
	env.Set("mod", &node{Kind: core.KindMap, Value: map[string]*node{"k": kit.Map("l", kit.Int(x)), "l": kit.List(kit.Int(x))}})
	inner := nd.Choice(4)
	if inner > 0 {
		env = env.CreateChild()
		env.Set("n", kit.Int(1))
	}
	if inner == 2 {
		env.Set("m", kit.Map("k", kit.Int(x)))
	}
	if inner == 3 {
		env.Set("mod", kit.Int(x))
	}
	parts := []string{}
	cur := "env"
	ok, null := true, false
	for i, n := 0, 1+nd.Choice(3); i < n; i++ {
		p := []string{"m", "k", "l", "nope", "z", "i", "mod"}[nd.Choice(7)]
		opt := nd.Choice(2) == 1
		if opt {
			parts = append(parts, p+"?")
		} else {
			parts = append(parts, p)
		}
		if !ok || null {
			continue
		}
		next := map[string]string{"env.m": "m", "m.k": "mk", "mk.l": "int", "env.i": "int", "m.z": "null", "env.mod": "mod", "mod.k": "mk", "mod.l": "list"}[cur+"."+p]
		switch {
		case next == "m" && inner == 2:
			cur = "m2"
		case next == "mod" && inner == 3:
			cur = "int"
		case cur == "m2" && p == "k":
			cur = "int"
		case next != "":
			cur = next
		case cur == "int" || cur == "null" || cur == "list":
			ok = false
			if opt {
				// a key of something that is not a map: not specified
				nd.Assert(true, "")
				return
			}
		case opt:
			null = true
		default:
			ok = false
		}
	}
	r, err := kit.Eval(kit.Sym(strings.Join(parts, ".")), env)
	nd.Assert((err == nil) == ok, "a path is an error exactly when a part without ? is missing")
	if err != nil || !ok {
		return
	}
	switch {
	case null || cur == "null":
		nd.Assert(kit.Same(r, kit.Null()), "a missing optional part or a null is not null")
	case cur == "list":
		nd.Assert(kit.Same(r, kit.List(kit.Int(x))), "a path gives another value")
	case cur == "int":
		nd.Assert(kit.Same(r, kit.Int(x)), "a path gives another value")
	case cur == "mk":
		nd.Assert(kit.Same(r, kit.Map("l", kit.Int(x))), "a path gives another value")
	default:
		nd.Assert(r.Kind == core.KindMap, "a path gives another value")
	}
}

// Check_Kinds: an anchor on a value of every kind - null, a boolean, an integer, a float, a text, quoted or plain, a list, a map,
// a quoted list, a call, a function, a cast value - names exactly that value in later data, later calls and later documents.
func Check_Kinds() {
	x := nd.Int()
	forms := []struct {
		text string
		want *node
	}{
		{"null", kit.Null()},
		{"~", kit.Null()},
		{"", kit.Null()},
		{"true", kit.Bool(true)},
		{"false", kit.Bool(false)},
		{"12", kit.Int(12)},
		{"-0.5", kit.Float(-0.5)},
		{"text", kit.Str("text")},
		{"\"\"", kit.Str("")},
		{"'1'", kit.Str("1")},
		{"[*x , 1]", kit.List(kit.Int(x), kit.Int(1))},
		{"[]", kit.List()},
		{"{k: *x }", kit.Map("k", kit.Int(x))},
		{"{}", kit.Map()},
		{"!quote [*x ]", kit.List(kit.Int(x))},
		{"!yisp [progn, *x ]", kit.Int(x)},
		{"!yisp [progn, null]", kit.Null()},
		{"!int 3", kit.Int(3)},
		{"!null null", kit.Null()},
		{"!yisp [[lambda, [p], *p ], *x ]", kit.Int(x)},
	}
	f := forms[nd.Choice(len(forms))]
	text, want := "", kit.List(f.want)
	switch nd.Choice(6) {
	case 0:
		text = "- k: &a " + f.text + "\n---\n- *a\n"
	case 1:
		text = "- k: {l: &a " + f.text + " }\n---\n- !yisp [progn, *a ]\n"
	case 2:
		text = "- &a " + f.text + "\n---\n- {k: [*a ]}\n"
		want = kit.List(kit.Map("k", kit.List(f.want)))
	case 3:
		nd.Assume(f.text != "" && f.text[0] != '{' && (f.text[0] != '[' || f.text == "[]"))
		text = "- !yisp [progn, &a " + f.text + " , 1]\n---\n- *a\n"
		if f.text == "[]" {
			// an empty list to evaluate
			nd.Assert(true, "")
			return
		}
	case 4:
		nd.Assume(f.text != "")
		text = "- !yisp [[lambda, [p], *p ], &a !quote " + f.text + " ]\n---\n- *a\n"
		if f.text[0] != '[' && f.text[0] != '{' { // a tag makes a scalar a text
			nd.Assert(true, "")
			return
		}
	default:
		text = "- k: &a " + f.text + "\n- !yisp [progn, 1]\n- &b [*a ]\n---\n- !yisp [lists.car, *b ]\n"
	}
	r, err := kit.Run(text, "x", kit.Int(x))
	nd.Assert(err == nil, "naming or using a value failed")
	if err == nil {
		nd.Assert(len(r) > 0 && kit.Same(r[len(r)-1], want), "a name does not stand for the value it was given")
	}
}

// Check_Long: a function of 14 parameters whose body is the first, a middle or the last of them, or a list of all of them in reverse;
// 14 functions nested in each other, of which the innermost uses one of the parameters; a function that calls itself 40 times; 20
// names defined one from the other: with an arbitrary integer.
func Check_Long() {
	v := nd.Int()
	x := kit.Int(v)
	const n = 14
	at := []int{0, 6, n - 1}[nd.Choice(3)]
	name := func(i int) string { return "p" + string(rune('a'+i)) }
	arg := func(i int) string {
		if i == at {
			return "*x "
		}
		return string(rune('a' + i))
	}
	val := func(i int) *node {
		if i == at {
			return x
		}
		return kit.Str(string(rune('a' + i)))
	}
	text, want := "", x
	switch nd.Choice(5) {
	case 0, 1:
		ps, as, rev := "", "", ""
		var w []*node
		for i := 0; i < n; i++ {
			ps += name(i) + ", "
			as += ", " + arg(i)
			rev += ", *" + name(n-1-i) + " "
			w = append(w, val(n-1-i))
		}
		if nd.Choice(2) == 0 {
			text = "[[lambda, [" + ps + "], *" + name(at) + " ]" + as + "]"
		} else {
			text = "[[lambda, [" + ps + "], !quote [" + rev[2:] + "]]" + as + "]"
			want = kit.List(w...)
		}
	case 2:
		for i := n - 1; i >= 0; i-- {
			if i == n-1 {
				text = "*" + name(at) + " "
			}
			text = "[lambda, [" + name(i) + "], " + text + "]"
		}
		for i := 0; i < n; i++ {
			text = "[" + text + ", " + arg(i) + "]"
		}
	case 3:
		text = "[progn, &f [lambda, [n], [if, [<, *n , 1], *x , [+, 1, [*f , [-, *n , 1]]]]], [*f , 40]]"
		want = kit.Int(v + 40)
	case 4:
		text = "[progn, &a0 [+, *x , 1]"
		for i := 1; i < 20; i++ {
			text += ", &a" + digits(i) + " [+, *a" + digits(i-1) + " , 1]"
		}
		text += ", *a" + digits(19) + " ]"
		want = kit.Int(v + 20)
	}
	r, err := kit.Run("- !yisp "+text+"\n", "x", x)
	nd.Assert(err == nil && len(r) == 1 && kit.Same(r[0], kit.List(want)), "a large function or a deep call has a wrong value")
}

func digits(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return digits(i/10) + string(rune('0'+i%10))
}

// Check_LongPaths: names of up to 7 keys, in maps nested 7 deep, of which one may be missing: without ? at that key or with it.
func Check_LongPaths() {
	x := nd.Int()
	v := kit.Int(x)
	for i := 0; i < 7; i++ {
		v = kit.Map("k", v, "o", kit.Int(i))
	}
	n, at := 1+nd.Choice(7), nd.Choice(8)
	opt := []string{"", "?"}[nd.Choice(2)]
	path := "m"
	for i := 0; i < n; i++ {
		key := "k"
		if i == at {
			key = "nope" + opt
		}
		path += "." + key
	}
	r, err := kit.Run("- *"+path+"\n", "m", v)
	if at < n && opt == "" {
		nd.Assert(err != nil, "a missing key is not an error")
		return
	}
	want := kit.Null()
	if at >= n {
		want = v
		for i := 0; i < n; i++ {
			es, _ := kit.Entries(want)
			want = es[0].V
		}
	}
	nd.Assert(err == nil && len(r) == 1 && kit.Same(r[0], kit.List(want)), "a long name has another value")
}

// Check_Nested: a name given to an arbitrary integer inside 0 to 3 (thorough 5) operators, conditionals, quoted lists and maps within each other stands for it afterwards: in the same
// document, in a later one, in a function written later, in one called in another call, and, in the body of a function, called with 0 to 2 calls around it, in the rest of the body.
func Check_Nested() {
	x := nd.Int()
	e := "&deep [+, *x , 0]"
	for i, n := 0, nd.Choice(nd.Size(4, 6)); i < n; i++ {
		switch nd.Choice(4) {
		case 0:
			e = "[lists.car, !quote [!yisp " + e + "]]"
			e = strings.Replace(e, "!yisp &deep", "&deep !yisp", 1)
		case 1:
			e = "[maps.get, {k: " + e + "}, k]"
		case 2:
			e = "[progn, " + e + "]"
		default:
			e = "[if, true, " + e + ", 0]"
		}
	}
	use := []string{"[progn, *deep ]", "[[lambda, [], *deep ]]", "[[lambda, [p0], [[lambda, [q0], *deep ], 1]], 2]"}[nd.Choice(3)]
	text := ""
	if nd.Choice(2) == 0 {
		text = "- !yisp " + e + "\n" + []string{"- !yisp ", "---\n- !yisp "}[nd.Choice(2)] + use + "\n"
	} else {
		f := "[[lambda, [p1], [progn, " + e + ", " + use + "]], 1]"
		for i, n := 0, nd.Choice(3); i < n; i++ {
			f = "[[lambda, [p" + digits(i+2) + "], " + f + "], 1]"
		}
		text = "- !yisp " + f + "\n"
	}
	r, err := kit.Run(text, "x", kit.Int(x))
	nd.Assert(err == nil && len(r) > 0, "a name given inside an expression is not known afterwards")
	if err == nil && len(r) > 0 {
		items, _ := kit.Items(r[len(r)-1])
		nd.Assert(len(items) > 0 && kit.Same(items[len(items)-1], kit.Int(x)), "a name given inside an expression stands for another value")
	}
}

// Check_Pipeline: a value - null, an arbitrary integer, boolean or string of up to 1 byte, an empty or nonempty list or map - through 0 to 2 (thorough 3) of 6 functions, written as lambdas, names of functions and names of operators,
// is what calling each with the result of the one before gives, and what calls nested in each other give; progn of these results is the last one.
func Check_Pipeline() {
	x, b, s := nd.Int(), nd.Bool(), nd.String(1)
	start := nd.Choice(8)
	v := []*node{kit.Null(), kit.Int(x), kit.Bool(b), kit.Str(s), kit.List(), kit.List(kit.Int(x)), kit.Map(), kit.Map("k", kit.Null())}[start]
	truthy := []bool{false, x != 0, b, s != "", false, true, false, true}[start]
	want := v
	nested, fns := "*v ", ""
	for n := nd.Choice(nd.Size(3, 4)); n > 0; n-- {
		k := nd.Choice(6)
		fn := []string{"[lambda, [q], null]", "*wrap ", "[lambda, [q], [if, *q , *x , []]]", "\"!\"", "[lambda, [q], [??, *q , [progn, 0, false]]]", "[lambda, [v], *v ]"}[k]
		switch k {
		case 0:
			want, truthy = kit.Null(), false
		case 1:
			want, truthy = kit.Map("w", want, "x", kit.Int(x)), true
		case 2:
			if truthy {
				want, truthy = kit.Int(x), x != 0
			} else {
				want, truthy = kit.List(), false
			}
		case 3:
			want, truthy = kit.Bool(!truthy), !truthy
		case 4:
			if want.Kind == kit.Null().Kind {
				want, truthy = kit.Bool(false), false
			}
		}
		fns += ", " + fn
		nested = "[" + fn + ", " + nested + "]"
	}
	text := "!yisp &wrap [lambda, [q], {w: *q , x: *x }]\n---\n"
	text += "- !yisp [pipeline, *v " + fns + "]\n- !yisp [progn, " + nested + "]\n- !yisp [progn, *x , [pipeline, *v " + fns + "]]\n"
	text = strings.ReplaceAll(text, "*x , []]", "*x , !quote []]")
	r, err := kit.Run(text, "v", v, "x", kit.Int(x))
	nd.Assert(err == nil && len(r) > 0, "a pipeline fails")
	if err == nil && len(r) > 0 {
		nd.Assert(kit.Same(r[len(r)-1], kit.List(want, want, want)), "a pipeline gives another value")
	}
}
