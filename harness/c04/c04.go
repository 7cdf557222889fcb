// Package c04: truthiness, logic and conditionals.
package c04

import (
	"strconv"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

// truth is the documented definition.
func truth(n *kit.Node) bool {
	switch n.Kind {
	case core.KindNull:
		return false
	case core.KindBool:
		return n.Value.(bool)
	case core.KindInt:
		return n.Value.(int) != 0
	case core.KindFloat:
		return n.Value.(float64) != 0
	case core.KindString:
		return n.Value.(string) != ""
	case core.KindArray:
		return len(n.Value.([]any)) != 0
	case core.KindMap:
		return n.Value.(*core.YispMap).Len() != 0
	}
	return true
}

func boolean(what string, n *kit.Node, err error) bool {
	nd.Assert(err == nil, what+" fails")
	v, ok := kit.IsBool(n)
	nd.Assert(ok, what+" result is not a boolean")
	return v
}

// Check_Truth: one arbitrary value of every kind (lists and maps with up to 2 entries) through
// !, &&, ||, if and lists.filter; with and without a type, a position and a style.
func Check_Truth() {
	v := kit.Dressed(kit.Any(1))
	want := truth(v)
	switch nd.Choice(6) {
	case 0:
		r, err := kit.Call([]string{"!", "not"}[nd.Choice(2)], v)
		nd.Assert(boolean("!", r, err) == !want, "! disagrees with truthiness")
	case 1:
		r, err := kit.Call([]string{"&&", "and"}[nd.Choice(2)], v)
		nd.Assert(boolean("&&", r, err) == want, "&& disagrees with truthiness")
	case 2:
		r, err := kit.Call([]string{"||", "or"}[nd.Choice(2)], v)
		nd.Assert(boolean("||", r, err) == want, "|| disagrees with truthiness")
	case 3:
		env := core.NewEnv()
		env.Set("c", v)
		r, err := kit.Eval(kit.List(kit.Str("if"), kit.Sym("c"), kit.Int(1), kit.Int(2)), env)
		nd.Assert(err == nil, "if fails")
		i, ok := kit.IsInt(r)
		nd.Assert(ok && (i == 1) == want && (i == 2) == !want, "if disagrees with truthiness")
	case 4:
		r, err := kit.Call("lists.filter", kit.List(v), kit.Lambda("x"))
		nd.Assert(err == nil, "filter fails")
		items, ok := kit.Items(r)
		nd.Assert(ok, "filter result is not a list")
		nd.Assert((len(items) == 1) == want && len(items) <= 1, "filter disagrees with truthiness")
	case 5:
		b, err := core.IsTruthy(v)
		nd.Assert(err == nil && b == want, "IsTruthy disagrees with the documented definition")
	}
}

func args(max int, gen func() *kit.Node) []*kit.Node {
	n := nd.Choice(max + 1)
	out := make([]*kit.Node, n)
	for i := range out {
		out[i] = gen()
	}
	return out
}

// Check_AndOr: && and || of up to 3 (4) arbitrary scalars, empty lists and maps, functions and types.
func Check_AndOr() {
	as := args(nd.Size(3, 4), func() *kit.Node { return kit.OfKind(nd.Choice(kit.NKinds), 0) })
	all, any := true, false
	for _, a := range as {
		t := truth(a)
		all = all && t
		any = any || t
	}
	if nd.Choice(2) == 0 {
		r, err := kit.Call([]string{"&&", "and"}[nd.Choice(2)], as...)
		nd.Assert(boolean("&&", r, err) == all, "&& is not true iff all arguments are truthy")
	} else {
		r, err := kit.Call([]string{"||", "or"}[nd.Choice(2)], as...)
		nd.Assert(boolean("||", r, err) == any, "|| is not true iff any argument is truthy")
	}
}

// Check_Coalesce: ?? and default of up to 3 (4) arbitrary values.
func Check_Coalesce() {
	as := args(nd.Size(3, 4), func() *kit.Node { return kit.OfKind(nd.Choice(kit.NKinds), 0) })
	var want *kit.Node
	for _, a := range as {
		if want == nil && a.Kind != core.KindNull {
			want = a
		}
	}
	snap := kit.Copy(want)
	r, err := kit.Call([]string{"??", "default"}[nd.Choice(2)], as...)
	nd.Assert(err == nil, "?? fails")
	if want == nil {
		nd.Assert(r != nil && r.Kind == core.KindNull, "?? of nulls is not null")
	} else {
		nd.Assert(kit.Same(r, snap), "?? does not return the first non-null argument unchanged")
	}
}

// Check_If: if with an arbitrary condition evaluates exactly the selected branch: the other branch
// may be an expression that fails, defines a name or applies a non-function, at any nesting.
func Check_If() {
	v := kit.OfKind(nd.Choice(kit.NKinds), 0)
	env := core.NewEnv()
	env.Set("c", v)
	x := nd.Int()
	good := kit.Int(x)
	good.Anchor = "good"
	var bad *kit.Node
	switch nd.Choice(5) {
	case 0:
		bad = kit.Sym("undefined")
	case 1:
		bad = kit.Op("/", kit.Int(1), kit.Int(0))
	case 2:
		bad = kit.List(kit.Int(1), kit.Int(2))
	case 3:
		bad = kit.Op("+", kit.Int(1), kit.Op("lists.car", kit.List()))
	case 4:
		bad = kit.Int(7)
	}
	bad.Anchor = "bad"
	cond := kit.Sym("c")
	cond.Anchor = "cond"
	a, b := good, bad
	if !truth(v) {
		a, b = bad, good
	}
	expr := kit.List(kit.Str("if"), cond, a, b)
	if nd.Choice(2) == 1 {
		expr = kit.Op("+", expr)
	}
	r, err := kit.Eval(expr, env)
	nd.Assert(err == nil, "if fails because of the branch not selected")
	i, ok := kit.IsInt(r)
	nd.Assert(ok && i == x, "if does not return the selected branch")
	_, ok = env.Get("good")
	nd.Assert(ok, "if does not evaluate the selected branch")
	_, ok = env.Get("bad")
	nd.Assert(!ok, "if evaluates the branch not selected")
}

// Check_NotArity: ! takes exactly one argument, if exactly three, which may be expressions that would fail.
func Check_NotArity() {
	if nd.Choice(2) == 0 {
		n := []int{0, 1, 2, 4, 5}[nd.Choice(5)]
		items := []*kit.Node{kit.Str("if")}
		for i := 0; i < n; i++ {
			if i == 0 {
				c := *kit.OfKind(nd.Choice(kit.NKinds), 0)
				c.Tag = "!quote"
				items = append(items, &c)
			} else {
				items = append(items, []*kit.Node{kit.Int(i), kit.Null(), kit.Sym("undefined")}[nd.Choice(3)])
			}
		}
		_, err := kit.Eval(kit.List(items...), core.NewEnv())
		nd.Assert(err != nil, "if accepts a wrong number of arguments")
		return
	}
	as, _ := kit.Ints([]int{0, 2, 3}[nd.Choice(3)])
	_, err := kit.Call([]string{"!", "not"}[nd.Choice(2)], as...)
	nd.Assert(err != nil, "! accepts a wrong number of arguments")
}

// Check_Long: &&, || and ?? of 9, 17 or 40 values of which all but one arbitrary scalar, anywhere, are truthy, falsy or null.
func Check_Long() {
	n := []int{9, 17, 40}[nd.Choice(3)]
	at := []int{0, n / 2, n - 2, n - 1}[nd.Choice(4)]
	x := kit.OfKind(nd.Choice(kit.NKinds), 0)
	k := nd.Choice(3)
	as := make([]*kit.Node, n)
	for i := range as {
		switch {
		case i == at:
			as[i] = x
		case k == 0:
			as[i] = []*kit.Node{kit.Bool(true), kit.Int(i + 1), kit.Str("a")}[i%3]
		case k == 1:
			as[i] = []*kit.Node{kit.Bool(false), kit.Int(0), kit.Str(""), kit.Null(), kit.List()}[i%5]
		default:
			as[i] = kit.Null()
		}
	}
	snap := kit.Copy(x)
	switch k {
	case 0:
		r, err := kit.Call("&&", as...)
		nd.Assert(boolean("&&", r, err) == truth(snap), "&& of many is not true iff all are truthy")
	case 1:
		r, err := kit.Call("||", as...)
		nd.Assert(boolean("||", r, err) == truth(snap), "|| of many is not true iff any is truthy")
	default:
		r, err := kit.Call("??", as...)
		nd.Assert(err == nil && kit.Same(r, snap), "?? of many is not the first that is not null")
	}
}

// Check_Module: a module of 1 to 3 definitions, of which the first has an arbitrary value, is truthy.
func Check_Module() {
	n := 1 + nd.Choice(3)
	text := "1\n"
	for i := 0; i < n; i++ {
		v := strconv.Itoa(i)
		if i == 0 {
			v = strconv.Itoa(nd.IntRange(-1, 2))
		}
		text += "---\n!yisp &d" + strconv.Itoa(i) + " [+, " + v + "]\n"
	}
	nd.WriteFile("m.yisp", text)
	path := nd.WriteFile("main.yisp", "!yisp [import, [m, m.yisp]]\n---\n- !yisp [if, *m , 1, 0]\n- !yisp [\"!\", *m ]\n- !yisp [\"&&\", *m , 1]\n- !yisp [\"||\", *m , false]\n")
	r, err := core.CallEngineByPath(path, "", core.NewEnv(), kit.Engine())
	nd.Assert(err == nil, "a module has no truth value")
	docs, ok := kit.Items(r)
	nd.Assert(ok && len(docs) > 0, "the program prints nothing")
	nd.Assert(kit.Same(docs[len(docs)-1], kit.List(kit.Int(1), kit.Bool(false), kit.Bool(true), kit.Bool(true))), "a module has the wrong truth value")
}
