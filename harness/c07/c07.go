// Package c07: a failure of any expression that is evaluated makes the whole run fail.
// A program is a context with one hole. With a working expression in the hole it must succeed and
// with a failing one it must give an error and nothing else.
package c07

import (
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

func yisp(n *node) *node { n.Tag = "!yisp"; return n }

func quote(n *node) *node { n.Tag = "!quote"; return n }

func lambda(body *node, params ...string) *node {
	ps := make([]*node, len(params))
	for i, p := range params {
		ps[i] = kit.Str(p)
	}
	return kit.List(kit.Str("lambda"), kit.List(ps...), body)
}

const nFails = 16

// failing is an expression that cannot be evaluated.
func failing(i int) *node {
	switch i {
	case 0:
		return yisp(kit.Op("/", kit.Int(1), kit.Int(0)))
	case 1:
		return kit.Sym("undefined")
	case 2:
		return kit.Sym("m.missing")
	case 3:
		return yisp(kit.Op("no-such-operator", kit.Int(1)))
	case 4:
		return yisp(kit.List(lambda(kit.Int(1), "x")))
	case 5:
		n := kit.Str("not an integer")
		n.Tag = "!int"
		return n
	case 6:
		return yisp(kit.Op("+", kit.Str("a"), kit.Int(1)))
	case 7:
		return yisp(kit.Op("maps.get", kit.Map(), kit.Str("k")))
	case 8:
		return yisp(kit.Op("files.read", kit.Str("missing.txt")))
	case 9:
		return yisp(kit.Op("include", kit.Str("missing.yisp")))
	case 10:
		return yisp(kit.Op("import", kit.List(kit.Str("i"), kit.Str("missing.yisp"))))
	case 11:
		return yisp(kit.Op("if", kit.Int(1)))
	case 12:
		return yisp(kit.Op("types.assert", kit.Sym("int"), kit.Str("s")))
	case 13:
		return yisp(kit.List(kit.Map(), kit.Int(1)))
	case 14:
		return &node{Kind: core.KindMap, Value: kit.Map(core.YISP_SPECIAL_MERGE_KEY+"1", kit.Int(3)).Value}
	}
	return &node{Kind: core.KindInt, Value: "99999999999999999999"}
}

const nContexts = 26

// context puts an expression where it is evaluated exactly once or more.
func context(i int, h *node) *node {
	switch i {
	case 0:
		return kit.List(kit.Int(1), h, kit.Int(2))
	case 1:
		return kit.Map("a", kit.Int(1), "b", h)
	case 2:
		return kit.Map("a", kit.Int(1), core.YISP_SPECIAL_MERGE_KEY+"1", kit.Map("k", h))
	case 3:
		return kit.Map(core.YISP_SPECIAL_MERGE_KEY+"1", kit.List(kit.Map(), kit.Map("k", h)))
	case 4:
		return yisp(kit.Op("??", kit.Int(1), h))
	case 5:
		return yisp(kit.Op("==", h, kit.Int(1)))
	case 6:
		return yisp(kit.Op("progn", h, kit.Int(1)))
	case 7:
		return yisp(kit.Op("&&", kit.Bool(false), h))
	case 8:
		return yisp(kit.Op("||", kit.Bool(true), h))
	case 9:
		return yisp(kit.Op("if", h, kit.Int(1), kit.Int(2)))
	case 10:
		return yisp(kit.Op("if", kit.Bool(true), h, kit.Int(2)))
	case 11:
		return yisp(kit.Op("if", kit.Bool(false), kit.Int(1), h))
	case 12:
		return yisp(kit.List(lambda(h)))
	case 13:
		return yisp(kit.List(lambda(kit.Int(1), "x"), h))
	case 14:
		return yisp(kit.Op("pipeline", kit.Int(1), lambda(h, "x")))
	case 15:
		return yisp(kit.Op("pipeline", kit.Int(1), lambda(h, "x"), lambda(kit.Int(1), "x")))
	case 16:
		return yisp(kit.Op("lists.map", quote(kit.List(kit.Int(1), kit.Int(2))), lambda(h, "x")))
	case 17:
		return yisp(kit.Op("lists.filter", quote(kit.List(kit.Int(1), kit.Int(2))), lambda(h, "x")))
	case 18:
		return yisp(kit.Op("lists.reduce", quote(kit.List(kit.Int(1), kit.Int(2))), lambda(h, "x", "y")))
	case 19:
		return yisp(kit.Op("lists.cons", kit.Int(1), quote(kit.List(h))))
	case 20:
		return yisp(kit.Op("maps.get", kit.Map("a", kit.Int(1), "b", h), kit.Str("a")))
	case 21:
		return quote(kit.List(kit.List(h)))
	case 22:
		h.Anchor = "anchored"
		return kit.Map("x", h, "y", kit.Int(1))
	case 23:
		n := kit.Map("a", h)
		n.Tag = "!T"
		return n
	case 24:
		return yisp(kit.Op("lists.as-toplevel", quote(kit.List(h))))
	}
	return yisp(kit.Op("maps.merge", kit.Map("a", h), kit.Map("a", kit.Int(1))))
}

func env() *core.Env {
	e := core.NewEnv()
	e.Set("m", kit.Map("a", kit.Int(1)))
	e.Set("T", kit.TypeNode(&core.Schema{Type: "object", AdditionalProperties: true}))
	return e
}

func eval(n *node) (*node, error) {
	return engine.NewEngine(engine.Options{}).Eval(n, env(), core.EvalModeQuote)
}

// Check_Contexts: each of 16 failing expressions in each of 26 contexts and in each pair of them (quick: pairs for 4 of the
// expressions): always an error; a working expression there: never (list contexts may be refused by operators that want something else).
//
//verif:weight=3
func Check_Contexts() {
	outer, inner := nd.Choice(nContexts+1), nd.Choice(nContexts)
	n := 4
	if outer == nContexts || nd.Thorough() {
		n = nFails
	}
	f := nd.Choice(n + 1)
	h := kit.Int(7)
	if f < n {
		h = failing(f)
	}
	p := context(inner, h)
	if outer < nContexts {
		p = context(outer, p)
	}
	r, err := eval(p)
	if f < n {
		nd.Assert(err != nil, "a failing expression did not make the evaluation fail")
		nd.Assert(r == nil, "an error comes with a value")
	} else if outer == nContexts && err != nil {
		nd.Assert(false, "a working program failed")
	} else {
		nd.Assert((r == nil) == (err != nil), "neither a value nor an error")
	}
}

// Check_Unevaluated: the same failing expressions where they are not evaluated - the branch not taken, the body of a
// function nobody calls, callbacks on an empty list - are no failure.
func Check_Unevaluated() {
	h := failing(nd.Choice(nFails))
	var n *node
	switch nd.Choice(6) {
	case 0:
		n = yisp(kit.Op("if", kit.Bool(true), kit.Int(7), h))
	case 1:
		n = yisp(kit.Op("if", kit.Bool(false), h, kit.Int(7)))
	case 2:
		n = yisp(kit.Op("progn", lambda(h), kit.Int(7)))
	case 3:
		n = yisp(kit.Op("progn", kit.Op("lists.map", quote(kit.List()), lambda(h, "x")), kit.Int(7)))
	case 4:
		n = yisp(kit.Op("lists.reduce", quote(kit.List(kit.Int(7))), lambda(h, "x", "y")))
	default:
		n = yisp(kit.Op("progn", kit.Op("lists.filter", quote(kit.List()), lambda(h, "x")), kit.Int(7)))
	}
	r, err := eval(n)
	nd.Assert(err == nil && kit.Same(r, kit.Int(7)), "an expression that is not evaluated made the run fail")
}

// Check_Arguments: every operator with a failing expression as its 1st, 2nd or 3rd argument among arguments of 6 shapes fails.
func Check_Arguments() {
	op := kit.Pure[nd.Choice(len(kit.Pure))]
	args := make([]*node, 1+nd.Choice(nd.Size(2, 3)))
	k := nd.Choice(len(args))
	for i := range args {
		if i == k {
			args[i] = failing(nd.Choice(2))
		} else {
			args[i] = kit.Shape([]int{0, 1, 2, 3, 4, 8}[nd.Choice(6)])
			if args[i].Kind == core.KindArray {
				quote(args[i])
			}
		}
	}
	r, err := kit.Eval(kit.Op(op, args...), core.NewEnv())
	nd.Assert(err != nil && r == nil, "an operator ignored an argument that failed")
}

// Check_Callbacks: a callback that fails for some elements only: lists.map, lists.filter and lists.reduce over a list of up to
// 3 (thorough 4) arbitrary integers fail exactly if one of them is zero, wherever it is, alone or inside another call.
//
//verif:weight=2
func Check_Callbacks() {
	nodes, vals := kit.Ints(nd.Choice(nd.Size(4, 5)))
	zero := false
	for _, v := range vals {
		if v == 0 {
			zero = true
		}
	}
	div := kit.Op("/", kit.Int(100), kit.Sym("x"))
	body := []*node{
		div,
		quote(kit.List(kit.Int(1), yisp(kit.Op("/", kit.Int(100), kit.Sym("x"))))),
		kit.Map("k", yisp(kit.Op("/", kit.Int(100), kit.Sym("x")))),
		kit.List(lambda(kit.Sym("y"), "y"), div),
		kit.Op("pipeline", kit.Sym("x"), lambda(kit.Op("/", kit.Int(100), kit.Sym("z")), "z")),
		kit.Op("lists.map", quote(kit.List(kit.Int(1), kit.Sym("x"))), lambda(kit.Op("/", kit.Int(1), kit.Sym("e")), "e")),
	}[nd.Choice(6)]
	list := quote(kit.List(nodes...))
	var n *node
	switch nd.Choice(4) {
	case 0:
		n = kit.Op("lists.map", list, lambda(body, "x"))
	case 1:
		n = kit.Op("lists.filter", list, lambda(body, "x"))
	case 2:
		n = kit.Op("lists.reduce", quote(kit.List(append([]*node{kit.Int(1)}, nodes...)...)), lambda(body, "acc", "x"))
	default:
		n = kit.Op("lists.length", kit.Op("lists.filter", kit.Op("lists.map", list, lambda(body, "x")), lambda(kit.Bool(true), "y")))
	}
	r, err := kit.Eval(n, core.NewEnv())
	nd.Assert((err != nil) == zero, "the run fails exactly if the callback fails for an element")
	nd.Assert((r == nil) == (err != nil), "neither a value nor an error")
}

// Check_Streams: a failing expression in any of 3 documents of a program makes the program fail with no output at all;
// without one the output has every document. The same if the program is included or imported by another, or by an included one.
func Check_Streams() {
	bad := nd.Choice(4)
	text := ""
	for i := 0; i < 3; i++ {
		d := "k: 1\n"
		if i == bad {
			d = []string{"k: !yisp [/, 1, 0]\n", "*nope\n", "k: [*nope ]\n", "!yisp [nope]\n", "- {<<: 3}\n", "{[a]: b}\n", "k: \"unterminated\n"}[nd.Choice(7)]
		}
		text += d + "---\n"
	}
	main := text
	nd.WriteFile("inner.yisp", text)
	nd.WriteFile("middle.yisp", "x: !yisp [include, inner.yisp]\n")
	nd.WriteFile("mod.yisp", "!yisp [import, [m, inner.yisp]]\n")
	how := nd.Choice(7)
	switch how {
	case 1:
		main = "!yisp [include, inner.yisp]\n"
	case 2:
		main = "a: 1\n---\nb: !yisp [include, middle.yisp]\n"
	case 3:
		main = "!yisp [import, [m, inner.yisp]]\n---\nk: 1\n---\nk: 1\n---\nk: 1\n"
	case 4:
		main = "!yisp [import, [m, mod.yisp]]\n---\nk: 1\n---\nk: 1\n---\nk: 1\n"
	case 5:
		main = "!yisp [lists.map, !quote [inner.yisp], [lambda, [f], [include, *f ]]]\n"
	case 6:
		main = "a: !yisp [if, [include, inner.yisp], 1, 2]\n"
	}
	p := nd.WriteFile("main.yisp", main)
	e := engine.NewEngine(engine.Options{})
	var out string
	var err error
	if nd.Choice(2) == 1 {
		out, err = e.EvaluateFileToYaml(p)
	} else {
		out, err = e.EvaluateReaderToYaml(strings.NewReader(main), p)
	}
	if bad < 3 {
		nd.Assert(err != nil, "a failing document did not make the run fail")
		nd.Assert(out == "", "a failing run has output")
		return
	}
	nd.Assert(err == nil, "the run failed")
	switch how {
	case 0, 1, 3, 4:
		nd.Assert(out == "k: 1\n---\nk: 1\n---\nk: 1\n", "a document is missing")
	}
}

// Check_Included: a data file that cannot be read as what it is called makes the run fail: include of each of 10 files, and
// of a list of a good and a bad one, and of a pattern that matches both.
func Check_Included() {
	files := []string{"bad.json", "bad.yaml", "bad.yml", "trail.json", "missing.yaml", "missing.json", "missing.txt", "key.yaml", "alias.yaml", "b.yisp"}
	nd.WriteFile("bad.json", "{\"a\": }")
	nd.WriteFile("bad.yaml", "a: [1\n")
	nd.WriteFile("bad.yml", "a: b: c\n")
	nd.WriteFile("trail.json", "{} x")
	nd.WriteFile("key.yaml", "[a]: b\n")
	nd.WriteFile("alias.yaml", "a: *nope\n")
	nd.WriteFile("b.yisp", "- !yisp [/, 1, 0]\n")
	nd.WriteFile("good.json", "{\"a\": 1}")
	f := files[nd.Choice(len(files))]
	var main string
	switch nd.Choice(5) {
	case 0:
		main = "!yisp [include, " + f + "]\n"
	case 1:
		main = "!yisp [include, good.json, " + f + "]\n"
	case 2:
		main = "!yisp [include, " + f + ", good.json]\n"
	case 3:
		main = "- 1\n- k: !yisp [lists.length, [include, " + f + "]]\n"
	default:
		if strings.HasPrefix(f, "missing") {
			f = "trail.json"
		}
		main = "!yisp [include, \"{good.json," + f + "}\"]\n"
	}
	p := nd.WriteFile("main.yisp", main)
	out, err := engine.NewEngine(engine.Options{}).EvaluateFileToYaml(p)
	nd.Assert(err != nil && out == "", "a file that cannot be read did not make the run fail")
}

// Check_Output: a value that cannot be printed or violates its type makes the run fail with no output, whichever
// document it is in.
func Check_Output() {
	k := nd.Choice(3)
	text := "!yisp &T [schema, {type: object, properties: {n: {type: integer, maximum: 5}}}]\n"
	n := nd.Int()
	for i := 0; i < 3; i++ {
		v := "0"
		if i == k {
			v = "*n "
		}
		text += "---\n!yisp [maps.merge, !T {n: 1}, {n: " + v + "}]\n"
	}
	e := engine.NewEngine(engine.Options{})
	env := core.NewEnv()
	nd.Assume(n == 5 || n == 6)
	env.Set("n", kit.Int(n))
	out, err := e.EvaluateReaderToYamlWithEnv(strings.NewReader(text), env, "main.yisp")
	nd.Assert((err != nil) == (n > 5), "the output has a value that violates its type")
	nd.Assert((out == "") == (err != nil), "a failing run has output")
}

// Check_Long: one failing expression at the start, in the middle or at the end of 30 documents, list elements, map entries, function calls over a list, operator
// arguments, nested calls or included files makes the run fail; a symbolic divisor decides whether it fails.
func Check_Long() {
	n := 30
	at := []int{0, 14, n - 1}[nd.Choice(3)]
	d := nd.StringOf("012", 1, 1)
	text := ""
	one := func(i int) string {
		if i == at {
			return "[/, 6, " + d + "]"
		}
		return "[+, 1, 2]"
	}
	switch nd.Choice(7) {
	case 0:
		for i := 0; i < n; i++ {
			text += "k: !yisp " + one(i) + "\n---\n"
		}
	case 1:
		for i := 0; i < n; i++ {
			text += "- !yisp " + one(i) + "\n"
		}
	case 2:
		for i := 0; i < n; i++ {
			text += "k" + string(rune('A'+i)) + ": !yisp " + one(i) + "\n"
		}
	case 3:
		l := ""
		for i := 0; i < n; i++ {
			v := "1"
			if i == at {
				v = d
			}
			l += ", " + v
		}
		op := []string{"lists.map", "lists.filter"}[nd.Choice(2)]
		text = "!yisp [" + op + ", !quote [" + l[2:] + "], [lambda, [x], [/, 6, *x ]]]\n"
	case 4:
		text = "!yisp [+"
		for i := 0; i < n; i++ {
			text += ", " + one(i)
		}
		text += "]\n"
	case 5:
		text = one(at)
		for i := 0; i < n/2; i++ {
			text = "[+, 1, " + text + "]"
		}
		text = "!yisp " + text + "\n"
	case 6:
		for i := 0; i < 12; i++ {
			name := "f" + string(rune('a'+i)) + ".yisp"
			nd.WriteFile(name, "k: !yisp "+one(i*(n-1)/11)+"\n")
			if i == 6 {
				nd.WriteFile(name, "k: !yisp "+one(at)+"\n")
			}
			text += ", " + name
		}
		text = "!yisp [include" + text + "]\n"
	}
	out, err := engine.NewEngine(engine.Options{}).EvaluateFileToYaml(nd.WriteFile("main.yisp", text))
	nd.Assert((err != nil) == (d == "0"), "a failing part of a large program does not make the run fail, or another one does")
	nd.Assert(err == nil || out == "", "a failing run has output")
}

// Check_Unknown: an operator that does not exist is a failure, with 1 to 3 arguments of 4 kinds: the name of an existing one with an arbitrary letter, digit or mark before it or after it,
// with a further part after it or before it, with the parts of another one, or without its last letter.
func Check_Unknown() {
	ops := append([]string{}, kit.Pure...)
	ops = append(ops, "if", "lambda", "include", "import", "env", "typedef", "error")
	op := kit.Pure[nd.Choice(len(kit.Pure))]
	name := ""
	switch nd.Choice(7) {
	case 0:
		name = op + nd.StringOf("az09-_~", 1, 1)
	case 1:
		name = nd.StringOf("az09-_~", 1, 1) + op
	case 2:
		name = op + "." + nd.StringOf("az", 0, 1)
	case 3:
		name = nd.StringOf("az", 0, 1) + "." + op
	case 4:
		name = op + "." + []string{"add", "lists.car", "of"}[nd.Choice(3)]
	case 5:
		name = []string{"lists", "maps", "types", "k8s", "yaml"}[nd.Choice(5)] + "." + op
	default:
		name = op[:len(op)-1]
	}
	for _, k := range ops {
		nd.Assume(name != k)
	}
	arg := []*node{kit.Int(1), quote(kit.List(kit.Int(1))), kit.Map("k", kit.Int(1)), kit.Str("s")}[nd.Choice(4)]
	args := []*node{arg, kit.Int(0), kit.Int(0)}[:1+nd.Choice(3)]
	r, err := eval(yisp(kit.Op(name, args...)))
	nd.Assert(err != nil && r == nil, "an operator that does not exist is applied")
}
