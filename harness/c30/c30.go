// Package c30: source maps and evaluation traces never change the data.
// The oracle is the same evaluation without the option.
package c30

import (
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/yaml"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

var (
	plain  = engine.Options{}
	mapped = engine.Options{RenderSources: true}
	traced = engine.Options{ShowTrace: true}
	both   = engine.Options{ShowTrace: true, RenderSources: true}
)

// documents reads the printed text.
func documents(text string) ([]*node, bool) {
	r, err := kit.Call("yaml.unmarshal", kit.Str(text))
	if err != nil {
		return nil, false
	}
	return kit.Items(r)
}

// alike decides whether both texts have the same data. Comments are lost on the way, so the texts are compared without them.
func alike(a, b string) {
	if a == b {
		nd.Assert(true, "")
		return
	}
	d1, ok := documents(a)
	nd.Assume(ok)
	d2, ok := documents(b)
	nd.Assert(ok, "the output with the option cannot be read")
	nd.Assert(len(d1) == len(d2), "the option changes the number of documents")
	for i := range d1 {
		nd.Assert(kit.Same(d1[i], d2[i]), "the option changes the data")
	}
}

// placed decides whether every comment with the marker, the beginning of a position, is one to every reader of YAML: the # stands
// behind a blank, and nothing but the rest of the line follows.
func placed(text, marker string) {
	for i := 0; ; {
		j := strings.Index(text[i:], marker)
		if j < 0 {
			return
		}
		i += j
		line := text[strings.LastIndexByte(text[:i], '\n')+1 : i]
		at := strings.LastIndex(line, "#")
		nd.Assert(at == 0 || at > 0 && (line[at-1] == ' ' || strings.Contains(line[:at], " #")), "a source comment is not separated from what it is behind")
		i += len(marker)
	}
}

// stripped is the text without source comments.
func stripped(text string, comments ...string) string {
	for _, c := range comments {
		text = strings.ReplaceAll(text, " # "+c, "")
	}
	return text
}

// evaluate evaluates main.yisp and returns the printed text, and what was written to standard output.
func evaluate(o engine.Options, env *core.Env) (text string, failure string, trace string) {
	trace = nd.Stdout(func() {
		t, err := engine.NewEngine(o).EvaluateFileToYamlWithEnv(nd.Dir()+"/main.yisp", env)
		text = t
		if err != nil {
			failure = err.Error()
		}
	})
	return
}

var programs = []string{
	// values that come from several places
	"a: !yisp &x [progn, *s ]\nb: [*x , 1]\nc: *x \n",
	"!yisp [strings.concat, *s , b]\n---\nk: !yisp [strings.concat, *s , *s ]\n",
	"a: !yisp [maps.merge, {x: 1, y: !quote [1]}, {y: !quote [2], z: *s }]\n",
	"!yisp [lists.map, !quote [1, 2], [lambda, [v], {k: *v , s: *s }]]\n",
	"!yisp [lists.reduce, !quote [1, 2, 3], [lambda, [v, w], [+, *v , *w ]]]\n",
	"- !yisp [if, *b , {a: *i }, [progn, *s ]]\n- !yisp [lists.at, !quote [1, 2], *i ]\n",
	"&f !yisp [lambda, [v], {a: *v , b: [lists.cons, *v , [lists.cdr, !quote [1, 2]]]}]\n---\nk:\n  - !yisp [*f , *i ]\n  -\n    - !yisp [*f , *s ]\n",
	"a: &m {x: 1, y: *s }\nb:\n  <<: *m \n  z: 2\n",
	// blocks, empty collections and styles
	"a: |\n  x\n  y\nb: >-\n  x\n  y\nc: 'it''s'\nd: \"q\\n\"\ne: {}\nf: []\ng: {h: {}, i: [[], {}]}\n",
	"- - 1\n  - - 2\n- k:\n    - {a: 1, b: [1, 2]}\n    - ~\n  l:\n- |2+\n   x\n\n- ''\n",
	// comments
	"# head\na: 1 # line\n# foot\n\nb: # key\n  - x # item\n  # end\nc: {d: 1} # flow\n",
	"# only\n- 1 # one\n\n# two\n- 2\n---\n# next\nx: | # bar\n  text\n",
	// files
	"!yisp [include, part.yisp]\n---\nk: !yisp [include, part.yisp, data.yaml]\n",
	"!yisp [import, [m, part.yisp]]\n---\na: *m.q \nb: !yisp [*m.fn , *i ]\n",
	"!yisp [files.glob, \"*.txt\"]\n---\n!yisp [files.read, a.txt]\n",
	// functions, types, missing names and modules
	"a: &t !yisp [schema, {type: string}]\nb: !t x\nf: !yisp [lambda, [v], *v ]\ng: *nope?\n---\n!yisp [types.of, *t ]\n",
	"!yisp [import, [m, part.yisp]]\n---\na: !yisp [if, *m , 1, 2]\nb: !yisp [progn, *m , *i ]\n",
	"&g !yisp [lambda, [h, v], [*h , *v ]]\n---\n!yisp [*g , [lambda, [w], [mul, 2, *w ]], *i ]\n---\n!yisp [pipeline, *i , [lambda, [v], [*g , [lambda, [w], *w ], *v ]]]\n",
	"!yisp [progn, !quote [+, 1, [nope]], [yaml.unmarshal, [yaml.marshal, {a: *s , b: .nan}]]]\n",
	"!yisp\n- \"==\"\n- *i \n- {a: 1, \"b c\": .inf, ? d : 0x10}\n",
	// functions in functions, recursion, quoted expressions, deep data
	"&c !yisp [lambda, [p], [lambda, [q], [lambda, [r], [lambda, [t], [strings.concat, *s , *r , [if, *q , *p , *t ]]]]]]\n---\nk: !yisp [[[[*c , x], *b ], y], *s ]\n",
	"&fact !yisp [lambda, [n], [if, [<=, *n , 0], 1, [mul, *n , [*fact , [-, *n , 1]]]]]\n---\n!yisp [lists.map, [lists.iota, 4], *fact ]\n",
	"!yisp [[lambda, [p], [lists.map, !quote [1, 2], [lambda, [q], [lists.reduce, !quote [3, 4], [lambda, [r, t], [+, *r , *t , *q , *p ]]]]]], *i ]\n",
	"a: {b: {c: [{d: [{e: !yisp [progn, {f: [lists.cons, *s , !quote [!yisp [+, *i , 1], [*s ]]]}]}]}]}}\n",
	// failures
	"!yisp [+, 1, *s ]\n",
	"a: [*nope ]\n",
	"!yisp [/, 1, *i ]\n",
	"!yisp [[lambda, [!int v], *v ], *s ]\n",
}

// program writes main.yisp, one of the programs, and the files it uses.
func program() *core.Env {
	nd.WriteFile("part.yisp", "&q 1 # quux\n---\n&fn !yisp [lambda, [v], {r: *v , s: !quote [1, {}]}]\n---\nk: [a, b]\n")
	nd.WriteFile("data.yaml", "a: 1\n# c\nb:\n  - x\n")
	nd.WriteFile("a.txt", "text\n")
	nd.WriteFile("main.yisp", programs[nd.Choice(len(programs))])
	i, b, s := kit.Int(nd.IntRange(0, 2)), kit.Bool(nd.Bool()), kit.Str(nd.StringOf("a\n#:", 0, nd.Size(1, 2)))
	if nd.Bool() {
		s.Attr.Sources = []core.FilePos{{File: "/x/y.yisp", Line: 1, Column: 2}, {File: "z", Line: 3, Column: 4}}
	}
	env := core.NewEnv()
	env.Set("i", i)
	env.Set("b", b)
	env.Set("s", s)
	return env
}

func copyOf(env *core.Env) *core.Env {
	e := core.NewEnv()
	for _, name := range []string{"i", "b", "s"} {
		v, _ := env.Get(name)
		e.Set(name, kit.Copy(v))
	}
	return e
}

// Check_Programs evaluates 28 programs (including, importing, calling, merging, failing ones; all styles and comments) with
// symbolic variables without options, with the trace, with source maps and with both: the printed data and the error are the same,
// and nothing but the trace goes to standard output.
//
//verif:weight=5
func Check_Programs() {
	env := program()
	text, failure, out := evaluate(plain, copyOf(env))
	nd.Assert(out == "", "something is written to standard output")
	switch nd.Choice(3) {
	case 0:
		t, f, out := evaluate(traced, env)
		nd.Assert(f == failure, "the trace changes the error")
		nd.Assert(t == text, "the trace changes the text")
		nd.Assert(strings.Contains(out, "EVAL: "), "there is no trace")
	case 1:
		t, f, out := evaluate(mapped, env)
		nd.Assert(f == failure, "the source map changes the error")
		nd.Assert(out == "", "something is written to standard output")
		alike(text, t)
		placed(t, "main.yisp:")
	case 2:
		t, f, _ := evaluate(both, env)
		nd.Assert(f == failure, "the options change the error")
		alike(text, t)
	}
}

// Check_Any renders symbolic values (any scalars, lists, maps, functions, of depth 1; 2 in the thorough run) with sources, in block
// and flow style, with and without source maps.
//
//verif:weight=4
func Check_Any() {
	v := value(nd.Size(1, 2))
	dress(v)
	if nd.Bool() {
		v = kit.List(v, kit.Str("e"))
	} else {
		v = kit.Map("k", v, "l", kit.Str("e"))
	}
	if nd.Bool() {
		v.Attr.Style = yaml.FlowStyle
	}
	same(v)
}

// value is a value of any kind; numbers are few, their digits do not matter here.
func value(depth int) *node {
	switch k := nd.Choice(7); {
	case k == 0:
		return kit.Str(nd.StringOf("a\n-#:", 0, 2))
	case k == 1:
		return []*node{kit.Null(), kit.Int(-7), kit.Float(0.5), kit.Bool(true)}[nd.Choice(4)]
	case k == 2:
		l := kit.List()
		for n := nd.Choice(3); n > 0 && depth > 0; n-- {
			l = kit.List(append([]*node{value(depth - 1)}, children(l)...)...)
		}
		return l
	case k == 3:
		kv := []any{}
		for n := nd.Choice(3); n > 0 && depth > 0; n-- {
			kv = append(kv, []string{"", "x", "y: z"}[n], value(depth-1))
		}
		return kit.Map(kv...)
	case k == 4:
		return kit.Lambda("p")
	case k == 5:
		return kit.TypeNode(&core.Schema{Type: "string"})
	}
	return kit.Sym("s")
}

func children(n *node) []*node {
	items, _ := kit.Items(n)
	return items
}

func dress(n *node) {
	n.Attr.Sources = []core.FilePos{{File: "/a/b.yisp", Line: nd.IntRange(0, 3), Column: 1}}
	if items, ok := kit.Items(n); ok && n.Kind == core.KindArray {
		for _, i := range items {
			dress(i)
		}
	}
	if n.Kind == core.KindMap {
		entries, _ := kit.Entries(n)
		for _, e := range entries {
			dress(e.V)
		}
	}
	if (n.Kind == core.KindArray || n.Kind == core.KindMap) && nd.Bool() {
		n.Attr.Style = yaml.FlowStyle
	}
}

func same(v *node) {
	root := kit.List(v, kit.Str("end"))
	root.IsDocumentRoot = true
	a, err1 := engine.NewEngine(plain).Render(root)
	b, err2 := engine.NewEngine(mapped).Render(root)
	nd.Assert((err1 == nil) == (err2 == nil), "the source map makes a failure")
	if err1 == nil {
		alike(a, b)
		if n := v.Attr.Sources; len(n) > 0 && n[0].File == "f" {
			placed(b, "f:1:1")
			flow := v.Attr.Style == yaml.FlowStyle
			if !flow && !strings.Contains(a, "# c") {
				nd.Assert(stripped(b, "f:1:1, g:2:2", "f:1:1") == a, "the source map changes more than comments")
			}
		}
	}
}

// Check_Scalars renders a string over an alphabet of special characters in all styles, in lists and maps in block and flow style,
// as a key, and with a comment, each with sources.
//
//verif:weight=4
func Check_Scalars() {
	n := kit.Str(nd.StringOf("a \n#:-\"'|", 0, nd.Size(2, 3)))
	n.Attr.Style = []yaml.Style{0, yaml.DoubleQuotedStyle, yaml.SingleQuotedStyle, yaml.LiteralStyle, yaml.FoldedStyle, yaml.TaggedStyle}[nd.Choice(6)]
	n.Attr.Sources = []core.FilePos{{File: "f", Line: 1, Column: 1}}
	n.Attr.LineComment = []string{"", "# c"}[nd.Choice(2)]
	var v *node
	switch nd.Choice(5) {
	case 0:
		v = n
	case 1:
		v = kit.List(n, kit.Int(1))
	case 2:
		v = kit.Map("k", n, "l", kit.Int(1))
	case 3:
		v = kit.Map("k", kit.List(n))
	case 4:
		n.Attr.KeyStyle, n.Attr.Style = n.Attr.Style, 0
		v = kit.Map(n.Value.(string), n, "l l", kit.Int(1))
		n.Value = "v"
	}
	if v != n && nd.Bool() {
		v.Attr.Style = yaml.FlowStyle
	}
	v.Attr.Sources = []core.FilePos{{File: "f", Line: 1, Column: 1}, {File: "g", Line: 2, Column: 2}}
	same(v)
}

// Check_FileNames: names of source files are arbitrary (symbolic bytes up to length 2, with a working directory elsewhere).
//
//verif:weight=2
func Check_FileNames() {
	n := kit.Int(1)
	file := nd.StringOf("a/ #:\n\r\t-\"'{", 0, 2)
	if nd.Bool() {
		file = nd.Dir() + "/" + file
	}
	n.Attr.Sources = []core.FilePos{{File: file, Line: 1, Column: 1}}
	if nd.Bool() {
		n.Attr.Sources = append(n.Attr.Sources, n.Attr.Sources[0])
	}
	m := kit.Map("k", n, "l", kit.List(n), "m", kit.List())
	entries, _ := kit.Entries(m)
	entries[1].V.Attr.Sources, entries[2].V.Attr.Sources = n.Attr.Sources, n.Attr.Sources
	if nd.Bool() {
		m.Attr.Style = yaml.FlowStyle
	}
	same(m)
}

// Check_Trace: tracing an expression of any form (any tree of depth 1, 2 in the thorough run, evaluated as code or as data, in an
// environment with symbolic variables) gives the same result as evaluating it.
//
//verif:weight=3
func Check_Trace() {
	v := kit.Any(nd.Size(1, 2))
	k := nd.Choice(nd.Size(5, 8))
	v.Tag = []string{"", "!yisp", "!quote", "!string", "!yisp", "", "!quote", "!string"}[k]
	v.Anchor = []string{"", "x", "", "x", "", "x", "x", ""}[k]
	w := kit.Copy(v)
	env := func() *core.Env {
		e := core.NewEnv()
		e.Set("a", kit.Int(1))
		e.Set("m", &node{Kind: core.KindMap, Value: core.NewEnv().Vars})
		return e.CreateChild()
	}
	mode := []core.EvalMode{core.EvalModeQuote, core.EvalModeEval}[nd.Choice(2)]
	r1, err1 := engine.NewEngine(plain).Eval(v, env(), mode)
	var r2 *node
	var err2 error
	nd.Stdout(func() { r2, err2 = engine.NewEngine(traced).Eval(w, env(), mode) })
	nd.Assert((err1 == nil) == (err2 == nil), "the trace makes an evaluation fail or succeed")
	if err1 == nil {
		nd.Assert(r1.Kind == r2.Kind && (r1.Kind > core.KindMap || kit.Same(r1, r2)), "the trace changes the result")
	}
}

// Check_Long: a map of 24 keys, a list of 24 items, a value nested 12 deep or texts of 300 bytes, with up to 6 sources each, of which the first, a middle or the last one has a symbolic
// text, and a program of 12 documents and 12 nested calls, are the same data with source maps, with a trace and without them.
func Check_Long() {
	at := []int{0, 11, 23}[nd.Choice(3)]
	s := nd.StringOf("a\n#: ", 0, 1)
	leaf := func(i int) *node {
		n := []*node{kit.Int(i), kit.Str("t"), kit.List(), kit.Map("k", kit.Int(i)), kit.Null()}[i%5]
		if i == at {
			n = kit.Str("x" + s)
		}
		for j := 0; j < 1+i%6; j++ {
			n.Attr.Sources = append(n.Attr.Sources, core.FilePos{File: "f" + string(rune('a'+j)), Line: i + 1, Column: j + 1})
		}
		return n
	}
	var v *node
	switch nd.Choice(5) {
	case 0:
		var kv []any
		for i := 0; i < 24; i++ {
			kv = append(kv, "k"+string(rune('a'+i)), leaf(i))
		}
		v = kit.Map(kv...)
	case 1:
		var l []*node
		for i := 0; i < 24; i++ {
			l = append(l, leaf(i))
		}
		v = kit.List(l...)
	case 2:
		v = leaf(at)
		for i := 0; i < 12; i++ {
			if i%3 == 0 {
				v = kit.List(leaf(i), v)
			} else {
				v = kit.Map("a", leaf(i), "b", v)
			}
			v.Attr.Sources = []core.FilePos{{File: "g", Line: i + 1, Column: 1}}
		}
	case 3:
		long := strings.Repeat("word ", 60)
		v = kit.List(kit.Str(long+s), kit.Map("k", kit.Str(s+long)), kit.Str(long[:200]+"\n"+s+"\n"+long), kit.Str(long+s+"end"))
		for i, x := range children(v) {
			x.Attr.Sources = []core.FilePos{{File: "g", Line: i + 1, Column: 1}}
		}
	default:
		text := "&f !yisp [lambda, [v], " + strings.Repeat("[progn, ", 12) + "*v " + strings.Repeat("]", 12) + "]\n"
		for i := 0; i < 12; i++ {
			text += "---\nk" + string(rune('a'+i)) + ": !yisp [*f , *s ] # c\n"
		}
		nd.WriteFile("main.yisp", text)
		env := core.NewEnv()
		env.Set("s", kit.Str("x"+s))
		plainText, failure, _ := evaluate(plain, env)
		o := []engine.Options{traced, mapped, both}[nd.Choice(3)]
		t, f, _ := evaluate(o, env)
		nd.Assert(f == failure, "an option changes the error")
		alike(plainText, t)
		return
	}
	if nd.Bool() {
		v.Attr.Style = yaml.FlowStyle
	}
	same(v)
}
