// Package c28: errors name the place that caused them.
// Programs are put together from expressions that fail at a marked place and from contexts around them; the mark gives the
// line and column that the root cause of the error must have.
package c28

import (
	"strconv"
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

// Expressions that fail. § marks the offending expression.
var failing = []string{
	// a symbol or function that does not exist
	"[+, 1, §*nope ]",
	"[progn, §*nope ]",
	"[+, 1, §*nope.a ]",
	"[§nope, 1]",
	"[§lists.nope, 1]",
	"[§nope.at, 1]",
	"[§1, 2]",
	"[§{a: 1}, 2]",
	// operands of a wrong kind
	"[+, 1, §\"x\"]",
	"[-, §\"x\", 1]",
	"[\"*\", 1, 2, §null]",
	"[/, 1, §true]",
	"[/, 1, §0]",
	"[<, 1, §\"x\"]",
	"[\">=\", §\"x\", 2]",
	"[strings.concat, a, §1]",
	"[strings.toUpper, §1]",
	"[strings.split, §1, a]",
	"[strings.join, !quote [§1], a]",
	"[lists.car, §!quote []]",
	"[lists.cdr, §1]",
	"[lists.cons, 1, §2]",
	"[lists.at, !quote [1, 2], §2]",
	"[lists.at, !quote [1, 2], §-1]",
	"[lists.at, §a, 0]",
	"[lists.map, §1, [lambda, [v], 1]]",
	"[lists.iota, §a]",
	"[maps.get, §1, a]",
	"[maps.keys, §!quote [1]]",
	"§[types.get, 1, 2]",
	"[include, §1]",
	"[include, §nope.yisp]",
	"[files.read, §nope.txt]",
	"[schema, §1]",
	"[yaml.unmarshal, §1]",
	// a wrong number of operands
	"§[==, 1]",
	"§[\"!\"]",
	"§[lists.at, !quote [1]]",
	"§[strings.toUpper]",
	"§[[lambda, [v], 1], 1, 2]",
	"[§if, true, 1]",
	"[§lambda, [v]]",
	// functions
	"[lambda, [§!nope v], 1]",
	"[lambda, [§[a]], 1]",
	"[[lambda, [!int v], 1], §a]",
	"[[lambda, [v], [+, *v , §a]], 1]",
	"[lists.map, !quote [1], [lambda, [v], [+, *v , §a]]]",
	"[lists.map, !quote [1], §nope]",
	"[lists.filter, !quote [1], [lambda, [v], [lists.car, §!quote []]]]",
	"[lists.reduce, !quote [1, 2], [lambda, [v, w], §*nope ]]",
	"[pipeline, 1, [lambda, [v], 2], [lambda, [v], [+, *v , §a]]]",
	"[pipeline, 1, §nope]",
	"[import, §[m, nope.yisp]]",
	"[import, §[m]]",
	// casts and merges
	"§!int a",
	"[progn, !string [progn, §1]]",
	"{a: 1, <<: §1}",
	// computed operands are located at the expression around them
	"[+, 1, §[strings.concat, a, b]]",
	"[progn, [lists.car, §[lists.cdr, !quote [1]]]]",
	// parts of computed operands are located at the expression that uses them
	"§[strings.join, [lists.iota, 3], a]",
	"[lists.map, [lists.iota, 3], §strings.toUpper]",
	"[lists.map, [lists.iota, 3], §[lambda, [!string v], 1]]",
	"§[maps.from-entries, [lists.map, [lists.iota, 2], [lambda, [v], [lists.iota, 2]]]]",
	"[maps.from-entries, §[lists.iota, 2]]",
	"[maps.make, §[+, 1, 2], 3]",
	"[maps.patch, [maps.make, a, 1], §[maps.make, op, add]]",
	"§[k8s.patch, [lists.iota, 2], [lists.iota, 1]]",
	"[lists.at, [lists.iota, 2], §[+, 1, 3]]",
	"[lists.reduce, [lists.iota, 3], §strings.concat]",
	"[types.assert, *int , §[strings.concat, a]]",
	"[types.assert, §1, 1]",
	"[yaml.unmarshal, §[strings.concat, \"[\", a]]",
	"[strings.replace, a, b, §[+, 1, 1]]",
	"[maps.patch, !quote {a: 1}, !quote [§{op: replace, path: /b, value: 1}]]",
	"[maps.patch, !quote {a: 1}, !quote [{op: add, path: §[x], value: 1}]]",
	"[maps.patch, !quote {a: 1}, !quote [{op: §1, path: /x, value: 1}]]",
	"[maps.make, a, 1, §b]",
	"[strings.replace, a, §1, b]",
	"[maps.merge, 1, [/, 1, §[-, 1, 1]]]",
}

// Contexts inside an expression. % is the place of the expression.
var inner = []string{
	"%",
	"[progn, 1, %]",
	"[if, %, 1, 2]",
	"[if, true, %, 2]",
	"[if, false, 1, %]",
	"{k: %}",
	"{k: 1, <<: %}",
	"[[lambda, [q], %], 1]",
	"[[lambda, [q], 1], %]",
	"[lists.map, !quote [1], [lambda, [q], %]]",
	"[pipeline, %, [lambda, [q], 1]]",
	"[lists.cons, %, !quote []]",
	"[progn, !quote [1, !yisp %]]",
	"[default, null, %]",
	"[\n    progn, # note\n    1,\n\n   % ]",
}

// Contexts of a document. The first one stands for block style.
var outer = []string{
	"!yisp\n- progn\n- %\n",
	"!yisp %\n",
	"k: !yisp %\n",
	"- 1\n-  !yisp %\n",
	"a: 1\nb:\n    - c:\n        !yisp %\n",
	"1\n---\n!yisp %\n",
	"# note\n\n!yisp &x %\n",
	"&f !yisp [lambda, [p], %]\n---\n!yisp [*f , 1]\n",
	"&f !yisp [lambda, [p], %]\n---\n&g !yisp [lambda, [p], [*f , *p ]]\n---\nk: !yisp [lists.map, !quote [1], *g ]\n",
	"<<: !yisp %\n",
}

// place puts the expression into the context. A value that begins with a tag or !yisp itself is not put behind another tag.
func place(context, expr string) string { return strings.Replace(context, "%", expr, 1) }

// mark removes the mark and returns its line and column. An expression begins with its tag and anchor.
func mark(text string) (string, int, int) {
	i := strings.Index(text, "§")
	before, after := text[:i], text[i+len("§"):]
	for {
		last := before[strings.LastIndexAny(before[:max(len(before)-1, 0)], " \n")+1:]
		if !strings.HasSuffix(last, " ") || last[0] != '!' && last[0] != '&' {
			break
		}
		before, after = strings.TrimSuffix(before, last), last+after
	}
	i = len(before)
	return before + after, 1 + strings.Count(before, "\n"), i - strings.LastIndexByte(before, '\n')
}

// located decides whether the error has the root cause at that place, and whether its message says so.
func located(err error, file string, line, column int) {
	nd.Assert(err != nil, "a failing expression is not an error")
	e, ok := err.(*core.ErrorTypeEvaluation)
	nd.Assert(ok, "an error of an expression has no position")
	root := e.GetRoot()
	nd.Assert(root.Node != nil, "the root cause has no position")
	nd.Assert(root.Node.Attr.File() == file, "the root cause is in another file")
	nd.Assert(root.Node.Attr.Line() == line, "the root cause is on another line")
	nd.Assert(root.Node.Attr.Column() == column, "the root cause is in another column")
	where := file + ":" + strconv.Itoa(line) + ":" + strconv.Itoa(column)
	nd.Assert(strings.Contains(err.Error(), where), "the message does not name the place")
}

func run(text string) error {
	path := nd.WriteFile("main.yisp", text)
	_, err := core.CallEngineByPath(path, "", core.NewEnv(), kit.Engine())
	return err
}

// Check_Place decides 80 ways to fail in 10 forms of documents (nested data, several documents, functions of other
// documents), shifted by a symbolic comment of up to 2 bytes.
//
//verif:weight=4
func Check_Place() {
	f := failing[nd.Choice(len(failing))]
	o := outer[nd.Choice(len(outer))]
	nd.Assume(!(strings.HasPrefix(f, "§!") && o != outer[0]))
	text, line, column := mark("#" + nd.StringOf("ab", 0, 2) + "\n" + place(o, f))
	located(run(text), nd.Dir()+"/main.yisp", line, column)
}

// Check_Nested does the same with one or two of 15 contexts in expressions around the failing one.
//
//verif:weight=4
func Check_Nested() {
	f := failing[nd.Choice(len(failing))]
	n := inner[1+nd.Choice(len(inner)-1)]
	o := nd.Choice(2)
	if (o == 0 || nd.Thorough()) && nd.Bool() {
		n = place(inner[nd.Choice(len(inner))], n)
	}
	nd.Assume(!(strings.HasPrefix(f, "§!") && strings.Contains(n, "!yisp %")))
	text, line, column := mark(place(outer[o], place(n, f)))
	located(run(text), nd.Dir()+"/main.yisp", line, column)
}

// Check_Files: the file of an error is the one the expression is in: included, imported (the call is somewhere else) or read by
// a glob.
//
//verif:weight=3
func Check_Files() {
	f := failing[nd.Choice(len(failing))]
	nd.Assume(!strings.HasPrefix(f, "§!"))
	nd.Mkdir("sub")
	text, line, column := mark("# " + nd.StringOf("ab", 0, 2) + "\n" + "k: !yisp [progn, " + f + "]\n")
	main := ""
	switch nd.Choice(5) {
	case 0:
		main = "!yisp [include, sub/f.yisp]\n"
	case 1:
		main = "a: 1\n---\nb: !yisp [lists.map, [include, ./sub/*.yisp], [lambda, [v], 1]]\n"
	case 2:
		main = "!yisp [import, [m, sub/f.yisp]]\n"
	case 3:
		main = "!yisp [include, g.yisp]\n"
		nd.WriteFile("g.yisp", "!yisp [include, sub/f.yisp]\n")
	default:
		text, line, column = mark("&fn !yisp [lambda, [p], " + f + "]\n")
		main = "!yisp [import, [m, sub/f.yisp]]\n---\n- !yisp [*m.fn , 1]\n"
	}
	file := nd.WriteFile("sub/f.yisp", text)
	located(run(main), file, line, column)
}

// Check_Values: which expression fails depends on symbolic values: digits in the text, which are divisors, list positions and
// conditions.
//
//verif:weight=3
func Check_Values() {
	d := func() string {
		c := nd.Byte()
		nd.Assume(c >= '0' && c <= '9')
		return string([]byte{c})
	}
	a, b, c := d(), d(), d()
	text := "!yisp\n- progn\n- [/, 8, @" + a + ", @" + b + "]\n- k: [lists.at, !quote [1, 2, 3], @" + c + "]\n- [if, *cond , [+, 1, @\"x\"], [@nope, 1]]\n"
	at := 3
	cond := nd.Bool()
	switch {
	case a == "0":
		at = 0
	case b == "0":
		at = 1
	case c[0] > '2':
		at = 2
	case !cond:
		at = 4
	}
	parts := strings.SplitAfterN(text, "@", at+2)
	_, line, column := mark(strings.TrimSuffix(strings.ReplaceAll(strings.Join(parts[:at+1], ""), "@", "")+"§", ""))
	text = strings.ReplaceAll(text, "@", "")
	path := nd.WriteFile("main.yisp", text)
	env := core.NewEnv()
	env.Set("cond", kit.Bool(cond))
	_, err := core.CallEngineByPath(path, "", env, kit.Engine())
	located(err, path, line, column)
}

// Check_Message: the message of an error at a symbolic line and column can be written whatever the file is: missing, a
// directory, empty, shorter than the line, with lines of up to 70000 bytes, without a name.
//
//verif:weight=3
func Check_Message() {
	file := ""
	switch nd.Choice(7) {
	case 0:
		file = nd.Dir() + "/nope.yisp"
	case 1:
		file = nd.Dir()
	case 2:
		file = nd.WriteFile("f.yisp", nd.StringOf("a\n\r", 0, 4))
	case 3:
		file = nd.WriteFile("f.yisp", strings.Repeat("x", 70000)+"\ny\n")
	case 4:
		file = nd.WriteFile("f.yisp", "y\n"+strings.Repeat("x", 70000))
	case 5:
		file = nd.WriteFile("f.yisp", "a\nb\nc\nd\ne\nf\ng\nh\n")
	}
	line, column := nd.IntRange(-2, 12), nd.IntRange(-2, 6)
	n := kit.Int(1)
	if nd.Bool() {
		n.Attr.Sources = []core.FilePos{{File: file, Line: line, Column: column}}
	}
	var err error = core.NewEvaluationError(n, "bad")
	where := n.Attr.File() + ":" + strconv.Itoa(n.Attr.Line()) + ":" + strconv.Itoa(n.Attr.Column())
	if nd.Bool() {
		m := kit.Int(2)
		if nd.Bool() {
			m.Attr.Sources = []core.FilePos{{File: "main.yisp", Line: 3, Column: 7}}
			if line <= 0 || len(n.Attr.Sources) == 0 {
				where = "main.yisp:3:7"
			}
		}
		err = core.NewEvaluationErrorWithParent(m, "outer", err)
	}
	text := err.Error()
	nd.Assert(strings.Contains(text, "bad") && strings.Contains(text, where), "the message does not name the place")
}

// Check_NoNode: errors without any node can be printed too, also below errors with one.
func Check_NoNode() {
	err := core.NewEvaluationError(nil, "bad")
	text := err.Error()
	nd.Assert(strings.Contains(text, "bad"), "the message is lost")
	n := kit.Int(1)
	n.Attr.Sources = []core.FilePos{{File: "f.yisp", Line: nd.IntRange(1, 9), Column: 1}}
	text = core.NewEvaluationErrorWithParent(n, "outer", err).Error()
	nd.Assert(strings.Contains(text, "f.yisp:"+strconv.Itoa(n.Attr.Line())+":1"), "the position of the call is lost")
	text = core.NewEvaluationErrorWithParent(nil, "outer", err).Error()
	nd.Assert(strings.Contains(text, "bad") && strings.Contains(text, "outer"), "the message is lost")
}

// Check_Long: a failing expression on line 100 or 1000, in column 60 or 200, or in the 20th document or call, shifted by a symbolic comment (quick: 8 forms of expression).
func Check_Long() {
	f := failing[nd.Choice(nd.Size(8, len(failing)))*nd.Size(len(failing)/8, 1)]
	nd.Assume(!strings.HasPrefix(f, "§!"))
	text := "#" + nd.StringOf("ab", 0, 1) + "\n"
	switch nd.Choice(5) {
	case 0:
		text += strings.Repeat("# line\n", []int{98, 997}[nd.Choice(2)]) + "k: !yisp [progn, " + f + "]\n"
	case 1:
		text += "k: !yisp [progn, [+, 1" + strings.Repeat(", 2", []int{15, 60}[nd.Choice(2)]) + "], " + f + "]\n"
	case 2:
		text += strings.Repeat("k: !yisp [+, 1, 2]\n---\n", 19) + "k: !yisp [progn, " + f + "]\n"
	case 3:
		text += "k: !yisp " + strings.Repeat("[progn, ", 15) + f + strings.Repeat("]", 15) + "\n"
	case 4:
		text += strings.Repeat("- !yisp [+, 1, 2]\n", 30) + "- !yisp [progn, " + f + "]\n"
	}
	text, line, column := mark(text)
	located(run(text), nd.Dir()+"/main.yisp", line, column)
}
