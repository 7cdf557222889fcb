// Package c05: no argument makes an operator, a special form, rendering or conversion crash.
// A panic on any path is a violation by itself; the assertions only demand a value or an error.
package c05

import (
	"math"
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

// use does everything with a result that a program run does: type check, rendering, conversion.
func use(r *node, err error) {
	if err != nil {
		nd.Assert(r == nil, "a value and an error")
		nd.Assert(err.Error() != "", "an error without message")
		return
	}
	nd.Assert(r != nil, "neither a value nor an error")
	e := engine.NewEngine(engine.Options{RenderSpecialObjects: true})
	_, err = e.Render(r)
	_ = err
	_, err = r.ToNative()
	_ = err
	err = core.VerifyTypes(r, false)
	_ = err
	r.DeepCopy()
	_, err = core.IsTruthy(r)
	_ = err
}

var names = append(append([]string{}, kit.Pure...), "maps.patch", "include", "files.read", "files.glob", "exec.cmd", "exec.go", "", ".", "lists.", ".car", "nope", "a.b.c")

// Check_Operators: every operator, including those with external effects (files that do not exist, commands refused), and
// unknown names, applied to 0 to 2 arguments of 14 shapes (numbers, texts, flat and nested lists and maps, pairs,
// manifests, a function, a type, null); results are type checked, rendered, converted and copied.
//
//verif:weight=3
func Check_Operators() {
	nd.Stdin("", false)
	op := names[nd.Choice(len(names))]
	args := make([]*node, nd.Choice(3))
	for i := range args {
		args[i] = kit.Shape(nd.Choice(kit.NShapes))
	}
	use(kit.Call(op, args...))
}

// Check_Operators3: the same with 3 or 4 arguments, the third and fourth drawn from 7 of the shapes (thorough: all).
//
//verif:weight=3
func Check_Operators3() {
	nd.Stdin("", false)
	op := names[nd.Choice(len(names))]
	args := make([]*node, nd.Size(3, 3+nd.Choice(2)))
	for i := range args {
		switch {
		case nd.Thorough() && i < 3:
			args[i] = kit.Shape(nd.Choice(kit.NShapes))
		default:
			args[i] = kit.Shape([]int{0, 1, 2, 3, 4, 8}[nd.Choice(6)])
		}
	}
	r, err := kit.Call(op, args...)
	nd.Assert((r == nil) != (err == nil), "neither a value nor an error, or both")
}

// Check_Wild: every operator, but for those that read or write text, applied to 1 or 2 fully arbitrary values: any scalar (all integers, floats including NaN
// and infinities, strings of up to 2 bytes), lists and maps of up to 2 entries, functions, types.
//
//verif:weight=3
func Check_Wild() {
	nd.Stdin("", false)
	op := names[nd.Choice(len(names))]
	switch op {
	case "lists.iota", "yaml.unmarshal", "yaml.marshal", "schema", "types.get", "strings.format", "strings.quote", "include", "files.read", "files.glob":
		// read and write text of numbers, or loop over an arbitrary integer: see Check_Operators, Check_Values, C11, C19, C21
		nd.Assert(true, "")
		return
	}
	args := []*node{kit.Any(1)}
	if nd.Thorough() && nd.Choice(2) == 1 {
		args = append(args, kit.Any(0))
	}
	r, err := kit.Call(op, args...)
	nd.Assert((r == nil) != (err == nil), "neither a value nor an error, or both")
	if err == nil {
		_, err = r.ToNative()
		core.VerifyTypes(r, false)
		core.IsTruthy(r)
	}
}

func env() *core.Env {
	e := core.NewEnv()
	e.Set("v", kit.Int(7))
	e.Set("m", kit.Map("a", kit.Int(1)))
	e.Set("f", kit.Lambda("x"))
	e.Set("T", kit.TypeNode(&core.Schema{Type: "object", Required: []string{"a"}, Properties: map[string]*core.Schema{"a": {Type: "integer"}}}))
	e.Set("mod", &node{Kind: core.KindMap, Value: map[string]*node{"x": kit.Int(1)}})
	return e
}

const nExprs = 18

// expr is an expression of the i-th shape.
func expr(i int) *node {
	switch i {
	case 0:
		return kit.Sym("v")
	case 1:
		return kit.Sym("undefined")
	case 2:
		return kit.Sym("m.a")
	case 3:
		return kit.Sym("f")
	case 4:
		return kit.Sym("mod")
	case 5:
		return kit.Int(0)
	case 6:
		return kit.Str("x")
	case 7:
		return kit.Null()
	case 8:
		return kit.List()
	case 9:
		return kit.List(kit.Str("a"), kit.Sym("b"))
	case 10:
		n := kit.List(kit.Str("a"), kit.Str("p"))
		n.Tag = "!quote"
		return n
	case 11:
		return kit.List(kit.Str("lambda"), kit.List(kit.Str("x")), kit.Sym("x"))
	case 12:
		return kit.Map("a", kit.Int(1), "b", kit.Sym("m"))
	case 13:
		n := kit.Map("a", kit.Str("not an integer"))
		n.Tag = "!T"
		return n
	case 14:
		p := kit.Str("p")
		p.Tag = "!T"
		return kit.List(p)
	case 15:
		n := kit.List(kit.List(kit.Str("x"), kit.Str("missing.yisp")))
		n.Tag = "!quote"
		return n
	case 16:
		return &node{Kind: core.KindBool, Value: "TRUE"}
	}
	return &node{Kind: core.KindInt, Value: "0x10", Tag: "!nope"}
}

// Check_Forms: if, lambda, import, and applications of a variable holding a function, a number, a module, of a list, a
// map, an undefined name or nothing, each to 0 to 3 expressions out of 18 shapes (variables, undefined names, special
// forms, quoted and unquoted lists, tagged and ill-typed maps), in evaluation mode; and of maps holding them, merge keys included.
//
//verif:weight=3
func Check_Forms() {
	var head *node
	switch h := nd.Choice(8); h {
	case 0:
		head = kit.Str("if")
	case 1:
		head = kit.Str("lambda")
	case 2:
		head = kit.Str("import")
	case 3:
		head = kit.Sym("f")
	case 4:
		head = kit.Sym([]string{"v", "mod", "u", ""}[nd.Choice(4)])
	case 5:
		head = kit.List(kit.Str("progn"), kit.Sym("f"))
	case 6:
		head = kit.Map()
	case 7:
		head = kit.Int(3)
	}
	items := []*node{head}
	for n := nd.Choice(nd.Size(3, 4)); n > 0; n-- {
		items = append(items, expr(nd.Choice(nExprs)))
	}
	if len(items) == 3 && head.Value == "if" {
		items = append(items, expr(nd.Choice(nExprs)))
	}
	n := kit.List(items...)
	if len(items) < 3 {
		n.Tag = []string{"", "!T", "!v"}[nd.Choice(3)]
	}
	use(kit.Eval(n, env()))
}

// Check_Maps: evaluation of maps with up to 2 entries out of 18 shapes (quick: out of 6 for the first of two) under ordinary, merge and manifest keys, with
// and without a type, quoted and evaluated.
//
//verif:weight=5
func Check_Maps() {
	m := core.NewYispMap()
	keys := []string{"a", core.YISP_SPECIAL_MERGE_KEY + "1", core.YISP_SPECIAL_MERGE_KEY + "2", "$schema", "apiVersion", "kind"}
	size := nd.Choice(3)
	all := size < 2 || nd.Thorough()
	for i := size; i > 0; i-- {
		k := 0
		if i == 2 && !all {
			k = 3 * nd.Choice(nExprs/3)
		} else {
			k = nd.Choice(nExprs)
		}
		m.Set(keys[nd.Choice(len(keys))], expr(k))
	}
	n := &node{Kind: core.KindMap, Value: m, Tag: []string{"", "!T", "!quote"}[nd.Choice(3)]}
	if n.Tag != "!T" && all {
		n.Anchor = []string{"", "x"}[nd.Choice(2)]
	}
	mode := core.EvalModeEval
	if nd.Choice(2) == 1 {
		mode = core.EvalModeQuote
	}
	e := engine.NewEngine(engine.Options{AllowUntypedManifest: all && nd.Choice(2) == 1})
	use(e.Eval(n, env(), mode))
}

// Check_Names: looking up every name of up to 3 (thorough 4) arbitrary bytes among variables holding a number, a map, a
// module and null.
func Check_Names() {
	e := core.NewEnv().CreateChild()
	e.Set("a", kit.Map("b", kit.Null()))
	e.Set("b", kit.Null())
	e.Set("", kit.Int(1))
	e.Set("c", &node{Kind: core.KindMap, Value: map[string]*node{"a": kit.Map("", kit.Int(1))}})
	r, ok := e.Get(nd.StringOf("abc.?", 0, nd.Size(3, 4)))
	nd.Assert(!ok || r != nil, "a name is found without a value")
}

// Check_Scalars: evaluating scalars tagged null, bool, int, float, string or with an unknown tag whose text is any
// of up to 2 (thorough 3) arbitrary bytes.
func Check_Scalars() {
	k := []core.Kind{core.KindNull, core.KindBool, core.KindInt, core.KindFloat, core.KindString, core.KindSymbol, core.KindParameter}[nd.Choice(7)]
	n := &node{Kind: k, Value: nd.String(nd.Size(2, 3))}
	r, err := kit.Eval(n, env())
	nd.Assert((r == nil) != (err == nil), "neither a value nor an error, or both")
}

// Check_Unmarshal: yaml.unmarshal of every text of up to 2 (thorough 3) bytes that have a meaning in YAML, and using the result.
func Check_Unmarshal() {
	r, err := kit.Call("yaml.unmarshal", kit.Str(nd.StringOf("*&a:!-?[]{}\n \"'|>#%0.~<,", 0, nd.Size(2, 3))))
	nd.Assert((r == nil) != (err == nil), "neither a value nor an error, or both")
	if err == nil {
		r.ToNative()
		core.VerifyTypes(r, false)
		core.IsTruthy(r)
	}
}

// Check_Values: rendering, conversion, type checking and copying of arbitrary scalars (8 floats, 5 integers), empty lists and maps, functions and types, nested up to 2 (thorough 3) deep, with comments,
// styles and positions left unset.
func Check_Values() {
	k := nd.Choice(kit.NKinds)
	x := kit.Float([]float64{0, math.Copysign(0, -1), 0.5, -1e300, 5e-324, math.Inf(1), math.Inf(-1), math.NaN()}[nd.Choice(8)])
	if k == kit.KInt {
		x = kit.Int([]int{0, 7, -1, math.MinInt, math.MaxInt}[nd.Choice(5)])
	} else if k == kit.KString {
		x = kit.Str(nd.String(nd.Size(1, 2)))
	} else if k != kit.KFloat {
		x = kit.OfKind(k, nd.Size(0, 1))
	}
	switch nd.Choice(3) {
	case 0:
		x = kit.List(x)
	case 1:
		x = kit.Map("a", x, "", kit.Lambda("x"))
	}
	n := kit.List(x)
	n.IsDocumentRoot = nd.Choice(2) == 1
	use(n, nil)
}

// Check_Schemas: a type described by a map with arbitrary entries under the schema keywords (wrong kinds included) is
// either refused or can validate, complete, convert and compare every value without crashing.
//
//verif:weight=2
func Check_Schemas() {
	keys := []string{"type", "properties", "items", "required", "additionalProperties", "oneOf", "default", "minimum", "multipleOf", "minLength", "$ref", "arguments", "returns", "x-kubernetes-int-or-string"}
	vals := func() *node {
		switch nd.Choice(11) {
		case 0:
			return kit.Str([]string{"object", "array", "integer", "string", "function", "float", "boolean", "null", "any", "nope", ""}[nd.Choice(11)])
		case 1:
			return kit.Int([]int{-1, 0, 2}[nd.Choice(3)])
		case 2:
			return kit.Bool(nd.Choice(2) == 1)
		case 3:
			return kit.List(kit.Str("a"))
		case 4:
			return kit.Map("a", kit.Map("type", kit.Str("integer"), "default", kit.Int(1)))
		case 5:
			return kit.Map("type", kit.Str("string"))
		case 6:
			return kit.List(kit.Map("type", kit.Str("string")), kit.Map())
		case 7:
			return kit.Null()
		case 8:
			return kit.Map()
		case 9:
			return kit.List()
		}
		return kit.Float(0.5)
	}
	m := kit.Map()
	m.Value.(*core.YispMap).Set("type", kit.Str([]string{"object", "array", "function", "integer", "string"}[nd.Choice(5)]))
	m.Value.(*core.YispMap).Set(keys[nd.Choice(len(keys))], vals())
	if nd.Thorough() {
		m.Value.(*core.YispMap).Set(keys[nd.Choice(len(keys))], vals())
	}
	r, err := kit.Call("schema", m)
	if err != nil {
		nd.Assert(r == nil, "a value and an error")
		return
	}
	s, ok := r.Value.(*core.Schema)
	nd.Assert(ok && s != nil, "schema gives no type")
	v := kit.Shape([]int{0, 1, 2, 3, 4, 8, 9}[nd.Choice(7)])
	s.Validate(v)
	s.Cast(v)
	s.ToYispNode()
	s.Equals(s)
	s.Equals(&core.Schema{Type: "object"})
	v.Type = s
	core.VerifyTypes(v, false)
	kit.Call("maps.merge", v, v)
	kit.Call("types.of", v)
}

// Check_Streams: programs of up to 2 documents put together from 16 lines of well- and ill-formed constructs.
func Check_Streams() {
	lines := []string{"", "a: *x", "&x 1", "*x", "!yisp [*x]", "!yisp [if]", "!yisp []", "<<: 3", "[<<]", "? [a]\n: b", "!int x", "!quote [a, *x]", "- !yisp\n  - lists.map\n  - 1", "!yisp [lambda, [!T a], *a]", "!yisp &x [*x]", "!!binary zz"}
	text := ""
	for i := 1 + nd.Choice(2); i > 0; i-- {
		text += lines[nd.Choice(len(lines))] + "\n---\n"
	}
	r, err := kit.Engine().Run(strings.NewReader(text), core.NewEnv(), "main.yisp")
	use(r, err)
}

// Check_Callbacks: map, filter, reduce and pipeline over up to 2 (thorough 3) items of 7 sorts, null included, calling functions of 0 to 3
// parameters, operators by name, special forms and things that are not functions.
//
//verif:weight=2
func Check_Callbacks() {
	item := func() *node {
		switch nd.Choice(7) {
		case 0:
			return kit.Null()
		case 1:
			return kit.Int([]int{0, 7}[nd.Choice(2)])
		case 2:
			return kit.Str("")
		case 3:
			return kit.List(kit.Null())
		case 4:
			return kit.Map("a", kit.Null())
		case 5:
			return kit.Lambda("x")
		}
		return kit.Bool(false)
	}
	items := make([]*node, nd.Choice(nd.Size(3, 4)))
	for i := range items {
		items[i] = item()
	}
	var f *node
	switch k := nd.Choice(5); k {
	case 0:
		f = kit.Str([]string{"+", "lists.cons", "maps.merge", "progn", "==", "if", "lambda", "lists.reduce", "pipeline", "nope", ""}[nd.Choice(11)])
	case 1:
		params := []string{"x", "y", "z"}[:nd.Choice(4)]
		body := kit.Int(1)
		if len(params) > 0 {
			body = []*node{kit.Sym(params[len(params)-1]), kit.Op("+", kit.Sym("x"), kit.Int(1)), kit.Sym("undefined")}[nd.Choice(3)]
		}
		f = kit.MakeLambda(core.NewEnv(), body, params...)
	case 2:
		f = kit.Null()
	case 3:
		f = kit.List()
	default:
		f = kit.Sym("v")
	}
	var r *node
	var err error
	switch nd.Choice(4) {
	case 0:
		r, err = kit.Call("lists.map", kit.List(items...), f)
	case 1:
		r, err = kit.Call("lists.filter", kit.List(items...), f)
	case 2:
		r, err = kit.Call("lists.reduce", kit.List(items...), f)
	default:
		args := []*node{f}
		if len(items) > 0 {
			args = []*node{items[0], f, f}[:1+nd.Choice(3)]
		}
		r, err = kit.Call("pipeline", args...)
	}
	use(r, err)
}
