package kit

import (
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

// Kinds of arbitrary values.
const (
	KNull = iota
	KBool
	KInt
	KFloat
	KString
	KList
	KMap
	KLambda
	KType
	NKinds
)

// Scalar is an arbitrary scalar of the given kind (KNull..KString).
func Scalar(k int) *Node {
	switch k {
	case KBool:
		return Bool(nd.Bool())
	case KInt:
		return Int(nd.Int())
	case KFloat:
		return Float(nd.Float())
	case KString:
		return Str(nd.String(2))
	}
	return Null()
}

// Lambda is a one-parameter function returning its argument.
func Lambda(params ...string) *Node {
	body := Null()
	if len(params) > 0 {
		body = Sym(params[0])
	}
	return MakeLambda(core.NewEnv(), body, params...)
}

// MakeLambda is the function value [lambda, [params...], body] evaluates to in env.
func MakeLambda(env *core.Env, body *Node, params ...string) *Node {
	ps := make([]*Node, len(params))
	for i, p := range params {
		ps[i] = Str(p)
	}
	n, err := Engine().Eval(List(Str("lambda"), List(ps...), body), env, core.EvalModeEval)
	nd.Assume(err == nil)
	return n
}

// TypeNode is a type value.
func TypeNode(s *core.Schema) *Node { return &Node{Kind: core.KindType, Value: s} }

// OfKind is an arbitrary value of kind k; lists and maps have up to 2 arbitrary entries of depth-1.
func OfKind(k, depth int) *Node {
	switch k {
	case KList:
		n := nd.Choice(3)
		if depth <= 0 {
			n = 0
		}
		items := make([]*Node, n)
		for i := range items {
			items[i] = Any(depth - 1)
		}
		return List(items...)
	case KMap:
		n := nd.Choice(3)
		if depth <= 0 {
			n = 0
		}
		m := core.NewYispMap()
		for i := 0; i < n; i++ {
			m.Set([]string{"a", "b"}[i], Any(depth-1))
		}
		return &Node{Kind: core.KindMap, Value: m}
	case KLambda:
		return Lambda("x")
	case KType:
		return TypeNode(&core.Schema{Type: "integer"})
	}
	return Scalar(k)
}

// Any is an arbitrary value: every kind, nested up to depth.
func Any(depth int) *Node { return OfKind(nd.Choice(NKinds), depth) }

// AnyData is an arbitrary data value (no functions or types).
func AnyData(depth int) *Node { return OfKind(nd.Choice(KMap+1), depth) }

// Items is the content of a list node.
func Items(n *Node) ([]*Node, bool) {
	if n == nil || n.Kind != core.KindArray {
		return nil, false
	}
	arr, ok := n.Value.([]any)
	if !ok {
		return nil, false
	}
	out := make([]*Node, len(arr))
	for i, x := range arr {
		out[i], ok = x.(*Node)
		if !ok || out[i] == nil {
			return nil, false
		}
	}
	return out, true
}

// KV is one map entry.
type KV struct {
	K string
	V *Node
}

// Entries is the content of a map node in order.
func Entries(n *Node) ([]KV, bool) {
	if n == nil || n.Kind != core.KindMap {
		return nil, false
	}
	m, ok := n.Value.(*core.YispMap)
	if !ok {
		return nil, false
	}
	out := make([]KV, 0, m.Len())
	for el := m.Front(); el != nil; el = el.Next() {
		v, ok := el.Value.(*Node)
		if !ok || v == nil {
			return nil, false
		}
		out = append(out, KV{el.Key, v})
	}
	return out, true
}

// Copy is a deep copy of the data of n.
func Copy(n *Node) *Node {
	if n == nil {
		return nil
	}
	switch n.Kind {
	case core.KindArray:
		if items, ok := Items(n); ok {
			c := make([]*Node, len(items))
			for i, x := range items {
				c[i] = Copy(x)
			}
			l := List(c...)
			l.Tag, l.IsDocumentRoot, l.Type = n.Tag, n.IsDocumentRoot, n.Type
			return l
		}
	case core.KindMap:
		if es, ok := Entries(n); ok {
			m := core.NewYispMap()
			for _, e := range es {
				m.Set(e.K, Copy(e.V))
			}
			return &Node{Kind: core.KindMap, Value: m, Tag: n.Tag, IsDocumentRoot: n.IsDocumentRoot, Type: n.Type}
		}
	}
	c := *n
	return &c
}

// Same reports whether a and b hold the same data: same kinds, same values, same order.
// Integers and floats are different data; floats are compared bit by bit except that NaNs are equal.
func Same(a, b *Node) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case core.KindNull:
		return true
	case core.KindBool:
		x, ok1 := a.Value.(bool)
		y, ok2 := b.Value.(bool)
		return ok1 && ok2 && x == y
	case core.KindInt:
		x, ok1 := a.Value.(int)
		y, ok2 := b.Value.(int)
		return ok1 && ok2 && x == y
	case core.KindFloat:
		x, ok1 := a.Value.(float64)
		y, ok2 := b.Value.(float64)
		return ok1 && ok2 && (x == y || x != x && y != y)
	case core.KindString, core.KindSymbol:
		x, ok1 := a.Value.(string)
		y, ok2 := b.Value.(string)
		return ok1 && ok2 && x == y
	case core.KindArray:
		x, ok1 := Items(a)
		y, ok2 := Items(b)
		if !ok1 || !ok2 || len(x) != len(y) {
			return false
		}
		ok := true
		for i := range x {
			if !Same(x[i], y[i]) {
				ok = false
			}
		}
		return ok
	case core.KindMap:
		x, ok1 := Entries(a)
		y, ok2 := Entries(b)
		if !ok1 || !ok2 || len(x) != len(y) {
			return false
		}
		ok := true
		for i := range x {
			if x[i].K != y[i].K || !Same(x[i].V, y[i].V) {
				ok = false
			}
		}
		return ok
	}
	return a.Value == b.Value
}

// Eval evaluates an expression in env in evaluation mode.
func Eval(n *Node, env *core.Env) (*Node, error) {
	return engine.NewEngine(engine.Options{}).Eval(n, env, core.EvalModeEval)
}

// Op is the expression [name, args...].
func Op(name string, args ...*Node) *Node {
	return List(append([]*Node{Str(name)}, args...)...)
}

// WellFormed reports whether every node below n is a value of its kind.
func WellFormed(n *Node) bool {
	if n == nil {
		return false
	}
	switch n.Kind {
	case core.KindNull:
		return n.Value == nil
	case core.KindBool:
		_, ok := n.Value.(bool)
		return ok
	case core.KindInt:
		_, ok := n.Value.(int)
		return ok
	case core.KindFloat:
		_, ok := n.Value.(float64)
		return ok
	case core.KindString:
		_, ok := n.Value.(string)
		return ok
	case core.KindArray:
		items, ok := Items(n)
		for _, x := range items {
			ok = ok && WellFormed(x)
		}
		return ok
	case core.KindMap:
		es, ok := Entries(n)
		for _, e := range es {
			ok = ok && WellFormed(e.V)
		}
		return ok
	}
	return n.Value != nil
}

// Run evaluates program text with the given variables (alternating names and values) and returns the documents.
func Run(text string, vars ...any) ([]*Node, error) {
	env := core.NewEnv()
	for i := 0; i+1 < len(vars); i += 2 {
		env.Set(vars[i].(string), vars[i+1].(*Node))
	}
	r, err := Engine().Run(strings.NewReader(text), env, "main.yisp")
	if err != nil {
		return nil, err
	}
	docs, ok := Items(r)
	nd.Assert(ok, "the result of a run is not a list of documents")
	return docs, nil
}

// Run1 is Run for a program of one document.
func Run1(text string, vars ...any) (*Node, error) {
	docs, err := Run(text, vars...)
	if err != nil {
		return nil, err
	}
	if len(docs) == 0 {
		return Null(), nil
	}
	nd.Assert(len(docs) == 1, "one document evaluates to several")
	return docs[0], nil
}

// Dressed is n with what values carry besides their data, which must not matter: a type it was cast to, being the content of a
// stream of documents, a position and a style.
func Dressed(n *Node) *Node {
	switch nd.Choice(3) {
	case 1:
		c := *n
		c.Type = &core.Schema{Type: "object", Properties: map[string]*core.Schema{"a": {Type: "integer", Default: 7.0}}, AdditionalProperties: true, PatchStrategy: "merge"}
		c.IsDocumentRoot = true
		return &c
	case 2:
		c := *n
		c.Tag = "!!x"
		c.Anchor = "anchor"
		c.Attr.Sources = []core.FilePos{{File: "f.yisp", Line: 3, Column: 4}}
		c.Attr.Style = 4
		return &c
	}
	return n
}
