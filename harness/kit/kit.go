// Package kit has the building blocks shared by the harnesses: node constructors,
// arbitrary values, an engine, and an oracle-side value model.
package kit

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type Node = core.YispNode

func Int(v int) *Node       { return &Node{Kind: core.KindInt, Value: v} }
func Float(v float64) *Node { return &Node{Kind: core.KindFloat, Value: v} }
func Bool(v bool) *Node     { return &Node{Kind: core.KindBool, Value: v} }
func Str(v string) *Node    { return &Node{Kind: core.KindString, Value: v} }
func Null() *Node           { return &Node{Kind: core.KindNull} }
func Sym(v string) *Node    { return &Node{Kind: core.KindSymbol, Value: v} }
func List(items ...*Node) *Node {
	arr := make([]any, len(items))
	for i, it := range items {
		arr[i] = it
	}
	return &Node{Kind: core.KindArray, Value: arr}
}

// Map builds a map node from alternating keys and values.
func Map(kv ...any) *Node {
	m := core.NewYispMap()
	for i := 0; i+1 < len(kv); i += 2 {
		m.Set(kv[i].(string), kv[i+1].(*Node))
	}
	return &Node{Kind: core.KindMap, Value: m}
}

// Engine is a fresh engine with default options.
func Engine() core.Engine { return engine.NewEngine(engine.Options{}) }

// Call applies the operator called name to already evaluated arguments.
func Call(name string, args ...*Node) (*Node, error) {
	e := engine.NewEngine(engine.Options{})
	return e.Apply(Str(name), args, core.NewEnv(), core.EvalModeEval)
}

// Ints makes n integer nodes with arbitrary values, and returns the values too.
func Ints(n int) ([]*Node, []int) {
	nodes := make([]*Node, n)
	vals := make([]int, n)
	for i := range nodes {
		vals[i] = nd.Int()
		nodes[i] = Int(vals[i])
	}
	return nodes, vals
}

// IsInt reports whether n is an integer node and its value.
func IsInt(n *Node) (int, bool) {
	if n == nil || n.Kind != core.KindInt {
		return 0, false
	}
	v, ok := n.Value.(int)
	return v, ok
}

// IsBool reports whether n is a boolean node and its value.
func IsBool(n *Node) (bool, bool) {
	if n == nil || n.Kind != core.KindBool {
		return false, false
	}
	v, ok := n.Value.(bool)
	return v, ok
}

// IsStr reports whether n is a string node and its value.
func IsStr(n *Node) (string, bool) {
	if n == nil || n.Kind != core.KindString {
		return "", false
	}
	v, ok := n.Value.(string)
	return v, ok
}
