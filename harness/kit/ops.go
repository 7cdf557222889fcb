package kit

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

// Pure are the names of all operators that read no file and start no process, without maps.patch.
var Pure = []string{
	"+", "add", "-", "sub", "*", "mul", "/", "div", "==", "eq", "!=", "neq", "<", "lt", "<=", "lte", ">", "gt", ">=", "gte",
	"??", "default", "&&", "and", "||", "or", "!", "not", "progn", "pipeline", "schema",
	"lists.car", "lists.cdr", "lists.cons", "lists.contains", "lists.filter", "lists.flatten", "lists.map", "lists.reduce",
	"lists.iota", "lists.length", "lists.at", "lists.as-toplevel",
	"maps.from-entries", "maps.get", "maps.keys", "maps.merge", "maps.to-entries", "maps.values", "maps.make", "k8s.patch",
	"strings.concat", "strings.contains", "strings.quote", "strings.format", "strings.join", "strings.replace",
	"strings.sha256", "strings.split", "strings.toUpper", "strings.toLower", "strings.trim",
	"types.assert", "types.get", "types.of", "yaml.marshal", "yaml.unmarshal",
}

// SameAll reports whether a and b are the same value including tags, types and document flags of every node.
func SameAll(a, b *Node) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Tag != b.Tag || a.IsDocumentRoot != b.IsDocumentRoot || a.Type != b.Type || a.Kind != b.Kind || a.Anchor != b.Anchor {
		return false
	}
	switch a.Kind {
	case core.KindArray:
		x, ok1 := Items(a)
		y, ok2 := Items(b)
		if !ok1 || !ok2 || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !SameAll(x[i], y[i]) {
				return false
			}
		}
		return true
	case core.KindMap:
		x, ok1 := Entries(a)
		y, ok2 := Entries(b)
		if !ok1 || !ok2 || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].K != y[i].K || !SameAll(x[i].V, y[i].V) {
				return false
			}
		}
		return true
	}
	return Same(a, b)
}

// NShapes is the number of argument shapes of Shape.
const NShapes = 14

// Shape is an argument of the i-th shape: chosen so that every operator gets arguments it accepts and many it does not.
func Shape(i int) *Node {
	switch i {
	case 0:
		return Int([]int{-1, 0, 2, 3}[nd.Choice(4)])
	case 1:
		return Str([]string{"a", ""}[nd.Choice(2)])
	case 2:
		return List(Int(1), Int(7))
	case 3:
		return Map("a", Int(7), "b", Map("c", List(Int(1))))
	case 4:
		return Lambda("x")
	case 5:
		return TypeNode(&core.Schema{Type: "object", Properties: map[string]*core.Schema{"a": {Type: "integer"}}, AdditionalProperties: true})
	case 6:
		return List(List(Str("a"), Int(1)), List(Str("b"), Map("x", Int(2))))
	case 7:
		return List(Map("kind", Str("K"), "metadata", Map("name", Str("n")), "l", List(Int(7))))
	case 8:
		return Null()
	case 9:
		return List()
	case 10:
		return Str("%v a: [b]")
	case 11:
		return List(Str("a"), Str("b"))
	case 12:
		return Map("type", Str("object"), "properties", Map("a", Map("type", Str("integer"))))
	}
	return Float(1.5)
}
