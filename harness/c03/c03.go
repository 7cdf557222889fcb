// Package c03: comparison operators.
package c03

import (
	"math"

	"github.com/totegamma/yisp/core"

	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

var names = [6][2]string{{"==", "eq"}, {"!=", "neq"}, {"<", "lt"}, {"<=", "lte"}, {">", "gt"}, {">=", "gte"}}

func rel(op int, alias int, a, b *kit.Node) bool {
	name := names[op][alias]
	r, err := kit.Call(name, a, b)
	nd.Assert(err == nil, name+" fails on comparable operands")
	v, ok := kit.IsBool(r)
	nd.Assert(ok, name+" result is not a boolean")
	return v
}

// check compares every operator's verdict on (a,b) with the exact order given.
func check(a, b *kit.Node, lt, eq bool) {
	op, alias := nd.Choice(6), nd.Choice(2)
	want := false
	switch op {
	case 0:
		want = eq
	case 1:
		want = !eq
	case 2:
		want = lt
	case 3:
		want = lt || eq
	case 4:
		want = !lt && !eq
	case 5:
		want = !lt
	}
	nd.Assert(rel(op, alias, a, b) == want, names[op][alias]+" disagrees with the order of numbers")
}

// Check_IntInt: two arbitrary 64-bit integers, all operators and aliases.
func Check_IntInt() {
	a, b := nd.Int(), nd.Int()
	check(kit.Int(a), kit.Int(b), a < b, a == b)
}

// Check_FloatFloat: two arbitrary floats except NaN, all operators and aliases.
func Check_FloatFloat() {
	a, b := nd.Float(), nd.Float()
	nd.Assume(a == a && b == b)
	check(kit.Float(a), kit.Float(b), a < b, a == b)
}

// Check_Mixed: an arbitrary 64-bit integer against an arbitrary float (not NaN), either order.
// The oracle compares exactly: a float of magnitude below 2^63 has an integer part that is exact.
func Check_Mixed() {
	i, f := nd.Int(), nd.Float()
	nd.Assume(f == f)
	var lt, eq bool
	switch {
	case f >= 9223372036854775808.0:
		lt = true
	case f < -9223372036854775808.0:
	default:
		t := math.Trunc(f)
		n := int(t)
		lt = i < n || i == n && t < f
		eq = i == n && t == f
	}
	if nd.Choice(2) == 0 {
		check(kit.Int(i), kit.Float(f), lt, eq)
	} else {
		check(kit.Float(f), kit.Int(i), !lt && !eq, eq)
	}
}

// Check_Laws: two arbitrary numbers, integers or floats, NaN included: == is symmetric, != is its negation, <= is < or ==, >= is > or ==,
// > is < with the operands exchanged, and at most one of <, ==, > holds.
func Check_Laws() {
	num := func() *kit.Node {
		if nd.Choice(2) == 0 {
			return kit.Int(nd.Int())
		}
		return kit.Float(nd.Float())
	}
	a, b := num(), num()
	lt, eq, gt := rel(2, 0, a, b), rel(0, 0, a, b), rel(4, 0, a, b)
	switch nd.Choice(5) {
	case 0:
		nd.Assert(!(lt && eq) && !(lt && gt) && !(eq && gt), "more than one of <, == and > holds")
	case 1:
		nd.Assert(rel(3, 0, a, b) == (lt || eq), "<= is not < or ==")
	case 2:
		nd.Assert(rel(5, 0, a, b) == (gt || eq), ">= is not > or ==")
	case 3:
		nd.Assert(rel(1, 0, a, b) == !eq, "!= is not the negation of ==")
	default:
		nd.Assert(rel(2, 0, b, a) == gt && rel(0, 0, b, a) == eq, "exchanging the operands does not exchange < and >")
	}
}

// Check_Strings: strings up to 3 bytes and booleans are equal exactly when their values are.
func Check_Strings() {
	op, alias := nd.Choice(2), nd.Choice(2)
	if nd.Choice(2) == 0 {
		a, b := nd.String(nd.Size(3, 6)), nd.String(nd.Size(3, 6))
		nd.Assert(rel(op, alias, kit.Str(a), kit.Str(b)) == ((a == b) == (op == 0)), "string equality is not by value")
	} else {
		a, b := nd.Bool(), nd.Bool()
		nd.Assert(rel(op, alias, kit.Bool(a), kit.Bool(b)) == ((a == b) == (op == 0)), "boolean equality is not by value")
	}
}

func family(k int) int {
	if k == kit.KFloat {
		return kit.KInt
	}
	return k
}

// Check_AnyKinds: == and != on arbitrary values of every pair of kinds (nested to depth 1): never an
// error, symmetric, each the negation of the other, false across type families, true on the same value.
func Check_AnyKinds() {
	ka, kb := nd.Choice(kit.NKinds), nd.Choice(kit.NKinds)
	depth := nd.Size(0, 1)
	a, b := kit.OfKind(ka, depth), kit.OfKind(kb, depth)
	eq := rel(0, nd.Choice(2), a, b)
	nd.Assert(rel(1, nd.Choice(2), a, b) == !eq, "!= is not the negation of ==")
	nd.Assert(rel(0, 0, b, a) == eq, "== is not symmetric")
	if family(ka) != family(kb) {
		nd.Assert(!eq, "values of different types are equal")
	}
	if ka == kit.KNull && kb == kit.KNull {
		nd.Assert(eq, "null is not equal to null")
	}
}

// Check_Nested: == on lists and maps with arbitrary content never fails.
func Check_Nested() {
	k := kit.KList + nd.Choice(2)
	a, b := kit.OfKind(k, 1), kit.OfKind(kit.KList+nd.Choice(2), 1)
	eq := rel(0, 0, a, b)
	nd.Assert(rel(1, 0, a, b) == !eq, "!= is not the negation of ==")
	nd.Assert(rel(0, 0, b, a) == eq, "== is not symmetric")
}

// Check_OrderErrors: ordering a non-number in either position is an error.
func Check_OrderErrors() {
	op, alias := 2+nd.Choice(4), nd.Choice(2)
	bad := kit.Any(0)
	if _, ok := kit.IsInt(bad); ok {
		nd.Assume(false)
	}
	if _, ok := bad.Value.(float64); ok {
		nd.Assume(false)
	}
	other := kit.Any(0)
	args := []*kit.Node{bad, other}
	if nd.Choice(2) == 1 {
		args = []*kit.Node{other, bad}
	}
	_, err := kit.Call(names[op][alias], args...)
	nd.Assert(err != nil, names[op][alias]+" accepts a non-number")
}

// Check_Arity: every comparison with 0, 1, 3 or 4 arguments is an error.
func Check_Arity() {
	op, alias := nd.Choice(6), nd.Choice(2)
	n := []int{0, 1, 3, 4}[nd.Choice(4)]
	args, _ := kit.Ints(n)
	_, err := kit.Call(names[op][alias], args...)
	nd.Assert(err != nil, names[op][alias]+" accepts a wrong number of arguments")
}

// Check_Long: == and != of two lists, maps or texts with 20 or 50 parts that are the same except for one, at the start, in the middle or at the end, which is
// an arbitrary integer or letter on either side; maps have their keys in the opposite order; and a list or map with one part more.
func Check_Long() {
	n := []int{20, 50}[nd.Choice(2)]
	at := []int{0, n / 2, n - 1}[nd.Choice(3)]
	x, y := nd.Int(), nd.Int()
	eq := x == y
	more := nd.Choice(2)
	var a, b *kit.Node
	switch nd.Choice(3) {
	case 0:
		as, bs := make([]*kit.Node, n), make([]*kit.Node, n)
		for i := range as {
			as[i], bs[i] = kit.Int(i), kit.Int(i)
		}
		as[at], bs[at] = kit.Int(x), kit.Int(y)
		if more == 1 {
			bs = append(bs, kit.Null())
		}
		a, b = kit.List(as...), kit.List(bs...)
	case 1:
		p, q := core.NewYispMap(), core.NewYispMap()
		for i := 0; i < n; i++ {
			j := n - 1 - i
			p.Set("k"+string(rune('0'+i)), kit.Int(i))
			q.Set("k"+string(rune('0'+j)), kit.Int(j))
		}
		k := "k" + string(rune('0'+at))
		p.Set(k, kit.List(kit.Int(x)))
		q.Set(k, kit.List(kit.Int(y)))
		if more == 1 {
			q.Set("z", kit.Null())
		}
		a, b = &kit.Node{Kind: core.KindMap, Value: p}, &kit.Node{Kind: core.KindMap, Value: q}
	case 2:
		s, t := nd.StringOf("ab\x00", 1, 1), nd.StringOf("ab\x00", 1, 1)
		eq = s == t
		rest := make([]byte, n)
		for i := range rest {
			rest[i] = 'x'
		}
		a, b = kit.Str(string(rest[:at])+s+string(rest[at:])), kit.Str(string(rest[:at])+t+string(rest[at:]))
		if more == 1 {
			b = kit.Str(string(rest[:at]) + t + string(rest[at:]) + " ")
		}
	}
	if more == 1 {
		eq = false
	}
	nd.Assert(rel(0, nd.Choice(2), a, b) == eq && rel(0, 0, b, a) == eq, "== of large values is wrong")
	nd.Assert(rel(1, 0, a, b) == !eq, "!= of large values is wrong")
}
