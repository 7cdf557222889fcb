// Package c02: integer arithmetic.
package c02

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

func result(name string, want int, n *kit.Node, err error) {
	nd.Assert(err == nil, name+" fails on integers")
	got, ok := kit.IsInt(n)
	nd.Assert(ok, name+" result is not an integer")
	nd.Assert(got == want, name+" result is wrong")
}

func fold(op int, alias bool, n int) {
	names := [][2]string{{"+", "add"}, {"-", "sub"}, {"*", "mul"}}
	name := names[op][0]
	if alias {
		name = names[op][1]
	}
	args, v := kit.Ints(n)
	want := 0
	if op == 2 {
		want = 1
	}
	for i, x := range v {
		switch {
		case op == 0:
			want += x
		case op == 2:
			want *= x
		case i == 0:
			want = x
		default:
			want -= x
		}
	}
	got, err := kit.Call(name, args...)
	result(name, want, got, err)
}

// Check_AddSubMul: +, -, * on up to 4 (6) arbitrary integers.
func Check_AddSubMul() {
	fold(nd.Choice(3), nd.Choice(2) == 1, nd.Choice(nd.Size(5, 8)))
}

// Check_Div: / on up to 3 (4) arbitrary integers.
//
//verif:solverms=5000
func Check_Div() {
	name := "/"
	if nd.Choice(2) == 1 {
		name = "div"
	}
	n := 1 + nd.Choice(nd.Size(3, 4))
	args, v := kit.Ints(n)
	got, err := kit.Call(name, args...)
	zero := false
	for _, x := range v[1:] {
		zero = zero || x == 0
	}
	nd.Assert((err != nil) == zero, name+" error iff a divisor is zero")
	if err == nil {
		want := v[0]
		for _, x := range v[1:] {
			want /= x
		}
		result(name, want, got, err)
	}
}

// Check_NonInt: a non-integer in any position is an error.
func Check_NonInt() {
	names := []string{"+", "add", "-", "sub", "*", "mul", "/", "div"}
	name := names[nd.Choice(8)]
	n := 1 + nd.Choice(nd.Size(3, 4))
	args, v := kit.Ints(n)
	bad := nd.Choice(n)
	for i, x := range v {
		if i > 0 {
			nd.Assume(x != 0)
		}
		_ = x
	}
	switch nd.Choice(7) {
	case 0:
		args[bad] = kit.Float(nd.Float())
	case 1:
		args[bad] = kit.Str(nd.String(2))
	case 2:
		args[bad] = kit.Bool(nd.Bool())
	case 3:
		args[bad] = kit.Null()
	case 4:
		args[bad] = kit.List(kit.Int(v[bad]))
	case 5:
		args[bad] = kit.Map("a", kit.Int(v[bad]))
	case 6:
		args[bad] = &kit.Node{Kind: core.KindType, Value: &core.Schema{Type: "integer"}}
	}
	_, err := kit.Call(name, args...)
	nd.Assert(err != nil, name+" accepts a non-integer")
}

// Check_Long: + and - of 17, 33 or 70 integers (* of 17), of which the first, a middle or the last one is arbitrary.
func Check_Long() {
	op := nd.Choice(3)
	n := []int{17, 33, 70}[nd.Choice(3)]
	if op == 2 {
		n = 17
	}
	at := []int{0, n / 2, n - 1}[nd.Choice(3)]
	v := nd.Int()
	args := make([]*kit.Node, n)
	want := 0
	for i := range args {
		x := i%3 + 1
		if i == at {
			x = v
		}
		args[i] = kit.Int(x)
		switch {
		case i == 0:
			want = x
		case op == 0:
			want += x
		case op == 1:
			want -= x
		default:
			want *= x
		}
	}
	got, err := kit.Call([]string{"+", "-", "*"}[op], args...)
	result("a long sum, difference or product", want, got, err)
}
