// Package c08: a type accepts exactly the values that satisfy its description.
package c08

import (
	"math"
	"unicode/utf8"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
	"github.com/totegamma/yisp/internal/zzverif/typemodel"
)

type (
	node = kit.Node
	spec = typemodel.Spec
)

// verdict is whether the value is accepted, asked in one of the ways a program can ask.
func verdict(t, v *node) bool {
	switch nd.Choice(4) {
	case 0:
		r, err := kit.Call("types.assert", t, v)
		nd.Assert((r == nil) == (err != nil), "neither a value nor an error")
		if err == nil {
			nd.Assert(kit.Same(r, v) || v.Kind == core.KindFloat, "types.assert returns another value")
		}
		return err == nil
	case 1:
		p := kit.Str("x")
		p.Tag = "!T"
		env := core.NewEnv()
		env.Set("T", t)
		f, err := kit.Eval(kit.List(kit.Str("lambda"), kit.List(p), kit.Int(1)), env)
		nd.Assert(err == nil, "a typed function is refused")
		_, err = kit.Engine().Apply(f, []*node{v}, env, core.EvalModeEval)
		return err == nil
	case 2:
		s, ok := t.Value.(*core.Schema)
		nd.Assert(ok, "not a type")
		v.Type = s
		return core.VerifyTypes(kit.List(kit.Map("k", v)), false) == nil
	}
	s, ok := t.Value.(*core.Schema)
	nd.Assert(ok, "not a type")
	return s.Validate(v) == nil
}

func direct(s *core.Schema) *node { return kit.TypeNode(s) }

func check(t *node, v *node, want bool) {
	nd.Assert(verdict(t, v) == want, "a type accepts a value that violates it or refuses one that satisfies it")
}

// Check_IntBounds: an arbitrary integer against 8 integral bounds of magnitude up to 2^53 (thorough: arbitrary ones up to 2^16), for each of minimum, maximum,
// exclusiveMinimum and exclusiveMaximum, and for pairs of them.
//
//verif:weight=2
func Check_IntBounds() {
	v, b := nd.Int(), 0
	if nd.Thorough() {
		b = nd.IntRange(-(1 << 16), 1<<16)
	} else {
		b = []int{0, 1, -1, 7, -100, 1 << 31, 1 << 53, -(1 << 53)}[nd.Choice(8)]
	}
	f := float64(b)
	s := &core.Schema{Type: "integer"}
	want := true
	switch nd.Choice(6) {
	case 0:
		s.Minimum, want = &f, v >= b
	case 1:
		s.Maximum, want = &f, v <= b
	case 2:
		s.ExclusiveMinimum, want = &f, v > b
	case 3:
		s.ExclusiveMaximum, want = &f, v < b
	case 4:
		s.Minimum, s.Maximum, want = &f, &f, v == b
	case 5:
		s.Minimum, s.ExclusiveMaximum, want = &f, &f, false
	}
	check(direct(s), kit.Int(v), want)
}

// Check_IntFractions: an arbitrary integer against fractional and huge bounds (10 of them).
func Check_IntFractions() {
	v := nd.Int()
	bs := []struct {
		f      float64
		ceil   int  // least integer >= f
		floor  int  // greatest integer <= f
		lo, hi bool // f is below or above all integers
	}{
		{0.5, 1, 0, false, false}, {-0.5, 0, -1, false, false}, {2.25, 3, 2, false, false}, {-3, -3, -3, false, false},
		{9007199254740994, 9007199254740994, 9007199254740994, false, false}, {-9223372036854775808, math.MinInt, math.MinInt, false, false},
		{9223372036854775808, 0, 0, false, true}, {-1e300, 0, 0, true, false}, {1e300, 0, 0, false, true}, {9223372036854774784, 9223372036854774784, 9223372036854774784, false, false},
	}
	b := bs[nd.Choice(len(bs))]
	s := &core.Schema{Type: "integer"}
	var want bool
	switch nd.Choice(4) {
	case 0:
		s.Minimum, want = &b.f, b.lo || !b.hi && v >= b.ceil
	case 1:
		s.Maximum, want = &b.f, b.hi || !b.lo && v <= b.floor
	case 2:
		s.ExclusiveMinimum, want = &b.f, b.lo || !b.hi && (b.ceil == b.floor && v > b.floor || b.ceil != b.floor && v >= b.ceil)
	case 3:
		s.ExclusiveMaximum, want = &b.f, b.hi || !b.lo && (b.ceil == b.floor && v < b.floor || b.ceil != b.floor && v <= b.floor)
	}
	check(direct(s), kit.Int(v), want)
}

// Check_FloatBounds: an arbitrary float, NaN and infinities included, against an arbitrary float bound.
func Check_FloatBounds() {
	v, f := nd.Float(), nd.Float()
	nd.Assume(f == f)
	s := &core.Schema{Type: "float"}
	var want bool
	switch nd.Choice(5) {
	case 0:
		s.Minimum, want = &f, v >= f
	case 1:
		s.Maximum, want = &f, v <= f
	case 2:
		s.ExclusiveMinimum, want = &f, v > f
	case 3:
		s.ExclusiveMaximum, want = &f, v < f
	case 4:
		s.Minimum, s.Maximum, want = &f, &f, v == f
	}
	check(direct(s), kit.Float(v), want)
}

// Check_Multiples: an arbitrary integer against multipleOf 1, 2, 3, 5, 10, -2 and 1000000007, and floats of 8 sizes against 1, 2 and 3.
func Check_Multiples() {
	if nd.Choice(2) == 0 {
		v := nd.Int()
		m := []int{1, 2, 3, 5, 10, -2, 1000000007}[nd.Choice(7)]
		check(direct(&core.Schema{Type: "integer", MultipleOf: &m}), kit.Int(v), v%m == 0)
		return
	}
	fs := []struct {
		f    float64
		want [3]bool
	}{{0, [3]bool{true, true, true}}, {6, [3]bool{true, true, true}}, {2.5, [3]bool{}}, {-4, [3]bool{true, true, false}}, {9007199254740993, [3]bool{true, true, false}},
		{math.Inf(1), [3]bool{}}, {math.NaN(), [3]bool{}}, {1e-300, [3]bool{}}}
	f := fs[nd.Choice(len(fs))]
	m := 1 + nd.Choice(3)
	check(direct(&core.Schema{Type: "float", MultipleOf: &m}), kit.Float(f.f), f.want[m-1])
}

// Check_Lengths: every valid UTF-8 text of up to 3 (thorough 4) bytes against arbitrary length limits; characters are counted (integers, where allowed, have no length).
func Check_Lengths() {
	t := nd.String(nd.Size(3, 4))
	nd.Assume(utf8.ValidString(t))
	n := 0
	for i := 0; i < len(t); i++ {
		if t[i]&0xC0 != 0x80 {
			n++
		}
	}
	lim := nd.Int()
	s := &core.Schema{Type: "string"}
	var want bool
	switch nd.Choice(3) {
	case 0:
		s.MinLength, want = &lim, n >= lim
	case 1:
		s.MaxLength, want = &lim, n <= lim
	default:
		s.MinLength, s.MaxLength, want = &lim, &lim, n == lim
	}
	if nd.Choice(2) == 1 {
		s.Format = "int-or-string"
		if nd.Choice(2) == 1 {
			check(direct(s), kit.Int(nd.Int()), true) // an integer has no length
			return
		}
	}
	check(direct(s), kit.Str(t), want)
}

// Check_Kinds: 16 types without bounds against values of every kind, lists and maps with up to 2 arbitrary entries.
//
//verif:weight=3
func Check_Kinds() {
	var s *spec
	i := nd.Choice(typemodel.NLeaves + 4)
	switch i - typemodel.NLeaves {
	case 0:
		s = &spec{Kind: "object", AddAll: true}
	case 1:
		s = &spec{Kind: "object", Add: typemodel.Leaf(0)}
	case 2:
		s = &spec{Kind: "array", Items: typemodel.Leaf(1)}
	case 3:
		s = &spec{Kind: "function"}
	default:
		s = typemodel.Leaf(i)
	}
	v := kit.Any(1)
	check(s.Type(), v, s.Accepts(v))
}

func leaf() *spec { return typemodel.Leaf(nd.Choice(nd.Size(4, typemodel.NLeaves))) }

func value() *node {
	switch nd.Choice(nd.Size(4, 5)) {
	case 0:
		return kit.Int(nd.Int())
	case 1:
		return kit.Str(nd.StringOf("\x00a~", 0, 1))
	case 2:
		return kit.Null()
	case 3:
		return kit.Float(0.5)
	}
	return kit.List(kit.Int(nd.Int()))
}

// Check_Objects: objects with up to 2 listed properties of 4 (thorough 12) types, up to 2 required ones (listed or not), and
// additional properties absent, false, true or of a type, against maps with any of the keys a, b, c and $schema, whether or not the values carry the types from an earlier cast.
//
//verif:weight=6
func Check_Objects() {
	s := &spec{Kind: "object"}
	for i, n := 0, nd.Choice(3); i < n; i++ {
		s.Props = append(s.Props, typemodel.Prop{Name: []string{"a", "b"}[i], Type: leaf()})
	}
	s.Required = [][]string{nil, {"a"}, {"b", "c"}}[nd.Choice(3)]
	switch nd.Choice(4) {
	case 0:
		s.AddAll = true
	case 1:
		s.Add = typemodel.Leaf(2)
	case 2:
		s.AddFalse = true
	}
	m := core.NewYispMap()
	for i, n := 0, nd.Choice(3); i < n; i++ {
		k := []string{"a", "b", "c", "$schema"}[nd.Choice(4)]
		if !m.Has(k) {
			m.Set(k, value())
		}
	}
	v := &node{Kind: core.KindMap, Value: m}
	sch := s.Direct()
	if nd.Choice(2) == 1 { // values once cast to the types they are checked against, and changed since
		v.Type = sch
		for k, item := range m.AllFromFront() {
			item.(*node).Type = sch.Properties[k]
		}
	}
	nd.Assert((sch.Validate(v) == nil) == s.Accepts(v), "a type accepts a value that violates it or refuses one that satisfies it")
}

// nested is one of 10 types with parts, built around a type.
func nested(i int, x *spec) *spec {
	obj := func(ps ...typemodel.Prop) *spec { return &spec{Kind: "object", Props: ps} }
	switch i {
	case 0:
		return &spec{Kind: "array", Items: x}
	case 1:
		return obj(typemodel.Prop{Name: "a", Type: x})
	case 2:
		s := obj(typemodel.Prop{Name: "a", Type: x})
		s.Required = []string{"a"}
		return s
	case 3:
		return &spec{Kind: "object", Add: x}
	case 4:
		return &spec{Kind: "oneOf", OneOf: []*spec{typemodel.Leaf(3), x}}
	case 5:
		return &spec{Kind: "oneOf", OneOf: []*spec{x, typemodel.Leaf(7)}}
	case 6:
		s := obj(typemodel.Prop{Name: "b", Type: typemodel.Leaf(0)}, typemodel.Prop{Name: "a", Type: x})
		s.AddAll = true
		return s
	case 7:
		return &spec{Kind: "ref", Ref: "io.x.T" + string(rune('0'+depth)), To: x, K8s: true}
	case 8:
		return &spec{Kind: "ref", Ref: "U" + string(rune('0'+depth)), To: x}
	}
	return &spec{Kind: "array"}
}

var depth int

// save stores what the references of a description refer to.
func save(s *spec) {
	if s == nil {
		return
	}
	if s.Kind == "ref" {
		save(s.To)
		s.To.Save(s.Ref)
	}
	save(s.Items)
	save(s.Add)
	for _, p := range s.Props {
		save(p.Type)
	}
	for _, x := range s.OneOf {
		save(x)
	}
}

// around is a value shaped for nested(i) with v in its place (lists: w and v).
func around(i int, v, w *node) *node {
	switch i {
	case 0:
		return kit.List(w, v)
	case 1, 2:
		return kit.Map("a", v)
	case 3:
		return kit.Map("x", v, "$schema", kit.Str("s"))
	case 6:
		return kit.Map("a", v, "z", kit.Null())
	}
	return v
}

// Check_Nested: types built two levels (thorough three) deep from lists, listed, required and additional properties, alternatives
// and references to cached types around 4 (thorough 12) basic types, against values of the same shape, or another one, around two integers,
// texts or others: a violation is found at any depth.
//
//verif:weight=3
func Check_Nested() {
	n := nd.Size(2, 3)
	s := leaf()
	v := value()
	w := []*node{kit.Int(9), kit.Str("w"), v}[nd.Choice(3)]
	for i := 0; i < n; i++ {
		depth = i
		k := nd.Choice(10)
		s = nested(k, s)
		j := k
		if i == 0 {
			switch nd.Choice(3) {
			case 0:
				j = 1
			case 1:
				j = 9
			}
		}
		v, w = around(j, v, w), around(j, w, w)
	}
	save(s)
	want := s.Accepts(v)
	if d := s.Direct(); d.Items != nil && nd.Choice(2) == 1 {
		if items, ok := kit.Items(v); ok {
			v.Type = d
			for _, x := range items {
				x.Type = d.Items
			}
			nd.Assert((d.Validate(v) == nil) == want, "a list accepts an item that violates its type or refuses one that satisfies it")
			return
		}
	}
	if n == 2 {
		nd.Assert((s.Direct().Validate(v) == nil) == want, "a type accepts a value that violates it or refuses one that satisfies it")
		return
	}
	check(s.Type(), v, want)
}

// Check_Missing: a reference to a type that is not cached is never satisfied, wherever it stands.
func Check_Missing() {
	nd.Setenv("HOME", nd.Dir())
	bad := &core.Schema{Ref: []string{"nope", "#/definitions/nope"}[nd.Choice(2)]}
	v := []*node{kit.Int(1), kit.Map(), kit.Null(), kit.List()}[nd.Choice(4)]
	s := bad
	switch nd.Choice(4) {
	case 0:
		s, v = &core.Schema{Type: "array", Items: bad}, kit.List(v)
	case 1:
		s, v = &core.Schema{Type: "object", Properties: map[string]*core.Schema{"a": bad}}, kit.Map("a", v)
	case 2:
		s = &core.Schema{OneOf: []*core.Schema{bad, {Type: "string"}}}
	}
	check(direct(s), v, false)
}

// Check_Output: a document whose typed part, at any of 5 places, has an arbitrary integer is printed exactly if the integer
// is within the bounds of the type.
func Check_Output() {
	n := nd.Int()
	s := &core.Schema{Type: "object", Properties: map[string]*core.Schema{"n": {Type: "integer", Minimum: new(float64), Maximum: func() *float64 { f := 9.0; return &f }()}}}
	v := kit.Map("n", kit.Int(n))
	v.Type = s
	var doc *node
	switch nd.Choice(5) {
	case 0:
		doc = v
	case 1:
		doc = kit.List(kit.Int(1), v)
	case 2:
		doc = kit.Map("a", kit.Map(), "b", kit.Map("c", v))
	case 3:
		doc = kit.List(kit.List(kit.Map("x", kit.List(v))))
	default:
		doc = kit.Map("a", v)
		doc.Type = &core.Schema{Type: "object", AdditionalProperties: true}
	}
	root := kit.List(kit.Int(0), doc)
	root.IsDocumentRoot = true
	err := core.VerifyTypes(root, false)
	nd.Assert((err == nil) == (n >= 0 && n <= 9), "the output has a value that violates its type, or a conforming one is refused")
	nd.Assert(core.VerifyTypes(root, true) == nil, "types are checked although untyped manifests are allowed")
	_ = engine.Options{}
}

// Check_Long: types of lists and objects against a list of 40 elements, a map of 30 listed or additional properties, or a value nested 8 deep, of which the
// first, a middle or the last part is an arbitrary integer against a bound; 30 required properties of which one may be missing; alternatives of 12 types.
func Check_Long() {
	limit := 5
	inner := &spec{Kind: "integer", Max: typemodel.P(limit)}
	x := nd.Int()
	n := 30
	at := []int{0, 14, n - 1}[nd.Choice(3)]
	var s *spec
	var v *node
	obj := func(k int) {
		m := core.NewYispMap()
		for i := 0; i < n; i++ {
			name := "p" + string(rune('A'+i))
			if k == 0 {
				s.Props = append(s.Props, typemodel.Prop{Name: name, Type: inner})
			}
			if i == at {
				m.Set(name, kit.Int(x))
			} else {
				m.Set(name, kit.Int(i%5))
			}
		}
		v = &node{Kind: core.KindMap, Value: m}
	}
	switch nd.Choice(6) {
	case 0:
		s = &spec{Kind: "array", Items: inner}
		es := make([]*node, n)
		for i := range es {
			es[i] = kit.Int(i % 5)
		}
		es[at] = kit.Int(x)
		v = kit.List(es...)
	case 1:
		s = &spec{Kind: "object"}
		obj(0)
	case 2:
		s = &spec{Kind: "object", Add: inner}
		obj(1)
	case 3:
		s, v = inner, kit.Int(x)
		for i := 0; i < 8; i++ {
			if i%2 == 0 {
				s, v = &spec{Kind: "array", Items: s}, kit.List(v)
			} else {
				s, v = &spec{Kind: "object", Props: []typemodel.Prop{{Name: "k", Type: s}}, Required: []string{"k"}}, kit.Map("k", v)
			}
		}
	case 4:
		s = &spec{Kind: "object", AddAll: true}
		obj(1)
		for i := 0; i < n; i++ {
			s.Required = append(s.Required, "p"+string(rune('A'+i)))
		}
		if nd.Choice(2) == 1 {
			s.Required[at] = "missing"
		}
	case 5:
		s = &spec{Kind: "oneOf"}
		for i := 0; i < 12; i++ {
			s.OneOf = append(s.OneOf, &spec{Kind: "array", Items: typemodel.Leaf(0)})
		}
		s.OneOf[at*11/(n-1)] = inner
		v = kit.Int(x)
	}
	check(s.Type(), v, s.Accepts(v))
}

// Check_Keys: objects with one listed property (required or not) under a name of up to 2 arbitrary letters or one of 8 special ones, and additional properties absent, false, true or of a
// type, against a map with one or two keys that are arbitrary or special too.
func Check_Keys() {
	special := []string{"$schema", "$schemas", "$ref", "$id", "apiVersion", "kind", "<<", "a.b"}
	name := func() string {
		if i := nd.Choice(1 + len(special)); i > 0 {
			return special[i-1]
		}
		return nd.StringOf("$aA", 0, 2)
	}
	s := &spec{Kind: "object", Props: []typemodel.Prop{{Name: name(), Type: typemodel.Leaf(0)}}}
	if nd.Bool() {
		s.Required = []string{s.Props[0].Name}
	}
	switch nd.Choice(4) {
	case 0:
		s.AddAll = true
	case 1:
		s.Add = typemodel.Leaf(2)
	case 2:
		s.AddFalse = true
	}
	m := core.NewYispMap()
	if nd.Bool() {
		m.Set(s.Props[0].Name, kit.Int(1))
	}
	m.Set(name(), []*node{kit.Int(2), kit.Str("t")}[nd.Choice(2)])
	v := &node{Kind: core.KindMap, Value: m}
	nd.Assert((s.Direct().Validate(v) == nil) == s.Accepts(v), "a type accepts a value with a key it does not allow, or refuses one with a key it allows")
}
