// Package c09: tagging a value with a type completes it with the defaults of the type and changes nothing else.
package c09

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
	"github.com/totegamma/yisp/internal/zzverif/typemodel"
)

type (
	node = kit.Node
	spec = typemodel.Spec
)

// cast gives the value the type, written as a tag.
func cast(t, v *node) (*node, error) {
	env := core.NewEnv()
	env.Set("T", t)
	n := *v
	n.Tag = "!T"
	return engine.NewEngine(engine.Options{}).Eval(&n, env, core.EvalModeQuote)
}

// keepsOrder reports whether the keys of v stand in the same order in r, at every depth.
func keepsOrder(v, r *node) bool {
	es, ok := kit.Entries(v)
	if ok {
		rs, _ := kit.Entries(r)
		i := 0
		for _, e := range es {
			for i < len(rs) && rs[i].K != e.K {
				i++
			}
			if i == len(rs) || !keepsOrder(e.V, rs[i].V) {
				return false
			}
		}
		return true
	}
	if xs, ok := kit.Items(v); ok {
		ys, _ := kit.Items(r)
		for i := range xs {
			if i >= len(ys) || !keepsOrder(xs[i], ys[i]) {
				return false
			}
		}
	}
	return true
}

func check(s *spec, v *node) {
	t := s.Type()
	before := kit.Copy(v)
	r, err := cast(t, v)
	want := s.Complete(before)
	ok := s.Accepts(want)
	nd.Assert((err == nil) == ok, "a cast fails exactly if the completed value is not of the type")
	nd.Assert(kit.Same(v, before), "a cast changed the value it was given")
	if err != nil || !ok {
		return
	}
	nd.Assert(typemodel.SameUpToOrder(r, want), "a cast does not add exactly the missing defaults")
	nd.Assert(keepsOrder(before, r), "a cast reorders the keys of the value")
	nd.Assert(kit.WellFormed(r), "a default is not a proper value")
	again, err := cast(t, r)
	nd.Assert(err == nil && kit.Same(again, r), "casting again changes the value")
	nd.Assert(core.VerifyTypes(kit.List(r), false) == nil, "a cast value is refused in the output")
	_, err = r.ToNative()
	nd.Assert(err == nil, "a cast value cannot be converted")
}

const nDefaults = 10

// withDefault is a type with a default, of any kind.
func withDefault(i int) *spec {
	switch i {
	case 0:
		return &spec{Kind: "integer", Default: kit.Int(7)}
	case 1:
		return &spec{Kind: "string", Default: kit.Str("d")}
	case 2:
		return &spec{Kind: "boolean", Default: kit.Bool(false)}
	case 3:
		return &spec{Kind: "float", Default: kit.Float(0.5)}
	case 4:
		return &spec{Kind: "array", Items: &spec{Kind: "integer"}, Default: kit.List(kit.Int(1), kit.Int(2))}
	case 5:
		return &spec{Kind: "object", AddAll: true, Default: kit.Map("k", kit.Map("l", kit.Str("")))}
	case 6:
		return &spec{Kind: "integer", Min: typemodel.P(3), Default: kit.Int(1)} // violates itself
	case 7:
		return &spec{Kind: "string", Default: kit.Str("")}
	case 8:
		return &spec{Kind: "int-or-string", Default: kit.Int(0)}
	}
	return &spec{Kind: "any", Default: kit.List()}
}

func some() *spec {
	switch nd.Choice(3) {
	case 0:
		return typemodel.Leaf(nd.Choice(2))
	case 1:
		return withDefault(nd.Choice(nd.Size(4, nDefaults)))
	}
	return &spec{Kind: "object", Props: []typemodel.Prop{{Name: "x", Type: withDefault(0)}, {Name: "y", Type: typemodel.Leaf(1)}}}
}

func val() *node {
	switch nd.Choice(4) {
	case 0:
		return kit.Int(nd.Int())
	case 1:
		return kit.Str(nd.StringOf("ad", 0, 1))
	case 2:
		return kit.Null()
	}
	return kit.Map("y", kit.Str("given"))
}

// Check_Kinds: a default of each of 10 kinds (one violating its own type) for a property that is listed as optional or required
// and given - as an arbitrary value - or missing, next to other entries.
//
//verif:weight=4
func Check_Kinds() {
	s := &spec{Kind: "object", Props: []typemodel.Prop{{Name: "p", Type: withDefault(nd.Choice(nDefaults))}, {Name: "q", Type: &spec{Kind: "any"}}}}
	s.AddAll = nd.Choice(2) == 1
	if nd.Choice(3) == 0 {
		s.Required = []string{"p"}
	}
	m := core.NewYispMap()
	if nd.Choice(2) == 1 {
		m.Set("z", kit.Int(1))
	}
	if nd.Choice(2) == 1 {
		m.Set("p", kit.AnyData(0))
	}
	if nd.Choice(2) == 1 {
		m.Set("q", kit.Null())
	}
	check(s, &node{Kind: core.KindMap, Value: m})
}

// Check_Objects: objects with properties a and b, each plain, with a default of 4 (thorough 10) kinds or an object holding
// defaults, required or not, with additional properties or not, cast from maps with any of the keys a, b, c in any
// order and 4 sorts of values.
//
//verif:weight=4
func Check_Objects() {
	s := &spec{Kind: "object", Props: []typemodel.Prop{{Name: "a", Type: some()}, {Name: "b", Type: some()}}}
	s.Required = [][]string{nil, {"a"}, {"b"}}[nd.Choice(3)]
	s.AddAll = nd.Choice(2) == 1
	m := core.NewYispMap()
	keys := [][]string{{}, {"a"}, {"b"}, {"c"}, {"b", "a"}, {"c", "a"}}[nd.Choice(6)]
	for _, k := range keys {
		if k == "c" {
			m.Set(k, kit.Null())
		} else {
			m.Set(k, val())
		}
	}
	check(s, &node{Kind: core.KindMap, Value: m})
}

// Check_Depth: a default under 2 (thorough 3) levels of listed properties, list items, required properties, references to cached types,
// alternatives and additional properties, cast from values that have each level present, empty or missing.
//
//verif:weight=3
func Check_Depth() {
	s := &spec{Kind: "object", Props: []typemodel.Prop{{Name: "d", Type: withDefault(nd.Choice(2))}, {Name: "r", Type: typemodel.Leaf(0)}}}
	var v *node
	switch nd.Choice(5) {
	case 0:
		v = kit.Map()
	case 1:
		v = kit.Map("r", kit.Int(nd.Int()))
	case 2:
		v = kit.Map("d", kit.Int(nd.Int()))
	case 3:
		v = kit.Null()
	}
	for i := 0; i < nd.Size(2, 3); i++ {
		k := nd.Choice(7)
		switch k {
		case 0:
			s = &spec{Kind: "array", Items: s}
		case 1:
			s = &spec{Kind: "object", Props: []typemodel.Prop{{Name: "p", Type: s}}}
		case 2:
			s = &spec{Kind: "object", Props: []typemodel.Prop{{Name: "p", Type: s}}, Required: []string{"p"}}
		case 3:
			s.Save("R" + string(rune('0'+i)))
			s = &spec{Kind: "ref", Ref: "R" + string(rune('0'+i)), To: s, K8s: nd.Choice(2) == 1}
		case 4:
			s = &spec{Kind: "oneOf", OneOf: []*spec{{Kind: "null"}, s}}
			if nd.Choice(2) == 1 {
				s.OneOf[0], s.OneOf[1] = s.OneOf[1], s.OneOf[0]
			}
		case 5:
			s = &spec{Kind: "object", Add: s}
		default:
			s = &spec{Kind: "object", Props: []typemodel.Prop{{Name: "n", Type: typemodel.Leaf(1)}, {Name: "p", Type: s}}, AddAll: true}
		}
		switch nd.Choice(3) {
		case 0:
			v = nil
		case 1:
			switch k {
			case 0:
				v = kit.List()
			case 1, 2, 5, 6:
				v = kit.Map()
			}
		default:
			if v == nil {
				v = kit.Null()
			}
			switch k {
			case 0:
				v = kit.List(v, kit.Copy(v))
			case 1, 2, 5, 6:
				v = kit.Map("p", v)
			}
		}
	}
	if v == nil {
		v = kit.Map()
	}
	check(s, v)
}

// Check_Independent: the defaults of two values of one type are independent: changing one with maps.patch leaves the other, the type
// and later casts as they were.
func Check_Independent() {
	x := nd.Int()
	t := (&spec{Kind: "object", Props: []typemodel.Prop{{Name: "l", Type: withDefault(4)}, {Name: "m", Type: withDefault(5)}}}).Type()
	a, err := cast(t, kit.Map())
	nd.Assert(err == nil, "a cast failed")
	b, err := cast(t, kit.Map())
	nd.Assert(err == nil, "a cast failed")
	before := kit.Copy(b)
	ops := kit.List(kit.Map("op", kit.Str("add"), "path", kit.Str([]string{"/l/0", "/m/k/l", "/m/n"}[nd.Choice(3)]), "value", kit.Int(x)))
	_, err = kit.Call("maps.patch", a, ops)
	nd.Assert(err == nil, "patching a completed value failed")
	nd.Assert(kit.Same(b, before), "two completed values share their defaults")
	c, err := cast(t, kit.Map())
	nd.Assert(err == nil && kit.Same(c, before), "changing a completed value changed the defaults of the type")
}

// Check_Use: defaults take part in every operator like values written out: 8 uses of a completed value and its defaults.
func Check_Use() {
	x := nd.Int()
	uses := []struct {
		expr string
		want *node
	}{
		{"[+, *v.n , *x ]", kit.Int(x + 7)},
		{"[\"==\", *v.n , 7]", kit.Bool(true)},
		{"[strings.concat, *v.s , *v.s ]", kit.Str("dd")},
		{"[lists.length, *v.l ]", kit.Int(2)},
		{"[lists.car, [lists.map, *v.l , [lambda, [e], [+, *e , *x ]]]]", kit.Int(x + 1)},
		{"[maps.get, [maps.merge, *v , {n: *x }], n]", kit.Int(x)},
		{"[maps.keys, *v.o ]", kit.List(kit.Str("k"))},
		{"[if, *v.b , 1, *x ]", kit.Int(x)},
	}
	u := uses[nd.Choice(len(uses))]
	text := "!yisp &T [schema, {type: object, properties: {n: {type: integer, default: 7}, s: {type: string, default: d}, l: {type: array, items: {type: integer}, default: !quote [1, 2]}, o: {type: object, properties: {k: {type: integer, default: 1}}}, b: {type: boolean, default: false}}}]\n---\n&v\n!T\n{}\n---\n- !yisp " + u.expr + "\n"
	docs, err := kit.Run(text, "x", kit.Int(x))
	nd.Assert(err == nil, "using a completed value failed")
	if err == nil {
		items, _ := kit.Items(docs[len(docs)-1])
		nd.Assert(len(items) == 1 && kit.Same(items[0], u.want), "a default is not like a value written out")
	}
}

// Check_Printed: what a cast adds is printed as what it is: for each of 10 kinds of defaults the printed document reads back as the completed value.
func Check_Printed() {
	s := &spec{Kind: "object", Props: []typemodel.Prop{{Name: "p", Type: withDefault(nd.Choice(nDefaults))}, {Name: "o", Type: &spec{Kind: "object", Props: []typemodel.Prop{{Name: "i", Type: withDefault(0)}}}}}}
	v := kit.Map()
	want := s.Complete(v)
	nd.Assume(s.Accepts(want))
	r, err := cast(s.Type(), v)
	nd.Assert(err == nil, "a cast failed")
	out, err := kit.Engine().Render(r)
	nd.Assert(err == nil, "a completed value cannot be printed")
	back, err := kit.Call("yaml.unmarshal", kit.Str(out))
	docs, _ := kit.Items(back)
	nd.Assert(err == nil && len(docs) == 1 && typemodel.SameUpToOrder(docs[0], want), "a completed value is printed as something else")
}

// Check_Retyped: a value cast to a type, out of 6, and then, written out, by name or as the result of a call, to another has the other type, as types.get, calls with typed
// parameters and the check of the output see it; the value itself and values holding it keep theirs.
func Check_Retyped() {
	types := []*spec{
		{Kind: "object", AddAll: true},
		{Kind: "object", AddAll: true, Props: []typemodel.Prop{{Name: "a", Type: &spec{Kind: "integer", Default: kit.Int(7)}}}},
		{Kind: "any"},
		{Kind: "array", Items: &spec{Kind: "any"}},
		{Kind: "array", Items: &spec{Kind: "int-or-string"}},
		{Kind: "int-or-string"},
	}
	vals := []*node{kit.Map("b", kit.Int(nd.Int())), kit.List(kit.Int(nd.Int())), kit.Int(nd.Int())}
	v := vals[nd.Choice(3)]
	a, b := types[nd.Choice(len(types))], types[nd.Choice(len(types))]
	ta, tb := a.Type(), b.Type()
	va, err := cast(ta, v)
	nd.Assert((err == nil) == a.Accepts(a.Complete(v)), "a cast fails exactly if the completed value is not of the type")
	if err != nil {
		return
	}
	vb, err := cast(tb, va)
	switch nd.Choice(3) {
	case 1: // by name, which goes on referring to the first
		env := core.NewEnv()
		env.Set("T", tb)
		env.Set("v", va)
		n := kit.Sym("v")
		n.Tag = "!T"
		vb, err = kit.Eval(n, env)
	case 2: // the result of a call
		env := core.NewEnv()
		env.Set("T", tb)
		env.Set("v", va)
		n := kit.Op("progn", kit.Sym("v"))
		n.Tag = "!T"
		vb, err = kit.Eval(n, env)
	}
	nd.Assert((err == nil) == b.Accepts(b.Complete(va)), "a cast fails exactly if the completed value is not of the type")
	if err != nil {
		return
	}
	nd.Assert(typemodel.SameUpToOrder(vb, b.Complete(a.Complete(v))), "a second cast does not add exactly the missing defaults")
	is := func(v, t *node) bool {
		r, err := kit.Call("types.get", v)
		w, err2 := t.Value.(*core.Schema).ToYispNode()
		return err == nil && err2 == nil && kit.Same(r, w)
	}
	nd.Assert(is(vb, tb), "a cast value has another type than the last it was cast to")
	nd.Assert(is(va, ta), "casting a value to another type changed the type of the value it was made from")
}

// Check_Long: a type of 30 properties with defaults of several kinds, or a list of 20 values of a type with a default, cast from a value that has some of them: the
// first, a middle or the last one is an arbitrary integer, is missing, or stands alone.
func Check_Long() {
	n := 30
	at := []int{0, 14, n - 1}[nd.Choice(3)]
	x := kit.Int(nd.Int())
	max := 5
	s := &spec{Kind: "object"}
	m := core.NewYispMap()
	have := nd.Choice(3)
	for i := 0; i < n; i++ {
		name := "p" + string(rune('A'+i))
		p := &spec{Kind: "integer", Max: typemodel.P(max), Default: kit.Int(i % 5)}
		switch i % 3 {
		case 1:
			p = &spec{Kind: "string", Default: kit.Str("d" + name)}
		case 2:
			p = &spec{Kind: "object", Props: []typemodel.Prop{{Name: "q", Type: &spec{Kind: "integer", Default: kit.Int(i)}}}}
		}
		if i == at {
			p = &spec{Kind: "integer", Max: typemodel.P(max), Default: kit.Int(3)}
		}
		s.Props = append(s.Props, typemodel.Prop{Name: name, Type: p})
		if i == at && have != 1 {
			m.Set(name, x)
		} else if i != at && have == 1 && i%3 == 1 {
			m.Set(name, kit.Str("given"))
		}
	}
	if nd.Choice(2) == 0 {
		check(s, &node{Kind: core.KindMap, Value: m})
		return
	}
	e := &spec{Kind: "object", Props: []typemodel.Prop{{Name: "a", Type: &spec{Kind: "integer", Max: typemodel.P(max)}}, {Name: "b", Type: &spec{Kind: "string", Default: kit.Str("x")}}}}
	es := make([]*node, 20)
	for i := range es {
		es[i] = kit.Map("a", kit.Int(i%5))
		if i == at*19/(n-1) {
			es[i] = []*node{kit.Map("a", x), kit.Map("b", kit.Str("y")), kit.Map()}[have]
		}
	}
	check(&spec{Kind: "array", Items: e}, kit.List(es...))
}

// Check_Numbers: defaults written as an arbitrary integer of up to 9 (thorough 1000), as a whole float of 5 or as another float, of types float, integer or any, alone, in a list,
// in a map, in a list of lists or of maps: the completed value has them as numbers of the type's kind, equal to what is written, and a number the type has no place for is refused.
func Check_Numbers() {
	x := kit.Int(nd.IntRange(-nd.Size(9, 1000), nd.Size(9, 1000)))
	f := []float64{2, 0, -3, 1 << 40, 1e15}[nd.Choice(5)]
	written := []*node{x, kit.Float(f), kit.Float(0.25)}[nd.Choice(3)]
	kind := []string{"float", "integer", "any"}[nd.Choice(3)]
	in := nd.Choice(5)
	text := "!yisp &T [schema, {type: object, properties: {p: " + []string{
		"{type: " + kind + ", default: *w }",
		"{type: array, items: {type: " + kind + "}, default: !quote [*w , *w ]}",
		"{type: object, properties: {q: {type: " + kind + "}, r: {type: string}}, default: {q: *w , r: s}}",
		"{type: array, items: {type: array, items: {type: " + kind + "}}, default: !quote [[*w ], [], [*w ]]}",
		"{type: array, items: {type: object, properties: {q: {type: " + kind + "}}}, default: !quote [{q: *w }, {}, {q: *w }]}",
	}[in] + "}}]\n---\n!T\n{}\n"
	docs, err := kit.Run(text, "w", written)
	fl, isFloat := written.Value.(float64)
	if kind == "integer" && isFloat && fl == 0.25 {
		nd.Assert(err != nil, "a default that is not an integer is taken for one")
		return
	}
	nd.Assert(err == nil && len(docs) > 0, "a number cannot be a default")
	if err != nil || len(docs) == 0 {
		return
	}
	p, err := kit.Call("maps.get", docs[len(docs)-1], kit.Str("p"))
	nd.Assert(err == nil, "a default is missing")
	if err != nil {
		return
	}
	got := []*node{p}
	if in == 1 {
		got, _ = kit.Items(p)
		nd.Assert(len(got) == 2, "a default list has another length")
	} else if in == 2 {
		es, _ := kit.Entries(p)
		nd.Assert(len(es) == 2 && es[0].K == "q" && es[1].K == "r" && kit.Same(es[1].V, kit.Str("s")), "a default map has other entries")
		if len(es) > 0 {
			got = []*node{es[0].V}
		}
	} else if in > 2 {
		rows, _ := kit.Items(p)
		nd.Assert(len(rows) == 3, "a default list has another length")
		got = nil
		for i, row := range rows {
			in, _ := kit.Items(row)
			if es, ok := kit.Entries(row); ok && len(es) == 1 {
				in = []*node{es[0].V}
			}
			nd.Assert(len(in) == 1-i%2, "an item of a default list is another one")
			got = append(got, in...)
		}
	}
	for _, g := range got {
		nd.Assert(kit.WellFormed(g), "a default is not a proper value")
		if kind == "float" {
			nd.Assert(g.Kind == core.KindFloat, "the default of a float property is not a float")
		}
		if kind == "integer" {
			nd.Assert(g.Kind == core.KindInt, "the default of an integer property is not an integer")
		}
		nd.Assert(core.EqualNodes(g, written), "a default is another number than the one written")
	}
}
