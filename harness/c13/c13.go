// Package c13: merging maps.
package c13

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/mergemodel"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node
type kv = kit.KV

func arbMap(max, depth int) *node {
	m := core.NewYispMap()
	for i := nd.Choice(max + 1); i > 0; i-- {
		m.Set(nd.StringN(1), arb(depth-1))
	}
	return &node{Kind: core.KindMap, Value: m}
}

func arb(depth int) *node {
	n := 3
	if depth > 0 {
		n = 4
	}
	switch nd.Choice(n) {
	case 0:
		return kit.Int(nd.Int())
	case 1:
		return kit.List(kit.Int(nd.Int()))
	case 2:
		return kit.Null()
	}
	return arbMap(1, depth)
}

func same(what string, r *node, err error, w *node) {
	nd.Assert(err == nil, what+" fails")
	nd.Assert(kit.Same(r, w), what+" gives a wrong map")
}

// Check_Two: two maps with up to 2 entries each, arbitrary one-byte keys, values integers, lists, null and
// nested maps with one entry.
//
//verif:weight=8
func Check_Two() {
	a, b := arbMap(2, 2), arbMap(2, 2)
	ca, cb := kit.Copy(a), kit.Copy(b)
	r, err := kit.Call("maps.merge", a, b)
	same("merge", r, err, mergemodel.Merge(ca, cb, nil))
	nd.Assert(kit.Same(a, ca) && kit.Same(b, cb), "merge changed an argument")
}

// Check_Deep: maps nested three levels deep sharing arbitrary keys.
func Check_Deep() {
	k := func() string { return nd.StringOf("ab", 1, 1) }
	mk := func() *node {
		return kit.Map(k(), kit.Map(k(), kit.Map(k(), kit.Int(nd.Int()), "z", kit.Int(nd.Int())), k(), kit.Int(nd.Int())))
	}
	a, b := mk(), mk()
	w := mergemodel.Merge(kit.Copy(a), kit.Copy(b), nil)
	r, err := kit.Call("maps.merge", a, b)
	same("deep merge", r, err, w)
}

// Check_Many: merging up to 3 (thorough 4) maps with one or two arbitrary entries is left to right; an empty map changes nothing.
func Check_Many() {
	n := nd.Choice(nd.Size(3, 4)) + 1
	args := make([]*node, n)
	var w *node
	for i := range args {
		args[i] = core2(nd.Choice(3))
		if w == nil {
			w = kit.Copy(args[i])
		} else {
			w = mergemodel.Merge(w, kit.Copy(args[i]), nil)
		}
	}
	r, err := kit.Call("maps.merge", args...)
	same("merge of many", r, err, w)
}

func core2(n int) *node {
	m := core.NewYispMap()
	for i := 0; i < n; i++ {
		m.Set(nd.StringOf("abc", 1, 1), kit.Int(nd.Int()))
	}
	return &node{Kind: core.KindMap, Value: m}
}

// schema is a type whose property l is a list with the given strategy, also below property o and inside the
// items of a keyed list.
func schema(st, key string, k8s bool) *core.Schema {
	list := func(items *core.Schema) *core.Schema {
		l := &core.Schema{Type: "array", Items: items}
		if k8s {
			l.K8sPatchStrategy, l.K8sPatchMergeKey = st, key
		} else {
			l.PatchStrategy, l.PatchMergeKey = st, key
		}
		return l
	}
	inner := &core.Schema{Type: "object", Properties: map[string]*core.Schema{
		"name": {Type: "string"}, "v": {Type: "integer"}, "w": {Type: "integer"},
		"in": {Type: "array", PatchStrategy: "merge"},
	}}
	l := list(inner)
	return &core.Schema{Type: "object", Properties: map[string]*core.Schema{
		"l": l, "o": {Type: "object", Properties: map[string]*core.Schema{"l": l}}, "x": {Type: "array"},
	}}
}

func items(max int, unnamed bool) *node {
	out := make([]*node, nd.Choice(max+1))
	for i := range out {
		m := kit.Map("name", kit.Str(nd.StringN(1)))
		if unnamed && nd.Choice(3) == 0 {
			out[i] = kit.Map("v", kit.Int(nd.Int()))
			continue
		}
		mm := m.Value.(*core.YispMap)
		switch nd.Choice(3) {
		case 0:
			mm.Set("v", kit.Int(nd.Int()))
		case 1:
			mm.Set("w", kit.Int(nd.Int()))
		case 2:
			mm.Set("in", kit.List(kit.Int(nd.Int())))
		}
		out[i] = m
	}
	return kit.List(out...)
}

// Check_Lists: lists (at the top or one object down) of up to 2 items each side, with arbitrary
// one-byte names or (but on the right of a merge by name) without, under every list strategy, given by either spelling.
func Check_Lists() {
	st := nd.Choice(4)
	var sch *core.Schema
	k8s := nd.Bool()
	switch st {
	case 0:
		sch = schema("", "", k8s)
	case 1:
		sch = schema("replace", "", k8s)
	case 2:
		sch = schema("merge", "", k8s)
	case 3:
		sch = schema("merge", "name", k8s)
	}
	a, b := items(nd.Size(2, 3), true), items(nd.Size(2, 2), st != 3)
	wrap := func(l *node) *node { return kit.Map("l", l) }
	switch nd.Choice(3) {
	case 1:
		wrap = func(l *node) *node { return kit.Map("o", kit.Map("l", l)) }
	case 2:
		// Another list of the same map keeps the default strategy.
		wrap = func(l *node) *node { return kit.Map("x", l) }
	}
	x, y := wrap(a), wrap(b)
	x.Type, y.Type = sch, sch
	w := mergemodel.Merge(kit.Copy(x), kit.Copy(y), sch)
	r, err := kit.Call("maps.merge", x, y)
	same("merge with a list strategy", r, err, w)
}

// Check_Keys: lists with up to 2 items each side that are merged by a key whose value is, item by item, an arbitrary integer, an
// arbitrary one-digit string, a boolean or the float 0.5, with the strategy merge or merge,retainKeys, in either spelling.
func Check_Keys() {
	sch := schema([]string{"merge", "merge,retainKeys"}[nd.Choice(2)], "port", nd.Bool())
	list := func(max int, right bool) *node {
		out := make([]*node, nd.Choice(max+1))
		for i := range out {
			m := core.NewYispMap()
			m.Set([]string{"v", "w"}[nd.Choice(2)], kit.Int(nd.Int()))
			switch nd.Choice(nd.Size(3, 5)) {
			case 0:
				m.Set("port", kit.Int(nd.Int()))
			case 1:
				m.Set("port", kit.Str(nd.StringOf("0123456789", 1, 1)))
			case 2:
				m.Set("port", kit.Bool(nd.Bool()))
			case 3:
				m.Set("port", kit.Float(0.5))
			case 4:
				if right {
					m.Set("port", kit.Int(nd.Int()))
				}
			}
			out[i] = &node{Kind: core.KindMap, Value: m}
		}
		return kit.List(out...)
	}
	x, y := kit.Map("l", list(2, false)), kit.Map("l", list(nd.Size(1, 2), true))
	x.Type, y.Type = sch, sch
	w := mergemodel.Merge(kit.Copy(x), kit.Copy(y), sch)
	r, err := kit.Call("maps.merge", x, y)
	same("merge by key", r, err, w)
}

// Check_MergeKey: YAML merge keys between other entries, with arbitrary maps (up to 2 entries) or lists of maps or
// null on the right: entries appear in source order and the later one wins, one level deep.
func Check_MergeKey() {
	m, n := arbMap(nd.Size(1, 2), 1), arbMap(2, 1)
	k := nd.Int()
	v := kit.Int(k)
	put := func(out *core.YispMap, x *node) {
		es, _ := kit.Entries(x)
		for _, e := range es {
			out.Set(e.K, e.V)
		}
	}
	out := core.NewYispMap()
	var r *node
	var err error
	switch nd.Choice(5) {
	case 0:
		r, err = kit.Run1("a: *v\n<<: *m\n", "v", v, "m", m)
		out.Set("a", v)
		put(out, m)
	case 1:
		r, err = kit.Run1("<<: *m\na: *v\n", "v", v, "m", m)
		put(out, m)
		out.Set("a", v)
	case 2:
		r, err = kit.Run1("<<: *m\nb: *v\n<<: *n\n", "v", v, "m", m, "n", n)
		put(out, m)
		out.Set("b", v)
		put(out, n)
	case 3:
		r, err = kit.Run1("c: *v\n<<: [*m, *z, *n]\n", "v", v, "m", m, "n", n, "z", kit.Null())
		out.Set("c", v)
		put(out, m)
		put(out, n)
	case 4:
		r, err = kit.Run1("<<: *z\na: *v\n", "v", v, "z", kit.Null())
		out.Set("a", v)
	}
	same("merge key", r, err, &node{Kind: core.KindMap, Value: out})
}

// Check_MergeKeyErrors: a merge key whose value is not a map, list of maps or null is an error.
func Check_MergeKeyErrors() {
	x := kit.Any(1)
	switch x.Kind {
	case core.KindMap, core.KindNull:
		nd.Assume(false)
	}
	text := "a: 1\n<<: *x\n"
	if x.Kind == core.KindArray || nd.Bool() {
		text = "a: 1\n<<: [*x]\n"
	}
	_, err := kit.Run1(text, "x", x)
	nd.Assert(err != nil, "merging a value that is not a map is not an error")
}

// Check_References: the strategy of a list is found through references of the type itself, of a property, of the
// list and of its items, one or two in a row, in either spelling, of both values or of the right one; the lists have up to 1 (thorough 2) items with
// arbitrary one-byte names.
func Check_References() {
	nd.Setenv("HOME", nd.Dir())
	save := func(name, text string) { nd.WriteFile(".cache/yisp/schemas/"+name+".json", text) }
	ref := func(name string) string {
		if nd.Bool() {
			save("to-"+name, `{"$ref":"`+name+`"}`)
			name = "to-" + name
		}
		if nd.Bool() {
			name = "#/definitions/" + name
		}
		return `{"$ref":"` + name + `"}`
	}
	item := `{"type":"object","properties":{"in":{"type":"array","x-kubernetes-patch-strategy":"merge"}},"additionalProperties":true}`
	list := func(item string) string {
		return `{"type":"array","x-kubernetes-patch-strategy":"merge","x-kubernetes-patch-merge-key":"name","items":` + item + `}`
	}
	object := func(l string) string { return `{"type":"object","properties":{"l":` + l + `}}` }
	save("item", item)
	save("list", list(item))
	save("object", object(list(item)))
	typ, deep := "", false
	switch nd.Choice(5) {
	case 0:
		typ = ref("object")
	case 1:
		typ = object(ref("list"))
	case 2:
		typ = object(list(ref("item")))
	case 3:
		typ, deep = `{"type":"object","properties":{"o":`+ref("object")+`}}`, true
	case 4:
		save("refitem", list(ref("item")))
		typ = object(ref("refitem"))
	}
	inner := &core.Schema{Type: "object", Properties: map[string]*core.Schema{"in": {Type: "array", PatchStrategy: "merge"}}}
	plain := &core.Schema{Type: "object", Properties: map[string]*core.Schema{"l": {Type: "array", PatchStrategy: "merge", PatchMergeKey: "name", Items: inner}}}
	n := nd.Size(1, 2)
	x, y := kit.Map("l", items(n, false)), kit.Map("l", items(n, false))
	if deep {
		x, y = kit.Map("o", x), kit.Map("o", y)
		plain = &core.Schema{Type: "object", Properties: map[string]*core.Schema{"o": plain}}
	}
	docs, err := kit.Run("!yisp &t [schema, "+typ+"]\n---\n!yisp [maps.merge, "+[]string{"!t [progn, *x ]", "*x "}[nd.Choice(2)]+", !t [progn, *y ]]\n", "x", x, "y", y)
	nd.Assert(err == nil && len(docs) == 2, "a merge of typed values fails")
	if err == nil && len(docs) == 2 {
		same("merge with a type reached by references", docs[1], err, mergemodel.Merge(kit.Copy(x), kit.Copy(y), plain))
	}
}

// Check_Long: merging two maps of 17 or 40 entries that share a third of their keys, one of which, with an arbitrary value, has an
// arbitrary one-byte name; and merging 12 maps of one entry each.
func Check_Long() {
	n := []int{17, 40}[nd.Choice(2)]
	odd, v := nd.StringN(1), nd.Int()
	a, b := core.NewYispMap(), core.NewYispMap()
	for i := 0; i < n; i++ {
		c := string(rune('0'+i/10)) + string(rune('0'+i%10))
		a.Set("a"+c, kit.Map("x", kit.Int(i), "l", kit.List(kit.Int(i))))
		switch i % 3 {
		case 0:
			b.Set("a"+c, kit.Map("y", kit.Int(i), "l", kit.Null()))
		case 1:
			b.Set("b"+c, kit.Int(i))
		default:
			b.Set("c"+c, kit.Null())
		}
		if i == n/2 {
			a.Set(odd, kit.Int(v))
			b.Set(odd, kit.Int(v+1))
		}
	}
	if nd.Choice(2) == 0 {
		x, y := &node{Kind: core.KindMap, Value: a}, &node{Kind: core.KindMap, Value: b}
		cx, cy := kit.Copy(x), kit.Copy(y)
		r, err := kit.Call("maps.merge", x, y)
		same("merge", r, err, mergemodel.Merge(cx, cy, nil))
		nd.Assert(kit.Same(x, cx) && kit.Same(y, cy), "merge changed an argument")
		return
	}
	args := make([]*node, 12)
	w := kit.Map()
	for i := range args {
		k := "k" + string(rune('0'+i%8))
		if i == 5 {
			k = odd
		}
		args[i] = kit.Map(k, kit.Int(v+i))
		w = mergemodel.Merge(w, kit.Copy(args[i]), nil)
	}
	r, err := kit.Call("maps.merge", args...)
	same("merge of many", r, err, w)
}
