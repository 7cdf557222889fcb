// Package c15: maps.patch against the reference model of JSON Patch.
package c15

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/jpatch"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

var names = []string{"add", "remove", "replace", "move", "copy", "test"}

func val() *node {
	switch nd.Choice(6) {
	case 0:
		return kit.Null()
	case 1:
		return kit.Str(nd.String(1))
	case 2:
		return kit.List(kit.Int(nd.Int()))
	case 3:
		return kit.Map("b", kit.Int(nd.Int()))
	case 4:
		return kit.Map()
	}
	return kit.Int(nd.Int())
}

func run(doc *node, ops []jpatch.Op, single bool) {
	want, ok := jpatch.From(kit.Copy(doc)), true
	nodes := make([]*node, len(ops))
	for i, o := range ops {
		nodes[i] = o.Node()
		if ok {
			want, ok = jpatch.Apply(want, o)
		}
	}
	arg := kit.List(nodes...)
	if single {
		arg = nodes[0]
	}
	before := kit.Copy(arg)
	r, err := kit.Call("maps.patch", doc, arg)
	nd.Assert(kit.Same(arg, before), "the patch operations were changed")
	if !ok {
		nd.Assert(err != nil, "a patch that must fail succeeds")
		return
	}
	nd.Assert(err == nil, "a valid patch fails")
	nd.Assert(kit.Same(r, want.Node()), "the patched document is wrong")
}

// Check_Paths: one operation (each of the six) with an arbitrary path of up to 4 (thorough 5) bytes over
// / a 0 1 - ~ applied to a document with lists, maps, empty and escaped keys. Paths to the whole document are
// outside (maps.patch documents no replacement of the root), wildcards belong to C16.
//
//verif:weight=3
func Check_Paths() {
	doc := kit.Map("a", kit.List(kit.Int(nd.Int()), kit.Map("b", kit.Int(nd.Int())), kit.List()),
		"", kit.Map("", kit.Str("e"), "0", kit.Int(7)), "~", kit.Int(nd.Int()), "/", kit.Map("b", kit.Null()), "b", kit.Str(nd.String(1)))
	p := nd.StringOf("/a01-~", 0, nd.Size(4, 5))
	o := jpatch.Op{Name: names[nd.Choice(len(names))], Path: p}
	if o.Name != "test" {
		nd.Assume(p != "")
	}
	switch o.Name {
	case "move", "copy":
		o.From = []string{"/a", "/a/0", "/b", "/a/1/b", "//0", "/~0", "/~1", "/a/3", "/zz", "/b/c", "/a/-", "a"}[nd.Choice(12)]
		nd.Assume(o.From != p)
	default:
		o.Value = jpatch.From(val())
	}
	run(doc, []jpatch.Op{o}, false)
}

// Check_From: move and copy with an arbitrary from path of up to 4 (thorough 5) bytes.
func Check_From() {
	doc := kit.Map("a", kit.List(kit.Int(nd.Int()), kit.Map("b", kit.Int(nd.Int())), kit.List()),
		"", kit.Map("", kit.Str("e")), "~", kit.Int(nd.Int()), "b", kit.Map("a", kit.Null()))
	p := nd.StringOf("/ab01-~", 1, nd.Size(4, 5))
	o := jpatch.Op{Name: names[3+nd.Choice(2)], From: p, Path: []string{"/c", "/a/0", "/a/-", "/b/a", "/a/1/x", "/b/z/y"}[nd.Choice(6)]}
	nd.Assume(o.From != o.Path)
	run(doc, []jpatch.Op{o}, false)
}

// Check_Index: array positions: one operation on a list of up to 3 integers with an arbitrary last token of up to
// 2 bytes over digits, + - and blank.
func Check_Index() {
	n := nd.Choice(4)
	items := make([]*node, n)
	for i := range items {
		items[i] = kit.Int(nd.Int())
	}
	doc := kit.Map("l", kit.List(items...))
	o := jpatch.Op{Name: names[nd.Choice(len(names))], Path: "/l/" + nd.StringOf("0123456789+- ", 0, 2), From: "/l/0", Value: jpatch.From(kit.Int(nd.Int()))}
	nd.Assume(o.Name != "move" || o.Path != o.From)
	run(doc, []jpatch.Op{o}, nd.Bool())
}

// Check_Sequences: two (thorough three) operations in a row, each with a path out of a pool over a document
// {a: {x, l: [..]}, b: [..]}, values arbitrary: later operations see the effect of earlier ones, and a value that was
// added or copied is independent of its source.
//
//verif:weight=3
func Check_Sequences() {
	paths := []string{"/a/x", "/a/l/0", "/b/0", "/b/-", "/c", "/c/x"}
	froms := []string{"/a", "/b/0", "/c"}
	if nd.Thorough() {
		paths = append(paths, "/a", "/a/l", "/b", "/c/l/0")
		froms = append(froms, "/a/l", "/a/x")
	}
	doc := kit.Map("a", kit.Map("x", kit.Int(nd.Int()), "l", kit.List(kit.Int(nd.Int()))), "b", kit.List(kit.Map("x", kit.Int(nd.Int()))))
	n := nd.Size(2, 3)
	ops := make([]jpatch.Op, n)
	for i := range ops {
		o := jpatch.Op{Name: names[nd.Choice(len(names))], Path: paths[nd.Choice(len(paths))]}
		switch o.Name {
		case "move", "copy":
			o.From = froms[nd.Choice(len(froms))]
			nd.Assume(o.From != o.Path)
		case "add", "replace":
			if nd.Bool() {
				o.Value = jpatch.From(kit.Map("x", kit.Int(nd.Int()), "l", kit.List(kit.Int(nd.Int()))))
			} else {
				o.Value = jpatch.From(kit.Int(nd.Int()))
			}
		case "test":
			o.Value = jpatch.From(kit.Int(nd.Int()))
		}
		ops[i] = o
	}
	run(doc, ops, false)
}

// Check_Alias: after a copy (or two adds of one value), changing one of the places leaves the other as it was.
func Check_Alias() {
	inner := []*node{kit.Map("x", kit.Int(1)), kit.List(kit.Map("x", kit.Int(1))), kit.Map("x", kit.Map("y", kit.Int(1)))}[nd.Choice(3)]
	sub := []string{"/x", "/0", "/x/y", "/0/x", "/new", "/-"}[nd.Choice(6)]
	first := jpatch.Op{Name: "copy", From: "/a", Path: []string{"/b", "/l/-", "/l/0"}[nd.Choice(3)]}
	side := "/a"
	if nd.Bool() {
		side = first.Path
		if side == "/l/-" {
			side = "/l/1"
		}
	}
	second := jpatch.Op{Name: names[nd.Choice(3)], Path: side + sub, Value: jpatch.From(kit.Int(nd.Int()))}
	run(kit.Map("a", inner, "l", kit.List(kit.Null())), []jpatch.Op{first, second}, false)
}

// data is an arbitrary value: null, bool, int, string, or a list or map with up to 2 of them.
func data(depth int) *node {
	switch k := nd.Choice(6); {
	case k == 4 && depth > 0:
		items := make([]*node, nd.Choice(3))
		for i := range items {
			items[i] = data(depth - 1)
		}
		return kit.List(items...)
	case k == 5 && depth > 0:
		m := core.NewYispMap()
		ks := []string{"a", "b"}
		if nd.Bool() {
			ks = []string{"b", "a"}
		}
		for _, k := range ks[:nd.Choice(3)] {
			m.Set(k, data(depth-1))
		}
		return &node{Kind: core.KindMap, Value: m}
	case k == 1:
		return kit.Bool(nd.Bool())
	case k == 2:
		return kit.Int(nd.Int())
	case k == 3:
		return kit.Str(nd.String(1))
	}
	return kit.Null()
}

// Check_Test: test succeeds exactly when the value at the path is deeply equal to the given one, for every pair of
// values of null, bool, int, string and lists and maps of up to 2 of them (maps in either key order).
//
//verif:weight=2
func Check_Test() {
	doc := kit.Map("k", data(1), "z", kit.Int(1))
	run(doc, []jpatch.Op{{Name: "test", Path: "/k", Value: jpatch.From(data(1))}}, false)
}

// Check_TestNumbers: test compares an integer (below 2^52) and a float as numbers.
func Check_TestNumbers() {
	x, y := nd.Int(), nd.Float()
	nd.Assume(x > -1<<52 && x < 1<<52 && y == y)
	a, b := kit.Int(x), kit.Float(y)
	if nd.Bool() {
		a, b = b, a
	}
	run(kit.Map("k", kit.List(a)), []jpatch.Op{{Name: "test", Path: "/k", Value: jpatch.From(kit.List(b))}}, false)
}

// Check_Malformed: operations with a missing or non-string op, path or from, a missing value, an unknown op, a patch
// that is not a map, patches that are no list or map, or a wrong number of arguments are errors.
func Check_Malformed() {
	doc := kit.Map("a", kit.Int(1))
	k := nd.Choice(kit.NKinds)
	x := kit.OfKind(k, 0)
	var r *node
	var err error
	switch nd.Choice(8) {
	case 0:
		nd.Assume(k != kit.KString)
		r, err = kit.Call("maps.patch", doc, kit.Map("op", x, "path", kit.Str("/a"), "value", kit.Int(2), "from", kit.Str("/a")))
	case 1:
		nd.Assume(k != kit.KString)
		r, err = kit.Call("maps.patch", doc, kit.Map("op", kit.Str(names[nd.Choice(6)]), "path", x, "value", kit.Int(2), "from", kit.Str("/a")))
	case 2:
		nd.Assume(k != kit.KString)
		r, err = kit.Call("maps.patch", doc, kit.Map("op", kit.Str(names[3+nd.Choice(2)]), "path", kit.Str("/b"), "from", x))
	case 3:
		r, err = kit.Call("maps.patch", doc, kit.Map("op", kit.Str(names[[]int{0, 2, 3, 4, 5}[nd.Choice(5)]]), "path", kit.Str("/a")))
	case 4:
		s := nd.String(2)
		r, err = kit.Call("maps.patch", doc, kit.Map("op", kit.Str(s), "path", kit.Str("/a"), "value", kit.Int(1), "from", kit.Str("/a")))
	case 5:
		nd.Assume(k != kit.KMap)
		r, err = kit.Call("maps.patch", doc, kit.List(x))
	case 6:
		nd.Assume(k != kit.KMap && k != kit.KList)
		r, err = kit.Call("maps.patch", doc, x)
	case 7:
		args := [][]*node{{}, {doc}, {doc, kit.List(), x}}[nd.Choice(3)]
		r, err = kit.Call("maps.patch", args...)
	}
	nd.Assert(err != nil && r == nil, "a malformed patch is accepted")
}

// Check_Long: 12 operations on a document of nested maps 12 deep and a list of 30 elements, one of them in any of 3 places being any of 8
// operations, with arbitrary values and indexes.
func Check_Long() {
	v := nd.Int()
	es := make([]*node, 30)
	for i := range es {
		es[i] = kit.Int(i)
	}
	deep := kit.Map("v", kit.Int(v))
	path := ""
	for i := 0; i < 11; i++ {
		deep = kit.Map("k", deep)
		path += "/k"
	}
	doc := kit.Map("d", deep, "l", kit.List(es...), "a", kit.Map())
	at := []int{0, 6, 11}[nd.Choice(3)]
	idx := []string{"0", "9", "10", "29", "30", "-", "31", "010"}[nd.Choice(8)]
	x := kit.Int(nd.Int())
	odd := []jpatch.Op{
		{Name: "add", Path: "/l/" + idx, Value: jpatch.From(x)},
		{Name: "remove", Path: "/l/" + idx},
		{Name: "replace", Path: "/l/" + idx, Value: jpatch.From(x)},
		{Name: "move", Path: "/a/m", From: "/l/" + idx},
		{Name: "copy", Path: "/l/" + idx, From: "/d" + path + "/v"},
		{Name: "add", Path: "/d" + path + "/w", Value: jpatch.From(x)},
		{Name: "remove", Path: "/d" + path + "/v"},
		{Name: "test", Path: "/d" + path + "/v", Value: jpatch.From(x)},
	}[nd.Choice(8)]
	ops := make([]jpatch.Op, 12)
	for i := range ops {
		switch {
		case i == at:
			ops[i] = odd
		case i%3 == 0:
			ops[i] = jpatch.Op{Name: "add", Path: "/a/k" + string(rune('a'+i)), Value: jpatch.From(kit.Int(i))}
		case i%3 == 1:
			ops[i] = jpatch.Op{Name: "replace", Path: "/l/" + string(rune('0'+i%10)), Value: jpatch.From(kit.Str("x"))}
		default:
			ops[i] = jpatch.Op{Name: "add", Path: "/l/-", Value: jpatch.From(kit.List(kit.Int(i)))}
		}
	}
	run(doc, ops, false)
}

// Check_Documents: patches of what an include yields change each of its documents, of which there are up to 3 of 4 shapes with arbitrary integers, like the documents themselves; one that
// cannot be patched fails the whole.
func Check_Documents() {
	n := nd.Choice(nd.Size(3, 4))
	docs := make([]*node, n)
	for i := range docs {
		docs[i] = []*node{kit.Map("a", kit.Int(nd.Int()), "l", kit.List(kit.Int(1))), kit.List(kit.Int(nd.Int()), kit.Int(2)), kit.Map(), kit.Int(nd.Int())}[nd.Choice(4)]
	}
	o := []jpatch.Op{
		{Name: "add", Path: "/a", Value: jpatch.From(kit.Int(nd.Int()))},
		{Name: "add", Path: "/0", Value: jpatch.From(kit.Map())},
		{Name: "remove", Path: "/a"},
		{Name: "replace", Path: "/l/0", Value: jpatch.From(kit.Str("x"))},
		{Name: "copy", Path: "/b", From: "/a"},
		{Name: "test", Path: "/a", Value: jpatch.From(kit.Int(5))},
	}[nd.Choice(6)]
	ok := true
	wants := make([]*node, n)
	for i, d := range docs {
		if w, good := jpatch.Apply(jpatch.From(kit.Copy(d)), o); good {
			wants[i] = w.Node()
		} else {
			ok = false
		}
	}
	arg := kit.List(docs...)
	arg.IsDocumentRoot = true
	r, err := kit.Call("maps.patch", arg, kit.List(o.Node()))
	if !ok {
		nd.Assert(err != nil, "a patch that fails for a document succeeds")
		return
	}
	nd.Assert(err == nil, "a valid patch of documents fails")
	nd.Assert(kit.Same(r, kit.List(wants...)), "the patched documents are wrong")
}
