// Package c16: wildcards in the paths of maps.patch.
package c16

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/jpatch"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node
type val = jpatch.Val

// apply is the oracle: the operation on every match of path, ok false if it fails for one of them.
func apply(v *val, op string, path []string, x *val, star bool) (*val, bool) {
	if len(path) == 0 {
		return nil, false
	}
	if path[0] != "*" {
		if len(path) == 1 || !hasStar(path) && !star {
			return one(v, op, path, x, star)
		}
		if !hasStar(path) {
			return one(v, op, path, x, star)
		}
		sub, ok := v.Get(path[:1])
		if !ok {
			return nil, false
		}
		r, ok := apply(sub, op, path[1:], x, star)
		if !ok {
			return nil, false
		}
		return v.Replace(path[:1], r)
	}
	if v.Kind == 's' {
		return nil, false
	}
	out := *v
	if len(path) == 1 && op == "remove" {
		out.K, out.V, out.L = nil, nil, nil
		return &out, true
	}
	each := func(in []*val) ([]*val, bool) {
		res := make([]*val, len(in))
		for i, e := range in {
			if len(path) == 1 {
				res[i] = x
				if op == "add" && e.Kind == 'm' && x.Kind == 'm' {
					res[i] = merged(e, x)
				}
				continue
			}
			r, ok := apply(e, op, path[1:], x, true)
			if !ok {
				return nil, false
			}
			res[i] = r
		}
		return res, true
	}
	var ok bool
	if v.Kind == 'm' {
		out.V, ok = each(v.V)
	} else {
		out.L, ok = each(v.L)
	}
	return &out, ok
}

func hasStar(path []string) bool {
	for _, t := range path {
		if t == "*" {
			return true
		}
	}
	return false
}

func merged(e, x *val) *val {
	r := e
	for i, k := range x.K {
		r, _ = r.Add([]string{k}, x.V[i])
	}
	return r
}

func one(v *val, op string, path []string, x *val, star bool) (*val, bool) {
	switch op {
	case "add":
		if star && x.Kind == 'm' {
			if old, ok := v.Get(path); ok && old.Kind == 'm' {
				return v.Replace(path, merged(old, x))
			}
		}
		return v.Add(path, x)
	case "replace":
		return v.Replace(path, x)
	}
	return v.Remove(path)
}

func entry() *node {
	switch nd.Choice(5) {
	case 0:
		return kit.Int(nd.Int())
	case 1:
		return kit.Map()
	case 2:
		return kit.Map("a", kit.Int(nd.Int()), "b", kit.Int(nd.Int()))
	case 3:
		return kit.List(kit.Int(nd.Int()), kit.Int(nd.Int()))
	}
	return kit.Map("a", kit.Map("c", kit.Int(nd.Int())))
}

func box(max int) *node {
	n := nd.Choice(max + 1)
	items := make([]*node, n)
	m := core.NewYispMap()
	for i := range items {
		items[i] = entry()
		m.Set([]string{"a", "b", "c"}[i], items[i])
	}
	if nd.Bool() {
		return &node{Kind: core.KindMap, Value: m}
	}
	return kit.List(items...)
}

func value() *node {
	switch nd.Choice(3) {
	case 0:
		return kit.Map("b", kit.Int(nd.Int()), "z", kit.List(kit.Int(nd.Int())))
	case 1:
		return kit.List()
	}
	return kit.Int(nd.Int())
}

func check(doc *node, op, path string, x *node) {
	ts, ok := jpatch.Tokens(path)
	nd.Assert(ok, "harness: bad path")
	want, ok := apply(jpatch.From(kit.Copy(doc)), op, ts, jpatch.From(kit.Copy(x)), false)
	o := jpatch.Op{Name: op, Path: path, Value: jpatch.From(x)}.Node()
	before := kit.Copy(o)
	r, err := kit.Call("maps.patch", doc, kit.List(o))
	nd.Assert(kit.Same(o, before), "the patch operation was changed")
	if !ok {
		nd.Assert(err != nil, "a wildcard patch that fails for a match succeeds")
		return
	}
	nd.Assert(err == nil, "a valid wildcard patch fails")
	nd.Assert(kit.Same(r, want.Node()), "the patched document is wrong")
}

var ops = []string{"add", "replace", "remove"}

// Check_Last: add, replace and remove with a wildcard as the last token (at the root or below a key or index), on a
// list or map of up to 2 (thorough 3) entries of several shapes with arbitrary integers, or on a scalar.
func Check_Last() {
	b := box(nd.Size(2, 3))
	switch nd.Choice(4) {
	case 0:
		check(b, ops[nd.Choice(3)], "/*", value())
	case 1:
		check(kit.Map("k", b, "other", kit.Map("a", kit.Int(1))), ops[nd.Choice(3)], "/k/*", value())
	case 2:
		check(kit.List(kit.Int(0), b), ops[nd.Choice(3)], "/1/*", value())
	case 3:
		check(kit.Map("k", b), ops[nd.Choice(3)], "/missing/*", value())
	}
}

// Check_Middle: add, replace and remove with a wildcard in the middle of the path: every match gets the operation,
// and one failing match fails the whole.
func Check_Middle() {
	rest := []string{"/a", "/b", "/0", "/-", "/a/c", "/zz", "/a~1b", "/~01"}[nd.Choice(8)]
	b := box(2)
	if nd.Bool() {
		check(b, ops[nd.Choice(3)], "/*"+rest, value())
	} else {
		check(kit.Map("x", kit.Map("a", kit.Int(1)), "k", b), ops[nd.Choice(3)], "/k/*"+rest, value())
	}
}

// Check_Escaped: keys with slashes and tildes before, behind and between wildcards.
func Check_Escaped() {
	ks := []string{"a/b", "~1", "~0", "~", "/", "~01", "~/~", "a b", ""}
	i := nd.Choice(len(ks))
	k, l := ks[i], ks[(i+1+nd.Choice(2))%len(ks)]
	esc := func(k string) string {
		out := ""
		for i := 0; i < len(k); i++ {
			switch k[i] {
			case '~':
				out += "~0"
			case '/':
				out += "~1"
			default:
				out += k[i : i+1]
			}
		}
		return out
	}
	in := func() *node {
		return kit.Map(k, kit.Map("a", kit.Int(nd.Int()), l, kit.Int(1)), l, kit.Map("a", kit.Int(nd.Int())))
	}
	doc := kit.Map(k, kit.List(in(), in()), l, kit.Map("p", in()))
	path := []string{"/" + esc(k) + "/*/" + esc(k), "/" + esc(k) + "/*/" + esc(l) + "/a", "/*/*/" + esc(k), "/" + esc(l) + "/p/*/" + esc(l), "/*/0/" + esc(l), "/" + esc(l) + "/*/" + esc(k) + "/" + esc(l)}[nd.Choice(6)]
	check(doc, ops[nd.Choice(3)], path, value())
}

// Check_Two: two wildcards in one path, over a list or map of up to 2 lists or maps.
func Check_Two() {
	n := nd.Choice(3)
	items := make([]*node, n)
	m := core.NewYispMap()
	for i := range items {
		items[i] = box(nd.Size(1, 2))
		m.Set([]string{"k", "l"}[i], items[i])
	}
	doc := kit.List(items...)
	if nd.Bool() {
		doc = &node{Kind: core.KindMap, Value: m}
	}
	check(doc, ops[nd.Choice(3)], []string{"/*/*", "/*/*/a", "/*/a/*"}[nd.Choice(3)], value())
}

// Check_Independent: after a wildcard add or replace of one value (or a wildcard copy or move), changing one of the
// places leaves the others as they were.
func Check_Independent() {
	doc := kit.Map("src", kit.Map("x", kit.Int(1), "l", kit.List(kit.Int(nd.Int()))), "t", kit.Map("p", kit.Map("q", kit.Map()), "r", kit.Map("q", kit.Null())))
	v := kit.Map("x", kit.Int(nd.Int()), "l", kit.List(kit.Int(nd.Int())))
	op := []string{"add", "replace", "copy", "move"}[nd.Choice(4)]
	path := []string{"/t/*", "/t/*/q"}[nd.Choice(2)]
	first := jpatch.Op{Name: op, Path: path, From: "/src", Value: jpatch.From(v)}
	model := jpatch.From(kit.Copy(doc))
	x := first.Value
	var ok bool
	name := op
	if op == "copy" || op == "move" {
		x, _ = model.Get([]string{"src"})
		name = "add"
		if op == "move" {
			model, _ = model.Remove([]string{"src"})
		}
	}
	ts, _ := jpatch.Tokens(path)
	model, ok = apply(model, name, ts, x, false)
	nd.Assert(ok, "harness: the first operation fails")
	at := "/t/p"
	if path == "/t/*/q" {
		at = "/t/p/q"
	}
	second := jpatch.Op{Name: ops[nd.Choice(3)], Path: at + []string{"/x", "/l/0", "/l/-"}[nd.Choice(3)], Value: jpatch.From(kit.Int(nd.Int()))}
	model, ok = jpatch.Apply(model, second)
	r, err := kit.Call("maps.patch", doc, kit.List(first.Node(), second.Node()))
	if !ok {
		nd.Assert(err != nil, "a failing operation succeeds")
		return
	}
	nd.Assert(err == nil, "a valid patch fails")
	nd.Assert(kit.Same(r, model.Node()), "a later operation on one place shows in another")
}

// Check_Long: add, replace and remove with one or two wildcards over a list or map of 25 maps or lists, one of which, anywhere, lacks
// what the others have or is a scalar.
func Check_Long() {
	n := 25
	at := []int{0, 12, n - 1}[nd.Choice(3)]
	v := nd.Int()
	odd := []*node{kit.Map("a", kit.Int(v), "l", kit.List(kit.Map("a", kit.Int(2)))), kit.Map("l", kit.List(kit.Map("b", kit.Int(v)))), kit.Int(v), kit.Map()}[nd.Choice(4)]
	es := make([]*node, n)
	m := core.NewYispMap()
	for i := range es {
		es[i] = kit.Map("a", kit.Int(i), "l", kit.List(kit.Map("a", kit.Int(v)), kit.Map("a", kit.Int(i))))
		if i == at {
			es[i] = odd
		}
		m.Set("k"+string(rune('a'+i)), kit.Copy(es[i]))
	}
	doc := kit.Map("d", kit.List(es...))
	if nd.Choice(2) == 1 {
		doc = kit.Map("d", &node{Kind: core.KindMap, Value: m})
	}
	path := []string{"/d/*", "/d/*/a", "/d/*/l/*/a", "/d/*/l/0", "/d/*/*"}[nd.Choice(5)]
	check(doc, ops[nd.Choice(3)], path, kit.Int(7))
}
