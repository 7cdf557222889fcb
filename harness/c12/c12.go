// Package c12: map operators against the ordered-map model.
package c12

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

type kv = kit.KV

// val is an arbitrary value (integer, string, null, list, map).
func val() *node {
	switch nd.Choice(5) {
	case 0:
		return kit.Str(nd.String(1))
	case 1:
		return kit.Null()
	case 2:
		return kit.List(kit.Int(nd.Int()))
	case 3:
		return kit.Map("in", kit.Int(nd.Int()))
	}
	return kit.Int(nd.Int())
}

// key is an arbitrary string of at most 2 bytes, or a fixed longer one.
func key() string {
	if nd.Choice(4) == 0 {
		return []string{"apiVersion", "a.b", "ключ"}[nd.Choice(3)]
	}
	return nd.String(2)
}

// put is the oracle's insertion: an existing key keeps its place and takes the new value.
func put(m []kv, k string, v *node) []kv {
	for i := range m {
		if m[i].K == k {
			m[i].V = v
			return m
		}
	}
	return append(m, kv{k, v})
}

func mapOf(es []kv) *node {
	m := core.NewYispMap()
	for _, e := range es {
		m.Set(e.K, e.V)
	}
	return &node{Kind: core.KindMap, Value: m}
}

// arb is an arbitrary map with up to max entries and its model.
func arb(max int) ([]kv, *node) {
	var es []kv
	for i := nd.Choice(max + 1); i > 0; i-- {
		es = put(es, key(), val())
	}
	return es, mapOf(es)
}

func wantList(what string, r *node, err error, w []*node) {
	nd.Assert(err == nil, what+" fails")
	items, ok := kit.Items(r)
	nd.Assert(ok && len(items) == len(w), what+" has the wrong length")
	for i := range w {
		nd.Assert(kit.Same(items[i], w[i]), what+" has a wrong element")
	}
}

func wantMap(what string, r *node, err error, w []kv) {
	nd.Assert(err == nil, what+" fails")
	es, ok := kit.Entries(r)
	nd.Assert(ok && len(es) == len(w), what+" has the wrong number of entries")
	for i := range w {
		nd.Assert(es[i].K == w[i].K, what+" has a wrong key or order")
		nd.Assert(kit.Same(es[i].V, w[i].V), what+" has a wrong value")
	}
}

func fails(what string, r *node, err error) {
	nd.Assert(err != nil && r == nil, what+" is not an error")
}

// Check_Views: keys, values, to-entries, from-entries of to-entries, and get of every map with up to 2
// (thorough 3) entries with arbitrary keys of up to 2 bytes (or longer ones) and arbitrary values.
func Check_Views() {
	es, m := arb(nd.Size(2, 3))
	orig := append([]kv{}, es...)
	switch nd.Choice(5) {
	case 0:
		r, err := kit.Call("maps.keys", m)
		var w []*node
		for _, e := range es {
			w = append(w, kit.Str(e.K))
		}
		wantList("keys", r, err, w)
	case 1:
		r, err := kit.Call("maps.values", m)
		var w []*node
		for _, e := range es {
			w = append(w, e.V)
		}
		wantList("values", r, err, w)
	case 2:
		r, err := kit.Call("maps.to-entries", m)
		var w []*node
		for _, e := range es {
			w = append(w, kit.List(kit.Str(e.K), e.V))
		}
		wantList("to-entries", r, err, w)
	case 3:
		r, err := kit.Call("maps.to-entries", m)
		nd.Assert(err == nil, "to-entries fails")
		b, err := kit.Call("maps.from-entries", r)
		wantMap("from-entries of to-entries", b, err, es)
	case 4:
		k := key()
		r, err := kit.Call("maps.get", m, kit.Str(k))
		for _, e := range es {
			if e.K == k {
				nd.Assert(err == nil, "get of an existing key fails")
				nd.Assert(kit.Same(r, e.V), "get returns another value")
				return
			}
		}
		fails("get of a missing key", r, err)
	}
	wantMap("the map afterwards", m, nil, orig)
}

// Check_Build: make and from-entries with up to 3 pairs of arbitrary keys and values; later duplicates win.
func Check_Build() {
	n := nd.Choice(nd.Size(3, 4) + 1)
	var args, tuples []*node
	var w []kv
	for i := 0; i < n; i++ {
		k := nd.String(1)
		v := kit.Int(nd.Int())
		if nd.Choice(2) == 1 {
			v = []*node{kit.Null(), kit.Map("in", v), kit.List(v), kit.Map()}[nd.Choice(4)]
		}
		args = append(args, kit.Str(k), v)
		tuples = append(tuples, kit.List(kit.Str(k), v))
		w = put(w, k, v)
	}
	if nd.Bool() {
		r, err := kit.Call("maps.make", args...)
		wantMap("make", r, err, w)
	} else {
		r, err := kit.Call("maps.from-entries", kit.List(tuples...))
		wantMap("from-entries", r, err, w)
	}
}

// Check_Errors: non-string keys, odd argument counts, malformed entries, non-maps (every kind) and wrong
// argument counts are errors.
func Check_Errors() {
	x := kit.Any(1)
	isMap, isStr, isList := x.Kind == core.KindMap, x.Kind == core.KindString, x.Kind == core.KindArray
	m := kit.Map("a", kit.Int(1))
	var r *node
	var err error
	switch nd.Choice(16) {
	case 0:
		nd.Assume(!isMap)
		r, err = kit.Call([]string{"maps.keys", "maps.values", "maps.to-entries"}[nd.Choice(3)], x)
	case 1:
		nd.Assume(!isMap)
		r, err = kit.Call("maps.get", x, kit.Str("a"))
	case 2:
		nd.Assume(!isStr)
		r, err = kit.Call("maps.get", m, x)
	case 3:
		nd.Assume(!isStr)
		r, err = kit.Call("maps.make", x, kit.Int(1))
	case 4:
		args := []*node{kit.Str("a"), x, kit.Str("b"), x, kit.Str("c"), x, kit.Str("d")}
		r, err = kit.Call("maps.make", args[:1+2*nd.Choice(4)]...)
	case 5:
		r, err = kit.Call("maps.make", kit.Str("b"))
	case 6:
		nd.Assume(!isList)
		r, err = kit.Call("maps.from-entries", x)
	case 7:
		nd.Assume(!isList)
		r, err = kit.Call("maps.from-entries", kit.List(x))
	case 8:
		nd.Assume(!isStr)
		r, err = kit.Call("maps.from-entries", kit.List(kit.List(x, kit.Int(1))))
	case 9:
		r, err = kit.Call("maps.from-entries", kit.List(kit.List(kit.Str("a"), x, x)))
	case 10:
		r, err = kit.Call("maps.from-entries", kit.List(kit.List(kit.Str("a"))))
	case 11:
		r, err = kit.Call("maps.from-entries", kit.List(kit.List(kit.Str("a"), x), kit.List()))
	case 12:
		r, err = kit.Call([]string{"maps.keys", "maps.values", "maps.to-entries", "maps.from-entries"}[nd.Choice(4)])
	case 13:
		r, err = kit.Call([]string{"maps.keys", "maps.values", "maps.to-entries"}[nd.Choice(3)], m, m)
	case 14:
		r, err = kit.Call("maps.get", m)
	case 15:
		r, err = kit.Call("maps.get", m, kit.Str("a"), x)
	}
	fails("a misused map operator", r, err)
}

// Check_Long: keys, values, to-entries, get, make, from-entries and merge over maps of 17, 40 or 70 entries, of which the first, a middle or
// the last one has an arbitrary key of up to 3 digits or letters (which may be one of the others' keys) and an arbitrary integer value.
//
//verif:weight=2
func Check_Long() {
	n := []int{17, 40, 70}[nd.Choice(nd.Size(2, 3))]
	at := []int{0, n / 2, n - 1}[nd.Choice(3)]
	odd, v := nd.StringOf("k019", 1, 3), nd.Int()
	var es []kv
	var args, tuples []*node
	for i := 0; i < n; i++ {
		k, x := "k"+string(rune('0'+i/10))+string(rune('0'+i%10)), kit.Int(i)
		if i == at {
			k, x = odd, kit.Int(v)
		}
		args = append(args, kit.Str(k), x)
		tuples = append(tuples, kit.List(kit.Str(k), x))
		es = put(es, k, x)
	}
	m := mapOf(es)
	w := make([]*node, len(es))
	switch nd.Choice(7) {
	case 0:
		r, err := kit.Call("maps.keys", m)
		for i := range w {
			w[i] = kit.Str(es[i].K)
		}
		wantList("keys", r, err, w)
	case 1:
		r, err := kit.Call("maps.values", m)
		for i := range w {
			w[i] = es[i].V
		}
		wantList("values", r, err, w)
	case 2:
		r, err := kit.Call("maps.to-entries", m)
		for i := range w {
			w[i] = kit.List(kit.Str(es[i].K), es[i].V)
		}
		wantList("to-entries", r, err, w)
	case 3:
		k := []string{odd, "k00", "k16", "k39", "k3", "l"}[nd.Choice(6)]
		r, err := kit.Call("maps.get", m, kit.Str(k))
		for _, e := range es {
			if e.K == k {
				value("get", r, err, e.V)
				return
			}
		}
		fails("get of a missing key", r, err)
	case 4:
		r, err := kit.Call("maps.make", args...)
		wantMap("make", r, err, es)
	case 5:
		r, err := kit.Call("maps.from-entries", kit.List(tuples...))
		wantMap("from-entries", r, err, es)
	case 6:
		r, err := kit.Call("maps.merge", m, kit.Map("k01", kit.Null(), "new", kit.Int(1), odd, kit.Str("x")))
		w := append([]kv{}, es...)
		for _, e := range []kv{{"k01", kit.Null()}, {"new", kit.Int(1)}, {odd, kit.Str("x")}} {
			w = put(w, e.K, e.V)
		}
		wantMap("merge", r, err, w)
	}
	wantMap("the map afterwards", m, nil, es)
}

func value(what string, r *node, err error, w *node) {
	nd.Assert(err == nil && kit.Same(r, w), what+" gives a wrong value")
}
