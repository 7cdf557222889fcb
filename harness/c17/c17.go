// Package c17: k8s.patch against a model of its own.
package c17

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/mergemodel"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

// field is one identifying field: absent or null, which is the same, or an arbitrary string of one byte, or one with a slash.
func field(m *core.YispMap, key string) string {
	switch nd.Choice(4) {
	case 0:
		return ""
	case 3:
		m.Set(key, kit.Null())
		return ""
	case 1:
		s := []string{"a/b", "a", "b"}[nd.Choice(3)]
		m.Set(key, kit.Str(s))
		return s
	}
	s := nd.StringN(1)
	m.Set(key, kit.Str(s))
	return s
}

// manifest is an arbitrary manifest with the fields in which as identity; the others have a fixed value.
func manifest(which int, body ...any) (*node, [4]string) {
	id := [4]string{"v1", "K", "ns", "n"}
	m, meta := core.NewYispMap(), core.NewYispMap()
	put := func(i int, m *core.YispMap, key string) {
		if which == i || which == i+1 {
			id[i] = field(m, key)
		} else {
			m.Set(key, kit.Str(id[i]))
		}
	}
	put(0, m, "apiVersion")
	put(1, m, "kind")
	put(2, meta, "namespace")
	put(3, meta, "name")
	m.Set("metadata", &node{Kind: core.KindMap, Value: meta})
	b := kit.Map(body...)
	es, _ := kit.Entries(b)
	for _, e := range es {
		m.Set(e.K, e.V)
	}
	return &node{Kind: core.KindMap, Value: m}, id
}

func check(targets []*node, tids [][4]string, patches []*node, pids [][4]string) {
	want := make([]*node, len(targets))
	for i, t := range targets {
		want[i] = kit.Copy(t)
		for j, p := range patches {
			if pids[j] == tids[i] {
				want[i] = mergemodel.Merge(want[i], kit.Copy(p), t.Type)
			}
		}
	}
	tl, pl := kit.List(targets...), kit.List(patches...)
	tc, pc := kit.Copy(tl), kit.Copy(pl)
	r, err := kit.Call("k8s.patch", tl, pl)
	nd.Assert(err == nil, "k8s.patch fails")
	nd.Assert(kit.Same(r, kit.List(want...)), "k8s.patch gives wrong manifests")
	nd.Assert(kit.Same(tl, tc) && kit.Same(pl, pc), "k8s.patch changed an argument")
}

// Check_Identity: one target and one patch that differ in two neighbouring identity fields (each absent, null, an arbitrary
// byte, or a string with a slash).
func Check_Identity() {
	which := 1 + nd.Choice(3)
	t, tid := manifest(which, "x", kit.Int(nd.Int()))
	p, pid := manifest(which, "x", kit.Int(nd.Int()), "y", kit.Int(nd.Int()))
	check([]*node{t}, [][4]string{tid}, []*node{p}, [][4]string{pid})
}

// Check_Many: up to 2 (thorough 3) targets and up to 2 patches with arbitrary names out of a two-letter alphabet:
// every match is patched, in order, and nothing else changes.
func Check_Many() {
	mk := func(max int, patch bool) (ns []*node, ids [][4]string) {
		for i := nd.Choice(max + 1); i > 0; i-- {
			s := nd.StringOf("ab", 1, 1)
			m := kit.Map("apiVersion", kit.Str("v1"), "kind", kit.Str("K"), "metadata", kit.Map("name", kit.Str(s)),
				"spec", kit.Map("x", kit.Int(nd.Int()), "l", kit.List(kit.Int(nd.Int()))))
			if patch && nd.Bool() {
				m = kit.Map("apiVersion", kit.Str("v1"), "kind", kit.Str("K"), "metadata", kit.Map("name", kit.Str(s)),
					"spec", kit.Map("x", kit.Map("z", kit.Int(nd.Int())), "y", kit.Null()), "more", kit.Int(nd.Int()))
			}
			ns = append(ns, m)
			ids = append(ids, [4]string{"v1", "K", "", s})
		}
		return ns, ids
	}
	ts, tids := mk(nd.Size(2, 3), false)
	ps, pids := mk(2, true)
	check(ts, tids, ps, pids)
}

// Check_Strategies: the target's type decides how lists are merged (replace, append, or update by key, which may be an arbitrary integer), for every
// patch of two that are applied to the same target.
func Check_Strategies() {
	key := "name"
	item := func() *node {
		if key == "port" {
			return kit.Map("port", kit.Int(nd.Int()), "v", kit.Int(nd.Int()))
		}
		return kit.Map("name", kit.Str(nd.StringOf("ab", 1, 1)), "v", kit.Int(nd.Int()))
	}
	list := func() *node {
		items := make([]*node, nd.Choice(3))
		for i := range items {
			items[i] = item()
		}
		return kit.List(items...)
	}
	l := &core.Schema{Type: "array", Items: &core.Schema{Type: "object"}}
	switch nd.Choice(6) {
	case 1:
		l.PatchStrategy = "merge"
	case 4:
		key = "port"
		l.K8sPatchStrategy, l.K8sPatchMergeKey = "merge", key
	case 5:
		l.K8sPatchStrategy, l.K8sPatchMergeKey = "merge,retainKeys", key
	case 2:
		l.K8sPatchStrategy, l.K8sPatchMergeKey = "merge", "name"
	case 3:
		l.PatchStrategy, l.PatchMergeKey = "merge", "name"
	}
	typ := &core.Schema{Type: "object", Properties: map[string]*core.Schema{"spec": {Type: "object", Properties: map[string]*core.Schema{"l": l}}}}
	mk := func() *node {
		return kit.Map("apiVersion", kit.Str("v1"), "kind", kit.Str("K"), "metadata", kit.Map("name", kit.Str("n")), "spec", kit.Map("l", list()))
	}
	t := mk()
	t.Type = typ
	id := [4]string{"v1", "K", "", "n"}
	ps, ids := []*node{mk()}, [][4]string{id}
	if nd.Bool() {
		p := mk()
		if nd.Bool() {
			p.Type = typ
		}
		ps, ids = append(ps, p), append(ids, id)
	}
	check([]*node{t}, [][4]string{id}, ps, ids)
}

// Check_Misuse: targets or patches that are not lists of maps, metadata that is not a map, identity fields that are
// not strings, and wrong argument counts are errors.
func Check_Misuse() {
	k := nd.Choice(kit.NKinds)
	x := kit.OfKind(k, 0)
	ok := kit.List(kit.Map("kind", kit.Str("K")))
	var r *node
	var err error
	switch nd.Choice(6) {
	case 0:
		nd.Assume(k != kit.KList)
		r, err = kit.Call("k8s.patch", x, ok)
	case 1:
		nd.Assume(k != kit.KList)
		r, err = kit.Call("k8s.patch", ok, x)
	case 2:
		nd.Assume(k != kit.KMap)
		r, err = kit.Call("k8s.patch", ok, kit.List(x))
	case 3:
		nd.Assume(k != kit.KMap)
		r, err = kit.Call("k8s.patch", kit.List(x), ok)
	case 4:
		nd.Assume(k != kit.KString && k != kit.KNull)
		m := []*node{kit.Map("kind", x), kit.Map("apiVersion", x), kit.Map("metadata", kit.Map("name", x)), kit.Map("metadata", kit.Map("namespace", x))}[nd.Choice(4)]
		if nd.Bool() {
			r, err = kit.Call("k8s.patch", kit.List(m), ok)
		} else {
			r, err = kit.Call("k8s.patch", ok, kit.List(m))
		}
	case 5:
		args := [][]*node{{}, {ok}, {ok, ok, x}}[nd.Choice(3)]
		r, err = kit.Call("k8s.patch", args...)
	}
	nd.Assert(err != nil && r == nil, "a misused k8s.patch is accepted")
}

// Check_Long: 20 targets and 12 patches, one of which, anywhere, has an arbitrary one-byte name and may identify any of the targets or none.
func Check_Long() {
	var ts, ps []*node
	var tids, pids [][4]string
	odd := nd.StringN(1)
	v := nd.Int()
	at := []int{0, 5, 11}[nd.Choice(3)]
	mk := func(name string, i int) (*node, [4]string) {
		ns := "ns" + string(rune('a'+i%2))
		return kit.Map("apiVersion", kit.Str("v1"), "kind", kit.Str("K"), "metadata", kit.Map("name", kit.Str(name), "namespace", kit.Str(ns)),
			"v", kit.Int(v+i), "w"+name, kit.Map("x", kit.Int(i))), [4]string{"v1", "K", ns, name}
	}
	for i := 0; i < 20; i++ {
		n, id := mk(string(rune('a'+i)), i)
		ts, tids = append(ts, n), append(tids, id)
	}
	for i := 0; i < 12; i++ {
		name := string(rune('a' + (i*7)%20))
		if i == at {
			name = odd
		}
		n, id := mk(name, i*7)
		ps, pids = append(ps, n), append(pids, id)
	}
	check(ts, tids, ps, pids)
}

// Check_Conventional: identities as clusters know them are compared as they are written: the default namespace is not the absent one, versions and groups of
// the same kind are not one, names and kinds differ by case, a list kind is not its item's: a target and a patch with one of 4 API versions, kinds, namespaces and names each,
// that agree in all but at most two of them, and values that are arbitrary integers.
func Check_Conventional() {
	sets := [4][]string{{"v1", "core/v1", "apps/v1", "apps/v1beta1"}, {"ConfigMap", "configmap", "ConfigMapList", "Namespace"},
		{"", "default", "kube-system", "n"}, {"n", "default", "N", "n-"}}
	a, b := nd.Choice(4), nd.Choice(4)
	mk := func(body ...any) (*node, [4]string) {
		var id [4]string
		for i, s := range sets {
			id[i] = s[0]
			if i == a || i == b {
				id[i] = s[nd.Choice(4)]
			}
		}
		meta := kit.Map("name", kit.Str(id[3]))
		if id[2] != "" || nd.Bool() {
			meta = kit.Map("name", kit.Str(id[3]), "namespace", kit.Str(id[2]))
		}
		return kit.Map(append([]any{"apiVersion", kit.Str(id[0]), "kind", kit.Str(id[1]), "metadata", meta}, body...)...), id
	}
	t, tid := mk("x", kit.Int(nd.Int()))
	p, pid := mk("x", kit.Int(nd.Int()), "y", kit.Int(1))
	check([]*node{t}, [][4]string{tid}, []*node{p}, [][4]string{pid})
}
