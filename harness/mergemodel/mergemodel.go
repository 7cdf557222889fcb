// Package mergemodel is the reference model of merging: the right side wins, maps are merged key by key, and a
// schema's strategy decides lists.
package mergemodel

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
)

type node = kit.Node
type kv = kit.KV

func strategy(s *core.Schema) (string, string) {
	if s == nil {
		return "replace", ""
	}
	st, k := s.PatchStrategy, s.PatchMergeKey
	if st == "" {
		st = s.K8sPatchStrategy
	}
	if k == "" {
		k = s.K8sPatchMergeKey
	}
	if st == "" {
		st = "replace"
	}
	return st, k
}

func find(es []kv, k string) int {
	for i := range es {
		if es[i].K == k {
			return i
		}
	}
	return -1
}

// Merge is the oracle.
func Merge(d, s *node, sch *core.Schema) *node {
	if d.Kind == core.KindMap && s.Kind == core.KindMap {
		de, _ := kit.Entries(d)
		se, _ := kit.Entries(s)
		out := core.NewYispMap()
		for _, e := range de {
			v := e.V
			if i := find(se, e.K); i >= 0 {
				var sub *core.Schema
				if sch != nil {
					sub = sch.Properties[e.K]
				}
				v = Merge(e.V, se[i].V, sub)
			}
			out.Set(e.K, v)
		}
		for _, e := range se {
			if find(de, e.K) < 0 {
				out.Set(e.K, e.V)
			}
		}
		return &node{Kind: core.KindMap, Value: out}
	}
	if d.Kind == core.KindArray && s.Kind == core.KindArray {
		dl, _ := kit.Items(d)
		sl, _ := kit.Items(s)
		st, key := strategy(sch)
		// "merge,retainKeys" asks for the keys a patch lists in a directive; without one it merges
		if st == "replace" {
			return s
		}
		out := append([]*node{}, dl...)
		for _, x := range sl {
			at := -1
			if key != "" {
				for i, y := range out {
					if k := keyOf(y, key); k != nil && kit.Same(k, keyOf(x, key)) {
						at = i
						break
					}
				}
			}
			if at >= 0 {
				out[at] = Merge(out[at], x, sch.Items)
			} else {
				out = append(out, x)
			}
		}
		return kit.List(out...)
	}
	return s
}

// keyOf is the value an item is merged by, nil if it has none.
func keyOf(n *node, key string) *node {
	es, _ := kit.Entries(n)
	i := find(es, key)
	if i < 0 {
		return nil
	}
	return es[i].V
}
