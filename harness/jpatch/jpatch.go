// Package jpatch is the reference model of JSON Patch (RFC 6902, pointers of RFC 6901) that the harnesses of
// maps.patch compare against: values are immutable, every operation returns a new document.
package jpatch

import (
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
)

// Val is a document: a scalar (S), a list (L) or a map (K, V).
type Val struct {
	Kind byte // 's', 'l', 'm'
	S    *kit.Node
	L    []*Val
	K    []string
	V    []*Val
}

// From is the model of n.
func From(n *kit.Node) *Val {
	if items, ok := kit.Items(n); ok {
		v := &Val{Kind: 'l'}
		for _, x := range items {
			v.L = append(v.L, From(x))
		}
		return v
	}
	if es, ok := kit.Entries(n); ok {
		v := &Val{Kind: 'm'}
		for _, e := range es {
			v.K, v.V = append(v.K, e.K), append(v.V, From(e.V))
		}
		return v
	}
	return &Val{Kind: 's', S: n}
}

// Node builds the value v describes.
func (v *Val) Node() *kit.Node {
	switch v.Kind {
	case 'l':
		items := make([]*kit.Node, len(v.L))
		for i, x := range v.L {
			items[i] = x.Node()
		}
		return kit.List(items...)
	case 'm':
		m := core.NewYispMap()
		for i, k := range v.K {
			m.Set(k, v.V[i].Node())
		}
		return &kit.Node{Kind: core.KindMap, Value: m}
	}
	return v.S
}

// Tokens parses a JSON pointer.
func Tokens(p string) ([]string, bool) {
	if p == "" {
		return nil, true
	}
	if p[0] != '/' {
		return nil, false
	}
	var out []string
	cur := []byte{}
	for i := 1; i < len(p); i++ {
		switch c := p[i]; c {
		case '/':
			out = append(out, string(cur))
			cur = []byte{}
		case '~':
			i++
			if i >= len(p) {
				return nil, false
			}
			switch p[i] {
			case '0':
				cur = append(cur, '~')
			case '1':
				cur = append(cur, '/')
			default:
				return nil, false
			}
		default:
			cur = append(cur, c)
		}
	}
	return append(out, string(cur)), true
}

func index(t string) (int, bool) {
	if t == "" || len(t) > 1 && t[0] == '0' || len(t) > 6 {
		return 0, false
	}
	n := 0
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return 0, false
		}
		n = n*10 + int(t[i]-'0')
	}
	return n, true
}

// child is the position of token t in v.
func (v *Val) child(t string) (int, bool) {
	switch v.Kind {
	case 'l':
		i, ok := index(t)
		return i, ok && i < len(v.L)
	case 'm':
		for i, k := range v.K {
			if k == t {
				return i, true
			}
		}
	}
	return 0, false
}

// Get is the value at a path.
func (v *Val) Get(path []string) (*Val, bool) {
	if len(path) == 0 {
		return v, true
	}
	i, ok := v.child(path[0])
	if !ok {
		return nil, false
	}
	if v.Kind == 'l' {
		return v.L[i].Get(path[1:])
	}
	return v.V[i].Get(path[1:])
}

func (v *Val) clone() *Val {
	c := *v
	c.L = append([]*Val{}, v.L...)
	c.K = append([]string{}, v.K...)
	c.V = append([]*Val{}, v.V...)
	return &c
}

// at applies f to the container that holds the last token of path.
func (v *Val) at(path []string, f func(c *Val, last string) bool) (*Val, bool) {
	if len(path) == 0 {
		return nil, false
	}
	c := v.clone()
	if len(path) == 1 {
		return c, f(c, path[0])
	}
	i, ok := v.child(path[0])
	if !ok {
		return nil, false
	}
	if v.Kind == 'l' {
		c.L[i], ok = v.L[i].at(path[1:], f)
	} else {
		c.V[i], ok = v.V[i].at(path[1:], f)
	}
	return c, ok
}

func (v *Val) Add(path []string, x *Val) (*Val, bool) {
	return v.at(path, func(c *Val, last string) bool {
		switch c.Kind {
		case 'l':
			i, ok := index(last)
			if last == "-" {
				i, ok = len(c.L), true
			}
			if !ok || i > len(c.L) {
				return false
			}
			l := append([]*Val{}, c.L[:i]...)
			c.L = append(append(l, x), c.L[i:]...)
			return true
		case 'm':
			if i, ok := c.child(last); ok {
				c.V[i] = x
			} else {
				c.K, c.V = append(c.K, last), append(c.V, x)
			}
			return true
		}
		return false
	})
}

func (v *Val) Replace(path []string, x *Val) (*Val, bool) {
	return v.at(path, func(c *Val, last string) bool {
		i, ok := c.child(last)
		if !ok {
			return false
		}
		if c.Kind == 'l' {
			c.L[i] = x
		} else {
			c.V[i] = x
		}
		return true
	})
}

func (v *Val) Remove(path []string) (*Val, bool) {
	return v.at(path, func(c *Val, last string) bool {
		i, ok := c.child(last)
		if !ok {
			return false
		}
		if c.Kind == 'l' {
			c.L = append(append([]*Val{}, c.L[:i]...), c.L[i+1:]...)
		} else {
			c.K = append(append([]string{}, c.K[:i]...), c.K[i+1:]...)
			c.V = append(append([]*Val{}, c.V[:i]...), c.V[i+1:]...)
		}
		return true
	})
}

// Equal is equality of data: numbers by value, maps without order.
func Equal(a, b *Val) bool {
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case 'l':
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !Equal(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	case 'm':
		if len(a.K) != len(b.K) {
			return false
		}
		for i, k := range a.K {
			j, ok := b.child(k)
			if !ok || !Equal(a.V[i], b.V[j]) {
				return false
			}
		}
		return true
	}
	if a.S.Kind == b.S.Kind {
		return kit.Same(a.S, b.S)
	}
	x, ok1 := a.S.Value.(int)
	y, ok2 := b.S.Value.(float64)
	if !ok1 || !ok2 {
		x, ok1 = b.S.Value.(int)
		y, ok2 = a.S.Value.(float64)
	}
	return ok1 && ok2 && y == float64(x) && x > -1<<52 && x < 1<<52
}

// Op is one patch operation; From and Value are used by the operations that have them.
type Op struct {
	Name, Path, From string
	Value            *Val
}

// Apply applies one operation without wildcards.
func Apply(v *Val, o Op) (*Val, bool) {
	path, ok := Tokens(o.Path)
	if !ok {
		return nil, false
	}
	switch o.Name {
	case "add":
		return v.Add(path, o.Value)
	case "replace":
		return v.Replace(path, o.Value)
	case "remove":
		return v.Remove(path)
	case "test":
		x, ok := v.Get(path)
		return v, ok && Equal(x, o.Value)
	}
	from, ok := Tokens(o.From)
	if !ok {
		return nil, false
	}
	x, ok := v.Get(from)
	if !ok {
		return nil, false
	}
	if o.Name == "copy" {
		return v.Add(path, x)
	}
	w, ok := v.Remove(from)
	if !ok {
		return nil, false
	}
	return w.Add(path, x)
}

// Node is the operation as a yisp map.
func (o Op) Node() *kit.Node {
	switch o.Name {
	case "move", "copy":
		return kit.Map("op", kit.Str(o.Name), "from", kit.Str(o.From), "path", kit.Str(o.Path))
	case "remove":
		return kit.Map("op", kit.Str(o.Name), "path", kit.Str(o.Path))
	}
	return kit.Map("op", kit.Str(o.Name), "path", kit.Str(o.Path), "value", o.Value.Node())
}
