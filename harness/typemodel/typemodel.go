// Package typemodel has the oracle of the type properties: type descriptions of its own, what they accept, how
// they complete a value, when two of them are the same, and generators of descriptions and values.
package typemodel

import (
	"strings"
	"unicode/utf8"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type Node = kit.Node

// Prop is a listed property.
type Prop struct {
	Name string
	Type *Spec
}

// Spec describes a type.
type Spec struct {
	Kind                 string // any null boolean integer float string int-or-string array object oneOf function ref
	Min, Max, XMin, XMax *int
	Mult                 int
	MinLen, MaxLen       *int
	Items                *Spec
	Props                []Prop
	Required             []string
	Add                  *Spec // additional properties; nil: see AddAll
	AddAll               bool
	OneOf                []*Spec
	Args                 []*Spec
	Ret                  *Spec
	Default              *Node
	Ref                  string // name of the referenced type
	To                   *Spec  // what Ref refers to
	AddFalse             bool   // additionalProperties: false is written out
	K8s                  bool   // Ref is spelled #/definitions/<name>
}

func P(i int) *int { return &i }

// Node is the description as the argument of the schema operator.
func (s *Spec) Node() *Node {
	m := core.NewYispMap()
	set := func(k string, n *Node) { m.Set(k, n) }
	out := &Node{Kind: core.KindMap, Value: m}
	if s.Default != nil {
		set("default", kit.Copy(s.Default))
	}
	switch s.Kind {
	case "ref":
		if s.K8s {
			set("$ref", kit.Str("#/definitions/"+s.Ref))
		} else {
			set("$ref", kit.Str(s.Ref))
		}
		return out
	case "oneOf":
		var items []*Node
		for _, x := range s.OneOf {
			items = append(items, x.Node())
		}
		set("oneOf", kit.List(items...))
		return out
	case "int-or-string":
		set("type", kit.Str("string"))
		set("format", kit.Str("int-or-string"))
	default:
		set("type", kit.Str(s.Kind))
	}
	num := func(k string, p *int) {
		if p != nil {
			set(k, kit.Int(*p))
		}
	}
	num("minimum", s.Min)
	num("maximum", s.Max)
	num("exclusiveMinimum", s.XMin)
	num("exclusiveMaximum", s.XMax)
	num("minLength", s.MinLen)
	num("maxLength", s.MaxLen)
	if s.Mult != 0 {
		set("multipleOf", kit.Int(s.Mult))
	}
	if s.Items != nil {
		set("items", s.Items.Node())
	}
	if len(s.Props) > 0 {
		ps := core.NewYispMap()
		for _, p := range s.Props {
			ps.Set(p.Name, p.Type.Node())
		}
		set("properties", &Node{Kind: core.KindMap, Value: ps})
	}
	if len(s.Required) > 0 {
		var items []*Node
		for _, x := range s.Required {
			items = append(items, kit.Str(x))
		}
		set("required", kit.List(items...))
	}
	switch {
	case s.Add != nil:
		set("additionalProperties", s.Add.Node())
	case s.AddAll:
		set("additionalProperties", kit.Bool(true))
	case s.AddFalse:
		set("additionalProperties", kit.Bool(false))
	}
	if s.Kind == "function" {
		items := []*Node{}
		for _, x := range s.Args {
			items = append(items, x.Node())
		}
		if len(items) > 0 {
			set("arguments", kit.List(items...))
		}
		if s.Ret != nil {
			set("returns", s.Ret.Node())
		}
	}
	return out
}

// Type is the type value the schema operator makes of the description.
func (s *Spec) Type() *Node {
	t, err := kit.Call("schema", s.Node())
	nd.Assert(err == nil && t != nil && t.Kind == core.KindType, "a well-formed type is refused")
	return t
}

// Schema is the decoded description.
func (s *Spec) Schema() *core.Schema {
	sc, ok := s.Type().Value.(*core.Schema)
	nd.Assert(ok && sc != nil, "a type value holds no schema")
	return sc
}

// Direct is the decoded description, made without decoding where it has no typed additional properties.
func (s *Spec) Direct() *core.Schema {
	if s == nil {
		return nil
	}
	if s.Add != nil || s.Default != nil {
		return s.Schema()
	}
	list := func(xs []*Spec) []*core.Schema {
		var out []*core.Schema
		for _, x := range xs {
			out = append(out, x.Direct())
		}
		return out
	}
	f := func(p *int) *float64 {
		if p == nil {
			return nil
		}
		v := float64(*p)
		return &v
	}
	switch s.Kind {
	case "ref":
		if s.K8s {
			return &core.Schema{Ref: "#/definitions/" + s.Ref}
		}
		return &core.Schema{Ref: s.Ref}
	case "oneOf":
		return &core.Schema{OneOf: list(s.OneOf)}
	case "int-or-string":
		return &core.Schema{Type: "string", Format: "int-or-string"}
	}
	out := &core.Schema{Type: s.Kind, Minimum: f(s.Min), Maximum: f(s.Max), ExclusiveMinimum: f(s.XMin), ExclusiveMaximum: f(s.XMax),
		MinLength: s.MinLen, MaxLength: s.MaxLen, Items: s.Items.Direct(), Required: s.Required, Arguments: list(s.Args), Returns: s.Ret.Direct()}
	if s.Mult != 0 {
		out.MultipleOf = &s.Mult
	}
	for _, p := range s.Props {
		if out.Properties == nil {
			out.Properties = map[string]*core.Schema{}
		}
		out.Properties[p.Name] = p.Type.Direct()
	}
	if s.AddAll {
		out.AdditionalProperties = true
	} else if s.AddFalse {
		out.AdditionalProperties = false
	}
	return out
}

// JSON is the description as a JSON text.
func (s *Spec) JSON() string { return jsonOf(s.Node()) }

func jsonOf(n *Node) string {
	switch n.Kind {
	case core.KindNull:
		return "null"
	case core.KindBool:
		if n.Value.(bool) {
			return "true"
		}
		return "false"
	case core.KindInt:
		return itoa(n.Value.(int))
	case core.KindFloat:
		return "0.5"
	case core.KindString:
		return "\"" + n.Value.(string) + "\""
	case core.KindArray:
		items, _ := kit.Items(n)
		var ts []string
		for _, x := range items {
			ts = append(ts, jsonOf(x))
		}
		return "[" + strings.Join(ts, ",") + "]"
	}
	es, _ := kit.Entries(n)
	var ts []string
	for _, e := range es {
		ts = append(ts, "\""+e.K+"\":"+jsonOf(e.V))
	}
	return "{" + strings.Join(ts, ",") + "}"
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

// Save puts the description into the schema cache of the home directory of this path, as name.
func (s *Spec) Save(name string) {
	nd.Setenv("HOME", nd.Dir())
	nd.WriteFile(".cache/yisp/schemas/"+name+".json", s.JSON())
}

func runes(s string) int {
	nd.Assume(utf8.ValidString(s))
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i]&0xC0 != 0x80 {
			n++
		}
	}
	return n
}

func (s *Spec) number(n *Node) bool {
	ok := true
	if i, is := kit.IsInt(n); is {
		if s.Min != nil && i < *s.Min || s.Max != nil && i > *s.Max || s.XMin != nil && i <= *s.XMin || s.XMax != nil && i >= *s.XMax {
			ok = false
		}
		if s.Mult != 0 && i%s.Mult != 0 {
			ok = false
		}
		return ok
	}
	f := n.Value.(float64)
	// NaN is within no bounds
	if s.Min != nil && !(f >= float64(*s.Min)) || s.Max != nil && !(f <= float64(*s.Max)) || s.XMin != nil && !(f > float64(*s.XMin)) || s.XMax != nil && !(f < float64(*s.XMax)) {
		ok = false
	}
	return ok
}

// Accepts reports whether the value is of the type.
func (s *Spec) Accepts(n *Node) bool {
	switch s.Kind {
	case "any":
		return true
	case "ref":
		return s.To.Accepts(n)
	case "oneOf":
		for _, x := range s.OneOf {
			if x.Accepts(n) {
				return true
			}
		}
		return false
	case "null":
		return n.Kind == core.KindNull
	case "boolean":
		return n.Kind == core.KindBool
	case "integer":
		return n.Kind == core.KindInt && s.number(n)
	case "float":
		return n.Kind == core.KindFloat && s.number(n)
	case "int-or-string", "string":
		if n.Kind == core.KindInt {
			return s.Kind == "int-or-string"
		}
		t, ok := kit.IsStr(n)
		if !ok {
			return false
		}
		l := runes(t)
		return (s.MinLen == nil || l >= *s.MinLen) && (s.MaxLen == nil || l <= *s.MaxLen)
	case "array":
		items, ok := kit.Items(n)
		if !ok {
			return false
		}
		if s.Items != nil {
			for _, x := range items {
				if !s.Items.Accepts(x) {
					return false
				}
			}
		}
		return true
	case "object":
		es, ok := kit.Entries(n)
		if !ok {
			return false
		}
		for _, r := range s.Required {
			if get(es, r) == nil {
				return false
			}
		}
		for _, e := range es {
			switch p := s.prop(e.K); {
			case p != nil:
				if !p.Accepts(e.V) {
					return false
				}
			case e.K == "$schema" || s.AddAll:
			case s.Add == nil || !s.Add.Accepts(e.V):
				return false
			}
		}
		return true
	case "function":
		l, ok := n.Value.(*core.Lambda)
		return ok && n.Kind == core.KindLambda && len(l.Arguments) == len(s.Args)
	}
	return false
}

func get(es []kit.KV, k string) *Node {
	for _, e := range es {
		if e.K == k {
			return e.V
		}
	}
	return nil
}

func (s *Spec) prop(k string) *Spec {
	for _, p := range s.Props {
		if p.Name == k {
			return p.Type
		}
	}
	return nil
}

func (s *Spec) required(k string) bool {
	for _, r := range s.Required {
		if r == k {
			return true
		}
	}
	return false
}

// Complete is a copy of the value with the defaults of the type filled in.
func (s *Spec) Complete(n *Node) *Node {
	switch s.Kind {
	case "ref":
		return s.To.Complete(n)
	case "array":
		items, ok := kit.Items(n)
		if !ok || s.Items == nil {
			return kit.Copy(n)
		}
		var out []*Node
		for _, x := range items {
			out = append(out, s.Items.Complete(x))
		}
		return kit.List(out...)
	case "object":
		es, ok := kit.Entries(n)
		if !ok {
			return kit.Copy(n)
		}
		m := core.NewYispMap()
		for _, e := range es {
			if p := s.prop(e.K); p != nil {
				m.Set(e.K, p.Complete(e.V))
			} else {
				m.Set(e.K, kit.Copy(e.V))
			}
		}
		for _, p := range s.Props {
			if get(es, p.Name) == nil && !s.required(p.Name) {
				if d := p.Type.missing(); d != nil {
					m.Set(p.Name, d)
				}
			}
		}
		return &Node{Kind: core.KindMap, Value: m}
	}
	return kit.Copy(n)
}

// missing is what takes the place of a missing optional property.
func (s *Spec) missing() *Node {
	if s.Default != nil {
		return kit.Copy(s.Default)
	}
	if s.Kind == "ref" {
		return s.To.missing()
	}
	if s.Kind != "object" || len(s.Required) > 0 {
		return nil
	}
	m := core.NewYispMap()
	for _, p := range s.Props {
		if d := p.Type.missing(); d != nil {
			m.Set(p.Name, d)
		}
	}
	if m.Len() == 0 {
		return nil
	}
	return &Node{Kind: core.KindMap, Value: m}
}

// SameUpToOrder is kit.Same, but for the order of the keys of maps.
func SameUpToOrder(a, b *Node) bool {
	if a == nil || b == nil || a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case core.KindArray:
		x, ok1 := kit.Items(a)
		y, ok2 := kit.Items(b)
		if !ok1 || !ok2 || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !SameUpToOrder(x[i], y[i]) {
				return false
			}
		}
		return true
	case core.KindMap:
		x, ok1 := kit.Entries(a)
		y, ok2 := kit.Entries(b)
		if !ok1 || !ok2 || len(x) != len(y) {
			return false
		}
		for _, e := range x {
			if !SameUpToOrder(e.V, get(y, e.K)) {
				return false
			}
		}
		return true
	}
	return kit.Same(a, b)
}

// Equal reports whether two descriptions are structurally the same type.
func Equal(a, b *Spec) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	for a.Kind == "ref" {
		a = a.To
	}
	for b.Kind == "ref" {
		b = b.To
	}
	if a.Kind != b.Kind {
		return false
	}
	list := func(x, y []*Spec) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch a.Kind {
	case "array":
		return Equal(a.Items, b.Items)
	case "object":
		if len(a.Props) != len(b.Props) {
			return false
		}
		for _, p := range a.Props {
			q := b.prop(p.Name)
			if q == nil || !Equal(p.Type, q) {
				return false
			}
		}
	case "oneOf":
		return list(a.OneOf, b.OneOf)
	case "function":
		return list(a.Args, b.Args) && Equal(a.Ret, b.Ret)
	}
	return true
}

// Leaf is one of 12 types without parts.
func Leaf(i int) *Spec {
	switch i {
	case 0:
		return &Spec{Kind: "integer"}
	case 1:
		return &Spec{Kind: "string"}
	case 2:
		return &Spec{Kind: "integer", Min: P(3)}
	case 3:
		return &Spec{Kind: "string", MinLen: P(1)}
	case 4:
		return &Spec{Kind: "any"}
	case 5:
		return &Spec{Kind: "int-or-string"}
	case 6:
		return &Spec{Kind: "boolean"}
	case 7:
		return &Spec{Kind: "null"}
	case 8:
		return &Spec{Kind: "float"}
	case 9:
		return &Spec{Kind: "array"}
	case 10:
		return &Spec{Kind: "object"}
	}
	return &Spec{Kind: "function", Args: []*Spec{{Kind: "integer"}}}
}

const NLeaves = 12
