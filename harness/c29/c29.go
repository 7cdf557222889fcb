// Package c29: in KRM mode the script gets the input's items except those of the function's own API version.
// The harness runs the krm command on a resource list on standard input and reads the documents the command prints.
package c29

import (
	"strings"

	"github.com/totegamma/yisp/internal/zzverif/cli"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

const own = "krm.yisp.gammalab.net/v1"

// word is a symbolic text that is a string however it is written.
func word(max int) string {
	return "k" + nd.StringOf("ab.1", 0, max)
}

// An item: its text as the YAML value of a list element (continuation lines are indented by two) and the data the script must see for it,
// nil if the item must be left out.
func item(k int) (string, *node) {
	switch k {
	case 0:
		s := word(1)
		return "apiVersion: " + own + "\n  kind: Config\n  spec: " + s, nil
	case 1:
		return `{"kind": "Config", "apiVersion": "` + own + `"}`, nil
	case 2:
		// an API version that is not the own one, though perhaps nearly
		b := nd.Byte()
		nd.Assume(b > 0x20 && b < 0x7f && b != '"' && b != '\\' && b != '1')
		v := "krm.yisp.gammalab.net/v" + string([]byte{b})
		if nd.Bool() {
			v = []string{"v1", own + "beta1", own[1:], "KRM" + own[3:], " " + own, own + " ", "yisp.gammalab.net/v1", ""}[nd.Choice(8)]
		}
		return `apiVersion: "` + v + `"` + "\n  kind: K", kit.Map("apiVersion", kit.Str(v), "kind", kit.Str("K"))
	case 3:
		s := word(2)
		return "kind: " + s + "\n  spec: {a: [1, x, null], b: {}}", kit.Map("kind", kit.Str(s), "spec",
			kit.Map("a", kit.List(kit.Int(1), kit.Str("x"), kit.Null()), "b", kit.Map()))
	case 4:
		// the own version is not the version of the item itself
		return "apiVersion: v1\n  apiversion: " + own + "\n  spec: {apiVersion: " + own + "}", kit.Map("apiVersion", kit.Str("v1"), "apiversion", kit.Str(own), "spec", kit.Map("apiVersion", kit.Str(own)))
	case 5:
		return "[{apiVersion: " + own + "}]", kit.List(kit.Map("apiVersion", kit.Str(own)))
	case 6:
		return []string{own, "apiVersion", `"apiVersion: ` + own + `"`}[nd.Choice(3)], nil
	case 7:
		// like the function's own configuration or the list around, but of another version
		v := []string{"v1", "config.kubernetes.io/v1", "yisp/v1"}[nd.Choice(3)]
		k := []string{"Yisp", "ResourceList", "Config"}[nd.Choice(3)]
		return "apiVersion: " + v + "\n  kind: " + k + "\n  metadata: {name: x, annotations: {a: b}}", kit.Map("apiVersion", kit.Str(v), "kind", kit.Str(k),
			"metadata", kit.Map("annotations", kit.Map("a", kit.Str("b")), "name", kit.Str("x")))
	case 8:
		// the API version is no text
		return []string{"apiVersion: 1\n  kind: K", "apiVersion: [" + own + "]", "apiVersion: {v: " + own + "}", "apiVersion: null"}[nd.Choice(4)], nil
	}
	return "", nil
}

// scalars are items, or values in items, that are not maps, as written and as programs understand them.
func scalar() (string, *node) {
	switch nd.Choice(14) {
	case 0:
		n := nd.IntRange(0, 99)
		return string([]byte{byte('0' + n/10), byte('0' + n%10)}), kit.Int(n)
	case 1:
		return "null", kit.Null()
	case 2:
		return "~", kit.Null()
	case 3:
		return "true", kit.Bool(true)
	case 4:
		return "1.5", kit.Float(1.5)
	case 5:
		return "2024-01-02", kit.Str("2024-01-02")
	case 6:
		return "2024-01-02T03:04:05Z", kit.Str("2024-01-02T03:04:05Z")
	case 7:
		return "yes", kit.Str("yes")
	case 8:
		return `"1"`, kit.Str("1")
	case 9:
		return "[]", kit.List()
	case 10:
		return "{}", kit.Map()
	case 11:
		return "010", kit.Int(10)
	case 12:
		return "-9223372036854775808", kit.Int(-9223372036854775808)
	}
	s := word(3)
	return s, kit.Str(s)
}

// input is the resource list.
func input(script string, items []string) string {
	var sb strings.Builder
	sb.WriteString("apiVersion: config.kubernetes.io/v1\nkind: ResourceList\n")
	sb.WriteString("functionConfig:\n  apiVersion: " + own + "\n  kind: Yisp\n  metadata:\n    name: x\n    annotations: {a: b}\n  spec:\n    allowUntypedManifest: true\n")
	sb.WriteString(script)
	if len(items) == 0 {
		sb.WriteString([]string{"items: []\n", "items:\n", ""}[nd.Choice(3)])
		return sb.String()
	}
	sb.WriteString("items:\n")
	for _, it := range items {
		sb.WriteString("- " + it + "\n")
	}
	return sb.String()
}

func inline(prog string) string { return "    yisp: " + cli.Block(prog, 6) }

// see runs a script that prints the items one by one behind a document of its own.
func see(items []string, want []*node) {
	cli.Home()
	out, code := cli.Run(input(inline("start\n---\n*items\n---\nend\n"), items), "krm")
	nd.Assert(code == 0, "the function fails")
	docs := cli.Docs(out)
	nd.Assert(len(docs) == len(want)+2, "an item is missing, doubled or not left out")
	nd.Assert(kit.Same(docs[0], kit.Str("start")) && kit.Same(docs[len(docs)-1], kit.Str("end")), "the other documents of the script are not printed")
	for i, w := range want {
		nd.Assert(kit.Same(docs[i+1], w), "an item is changed or out of place")
	}
}

// Check_Filter: the items of the own API version are left out and no others, in their order: up to 2 (thorough 3) items, each one of 9
// shapes: of the own API version (block or JSON style), of a version that differs from it in a symbolic byte, of a similar one, without one, with the
// own version at another place, a list, a string, the function's own kind and name, an API version that is no text.
//
//verif:weight=4
func Check_Filter() {
	n := nd.Choice(nd.Size(3, 4))
	var items []string
	var want []*node
	for i := 0; i < n; i++ {
		k := nd.Choice(9)
		t, w := item(k)
		switch {
		case k == 8:
			w = [...]*node{kit.Map("apiVersion", kit.Int(1), "kind", kit.Str("K")), kit.Map("apiVersion", kit.List(kit.Str(own))), kit.Map("apiVersion", kit.Map("v", kit.Str(own))), kit.Map("apiVersion", kit.Null())}[strings.IndexByte("1[{n", t[len("apiVersion: ")])]
		case k == 6:
			w = kit.Str(strings.Trim(t, `"`))
		}
		items = append(items, t)
		if w != nil {
			want = append(want, w)
		}
	}
	see(items, want)
}

// Check_Data: items that are not maps, and the values in an item, mean to the script what they mean in a program: symbolic two-digit integers and
// words, nulls, booleans, floats, dates, quoted text, empty collections, written as an item, in a list item, as a value of a map item and of a nested map.
//
//verif:weight=3
func Check_Data() {
	t, w := scalar()
	switch nd.Choice(5) {
	case 0:
		see([]string{t}, []*node{w})
	case 1:
		see([]string{"[1, " + t + "]", "kind: x"}, []*node{kit.List(kit.Int(1), w), kit.Map("kind", kit.Str("x"))})
	case 2:
		see([]string{"kind: x\n  value: " + t, t}, []*node{kit.Map("kind", kit.Str("x"), "value", w), w})
	case 3:
		u, v := scalar()
		see([]string{"kind: x\n  spec:\n    a:\n    - " + t + "\n    - " + u}, []*node{kit.Map("kind", kit.Str("x"), "spec", kit.Map("a", kit.List(w, v)))})
	default:
		see([]string{"apiVersion: " + t + "\n  kind: x"}, []*node{kit.Map("apiVersion", w, "kind", kit.Str("x"))})
	}
}

// Check_Keys: the keys of an item are strings whatever they look like; aliases and merge keys in items mean what they mean in YAML.
func Check_Keys() {
	switch nd.Choice(5) {
	case 0:
		k := []string{"1", "null", "true", "2024-01-02", "1.5", "~", "0x1f", "010", `"a b"`}[nd.Choice(9)]
		see([]string{"{" + k + ": 5}"}, []*node{kit.Map(strings.Trim(k, `"`), kit.Int(5))})
	case 1:
		s := word(1)
		see([]string{"&a {kind: " + s + "}", "*a", "spec: *a"}, []*node{kit.Map("kind", kit.Str(s)), kit.Map("kind", kit.Str(s)), kit.Map("spec", kit.Map("kind", kit.Str(s)))})
	case 2:
		// the own version comes from a merge key
		see([]string{"&a {apiVersion: " + own + "}", "<<: *a\n  kind: x", "<<: *a\n  apiVersion: v1"}, []*node{kit.Map("apiVersion", kit.Str("v1"))})
	case 3:
		see([]string{"*items", "x: !yisp [+, 1, 2]"}[1:], []*node{kit.Map("x", kit.List(kit.Str("+"), kit.Int(1), kit.Int(2)))})
	default:
		s := word(1)
		see([]string{"text: |\n    *items\n    " + s, "- &x 1\n  - *x"}, []*node{kit.Map("text", kit.Str("*items\n"+s+"\n")), kit.List(kit.Int(1), kit.Int(1))})
	}
}

// Check_Script: the output is what the script evaluates to: scripts that count, map, filter, pick, merge or drop the items, or use none, given in the
// configuration or as a target file or directory; a script that fails makes the function fail without printing a document.
//
//verif:weight=2
func Check_Script() {
	cli.Home()
	a, b := nd.IntRange(0, 9), word(1)
	da := string([]byte{byte('0' + a)})
	items := []string{"kind: A\n  n: " + da, "apiVersion: " + own + "\n  n: 5", "kind: " + b + "\n  n: 7"}
	x, y := kit.Map("kind", kit.Str("A"), "n", kit.Int(a)), kit.Map("kind", kit.Str(b), "n", kit.Int(7))
	type script struct {
		text string
		want []*node
	}
	s := []script{
		{"count: !yisp [lists.length, *items ]\n", []*node{kit.Map("count", kit.Int(2))}},
		{"!yisp\n- lists.as-toplevel\n- - lists.map\n  - *items \n  - [lambda, [i], [maps.get, *i , n]]\n", []*node{kit.Int(a), kit.Int(7)}},
		{"!yisp\n- lists.as-toplevel\n- - lists.filter\n  - *items \n  - [lambda, [i], [==, [maps.get, *i , n], 7]]\n", nil},
		{"!yisp [lists.at, *items , 1]\n---\n!yisp [lists.car, *items ]\n", []*node{y, x}},
		{"nothing\n", []*node{kit.Str("nothing")}},
		{"items: *items \n", []*node{kit.Map("items", kit.List(x, y))}},
		{"*items\n---\n*items\n", []*node{x, y, x, y}},
		{"!yisp &double [lambda, [m], [maps.merge, *m , {n: 0}]]\n---\n!yisp [lists.as-toplevel, [lists.map, *items , *double ]]\n",
			[]*node{kit.Map("kind", kit.Str("A"), "n", kit.Int(0)), kit.Map("kind", kit.Str(b), "n", kit.Int(0))}},
		{"ok\n---\n!yisp [lists.at, *items , 2]\n", nil},
		{"ok\n---\n!yisp [+, [maps.get, [lists.car, *items ], kind], 1]\n", nil},
		{"ok\n---\n*item\n", nil},
	}
	k := nd.Choice(len(s))
	want := s[k].want
	if k == 2 {
		want = []*node{y}
		if a == 7 {
			want = []*node{x, y}
		}
	}
	conf := ""
	switch nd.Choice(5) {
	case 0:
		conf = inline(s[k].text)
	case 1:
		nd.WriteFile("work/t.yisp", s[k].text)
		conf = "    target: t.yisp\n"
	case 2:
		nd.WriteFile("work/index.yisp", s[k].text)
	case 3:
		nd.WriteFile("work/sub/index.yisp", s[k].text)
		conf = "    target: ./sub\n"
	default:
		// the script in the configuration goes first
		nd.WriteFile("work/t.yisp", "wrong\n")
		conf = "    target: t.yisp\n" + inline(s[k].text)
	}
	out, code := cli.Run(input(conf, items), "krm")
	if k >= 8 {
		nd.Assert(code != 0, "a script that fails is not a failure of the function")
		nd.Assert(!strings.Contains(out, "ok"), "a script that fails prints documents")
		return
	}
	nd.Assert(code == 0, "the function fails")
	docs := cli.Docs(out)
	nd.Assert(len(docs) == len(want), "the output is not what the script evaluates to")
	for i, w := range want {
		nd.Assert(kit.Same(docs[i], w), "the output is not what the script evaluates to")
	}
}

// Check_Version: the own API version is that of the function, whatever version the configuration that is handed to it has.
func Check_Version() {
	v := []string{"v1", "", own, "krm.yisp.gammalab.net/v2", "yisp/v1"}[nd.Choice(5)]
	a := nd.IntRange(0, 9)
	da := string([]byte{byte('0' + a)})
	cli.Home()
	in := "apiVersion: config.kubernetes.io/v1\nkind: ResourceList\nitems:\n- apiVersion: \"" + v + "\"\n  n: " + da + "\n- apiVersion: " + own + "\n  n: 5\n"
	conf := "functionConfig:\n  apiVersion: \"" + v + "\"\n  kind: Yisp\n  spec:\n    yisp: \"*items\"\n    allowUntypedManifest: true\n"
	if nd.Bool() {
		in = conf + in
	} else {
		in += conf
	}
	out, code := cli.Run(in, "krm")
	nd.Assert(code == 0, "the function fails")
	docs := cli.Docs(out)
	if v == own {
		nd.Assert(len(docs) == 0, "an item of the own API version is not left out")
		return
	}
	nd.Assert(len(docs) == 1 && kit.Same(docs[0], kit.Map("apiVersion", kit.Str(v), "n", kit.Int(a))), "an item is changed or left out")
}

// Check_Malformed: an input that is no resource list, or whose parts have the wrong kinds, and a configuration that names nothing that is there, makes the function fail without printing a document.
func Check_Malformed() {
	w := word(1)
	whole := []string{"[" + w, w, "[]", "items: " + w, "items: {a: " + w + "}", "items: 5", "functionConfig: " + w, "functionConfig: {spec: " + w + "}", "functionConfig: {spec: [" + w + "]}",
		"functionConfig: {spec: {yisp: [" + w + "]}}", "functionConfig: {spec: {yisp: {a: " + w + "}}}", "functionConfig: {spec: {target: [" + w + "]}}", "functionConfig: {spec: {target: " + w + ".yisp}}",
		"functionConfig: {spec: {allowUntypedManifest: " + w + ", yisp: x}}", "functionConfig: {spec: {yisp: \"[a\"}}", "functionConfig: {spec: {}}", "items: *" + w, "a: 1\n b: " + w}
	cli.Home()
	out, code := cli.Run(whole[nd.Choice(len(whole))]+"\n", "krm")
	nd.Assert(code != 0, "an input that is malformed does not make the function fail")
	nd.Assert(out == "", "an input that is malformed makes the function print something")
}

// Check_Long: 16 (thorough 30) items, or one of 40 keys and 12 levels, of which the first, a middle or the last one is of the own API version, of one with a symbolic last character, or no map.
func Check_Long() {
	n := nd.Size(16, 30)
	at := []int{0, n / 2, n - 1}[nd.Choice(3)]
	odd := []int{0, 2, 5, 6}[nd.Choice(4)]
	var items []string
	var want []*node
	for i := 0; i < n; i++ {
		d := string(rune('a' + i%26))
		if i == at {
			if odd == 6 {
				s, v := scalar()
				nd.Assume(s != "null" && s != "~" && s != "" && v != nil)
				items, want = append(items, "{v: "+s+"}"), append(want, kit.Map("v", v))
				continue
			}
			s, v := item(odd)
			items = append(items, s)
			if v != nil {
				want = append(want, v)
			}
			continue
		}
		items = append(items, "apiVersion: v1\n  kind: K\n  metadata: {name: "+d+"}")
		want = append(want, kit.Map("apiVersion", kit.Str("v1"), "kind", kit.Str("K"), "metadata", kit.Map("name", kit.Str(d))))
	}
	see(items, want)
}

// Check_Ends: the last item of the output keeps the blank lines a text in it ends with, whether the script is in the function's configuration or in a file:
// a text of up to 3 symbolic bytes among "a", a space and a newline, as the item, in a map or in a list.
func Check_Ends() {
	cli.Home()
	s := nd.StringOf("a \n", 0, 3)
	t, w := `"`+strings.ReplaceAll(s, "\n", `\n`)+`"`, kit.Str(s)
	switch nd.Choice(3) {
	case 1:
		t, w = "kind: x\n  text: "+t, kit.Map("kind", kit.Str("x"), "text", w)
	case 2:
		t, w = "[1, "+t+"]", kit.List(kit.Int(1), w)
	}
	spec := inline("*items\n")
	if nd.Choice(2) == 1 {
		nd.WriteFile("work/main.yisp", "*items\n")
		spec = "    target: main.yisp\n"
	}
	out, code := cli.Run(input(spec, []string{t}), "krm")
	nd.Assert(code == 0, "the function fails")
	docs := cli.Docs(out)
	nd.Assert(len(docs) == 1 && kit.Same(docs[0], w), "the text at the end of the output is not the text at the end of the last item")
}
