// Package c31: the build command prints what the program evaluates to, or fails.
package c31

import (
	"encoding/json"
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/cli"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

// A program: documents that print something, documents that print nothing, and documents that fail.
func document(k int) (text string, want *node, fails bool) {
	switch k {
	case 0:
		n := nd.IntRange(0, 9)
		return "n: !yisp [+, " + string([]byte{byte('0' + n)}) + ", 1]", kit.Map("n", kit.Int(n+1)), false
	case 1:
		return "!yisp &f [lambda, [x], *x ]", nil, false
	case 2:
		return "null", nil, false
	case 3:
		s := "x" + nd.StringOf("a<\"\\", 0, 2)
		return "s: '" + s + "'", kit.Map("s", kit.Str(s)), false
	case 4:
		return "[1, [], {a: {}, b: null}, true, \"1\"]", kit.List(kit.Int(1), kit.List(), kit.Map("a", kit.Map(), "b", kit.Null()), kit.Bool(true), kit.Str("1")), false
	case 5:
		return "keep: 1\nleave: !yisp [lambda, [x], 1]\nlist: [!yisp [schema, {type: string}], 2]", kit.Map("keep", kit.Int(1), "list", kit.List(kit.Int(2))), false
	case 6:
		return "x: !yisp [nope, 1]", nil, true
	case 7:
		return "x: *nope ", nil, true
	}
	return "x: [", nil, true
}

const nDocs = 9

func place(text string) (stdin, file string) {
	switch nd.Choice(5) {
	case 0:
		return text, "-"
	case 1:
		nd.WriteFile("work/main.yisp", text)
		return "", "main.yisp"
	case 2:
		nd.WriteFile("work/index.yisp", text)
		return "", "."
	case 3:
		return "", nd.WriteFile("other/a b.yisp", text)
	}
	nd.WriteFile("work/sub/index.yisp", text)
	return "", "sub"
}

// program joins up to n documents.
func program(n int) (text string, want []*node, fails bool) {
	var texts []string
	for i := nd.Choice(n) + 1; i > 0; i-- {
		t, w, f := document(nd.Choice(nDocs))
		texts = append(texts, t+"\n")
		fails = fails || f
		if w != nil {
			want = append(want, w)
		}
	}
	return strings.Join(texts, "---\n"), want, fails
}

// Check_Yaml: YAML output is the documents of the program, none missing and none added, with exit status 0; a program that fails anywhere, cannot be read or
// does not exist prints no document and has another exit status: up to 2 (thorough 3) documents of 9 kinds with symbolic integers and text, from a file, a
// directory, an absolute path or standard input.
//
//verif:weight=3
func Check_Yaml() {
	cli.Home()
	text, want, fails := program(nd.Size(2, 3))
	stdin, file := place(text)
	out, code := cli.Build(stdin, file, cli.Flags{})
	if fails {
		nd.Assert(code != 0, "a build that fails has exit status 0")
		nd.Assert(strings.TrimSpace(out) == "", "a build that fails prints documents")
		return
	}
	nd.Assert(code == 0, "the build fails")
	docs := cli.Docs(out)
	nd.Assert(len(docs) == len(want), "a document is missing or added")
	for i := range want {
		nd.Assert(kit.Same(docs[i], want[i]), "a document is wrong")
	}
}

// fromJSON gives decoded JSON as a node, the keys of maps in their order in like.
func fromJSON(v any, like *node) *node {
	switch v := v.(type) {
	case nil:
		return kit.Null()
	case bool:
		return kit.Bool(v)
	case string:
		return kit.Str(v)
	case json.Number:
		if strings.ContainsAny(string(v), ".eE") {
			f, err := v.Float64()
			nd.Assert(err == nil, "a number cannot be read")
			return kit.Float(f)
		}
		i, err := v.Int64()
		nd.Assert(err == nil, "a number cannot be read")
		if like != nil && like.Kind == kit.Float(0).Kind {
			return kit.Float(float64(i)) // JSON has one kind of numbers
		}
		return kit.Int(int(i))
	case []any:
		items, _ := kit.Items(like)
		var out []*node
		for i, x := range v {
			var l *node
			if i < len(items) {
				l = items[i]
			}
			out = append(out, fromJSON(x, l))
		}
		return kit.List(out...)
	case map[string]any:
		entries, ok := kit.Entries(like)
		if !ok || len(entries) != len(v) {
			return kit.Str("wrong keys")
		}
		var kv []any
		for _, e := range entries {
			x, ok := v[e.K]
			if !ok {
				return kit.Str("wrong keys")
			}
			kv = append(kv, e.K, fromJSON(x, e.V))
		}
		return kit.Map(kv...)
	}
	return kit.Str("?")
}

func readJSON(out string, like *node) *node {
	d := json.NewDecoder(strings.NewReader(out))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	nd.Assert(err == nil, "the output is not JSON")
	var more any
	nd.Assert(d.Decode(&more) != nil, "more than one value is printed")
	return fromJSON(v, like)
}

// Check_Json: JSON output is the one document of the program as JSON; a program with more or fewer documents, or one that fails, prints nothing and has another exit status. The programs
// are those of Check_Yaml.
//
//verif:weight=2
func Check_Json() {
	cli.Home()
	text, want, fails := program(nd.Size(2, 3))
	stdin, file := text, "-"
	if nd.Bool() {
		nd.WriteFile("work/main.yisp", text)
		stdin, file = "", "main.yisp"
	}
	out, code := cli.Build(stdin, file, cli.Flags{Json: true})
	if fails || len(want) != 1 {
		nd.Assert(code != 0, "a build that cannot be printed has exit status 0")
		nd.Assert(strings.TrimSpace(out) == "", "a build that fails prints something")
		return
	}
	nd.Assert(code == 0, "the build fails")
	nd.Assert(kit.Same(readJSON(out, want[0]), want[0]), "the document is wrong")
}

// Check_JsonData: JSON output has the data of the YAML output, for a value of every kind: symbolic integers, floats and strings, at the top, in a list, in a map,
// under keys with special characters.
//
//verif:weight=2
func Check_JsonData() {
	cli.Home()
	var v *node
	var text string
	switch nd.Choice(6) {
	case 0:
		text = []string{"-9223372036854775808", "9223372036854775807", "0", "9007199254740993"}[nd.Choice(4)]
		v = kit.Int([]int{-9223372036854775808, 9223372036854775807, 0, 9007199254740993}[nd.Choice(4)])
		nd.Assume((text == "0") == (v.Value.(int) == 0) && (text[0] == '-') == (v.Value.(int) < 0) && strings.HasPrefix(text, "900") == (v.Value.(int) == 9007199254740993))
	case 1:
		text = []string{"1.5", "1e300", "-0.001", "2.0"}[nd.Choice(4)]
		v = kit.Float(map[string]float64{"1.5": 1.5, "1e300": 1e300, "-0.001": -0.001, "2.0": 2}[text])
	case 2:
		b := nd.Byte()
		nd.Assume(b >= 0x20 && b < 0x7f && b != '\'')
		s := "<" + string([]byte{b})
		text, v = "'"+s+"'", kit.Str(s)
	case 3:
		text, v = `"\u00e9\u2028\t\U0001f600\x01"`, kit.Str("é\u2028\t\U0001f600\x01")
	case 4:
		text, v = "true", kit.Bool(true)
	default:
		text, v = "2024-01-01", kit.Str("2024-01-01")
	}
	switch nd.Choice(4) {
	case 0:
	case 1:
		text, v = "["+text+", x]", kit.List(v, kit.Str("x"))
	case 2:
		text, v = "{z: "+text+", a: 1, \"<\\\"\": {k: "+text+"}}", kit.Map("<\"", kit.Map("k", v), "a", kit.Int(1), "z", v)
	default:
		text, v = "a: !yisp [lists.at, !quote ["+text+"], 0]", kit.Map("a", v)
	}
	out, code := cli.Build(text+"\n", "-", cli.Flags{Json: true})
	nd.Assert(code == 0, "the build fails")
	nd.Assert(kit.Same(readJSON(out, v), v), "the data is changed")
	out, code = cli.Build(text+"\n", "-", cli.Flags{})
	nd.Assert(code == 0, "the build fails")
	docs := cli.Docs(out)
	nd.Assert(len(docs) == 1 && kit.Same(docs[0], v), "the data is changed")
}

// Check_Flags: each flag of the build command does what it says and nothing else: manifests of an unknown kind are refused unless they are allowed, manifests that do not conform
// are refused unless untyped ones are allowed or checking is off, special objects are printed only when asked for, in YAML and in JSON; trace and source maps change no data; an unknown output format is refused.
//
//verif:weight=3
func Check_Flags() {
	cli.Home()
	dir := nd.Mkdir("home/.cache/yisp")
	f := cli.Flags{}
	if nd.Bool() {
		dir = nd.Mkdir("cache")
		f.CacheDir = dir
		if nd.Bool() {
			f.CacheDir = "../cache"
		}
	}
	dir = dir[len(nd.Dir())+1:]
	nd.WriteFile(dir+"/gvk/_v1_Foo.txt", "t")
	nd.WriteFile(dir+"/schemas/t.json", `{"type":"object","properties":{"n":{"type":"integer","maximum":4},"apiVersion":{"type":"string"},"kind":{"type":"string"}}}`)
	f.Json, f.Untyped, f.Unchecked, f.Special = nd.Bool(), nd.Bool(), nd.Bool(), nd.Bool()
	switch nd.Choice(3) {
	case 1:
		f.Sources = true
	case 2:
		f.Trace = !f.Json
	}
	n := nd.IntRange(0, 9)
	kind := []string{"Foo", "Bar"}[nd.Choice(2)]
	text := "apiVersion: v1\nkind: " + kind + "\nn: " + string([]byte{byte('0' + n)}) + "\n"
	special := nd.Bool()
	want := kit.Map("apiVersion", kit.Str("v1"), "kind", kit.Str(kind), "n", kit.Int(n))
	if special {
		kind, n = "", 0
		text, want = "a: 1\nf: !yisp [lambda, [x], *x ]\n", kit.Map("a", kit.Int(1))
	}
	if nd.Choice(4) == 3 {
		f.Json, f.Output = false, []string{"yml", "JSON", "xml"}[nd.Choice(3)]
	}
	nd.WriteFile("work/m.yisp", text)
	out, code := cli.Build("", "m.yisp", f)
	refused := kind == "Foo" && n > 4 && !f.Unchecked && !f.Untyped || kind == "Bar" && !f.Untyped || f.Output != ""
	if refused {
		nd.Assert(code != 0, "output that must be refused has exit status 0")
		if !f.Trace {
			nd.Assert(strings.TrimSpace(out) == "", "output that must be refused is printed")
		}
		return
	}
	nd.Assert(code == 0, "the build fails")
	if f.Trace {
		nd.Assert(strings.Contains(out, "EVAL: "), "there is no trace")
		for _, line := range strings.SplitAfter(out, "\n") {
			if strings.Contains(line, "EVAL: ") {
				out = strings.Replace(out, line, "", 1)
			}
		}
	}
	var got *node
	if f.Json {
		if special && f.Special {
			var v map[string]any
			nd.Assert(json.Unmarshal([]byte(out), &v) == nil && len(v) == 2 && v["f"] != nil, "a special object is not printed")
			return
		}
		got = readJSON(out, want)
	} else {
		docs := cli.Docs(out)
		nd.Assert(len(docs) == 1, "a document is missing or added")
		got = docs[0]
		if special && f.Special {
			e, ok := kit.Entries(got)
			nd.Assert(ok && len(e) == 2 && e[1].K == "f" && kit.Same(e[0].V, kit.Int(1)), "a special object is not printed")
			return
		}
		nd.Assert(f.Sources == strings.Contains(out, "m.yisp:1:"), "the places of the values are printed when they should not be, or not when they should")
	}
	nd.Assert(kit.Same(got, want), "the data is changed")
}

// Check_Special: functions and types at up to 3 places of a list or map, in block or flow style, or as documents, beside a symbolic integer, are left out, and nothing else is; when
// they are asked for, a text stands in each place, in YAML and in JSON.
//
//verif:weight=2
func Check_Special() {
	cli.Home()
	n := nd.IntRange(0, 9)
	d := string([]byte{byte('0' + n)})
	show, form := nd.Bool(), nd.Choice(4)
	texts := []string{d, "!yisp [lambda, [x, y], *x ]", "!yisp [lambda, [], 1]", "*int ", "!yisp [schema, {type: string}]", "[*bool , " + d + "]"}
	count := nd.Size(2, 3)
	if form == 2 {
		count = 1 + nd.Choice(count)
	}
	var want []*node // nil stands for a text
	var flow, block []string
	for i := 0; i < count; i++ {
		k := nd.Choice(len(texts))
		flow = append(flow, texts[k])
		block = append(block, texts[k])
		switch {
		case k == 0:
			want = append(want, kit.Int(n))
		case k == 5 && show:
			want = append(want, kit.List(nil, kit.Int(n)))
		case k == 5:
			want = append(want, kit.List(kit.Int(n)))
		case show:
			want = append(want, nil)
		default:
			want = append(want, kit.Sym("gone"))
		}
	}
	var text string
	var keys []string
	for i := range flow {
		keys = append(keys, "k"+string(rune('a'+i)))
	}
	switch form {
	case 0:
		text = "[" + strings.Join(flow, ", ") + "]\n"
	case 1:
		text = "- " + strings.Join(block, "\n- ") + "\n"
	case 2:
		text = strings.Join(block, "\n---\n") + "\n"
	default:
		for i := range block {
			text += keys[i] + ": " + block[i] + "\n"
		}
	}
	f := cli.Flags{Special: show, Json: form != 2 && nd.Choice(2) == 1}
	nd.WriteFile("work/m.yisp", text)
	out, code := cli.Build("", "m.yisp", f)
	nd.Assert(code == 0, "the build fails")
	var got []*node
	if form == 2 {
		got = cli.Docs(out)
	} else {
		var doc *node
		if f.Json {
			var v any
			nd.Assert(json.Unmarshal([]byte(out), &v) == nil, "the output is no JSON")
			doc, _ = core.ParseAny("", v)
		} else {
			docs := cli.Docs(out)
			nd.Assert(len(docs) == 1, "a document is missing or added")
			doc = docs[0]
		}
		if es, ok := kit.Entries(doc); ok {
			nd.Assert(form == 3, "a list becomes a map")
			at := 0
			for i, w := range want {
				if w == nil || w.Kind != core.KindSymbol {
					nd.Assert(at < len(es) && es[at].K == keys[i], "the entries are others")
					at++
				}
			}
			nd.Assert(at == len(es), "an entry is added")
			for _, e := range es {
				got = append(got, e.V)
			}
		} else {
			items, ok := kit.Items(doc)
			nd.Assert(ok && form != 3, "a list or map becomes something else")
			got = items
		}
	}
	at := 0
	for _, w := range want {
		if w != nil && w.Kind == core.KindSymbol {
			continue
		}
		nd.Assert(at < len(got), "a value is left out")
		if w != nil && w.Kind == core.KindArray && show {
			items, ok := kit.Items(got[at])
			nd.Assert(ok && len(items) == 2 && items[0].Kind == core.KindString && same(items[1], kit.Int(n)), "a special object in a list is not printed")
		} else if w == nil {
			s, ok := kit.IsStr(got[at])
			nd.Assert(ok && s != "", "a special object is not printed")
		} else if w.Kind == core.KindArray {
			items, ok := kit.Items(got[at])
			nd.Assert(ok && len(items) == 1 && same(items[0], kit.Int(n)), "a value is changed")
		} else {
			nd.Assert(same(got[at], w), "a value is changed")
		}
		at++
	}
	nd.Assert(at == len(got), "a value is added")
}

// same compares integers, which JSON reads as floats.
func same(a, b *node) bool {
	if f, ok := a.Value.(float64); ok {
		i, ok := b.Value.(int)
		return ok && f == float64(i)
	}
	return kit.Same(a, b)
}

// Check_Long: a build of 15 documents, of which the first, a middle or the last one is of any of the 9 kinds with symbolic parts, from a file, a directory or standard input.
func Check_Long() {
	cli.Home()
	at := []int{0, 7, 14}[nd.Choice(3)]
	var texts []string
	var want []*node
	fails := false
	for i := 0; i < 15; i++ {
		t, w := "n: "+strings.Repeat("1", i+1), kit.Map("n", kit.Int(0))
		if i == at {
			t, w, fails = document(nd.Choice(nDocs))
		} else {
			n := 0
			for j := 0; j <= i; j++ {
				n = 10*n + 1
			}
			w = kit.Map("n", kit.Int(n))
		}
		texts = append(texts, t+"\n")
		if w != nil {
			want = append(want, w)
		}
	}
	stdin, file := place(strings.Join(texts, "---\n"))
	out, code := cli.Build(stdin, file, cli.Flags{})
	if fails {
		nd.Assert(code != 0, "a build that fails has exit status 0")
		nd.Assert(strings.TrimSpace(out) == "", "a build that fails prints documents")
		return
	}
	nd.Assert(code == 0, "the build fails")
	docs := cli.Docs(out)
	nd.Assert(len(docs) == len(want), "a document is missing or added")
	for i := range want {
		nd.Assert(kit.Same(docs[i], want[i]), "a document is wrong")
	}
}

// Check_Ends: what is printed ends as the documents do: a last document that is a text, or has one as its last value in a map, a list or nested
// collections, of up to 3 (thorough 4) symbolic bytes among "a", a space, a tab and a newline, so that it may end in blank lines; written in
// double quotes, as a literal or computed, with and without a document behind it that prints nothing.
//
//verif:weight=2
func Check_Ends() {
	cli.Home()
	s := nd.StringOf("a \t\n", 0, nd.Size(3, 4))
	quoted := `"` + strings.ReplaceAll(strings.ReplaceAll(s, "\n", `\n`), "\t", `\t`) + `"`
	t, w := quoted, kit.Str(s)
	switch nd.Choice(6) {
	case 0:
	case 1:
		t, w = "k: "+quoted, kit.Map("k", w)
	case 2:
		t, w = "- 1\n- "+quoted, kit.List(kit.Int(1), w)
	case 3:
		t, w = "k:\n- l:\n    m: "+quoted, kit.Map("k", kit.List(kit.Map("l", kit.Map("m", w))))
	case 4:
		t, w = "k: !yisp [strings.concat, "+quoted+", \"\\n\\n\"]", kit.Map("k", kit.Str(s+"\n\n"))
	case 5:
		t, w = "- |+\n  b\n"+strings.Repeat("\n", len(s)), kit.List(kit.Str("b\n"+strings.Repeat("\n", len(s))))
	}
	text := "first: 1\n---\n" + t + "\n"
	if s == "" {
		text = t + "\n"
	}
	if strings.HasPrefix(t, "- |") {
		text = text[:len(text)-1]
	}
	if nd.Choice(2) == 1 {
		text += "---\n!yisp &f [lambda, [x], *x ]\n"
	}
	out, code := cli.Build(text, "-", cli.Flags{})
	nd.Assert(code == 0, "the build fails")
	docs := cli.Docs(out)
	nd.Assert(len(docs) > 0 && kit.Same(docs[len(docs)-1], w), "the text at the end of the output is not the text at the end of the document")
}
