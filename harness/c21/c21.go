// Package c21: data files and unmarshalled YAML have the values that the text denotes.
// The oracles are a reader of JSON written from RFC 8259, and the values that the same YAML has inside a program (which C01 and C20 decide).
package c21

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/totegamma/yisp/core"
	yamllib "github.com/totegamma/yisp/internal/yaml"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

// include is the value of the file with that content, nil if it is an error.
func include(name, content string) *node {
	nd.WriteFile(name, content)
	arg := kit.Str(name)
	arg.Attr.Sources = []core.FilePos{{File: nd.Dir() + "/main.yisp", Line: 1, Column: 1}}
	r, err := kit.Call("include", arg)
	if err != nil {
		return nil
	}
	items, ok := kit.Items(r)
	nd.Assert(ok && kit.WellFormed(r), "included data is not a well-formed list")
	for _, i := range items {
		strip(i)
	}
	return r
}

func strip(n *node) { n.Tag = "" }

// reader reads JSON.
type reader struct {
	s  string
	i  int
	ok bool
}

func (r *reader) space() {
	for r.i < len(r.s) && strings.IndexByte(" \t\r\n", r.s[r.i]) >= 0 {
		r.i++
	}
}

func (r *reader) next(c byte) bool {
	if r.i < len(r.s) && r.s[r.i] == c {
		r.i++
		return true
	}
	return false
}

func (r *reader) digits() bool {
	j := r.i
	for r.i < len(r.s) && r.s[r.i] >= '0' && r.s[r.i] <= '9' {
		r.i++
	}
	return r.i > j
}

func (r *reader) word(w string, n *node) *node {
	if !strings.HasPrefix(r.s[r.i:], w) {
		r.ok = false
	}
	r.i += len(w)
	return n
}

func (r *reader) value() *node {
	r.space()
	if r.i == len(r.s) {
		r.ok = false
		return nil
	}
	switch c := r.s[r.i]; c {
	case 'n':
		return r.word("null", kit.Null())
	case 't':
		return r.word("true", kit.Bool(true))
	case 'f':
		return r.word("false", kit.Bool(false))
	case '"':
		return kit.Str(r.str())
	case '[', '{':
		r.i++
		items, kv := []*node{}, []any{}
		r.space()
		if r.next(c + 2) {
			if c == '[' {
				return kit.List()
			}
			return kit.Map()
		}
		for r.ok {
			if c == '{' {
				r.space()
				if r.i == len(r.s) || r.s[r.i] != '"' {
					r.ok = false
					break
				}
				kv = append(kv, r.str())
				r.space()
				r.ok = r.ok && r.next(':')
				if !r.ok {
					break
				}
				kv = append(kv, r.value())
			} else {
				items = append(items, r.value())
			}
			r.space()
			if r.ok && r.next(c+2) {
				break
			}
			r.ok = r.ok && r.next(',')
		}
		if !r.ok {
			return nil
		}
		if c == '[' {
			return kit.List(items...)
		}
		return kit.Map(kv...)
	}
	start := r.i
	r.next('-')
	if !r.next('0') && !r.digits() {
		r.ok = false
		return nil
	}
	isInt := true
	if r.next('.') {
		isInt = false
		r.ok = r.ok && r.digits()
	}
	if r.ok && (r.next('e') || r.next('E')) {
		isInt = false
		_ = r.next('+') || r.next('-')
		r.ok = r.digits()
	}
	if !r.ok {
		return nil
	}
	text := r.s[start:r.i]
	if !isInt {
		f, err := strconv.ParseFloat(text, 64)
		r.ok = err == nil
		return kit.Float(f)
	}
	v, neg := 0, text[0] == '-'
	for _, d := range []byte(strings.TrimPrefix(text, "-")) {
		v = v*10 + int(d-'0')
	}
	if neg {
		v = -v
	}
	return kit.Int(v)
}

func (r *reader) hex() int {
	v := 0
	for k := 0; k < 4; k++ {
		if r.i == len(r.s) {
			r.ok = false
			return 0
		}
		c := r.s[r.i]
		d := strings.IndexByte("0123456789abcdef", c|0x20)
		if c < '0' || d < 0 {
			r.ok = false
			return 0
		}
		v = v*16 + d
		r.i++
	}
	return v
}

func (r *reader) str() string {
	out := ""
	r.i++
	for {
		if r.i == len(r.s) || r.s[r.i] < ' ' {
			r.ok = false
			return ""
		}
		c := r.s[r.i]
		r.i++
		if c == '"' {
			break
		}
		if c != '\\' {
			out += string([]byte{c})
			continue
		}
		if r.i == len(r.s) {
			r.ok = false
			return ""
		}
		e := r.s[r.i]
		r.i++
		if k := strings.IndexByte("\"\\/bfnrt", e); k >= 0 {
			out += "\"\\/\b\f\n\r\t"[k : k+1]
			continue
		}
		if e != 'u' {
			r.ok = false
			return ""
		}
		v := r.hex()
		if v >= 0xd800 && v < 0xdc00 && strings.HasPrefix(r.s[r.i:], "\\u") {
			save := r.i
			r.i += 2
			if w := r.hex(); r.ok && w >= 0xdc00 && w < 0xe000 {
				out += string(rune((v-0xd800)<<10 + (w - 0xdc00) + 0x10000))
				continue
			}
			r.i = save
		}
		if !r.ok {
			return ""
		}
		out += string(rune(v)) // a lone surrogate becomes U+FFFD
	}
	return out
}

func parseJSON(s string) (*node, bool) {
	r := &reader{s: s, ok: true}
	n := r.value()
	r.space()
	return n, r.ok && r.i == len(s)
}

// same compares up to the order of keys.
func same(a, b *node) bool {
	if a == nil || b == nil || a.Kind != b.Kind {
		return false
	}
	if x, ok := kit.Items(a); ok {
		y, ok := kit.Items(b)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if x, ok := kit.Entries(a); ok {
		y, ok := kit.Entries(b)
		if !ok || len(x) != len(y) {
			return false
		}
		for _, e := range x {
			found := false
			for _, f := range y {
				found = found || f.K == e.K && same(e.V, f.V)
			}
			if !found {
				return false
			}
		}
		return true
	}
	return kit.Same(a, b)
}

func json(s string) {
	want, ok := parseJSON(s)
	r := include("d.json", s)
	nd.Assert(ok == (r != nil), "valid JSON is an error or malformed JSON is none")
	if !ok || r == nil {
		return
	}
	if want.Kind != core.KindArray {
		want = kit.List(want)
	}
	nd.Assert(same(r, want), "a JSON file is included as something else")
}

// Check_JsonNumbers: every file of up to 4 (thorough 5) characters of numbers; alone, in a list and in a map.
//
//verif:weight=2
func Check_JsonNumbers() {
	s := nd.StringOf("0179-.eE+", 1, nd.Size(4, 5))
	c := [][2]string{{"", ""}, {"[", "]"}, {"{\"a\": ", "}"}}[nd.Choice(3)]
	json(c[0] + s + c[1])
}

// Check_JsonLimits: integers at the ends of int64 with an arbitrary last digit, of which those that fit keep their value and the others are errors or floats.
func Check_JsonLimits() {
	d := nd.StringOf("0123456789", 1, 1)
	pre := []string{"922337203685477580", "-922337203685477580", "900719925474099", "-900719925474099", "1844674407370955161"}[nd.Choice(5)]
	r := include("d.json", "["+pre+d+"]")
	fits := len(pre) < 18 || len(pre) < 19 && d <= "7" || pre[0] == '-' && d <= "8"
	nd.Assert(fits == (r != nil), "an integer that fits is an error or one that does not is none")
	if r == nil || !fits {
		return
	}
	v := 0
	for _, c := range []byte(strings.TrimPrefix(pre, "-") + d) {
		v = v*10 - int(c-'0')
	}
	if pre[0] != '-' {
		v = -v
	}
	items, _ := kit.Items(r)
	nd.Assert(len(items) == 1, "a list has another length")
	if len(items) == 1 {
		x, ok := kit.IsInt(items[0])
		nd.Assert(ok && x == v, "an integer loses digits")
	}
}

// Check_JsonStrings: every string of up to 3 (thorough 5) bytes of the alphabet between quotes, as value and as key.
//
//verif:weight=2
func Check_JsonStrings() {
	s := "\"" + nd.StringOf("\"\\/bnt u\x00\n\xc3\xa9:", 0, nd.Size(3, 5)) + "\""
	nd.Assume(utf8.ValidString(s))
	if nd.Choice(2) == 0 {
		json(s)
	} else {
		json("{" + s + ":1}")
	}
}

// Check_JsonEscapes: \u with 4 characters out of digits and letters, alone and as either half of a surrogate pair.
//
//verif:weight=2
func Check_JsonEscapes() {
	switch nd.Choice(3) {
	case 0:
		json("\"\\u" + nd.StringOf("09aFdg\"", 3, 4) + "\"")
	case 1:
		json("\"\\ud83" + nd.StringOf("dD0", 1, 1) + "\\u" + nd.StringOf("deDE", 1, 1) + nd.StringOf("7c", 1, 1) + "00\"")
	case 2:
		json("\"\\u" + nd.StringOf("dD0", 1, 1) + nd.StringOf("8cC", 1, 1) + "00x\"")
	}
}

// Check_JsonTokens: every file of up to 4 (thorough 5) characters of the structure of JSON, and the same within an open list or map.
//
//verif:weight=3
func Check_JsonTokens() {
	s := nd.StringOf("[]{}\",:1 a\n", 0, nd.Size(4, 5))
	c := [][2]string{{"", ""}, {"[1,", "]"}, {"{\"a\":1", "}"}, {"[{\"b\":[", "]}]"}}[nd.Choice(4)]
	json(c[0] + s + c[1])
}

// Check_JsonBytes: every file of 1 (thorough 2) arbitrary bytes, alone and in 5 contexts.
func Check_JsonBytes() {
	c := [][2]string{{"", ""}, {"nul", ""}, {"{\"a\":tru", "}"}, {"[false", "]"}, {"1", "1"}, {"{\"a\":1", "\"b\":2}"}}[nd.Choice(6)]
	s := nd.String(nd.Size(1, 2))
	nd.Assume(utf8.ValidString(s))
	json(c[0] + s + c[1])
}

// Check_JsonMaps: maps of 3 keys out of 8 names, with an arbitrary character in two of them, nested once, keep every entry, the last one of those with the same key.
func Check_JsonMaps() {
	k1, k2 := nd.StringOf("abz1-", 1, 2), nd.StringOf("abz1-", 1, 2)
	s := "{\"" + k1 + "\": 1, \"m\": {\"" + k2 + "\": [true, 2.5], \"" + k1 + "\": null}, \"" + k2 + "\": \"x\"}"
	json(s)
}

// inline is the documents of the text as a program.
func inline(text string) (*node, bool) {
	docs, err := kit.Run(text)
	return kit.List(docs...), err == nil
}

// dropNull: null documents contribute nothing to a program.
func dropNull(n *node) *node {
	items, _ := kit.Items(n)
	out := []*node{}
	for _, i := range items {
		if i.Kind != core.KindNull {
			out = append(out, i)
		}
	}
	return kit.List(out...)
}

// doubled reports whether a map has a key twice. Data files must not, in programs the last one counts.
func doubled(n *yamlNode) bool {
	for i, c := range n.Content {
		for j := 0; n.Kind == yamllib.MappingNode && i%2 == 0 && j < i; j += 2 {
			if n.Content[j].Value == c.Value && n.Content[j].Kind == c.Kind {
				return true
			}
		}
		if doubled(c) {
			return true
		}
	}
	return false
}

type yamlNode = yamllib.Node

func yaml(text string) {
	want, ok := inline(text)
	if ok {
		d := yamllib.NewDecoder(strings.NewReader(text))
		for {
			var n yamlNode
			if d.Decode(&n) != nil {
				break
			}
			nd.Assume(!doubled(&n))
		}
	}
	name := []string{"d.yaml", "d.yml"}[nd.Choice(2)]
	r := include(name, text)
	nd.Assert(ok == (r != nil), "a YAML file is an error and the same text in a program is none, or the reverse")
	u, err := kit.Call("yaml.unmarshal", kit.Str(text))
	nd.Assert(ok == (err == nil), "unmarshalling is an error and the same text in a program is none, or the reverse")
	if !ok || r == nil || err != nil {
		return
	}
	nd.Assert(same(dropNull(u), want), "unmarshalled YAML is something else than the same text in a program")
	docs, _ := kit.Items(u)
	if len(docs) == 1 && docs[0].Kind == core.KindArray {
		u = docs[0] // the elements of the only list of a file are what it contributes
	}
	nd.Assert(same(r, u), "an included YAML file is something else than the same text unmarshalled")
}

// Check_YamlScalars: every plain scalar of 1 to 3 (thorough 4) characters that occur in numbers, booleans and nulls, as document, element, value or key.
//
//verif:weight=4
func Check_YamlScalars() {
	s := nd.StringOf("0189+-._exoabF~:", 1, nd.Size(3, 4))
	c := [][2]string{{"", "\n"}, {"- ", "\n- 1\n"}, {"a: ", "\nb: 1\n"}, {"", ": 1\n"}}[nd.Choice(4)]
	yaml(c[0] + s + c[1])
}

// Check_YamlWords: scalars that some reader takes for something else, with an arbitrary case of the last letter, as element, value or key.
//
//verif:weight=2
func Check_YamlWords() {
	ws := []string{"null", "Null", "NULL", "true", "True", "TRUE", "false", "~", ".inf", "-.Inf", "+.INF", ".nan", "yes", "no", "on", "Off", "y", "n", "0x1F", "0o17", "017", "089", "-017", "+1", "-0", "1_000", "0b11", "1:30", "2001-01-01", "2001-01-01T01:01:01Z",
		"1e3", "1.5", "-1.", ".5", "=", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1e400", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "1e", "0x", "0o8"}
	w := ws[nd.Choice(len(ws))]
	if b := []byte(w); nd.Choice(2) == 1 {
		i := len(b) - 1
		nd.Assume(b[i]|0x20 >= 'a' && b[i]|0x20 <= 'z')
		b[i] = nd.StringOf(string([]byte{b[i], b[i] ^ 0x20}), 1, 1)[0]
		w = string(b)
	}
	c := [][2]string{{"- ", "\n- 1\n"}, {"a: ", "\nb: 1\n"}, {"", ": 1\n"}, {"{x: ", ", y: 1}"}}[nd.Choice(4)]
	yaml(c[0] + w + c[1])
}

// Check_YamlStructure: every text of up to 3 (thorough 5) characters of the structure of YAML without tags, anchors, complex keys and keys that occur twice.
//
//verif:weight=4
func Check_YamlStructure() {
	s := nd.StringOf("-:[,]# \na1'", 1, nd.Size(3, 5))
	c := [][2]string{{"", "\n"}, {"x: ", "\ny: 1\n"}, {"- z\n", "\n"}}[nd.Choice(3)]
	yaml(c[0] + s + c[1])
}

// Check_YamlStrings: strings in every style with up to 2 (thorough 3) characters of the alphabet.
//
//verif:weight=2
func Check_YamlStrings() {
	s := nd.StringOf("a \n'\"\\#:", 0, nd.Size(2, 3))
	c := [][2]string{{"'", "'\n"}, {"\"", "\"\n"}, {"|\n  ", "\n"}, {">\n  ", "\n\n"}, {"|+\n  b", "\n"}, {">-\n  b", "\n"}}[nd.Choice(6)]
	yaml("- " + c[0] + s + c[1] + "- 1\n")
}

// Check_YamlAnchors: aliases are what their anchor names, and a map has the entries of the maps it merges, in which its own entries and those of earlier maps come first.
func Check_YamlAnchors() {
	x, y := nd.StringOf("ab", 1, 1), nd.StringOf("ckl", 1, 1)
	n := nd.IntRange(-3, 3)
	t := strconv.Itoa(n)
	// entries of c, given first the ones that count
	with := func(kv ...any) *node {
		m := kit.Map()
		for i := len(kv) - 2; i >= 0; i -= 2 {
			m.Value.(*core.YispMap).Set(kv[i].(string), kv[i+1].(*node))
		}
		return m
	}
	text, want := "", (*node)(nil)
	switch nd.Choice(6) {
	case 0:
		text = "- &" + x + " {k: 1}\n- *a \n"
		if x == "a" {
			want = kit.List(with("k", kit.Int(1)), with("k", kit.Int(1)))
		}
	case 1:
		text = "a: &a {k: 1, l: 2}\nb: {" + y + ": " + t + ", <<: *a }\n"
		want = kit.List(kit.Map("a", with("k", kit.Int(1), "l", kit.Int(2)), "b", with(y, kit.Int(n), "k", kit.Int(1), "l", kit.Int(2))))
	case 2:
		text = "a: &a {k: 1}\nb: &b {k: 2, l: 3}\nc:\n  <<: [*a , *" + x + " ]\n  m: " + t + "\n"
		a, b, c := with("k", kit.Int(1)), with("k", kit.Int(2), "l", kit.Int(3)), with("k", kit.Int(1), "m", kit.Int(n))
		if x == "b" {
			c = with("k", kit.Int(1), "l", kit.Int(3), "m", kit.Int(n))
		}
		want = kit.List(kit.Map("a", a, "b", b, "c", c))
	case 3:
		text = "- &a " + t + "\n- [*a , {" + y + ": *" + x + " }]\n"
		if x == "a" {
			want = kit.List(kit.Int(n), kit.List(kit.Int(n), with(y, kit.Int(n))))
		}
	case 4:
		text = "- &a [1, &b " + t + "]\n- *" + x + " \n"
		want = kit.List(kit.List(kit.Int(1), kit.Int(n)), kit.List(kit.Int(1), kit.Int(n)))
		if x == "b" {
			want = kit.List(kit.List(kit.Int(1), kit.Int(n)), kit.Int(n))
		}
	case 5:
		text = "- &a 1\n- &a " + t + "\n- *a \n"
		want = kit.List(kit.Int(1), kit.Int(n), kit.Int(n))
	}
	r := include("d.yaml", text)
	nd.Assert((want != nil) == (r != nil), "an alias of an anchor is an error or one without anchor is none")
	nd.Assert(want == nil || r == nil || same(r, want), "a YAML file with aliases is something else than it denotes")
}

// Check_Documents: streams of up to 5 documents out of scalars, lists, maps and nulls, with an arbitrary character.
//
//verif:weight=3
func Check_Documents() {
	ds := []string{"a: 1\n", "- 1\n- 2\n", "null\n", "", nd.StringOf("ab1~#", 1, 1) + "\n", "# c\n"}
	text := ""
	for i, n := 0, 1+nd.Choice(5); i < n; i++ {
		if i > 0 || nd.Choice(2) == 1 {
			text += "---\n"
		}
		if i > 1 {
			text += ds[1+nd.Choice(2)]
			continue
		}
		text += ds[nd.Choice(len(ds))]
	}
	yaml(text)
}

// Check_Text: a file with any other extension is one string with its content.
func Check_Text() {
	s := nd.String(nd.Size(3, 4))
	r := include([]string{"d.txt", "d", "d.JSON", "json"}[nd.Choice(4)], s)
	nd.Assert(r != nil && same(r, kit.List(kit.Str(s))), "a text file is included as something else")
}

// Check_Used: 29 uses give the same result for a value from a JSON file, a YAML file and yaml.unmarshal as for the same value written in the
// program, for values with an arbitrary number and string.
//
//verif:weight=2
func Check_Used() {
	n, s := strconv.Itoa(nd.IntRange(-2, 9)), nd.StringOf("ab1", 1, 1)
	text := "{\"n\": " + n + ", \"f\": 1.5, \"s\": \"" + s + "\", \"l\": [3, " + n + ", \"x\"], \"m\": {\"" + s + "\": true, \"z\": null}, \"name\": \"q\", \"items\": [{\"name\": \"a\", \"v\": " + n + "}, {\"name\": \"b\"}]}"
	uses := []string{
		"!yisp [+, *d.n , 1]", "!yisp [\"==\", *d.l , !quote [3, " + n + ", x]]", "!yisp [\"==\", *d , *w ]", "!yisp [\"<\", *d.n , *d.f ]", "!yisp [lists.map, *d.l , !yisp [lambda, [i], !quote [*i ]]]",
		"!yisp [maps.merge, *d , !quote {m: {y: 1}}]", "!yisp [maps.values, *d.m ]", "*d.m.z ", "*d.m." + s + " ", "*d.q? ", "!yisp [maps.keys, *d.m ]", "!yisp [maps.to-entries, *d.m ]",
		"!yisp [strings.concat, *d.s , *d.name ]", "{<<: *d.m , z: 2}", "!yisp [if, *d.l , *d.n , 0]", "!yisp [maps.patch, *d , !quote {items: [{name: b, v: 2}], m: {z: 1}}]", "!yisp [types.assert, !yisp [schema, !quote {type: object, properties: {n: {type: integer}, e: {type: string, default: dd}}}], *d ]",
		"!yisp [types.of, *d.items ]", "!yisp [maps.get, *d , s]", "!yisp [lists.flatten, !quote [*d.l , *d.items ]]", "!yisp [and, *d.f , *d.m ]", "!yisp [lists.at, *d.l , 1]", "!yisp [lists.filter, *d.items , !yisp [lambda, [i], *i.v? ]]",
		"!yisp [\"??\", *d.m.z , *d.s ]", "!yisp [lists.contains, *d.l , " + n + "]", "!int *d.n ", "!yisp [lists.reduce, *d.items , !yisp [lambda, [a, i], !yisp [+, *a , *i.v? ]], 0]", "!yisp [strings.format, '%d %v %s', *d.n , *d.f , *d.s ]", "!yisp [yaml.unmarshal, !yisp [yaml.marshal, *d ]]",
	}
	use := uses[nd.Choice(len(uses))]
	nd.WriteFile("d.json", text)
	nd.WriteFile("d.yaml", text)
	how := []string{"include, d.json", "include, d.yaml", "yaml.unmarshal, '" + text + "'"}[nd.Choice(3)]
	run := func(def string) (*node, bool) {
		p := nd.WriteFile("main.yisp", "!quote\n&w "+text+"\n---\n"+def+"\n---\nr: "+use+"\n")
		r, err := core.CallEngineByPath(p, "", core.NewEnv(), kit.Engine())
		if err != nil {
			return nil, false
		}
		docs, _ := kit.Items(r)
		if len(docs) == 0 {
			return nil, false
		}
		return docs[len(docs)-1], true
	}
	a, ok1 := run("&d " + text)
	b, ok2 := run("&d !yisp [lists.at, !yisp [" + how + "], 0]")
	nd.Assert(ok1 == ok2, "an operator fails for data from a file and not for the same data in the program, or the reverse")
	nd.Assert(!ok1 || !ok2 || same(a, b), "an operator gives something else for data from a file than for the same data in the program")
	nd.Reach("used")
}

// Check_Long: JSON, YAML and text files of 500 to 9000 bytes - a list of 60 maps, a map of 60 keys, a value nested 25 deep, or a text with two-byte
// characters across every buffer boundary - with an arbitrary digit or letter at the start, in the middle or at the end; and the same text unmarshalled.
//
//verif:weight=2
func Check_Long() {
	at := []int{0, 30, 59}[nd.Choice(3)]
	odd := nd.StringOf("0179", 1, 1)
	var want *node
	text := ""
	d := func(i int) (string, *node) {
		if i == at {
			return "1" + odd, kit.Int(10 + int(odd[0]-'0'))
		}
		return strconv.Itoa(i), kit.Int(i)
	}
	form := nd.Choice(4)
	switch form {
	case 0:
		var es []*node
		for i := 0; i < 60; i++ {
			t, v := d(i)
			text += ", {\"n\": " + t + ", \"s\": \"text " + t + "\"}"
			es = append(es, kit.Map("n", v, "s", kit.Str("text "+t)))
		}
		text, want = "["+text[2:]+"]", kit.List(es...)
	case 1:
		m := core.NewYispMap()
		for i := 0; i < 60; i++ {
			t, v := d(i)
			k := "key" + strconv.Itoa(i)
			text += ",\n \"" + k + "\": [" + t + "]"
			m.Set(k, kit.List(v))
		}
		text, want = "{"+text[2:]+"}", &node{Kind: core.KindMap, Value: m}
	case 2:
		t, v := d(at)
		text, want = t, v
		for i := 0; i < 25; i++ {
			text, want = "{\"k\": ["+text+"]}", kit.Map("k", kit.List(want))
		}
	case 3:
		s := strings.Repeat("\u00e9", 255+at%2) + odd + strings.Repeat("a\u20ac", 900) + odd
		text, want = "{\"a\": \""+s+"\", \"b\": 1}", kit.Map("a", kit.Str(s), "b", kit.Int(1))
	}
	var r *node
	how := nd.Choice(4)
	switch how {
	case 0, 1:
		r = include([]string{"d.json", "d.yaml"}[how], text)
		if form != 0 { // the elements of the only list of a file are what it contributes
			want = kit.List(want)
		}
	case 2:
		u, err := kit.Call("yaml.unmarshal", kit.Str(text))
		nd.Assert(err == nil, "a large text cannot be unmarshalled")
		r, want = u, kit.List(want)
	case 3:
		r, want = include("d.txt", text), kit.List(kit.Str(text))
	}
	nd.Assert(r != nil && same(r, want), "a large file denotes something else")
}
