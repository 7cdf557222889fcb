// Package c01: plain YAML data passes through evaluation unchanged.
package c01

import (
	"math"
	"strconv"
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

func digits(s, of string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(of, s[i]) < 0 {
			return false
		}
	}
	return len(s) > 0
}

const dec = "0123456789"

// integer is the value of an integer spelled as YAML 1.2 (core schema) allows, and of the signed hexadecimal and octal ones.
func integer(s string) (int, bool) {
	t, neg := s, false
	if t != "" && (t[0] == '-' || t[0] == '+') {
		t, neg = t[1:], t[0] == '-'
	}
	base, of := 10, dec
	if strings.HasPrefix(t, "0x") {
		t, base, of = t[2:], 16, "0123456789abcdefABCDEF"
	} else if strings.HasPrefix(t, "0o") {
		t, base, of = t[2:], 8, "01234567"
	}
	if !digits(t, of) {
		return 0, false
	}
	v := 0
	for i := 0; i < len(t); i++ {
		d := strings.IndexByte("0123456789abcdef", t[i]|0x20)
		if t[i] <= '9' {
			d = int(t[i] - '0')
		}
		v = v*base + d
	}
	if neg {
		v = -v
	}
	return v, true
}

// float reports whether s is a float of the core schema.
func float(s string) bool {
	if s != "" && (s[0] == '-' || s[0] == '+') {
		s = s[1:]
	}
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		e := s[i+1:]
		if e != "" && (e[0] == '-' || e[0] == '+') {
			e = e[1:]
		}
		if !digits(e, dec) {
			return false
		}
		s = s[:i]
	}
	if s != "" && s[0] == '.' {
		return digits(s[1:], dec)
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		return digits(s[:i], dec) && (i+1 == len(s) || digits(s[i+1:], dec))
	}
	return digits(s, dec)
}

// denotes reports whether n is what the plain scalar s denotes.
func denotes(s string, n *node, values bool) bool {
	switch s {
	case "", "~", "null", "Null", "NULL":
		return n.Kind == core.KindNull && n.Value == nil
	case "true", "True", "TRUE":
		v, ok := kit.IsBool(n)
		return ok && v
	case "false", "False", "FALSE":
		v, ok := kit.IsBool(n)
		return ok && !v
	}
	if v, ok := integer(s); ok {
		r, ok := kit.IsInt(n)
		return ok && r == v
	}
	f := math.NaN()
	isFloat := true
	switch s {
	case ".nan", ".NaN", ".NAN":
	case ".inf", ".Inf", ".INF", "+.inf", "+.Inf", "+.INF":
		f = math.Inf(1)
	case "-.inf", "-.Inf", "-.INF":
		f = math.Inf(-1)
	default:
		isFloat = float(s)
		if isFloat && !values {
			return n.Kind == core.KindFloat
		}
		if isFloat {
			f, _ = strconv.ParseFloat(s, 64)
		}
	}
	if isFloat {
		r, ok := n.Value.(float64)
		return ok && n.Kind == core.KindFloat && (r == f || r != r && f != f)
	}
	r, ok := kit.IsStr(n)
	return ok && r == s
}

func scalar(s string, values bool) {
	docs, err := kit.Run("a: " + s + "\nb: 1\n")
	nd.Assert(err == nil && len(docs) == 1, "a plain scalar is an error")
	if err != nil || len(docs) != 1 {
		return
	}
	es, ok := kit.Entries(docs[0])
	nd.Assert(ok && len(es) == 2 && es[0].K == "a" && es[1].K == "b", "a map does not keep its keys")
	if len(es) == 2 {
		nd.Assert(denotes(s, es[0].V, values), "a plain scalar does not denote its value")
	}
}

// Check_Numbers: every plain scalar of 1 to 3 (thorough 5) characters out of digits, signs, points, e, x, o, a and F;
// integers with their value, floats with their kind. Exponents above 99, where floats leave the range of a double and
// become text, are outside.
func Check_Numbers() {
	s := nd.StringOf("0123456789+-.exoaF", 1, nd.Size(3, 5))
	nd.Assume(s != "-" && s != "--" && !strings.HasPrefix(s, "---"))
	if i := strings.LastIndexByte(s, 'e'); i >= 0 && !strings.HasPrefix(s, "0x") {
		nd.Assume(len(strings.TrimLeft(s[i+1:], "+-")) <= 2)
	}
	scalar(s, false)
}

// Check_Floats: 12 spellings of floats with one arbitrary digit, with their value.
func Check_Floats() {
	spellings := []string{"#.", "#.5", ".#", "-#.25", "+#.0", "#e0", "1.#e1", "#e-1", "#E+2", "00.#", "-.#", "1#1.1"}
	s := spellings[nd.Choice(len(spellings))]
	scalar(strings.Replace(s, "#", string(rune('0'+nd.Choice(10))), 1), true)
}

// Check_Words: every plain scalar of 1 to 4 (thorough 5) letters that occur in null, true, false, .inf and .nan in any case, with points, signs and tildes.
func Check_Words() {
	s := nd.StringOf("nulNULtreTREfasFASi.-+~yY", 1, nd.Size(4, 5))
	nd.Assume(s != "-" && s != "--" && !strings.HasPrefix(s, "---") && s != "...")
	scalar(s, true)
}

// Check_Spellings: 44 spellings of special floats, long decimal, hexadecimal and octal integers, keywords and words like them, one
// digit of the long ones being arbitrary, as a value in a block map and in a flow list.
func Check_Spellings() {
	spellings := []string{".inf", ".Inf", ".INF", "+.inf", "-.inf", "-.Inf", "-.INF", ".nan", ".NaN", ".NAN", "null", "Null", "NULL", "True", "TRUE", "False",
		"FALSE", "21474836#8", "-21474836#9", "9223372036854775#07", "-9223372036854775#08", "0x1ffffff#f", "0x7fffffffffffff#f", "0o7777777777#7", "0xFFFF#FFF0",
		"1e1#", "infinity", "nan", "inf", "Yes", "nulL", "tRUE", "-.iNF",
		"+.Inf", "+.INF", "+.iNF", ".1234567#1", "-.000000000#", "+12345.678901#", "08999999999#", "0999999999999#", "0#.5", "0o", "_1#"}
	s := spellings[nd.Choice(len(spellings))]
	if strings.Contains(s, ".") {
		s = strings.Replace(s, "#", string(rune('0'+nd.Choice(8))), 1)
	} else if strings.Contains(s, "#") {
		s = strings.Replace(s, "#", nd.StringOf("01234567", 1, 1), 1)
	}
	scalar(s, true)
	docs, err := kit.Run("- [" + s + "]\n- - " + s + "\n")
	nd.Assert(err == nil && len(docs) == 1, "a plain scalar in a list is an error")
	if err != nil || len(docs) != 1 {
		return
	}
	xs, _ := kit.Items(docs[0])
	nd.Assert(len(xs) == 2, "a list loses elements")
	for _, x := range xs {
		ys, ok := kit.Items(x)
		nd.Assert(ok && len(ys) == 1 && denotes(s, ys[0], true), "a plain scalar in a list does not denote its value")
	}
}

// Check_QuotedKeys: a quoted key stands for its text, also if it looks like a merge key, an alias, a tag or a comment, in a map of
// a program, of quoted data and of a plain document, with a value that is a map, a scalar or a list.
func Check_QuotedKeys() {
	ks := []string{"<<", "*a", "!x", "# c", "&a", "- b", "? q", "{", "a: b", "", " ", "%", "@"}
	k := ks[nd.Choice(len(ks))]
	q := []string{"'", "\""}[nd.Choice(2)]
	vals := []tree{{n: kit.Map("x", kit.Int(1)), flow: "{x: 1}"}, {n: kit.List(kit.Map("x", kit.Int(1))), flow: "[{x: 1}]"}, {n: kit.Int(5), flow: "5"}}
	v := vals[nd.Choice(len(vals))]
	head := []string{"", "!yisp\n", "!quote\n"}[nd.Choice(3)]
	flow := v.flow
	if head == "!yisp\n" && flow != "5" {
		flow = "!quote " + flow
	}
	d := nd.StringOf("abc", 1, 1)
	docs, err := kit.Run(head + q + k + q + ": " + flow + "\nz: '" + d + "'\n")
	nd.Assert(err == nil && len(docs) == 1, "a map with a quoted key is an error")
	if err == nil && len(docs) == 1 {
		if head == "!yisp\n" {
			es, ok := kit.Entries(docs[0])
			nd.Assert(ok && len(es) == 2 && es[0].K == k && kit.Same(es[0].V, v.n), "a quoted key does not stand for its text")
			return
		}
		nd.Assert(kit.Same(docs[0], kit.Map(k, v.n, "z", kit.Str(d))), "a quoted key does not stand for its text")
	}
}

func hex(b byte) string {
	const digits = "0123456789abcdef"
	return string([]byte{digits[b>>4], digits[b&15]})
}

// fold is the content of a folded or plain scalar made of lines. Breaks beside lines with leading blanks stay.
func fold(lines []string) string {
	blank := func(l string) bool { return l != "" && (l[0] == ' ' || l[0] == '\t') }
	out, empty := "", 0
	last := ""
	for i, l := range lines {
		if i > 0 && l == "" {
			empty++
			continue
		}
		switch {
		case i == 0:
		case blank(l) || blank(last):
			out += strings.Repeat("\n", empty+1)
		case empty > 0:
			out += strings.Repeat("\n", empty)
		default:
			out += " "
		}
		empty = 0
		out += l
		last = l
	}
	return out
}

// Check_Quoted: every string of up to 3 (thorough 4) printable characters in single quotes, in double quotes, and with its characters
// escaped in double quotes in 4 ways.
//
//verif:weight=2
func Check_Quoted() {
	s := nd.String(nd.Size(3, 4))
	style := nd.Choice(5)
	w := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		nd.Assume(c >= ' ' && c <= '~')
		switch {
		case style == 0 && c == '\'':
			w += "''"
		case style == 1 && (c == '"' || c == '\\'):
			w += "\\" + s[i:i+1]
		case style == 2:
			w += "\\x" + hex(c)
		case style == 3:
			w += "\\u00" + hex(c)
		case style == 4 && i == 0:
			w += "\\U000000" + hex(c)
		case style == 4 && (c == '"' || c == '\\'):
			w += "\\x" + hex(c)
		default:
			w += s[i : i+1]
		}
	}
	q := "\""
	if style == 0 {
		q = "'"
	}
	text(q+w+q, s)
}

// text checks that the text is the string.
func text(w, s string) {
	for _, t := range []string{"a: " + w + "\nb: 1\n", "- " + w + "\n", w + "\n"} {
		docs, err := kit.Run(t)
		nd.Assert(err == nil && len(docs) == 1, "a string is an error")
		if err != nil || len(docs) != 1 {
			continue
		}
		n := docs[0]
		if es, ok := kit.Entries(n); ok && len(es) > 0 {
			n = es[0].V
		} else if xs, ok := kit.Items(n); ok && len(xs) > 0 {
			n = xs[0]
		}
		r, ok := kit.IsStr(n)
		nd.Assert(ok && r == s, "a string changes")
	}
}

// Check_Questions: plain scalars with question marks behind the first character, as URLs have them, in block and flow style, as element, value or key.
func Check_Questions() {
	s := "a" + nd.StringOf("?b/", 1, nd.Size(3, 4))
	if nd.Choice(2) == 1 {
		s += " " + nd.StringOf("?b", 1, 1) + nd.StringOf("b?", 0, 1)
	}
	m, l := kit.Map(s, kit.Int(1)), kit.List(kit.Str(s))
	c := []struct {
		t string
		n *node
	}{{s + ": 1\n", m}, {"{" + s + ": 1}\n", m}, {"{" + s + " : 1}\n", m}, {"- " + s + "\n", l}, {"[" + s + "]\n", l}, {"[" + s + " , x]\n", kit.List(kit.Str(s), kit.Str("x"))}, {"{k: " + s + "}\n", kit.Map("k", kit.Str(s))}}[nd.Choice(7)]
	docs, err := kit.Run(c.t)
	nd.Assert(err == nil && len(docs) == 1 && kit.Same(docs[0], c.n), "a plain scalar with a question mark is something else")
}

// Check_Tags: scalars with a tag of YAML's core types have that type, in every style that can hold them, and lists and maps with theirs are themselves; a scalar that is not of the type is an error. As element, value or document, and printed and read again.
func Check_Tags() {
	d, p := 7, nd.Choice(4)
	if p == 0 || nd.Thorough() {
		d = nd.IntRange(0, 9)
	}
	t := string([]byte{byte('0' + d)})
	q := []string{"", "'", "\""}[nd.Choice(3)]
	c := []struct {
		tag, text string
		n         *node
	}{{"str", t, kit.Str(t)}, {"str", "true", kit.Str("true")}, {"str", "null", kit.Str("null")}, {"str", "1.5", kit.Str("1.5")}, {"str", "~", kit.Str("~")}, {"int", "1" + t, kit.Int(10 + d)},
		{"int", "0x1" + t, kit.Int(16 + d)}, {"float", "1" + t, kit.Float(float64(10 + d))}, {"float", "0.5", kit.Float(0.5)}, {"bool", "true", kit.Bool(true)}, {"bool", "False", kit.Bool(false)},
		{"null", "null", kit.Null()}, {"int", "x" + t, nil}, {"int", "1.5", nil}, {"float", "x" + t, nil}, {"bool", "yes", nil}, {"bool", t, nil},
		{"seq", "[" + t + "]", kit.List(kit.Int(d))}, {"map", "{a: " + t + "}", kit.Map("a", kit.Int(d))}}[nd.Choice(19)]
	if c.tag == "seq" || c.tag == "map" {
		q = ""
	}
	w := []string{"!!" + c.tag, "!<tag:yaml.org,2002:" + c.tag + ">"}[nd.Choice(2)] + " " + q + c.text + q
	docs, err := kit.Run([]string{"- " + w + "\n", "k: " + w + "\n", "[" + w + " , x]\n", "--- " + w + "\n---\n1\n"}[p])
	if c.n == nil {
		nd.Assert(err != nil, "a scalar that is not of its tag's type is no error")
		return
	}
	nd.Assert(err == nil, "a tagged value is an error")
	want := []*node{[]*node{kit.List(c.n), kit.Map("k", c.n), kit.List(c.n, kit.Str("x")), c.n}[p]}
	if p == 3 {
		want = append(want, kit.Int(1))
	}
	if p == 3 && c.n.Kind == core.KindNull {
		want = want[1:]
	}
	nd.Assert(sameDocs(docs, want), "a tagged value does not have the tag's type")
	all := kit.List(docs...)
	all.IsDocumentRoot = true
	out, err := kit.Engine().Render(all)
	nd.Assert(err == nil, "a tagged value cannot be printed")
	again, err := kit.Run(out)
	nd.Assert(err == nil && sameDocs(again, want), "a printed tagged value reads back as something else")
}

func sameDocs(a, b []*node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !kit.Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Check_CodePoints: code points at the bounds of the lengths of UTF-8 with an arbitrary last digit, written as each escape that can hold them or as they are.
func Check_CodePoints() {
	cs := []rune{0x70, 0x80, 0xa0, 0xf0, 0x100, 0x7f0, 0x800, 0xfff0, 0xfef0, 0xd7f0, 0xe000, 0x10000, 0x1f600, 0x3fff0, 0x40000, 0xffff0, 0x10fff0}
	r := cs[nd.Choice(len(cs))] + rune(nd.Choice(16))
	x := strconv.FormatInt(int64(r), 16)
	w := "\\U" + strings.Repeat("0", 8-len(x)) + x
	switch style := nd.Choice(4); {
	case style == 1 && r <= 0xff:
		w = "\\x" + x
	case style == 2 && r <= 0xffff:
		w = "\\u" + strings.Repeat("0", 4-len(x)) + x
	case style == 3 && r >= 0xa0 && r != 0xfeff && r&0xfffe != 0xfffe:
		w = string(r)
	}
	c := nd.StringOf("az09", 1, 1)
	text("\""+c+w+c+"\"", c+string(r)+c)
}

// encoded is text in UTF-8, or with a byte order mark in UTF-8, UTF-16LE or UTF-16BE.
func encoded(text string, encoding int) string {
	switch encoding {
	case 0:
		return text
	case 1:
		return "\xef\xbb\xbf" + text
	}
	out := []byte{}
	add := func(u rune) {
		if encoding == 2 {
			out = append(out, byte(u), byte(u>>8))
		} else {
			out = append(out, byte(u>>8), byte(u))
		}
	}
	add(0xfeff)
	for _, r := range text {
		if r >= 0x10000 {
			add(0xd800 + (r-0x10000)>>10)
			add(0xdc00 + (r-0x10000)&0x3ff)
		} else {
			add(r)
		}
	}
	return string(out)
}

// Check_Encodings: a program with code points of every length around an arbitrary letter or digit, in strings, keys and comments, encoded in UTF-8 or, with a byte order mark,
// in UTF-8, UTF-16LE or UTF-16BE, after 0 to 3 line breaks.
func Check_Encodings() {
	cs := []rune{0xa0, 0xff, 0x100, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x103ff, 0x1f600, 0xfffff, 0x10ffff & ^rune(2)}
	r := string(cs[nd.Choice(len(cs))])
	c := nd.StringOf("az09", 1, 1)
	at := strings.Repeat("\n", nd.Choice(4))
	program := at + []string{"- " + r + c + "\n- {\"" + c + r + "\": 1} # " + r + "\n", "- \"" + r + c + "\"\n- # " + c + r + "\n  " + c + r + ": 1\n"}[nd.Choice(2)]
	docs, err := kit.Run(encoded(program, nd.Choice(4)))
	want := kit.List(kit.Str(r+c), kit.Map(c+r, kit.Int(1)))
	nd.Assert(err == nil && len(docs) == 1 && kit.Same(docs[0], want), "a text encoded otherwise is another program")
}

// Check_Escapes: the named escapes of double quoted strings, in front of an arbitrary letter or digit.
func Check_Escapes() {
	es := []struct{ w, s string }{{"0", "\x00"}, {"a", "\a"}, {"b", "\b"}, {"t", "\t"}, {"n", "\n"}, {"v", "\v"}, {"f", "\f"}, {"r", "\r"}, {"e", "\x1b"}, {" ", " "}, {"/", "/"},
		{"N", "\u0085"}, {"_", "\u00a0"}, {"L", "\u2028"}, {"P", "\u2029"}, {"u263a", "\u263a"}, {"U0001f600", "\U0001f600"}}
	e := es[nd.Choice(len(es))]
	c := nd.StringOf("az09", 1, 1)
	text("\"\\"+e.w+c+"\"", e.s+c)
}

// Check_Blocks: literal and folded scalars with each of 3 chomping indicators and an explicit indentation, and plain and
// quoted scalars over several lines: up to 4 (thorough 6) characters out of letters, line breaks and - for literals - blanks, # and :.
//
//verif:weight=2
func Check_Blocks() {
	style := nd.Choice(5)
	alpha := "ab\n"
	if style == 0 {
		alpha = "a\n #:"
	}
	s := nd.StringOf(alpha, 1, nd.Size(4, 6))
	if !nd.Thorough() && style > 0 && nd.Choice(2) == 1 {
		// more empty lines
		s = strings.ReplaceAll(s, "\n", "\n\n\n")
	}
	lines := strings.Split(s, "\n")
	if style >= 2 {
		nd.Assume(lines[0] != "" && lines[len(lines)-1] != "")
	} else {
		nd.Assume(strings.Trim(s, "\n") != "")
	}
	w := ""
	for i, l := range lines {
		if i > 0 {
			w += "\n"
		}
		if l != "" && (style < 2 || i > 0) {
			w += "  "
		}
		w += l
	}
	want := ""
	body := strings.TrimRight(s, "\n")
	breaks := len(s) - len(body) + 1
	chomp := ""
	if style < 2 {
		chomp = []string{"", "-", "+"}[nd.Choice(3)]
	}
	switch style {
	case 0:
		want = body
	default:
		lead := len(body) - len(strings.TrimLeft(body, "\n"))
		want = strings.Repeat("\n", lead) + fold(strings.Split(body[lead:], "\n"))
	}
	if style < 2 {
		switch chomp {
		case "":
			want += "\n"
		case "+":
			want += strings.Repeat("\n", breaks)
		}
	}
	switch style {
	case 0:
		w = "|2" + chomp + "\n" + w
	case 1:
		w = ">2" + chomp + "\n" + w
	case 2:
	case 3:
		w = "\"" + w + "\""
	case 4:
		w = "'" + w + "'"
	}
	docs, err := kit.Run("a: " + w + "\nb: 1\n")
	nd.Assert(err == nil && len(docs) == 1, "a scalar over several lines is an error")
	if err != nil || len(docs) != 1 {
		return
	}
	es, ok := kit.Entries(docs[0])
	nd.Assert(ok && len(es) == 2, "a scalar over several lines ends in the wrong place")
	if ok && len(es) == 2 {
		r, ok := kit.IsStr(es[0].V)
		nd.Assert(ok && r == want, "a scalar over several lines changes")
	}
}

// Check_Folded: folded scalars of 1 to 3 (thorough 4) lines, each empty, a text, a text after a blank or a tab, two words or a text with a blank behind it, with an arbitrary letter or digit,
// and each of 3 chomping indicators.
//
//verif:weight=2
func Check_Folded() {
	c := nd.StringOf("az09", 1, 1)
	lines := make([]string, 1+nd.Choice(nd.Size(3, 4)))
	w := ">2"
	chomp := nd.Choice(3)
	w += []string{"", "-", "+"}[chomp] + "\n"
	for i := range lines {
		lines[i] = []string{"", c, " " + c, "\t" + c, c + " b", c + " "}[nd.Choice(6)]
		if lines[i] != "" {
			w += "  " + lines[i]
		}
		w += "\n"
	}
	lead := 0
	for lead < len(lines) && lines[lead] == "" {
		lead++
	}
	end := len(lines)
	for end > 0 && lines[end-1] == "" {
		end--
	}
	nd.Assume(end > lead)
	want := strings.Repeat("\n", lead) + fold(lines[lead:end])
	switch chomp {
	case 0:
		want += "\n"
	case 2:
		want += strings.Repeat("\n", len(lines)-end+1)
	}
	docs, err := kit.Run("a: " + w + "b: 1\n")
	nd.Assert(err == nil && len(docs) == 1, "a folded scalar is an error")
	if err != nil || len(docs) != 1 {
		return
	}
	es, ok := kit.Entries(docs[0])
	nd.Assert(ok && len(es) == 2, "a folded scalar ends in the wrong place")
	if ok && len(es) == 2 {
		r, ok := kit.IsStr(es[0].V)
		nd.Assert(ok && r == want, "a folded scalar changes")
	}
}

// Check_Joined: line breaks in double quotes: an escaped one joins the lines and keeps the blanks before it, and an escaped blank starts the text of a line.
func Check_Joined() {
	c := nd.StringOf("ab'#:", 1, 1)
	before := []string{"", " ", "  ", "\\t", "\\\\"}[nd.Choice(5)]
	esc := nd.Choice(2) == 1
	lines := nd.Choice(3)
	start := nd.Choice(3)
	w := "\"" + c + before
	want := c
	switch before {
	case "\\t":
		want += "\t"
	case "\\\\":
		want += "\\"
	default:
		if esc {
			want += before
		}
	}
	if esc {
		w += "\\"
	}
	w += "\n" + strings.Repeat([]string{"\n", "   \n"}[nd.Choice(2)], lines)
	if esc {
		want += strings.Repeat("\n", lines)
	} else if lines > 0 {
		want += strings.Repeat("\n", lines)
	} else {
		want += " "
	}
	w += []string{"  ", "  \\ ", "  \\t"}[start] + c + "\""
	want += []string{"", " ", "\t"}[start] + c
	docs, err := kit.Run("k: " + w + "\nl: 1\n")
	nd.Assert(err == nil && len(docs) == 1 && kit.Same(docs[0], kit.Map("k", kit.Str(want), "l", kit.Int(1))), "a string over several lines changes")
}

// tree is a value and its text in flow style.
type tree struct {
	n     *node
	flow  string
	block func(indent string) string // the text in block style, to stand after a key or a dash
}

// leaf is a scalar in one of several spellings.
func leaf() tree {
	c := nd.StringOf("bcz", 1, 1)
	ls := []tree{
		{n: kit.Str(c), flow: c},
		{n: kit.Str("1" + c), flow: "\"1" + c + "\""},
		{n: kit.Int(12), flow: "12"},
		{n: kit.Null(), flow: "null"},
		{n: kit.Bool(true), flow: "true"},
		{n: kit.Str("+"), flow: "+"},
		{n: kit.Float(-1.5), flow: "-1.5"},
		{n: kit.Str("12"), flow: "'12'"},
	}
	return ls[nd.Choice(nd.Size(3, len(ls)))]
}

var keys = []string{"k", "1", "true", "null", "-2.5", "a b"}

// make builds a value of at most the given depth.
func tree_(depth int) tree {
	k := 0
	if depth > 0 {
		k = nd.Choice(3)
	}
	if k == 0 {
		return leaf()
	}
	inline := nd.Choice(2) == 1 // flow style
	n := 3
	if depth < nd.Size(2, 1) {
		n = 2
	}
	n = nd.Choice(n)
	shift := 0
	if depth > 1 {
		shift = nd.Choice(2)
	}
	var items []tree
	var ks []string
	for i := 0; i < n; i++ {
		items = append(items, tree_(depth-1))
		ks = append(ks, keys[(i*2+depth*3+len(items)*shift)%len(keys)])
	}
	if k == 2 && n == 2 && ks[0] == ks[1] {
		ks[1] = "other"
	}
	t := tree{}
	var vals []*node
	m := core.NewYispMap()
	for i, x := range items {
		if i > 0 {
			t.flow += ", "
		}
		if k == 2 {
			t.flow += ks[i] + ": "
			m.Set(ks[i], x.n)
		}
		t.flow += x.flow
		vals = append(vals, x.n)
	}
	if k == 1 {
		t.n, t.flow = kit.List(vals...), "["+t.flow+"]"
	} else {
		t.n, t.flow = &node{Kind: core.KindMap, Value: m}, "{"+t.flow+"}"
	}
	if !inline && n > 0 {
		t.block = func(indent string) string {
			out := ""
			for i, x := range items {
				out += "\n" + indent
				if k == 1 {
					out += "-"
				} else {
					out += ks[i] + ":"
				}
				if x.block != nil {
					out += x.block(indent + "  ")
				} else {
					out += " " + x.flow
				}
			}
			return out
		}
	}
	return t
}

// Check_Structure: documents nested up to 2 (thorough 3) deep of lists and maps with up to 2 elements (quick: 1 below the top), each in block or flow style, with
// keys that look like other types and scalars in 3 (thorough 8) spellings, alone, below a key or with a second document.
//
//verif:weight=5
func Check_Structure() {
	t := tree_(nd.Size(2, 3))
	doc := t.flow
	if t.block != nil {
		doc = strings.TrimPrefix(t.block(""), "\n")
	}
	wrap := 0
	if t.n.Kind != core.KindMap {
		wrap = nd.Choice(3)
	}
	if wrap > 0 {
		doc = "---\n# comment\n" + doc
	}
	doc += "\n"
	if wrap == 2 {
		doc += "---\n7 # comment\n"
	}
	docs, err := kit.Run(doc)
	nd.Assert(err == nil, "a plain document is an error")
	want := []*node{t.n}
	if t.n.Kind == core.KindNull {
		want = nil
	}
	if wrap == 2 {
		want = append(want, kit.Int(7))
	}
	nd.Assert(err != nil || kit.Same(kit.List(docs...), kit.List(want...)), "a plain document changes")
}

// Check_Keys: every map key that is a plain scalar of up to 3 (thorough 4) characters stands for its text.
func Check_Keys() {
	s := nd.StringOf("01.-+~nxkeE_=<y", 1, nd.Size(3, 4))
	nd.Assume(s != "-" && s != "<<" && s != "--" && s != "---")
	docs, err := kit.Run(s + ": 1\nz: {" + s + ": [2]}\n")
	nd.Assert(err == nil && len(docs) == 1, "a map key is an error")
	if err == nil && len(docs) == 1 {
		nd.Assert(kit.Same(docs[0], kit.Map(s, kit.Int(1), "z", kit.Map(s, kit.List(kit.Int(2))))), "a map key does not stand for its text")
	}
}

// Check_NotApplied: lists in quoted data, in plain documents and in results of functions are never applied, whatever their
// first element is.
func Check_NotApplied() {
	heads := []string{"+", "lambda", "\"!\"", "if", "lists.car", "[lambda, [x], 1]", "1", "include"}
	h := heads[nd.Choice(len(heads))]
	arg := nd.StringOf("019a", 1, 1)
	var want *node
	if arg == "a" {
		want = kit.Str("a")
	} else {
		want = kit.Int(int(nd.Concrete(int(arg[0]))) - '0')
	}
	data := "[" + h + ", " + arg + "]"
	texts := []string{"a: " + data, "!yisp\na: !quote " + data, "!yisp\na: [lists.car, !quote [" + data + "]]", "!yisp\na: [maps.get, !quote {k: " + data + "}, k]",
		"&d\n" + data + "\n---\na: *d ", "!yisp\na: [if, true, !quote " + data + ", 0]", "a: !quote " + data, "!quote\na: " + data}
	i := nd.Choice(len(texts))
	docs, err := kit.Run(texts[i] + "\n")
	nd.Assert(err == nil && len(docs) > 0, "a list that is data is an error")
	if err != nil || len(docs) == 0 {
		return
	}
	es, _ := kit.Entries(docs[len(docs)-1])
	nd.Assert(len(es) == 1, "a list that is data changes")
	if len(es) == 1 {
		xs, ok := kit.Items(es[0].V)
		nd.Assert(ok && len(xs) == 2 && kit.Same(xs[1], want), "a list that is data is applied")
	}
}

// Check_Long: programs of 60 lines, or with a text of 500 to 1600 characters in any style and two-byte characters across the ends of the reader's buffers, or
// keys of 100 or 1000 characters: every line, character and key is kept, with an arbitrary character of digits and letters at the start, in the middle or at the end.
func Check_Long() {
	odd := nd.StringOf("a7z", 1, 1)
	at := []int{0, 30, 59}[nd.Choice(3)]
	var want *node
	text := ""
	switch nd.Choice(6) {
	case 0:
		m := core.NewYispMap()
		for i := 0; i < 60; i++ {
			k, s := "key"+strconv.Itoa(i), "value"+strconv.Itoa(i)
			if i == at {
				s = "b" + odd
			}
			text += "\"" + k + "\": " + s + " # comment\n"
			m.Set(k, kit.Str(s))
		}
		want = &node{Kind: core.KindMap, Value: m}
	case 1:
		var es []*node
		for i := 0; i < 60; i++ {
			s := "value" + strconv.Itoa(i)
			if i == at {
				s = "b" + odd
			}
			text += "- - " + s + "\n\n  - {a: [" + s + "]}\n"
			es = append(es, kit.List(kit.Str(s), kit.Map("a", kit.List(kit.Str(s)))))
		}
		want = kit.List(es...)
	case 2:
		lines := make([]string, 60)
		for i := range lines {
			lines[i] = "a line of text"
			if i == at {
				lines[i] = "x" + odd + " y"
			}
		}
		folded := nd.Choice(3)
		text = "a: " + []string{"|\n", ">\n", "\n"}[folded] + "  " + strings.Join(lines, "\n  ") + "\nb: 1\n"
		s := strings.Join(lines, []string{"\n", " ", " "}[folded])
		if folded < 2 {
			s += "\n"
		}
		want = kit.Map("a", kit.Str(s), "b", kit.Int(1))
	case 3:
		n := []int{254, 255, 510, 766, 1534}[nd.Choice(5)]
		s := odd + strings.Repeat("\u00e9", n/2) + odd + strings.Repeat("\u20ac", 20) + odd
		q := []string{"", "'", "\""}[nd.Choice(3)]
		text = "a: " + q + s + q + "\nb: 1\n"
		want = kit.Map("a", kit.Str(s), "b", kit.Int(1))
	case 4:
		k := odd + strings.Repeat("k", []int{100, 127, 128, 1000}[nd.Choice(4)])
		text = k + ": 1\nb: {'" + k + "': 2}\n"
		want = kit.Map(k, kit.Int(1), "b", kit.Map(k, kit.Int(2)))
	case 5:
		want = kit.Str("b" + odd)
		text = "b" + odd
		for i := 0; i < 20; i++ {
			text = "[{k: " + text + "}]"
			want = kit.List(kit.Map("k", want))
		}
		text += "\n"
	}
	docs, err := kit.Run(text)
	nd.Assert(err == nil && len(docs) == 1 && kit.Same(docs[0], want), "a large program changes its data")
}

// Check_Marks: a plain scalar that starts with 1 or 2 of ? : - followed by an arbitrary letter (or by nothing, for ?? and --), as an element or value in 8 places in flow and 3 in block style; and a colon
// in front of a comma, a bracket or a brace in flow style, which ends the key before it.
func Check_Marks() {
	c := nd.StringOf("az", 1, 1)
	if nd.Choice(2) == 1 {
		in := []struct {
			w    string
			want *node
		}{
			{"{@:}", kit.Map(c, kit.Null())},
			{"{@:, b1: 1}", kit.Map(c, kit.Null(), "b1", kit.Int(1))},
			{"{b1: 1, @:}", kit.Map("b1", kit.Int(1), c, kit.Null())},
			{"{@:[1]}", kit.Map(c, kit.List(kit.Int(1)))},
			{"{@:{b1: 1}}", kit.Map(c, kit.Map("b1", kit.Int(1)))},
			{"[@:]", kit.List(kit.Map(c, kit.Null()))},
			{"[1, @:, 2]", kit.List(kit.Int(1), kit.Map(c, kit.Null()), kit.Int(2))},
			{"{\"@\":1}", kit.Map(c, kit.Int(1))},
			{"{\"@\":@}", kit.Map(c, kit.Str(c))},
			{"{'@' :@}", kit.Map(c, kit.Str(c))},
			{"{\"@\":}", kit.Map(c, kit.Null())},
			{"{@::1, b1: 1}", kit.Map(c+"::1", kit.Null(), "b1", kit.Int(1))},
			{"{@ :1}", kit.Map(c+" :1", kit.Null())},
			{"{? @ : 1}", kit.Map(c, kit.Int(1))},
			{"{? @}", kit.Map(c, kit.Null())},
			{"[? @ : 1]", kit.List(kit.Map(c, kit.Int(1)))},
		}[nd.Choice(16)]
		docs, err := kit.Run("k: " + strings.ReplaceAll(in.w, "@", c) + "\n")
		nd.Assert(err == nil && len(docs) == 1 && kit.Same(docs[0], kit.Map("k", in.want)), "a colon or question mark in flow style is read wrong")
		return
	}
	w := []string{"??", "--", "?" + c, ":" + c, "-" + c, "??" + c, "::" + c, "--" + c, "?:" + c, ":?" + c, "?-" + c, "-?" + c, ":-" + c, "-:" + c}[nd.Choice(14)]
	v := kit.Str(w)
	in := []struct {
		w    string
		want *node
	}{
		{"[@]", kit.List(v)},
		{"[1, @, 2]", kit.List(kit.Int(1), v, kit.Int(2))},
		{"[[@], @]", kit.List(kit.List(v), v)},
		{"{b1: @}", kit.Map("b1", v)},
		{"{b1: @, b2: 1}", kit.Map("b1", v, "b2", kit.Int(1))},
		{"{@: 1}", kit.Map(w, kit.Int(1))},
		{"{b1: 1, @: @}", kit.Map("b1", kit.Int(1), w, v)},
		{"[@ , @]", kit.List(v, v)},
		{"@", v},
		{"\n  @: @", kit.Map(w, v)},
		{"\n- @\n- 1", kit.List(v, kit.Int(1))},
	}[nd.Choice(11)]
	docs, err := kit.Run("k: " + strings.ReplaceAll(in.w, "@", w) + "\n")
	nd.Assert(err == nil && len(docs) == 1 && kit.Same(docs[0], kit.Map("k", in.want)), "a scalar that starts with an indicator changes")
}
