// Package c19: the rendered output reads back as the same data.
// Scalars are read back twice: by yisp and by a small reader written from the YAML 1.2 specification (and, for the words and
// numbers that older readers know, from YAML 1.1).
package c19

import (
	"math"
	"strings"
	"unicode/utf8"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/yaml"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

func has(set string, c byte) bool { return strings.IndexByte(set, c) >= 0 }

func allOf(s, set string) bool {
	for i := 0; i < len(s); i++ {
		if !has(set, s[i]) {
			return false
		}
	}
	return len(s) > 0
}

func unsign(s string) string {
	if s != "" && has("+-", s[0]) {
		return s[1:]
	}
	return s
}

// numeric reports whether a YAML 1.2 or 1.1 reader may take the plain scalar s for a number.
func numeric(s string) bool {
	s = unsign(s)
	if s == "" || !has(".0123456789", s[0]) {
		return false
	}
	t := strings.ReplaceAll(s, "_", "")
	if len(t) > 2 && t[0] == '0' {
		if has("xX", t[1]) && allOf(t[2:], "0123456789abcdefABCDEF") || t[1] == 'o' && allOf(t[2:], "01234567") || t[1] == 'b' && allOf(t[2:], "01") {
			return true
		}
	}
	if t == "" {
		return false
	}
	if i := strings.IndexAny(t, "eE"); i > 0 {
		if !allOf(unsign(t[i+1:]), "0123456789") {
			return false
		}
		t = t[:i]
	}
	if i := strings.IndexByte(t, '.'); i >= 0 {
		return (i == 0 || allOf(t[:i], "0123456789")) && (i+1 == len(t) || allOf(t[i+1:], "0123456789")) && len(t) > 1
	}
	return allOf(t, "0123456789")
}

// sexagesimal: 1:30 is a number in YAML 1.1.
func sexagesimal(s string) bool {
	parts := strings.Split(unsign(s), ":")
	if len(parts) < 2 {
		return false
	}
	for i, p := range parts {
		if i == len(parts)-1 {
			if j := strings.IndexByte(p, '.'); j >= 0 {
				p = p[:j]
			}
		}
		if i == 0 && (!allOf(p, "0123456789_") || p[0] == '_') || i > 0 && (!allOf(p, "0123456789") || len(p) > 2 || len(p) == 2 && p[0] > '5') {
			return false
		}
	}
	return true
}

var words = []string{"", "~", "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE", ".inf", ".Inf", ".INF", "+.inf", "+.Inf", "+.INF", "-.inf", "-.Inf", "-.INF", ".nan", ".NaN", ".NAN", "<<", "=",
	"y", "Y", "yes", "Yes", "YES", "on", "On", "ON", "n", "N", "no", "No", "NO", "off", "Off", "OFF"}

// isText reports whether every YAML reader takes the plain scalar s - in block or flow context - for a string that ends where s ends.
func isText(s string, flow, key bool) bool {
	for _, w := range words {
		if s == w && !(w == "=" || w == "<<" && !key) {
			return false
		}
	}
	if s == "" || numeric(s) || sexagesimal(s) || s[0] == ' ' || s[len(s)-1] == ' ' || s[len(s)-1] == ':' {
		return false
	}
	if has(",[]{}#&*!|>'\"%@`", s[0]) || has("-?:", s[0]) && (len(s) == 1 || s[1] == ' ' || flow && has(",[]{}", s[1])) {
		return false
	}
	if strings.HasPrefix(s, "---") || strings.HasPrefix(s, "...") {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < ' ' || c == 0x7f || c >= 0x80 {
			return false // not decided here
		}
		if flow && has(",[]{}", c) || c == '#' && i > 0 && s[i-1] == ' ' || c == ':' && (i+1 == len(s) || s[i+1] == ' ' || flow && has(",[]{}", s[i+1])) {
			return false
		}
	}
	return true
}

// unescape reads a double quoted scalar on one line.
func unescape(s string) (string, bool) {
	if len(s) < 2 || s[len(s)-1] != '"' {
		return "", false
	}
	s = s[1 : len(s)-1]
	out := ""
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"' || s[i] < ' ' && s[i] != '\t':
			return "", false
		case s[i] != '\\':
			out += s[i : i+1]
			continue
		}
		i++
		if i == len(s) {
			return "", false
		}
		j := strings.IndexByte("0abtnvfre \"/\\NLP_\t", s[i])
		n := strings.IndexByte("xu U", s[i])
		switch {
		case j >= 0:
			out += []string{"\x00", "\a", "\b", "\t", "\n", "\v", "\f", "\r", "\x1b", " ", "\"", "/", "\\", "\u0085", "\u2028", "\u2029", "\u00a0", "\t"}[j]
		case n >= 0 && i+2+2*n < len(s):
			r := rune(0)
			for k := 1; k <= 2+2*n; k++ {
				d := strings.IndexByte("0123456789ABCDEF", s[i+k])
				if d < 0 {
					d = strings.IndexByte("0123456789abcdef", s[i+k])
				}
				if d < 0 {
					return "", false
				}
				r = r*16 + rune(d)
			}
			out += string(r)
			i += 2 + 2*n
		default:
			return "", false
		}
	}
	return out, true
}

// literal reads a literal block scalar; header and lines as printed, indented by at least ind.
func literal(header string, lines []string, ind int) (string, bool) {
	chomp := byte(0)
	explicit := false
	for i := 1; i < len(header); i++ {
		switch {
		case has("+-", header[i]):
			chomp = header[i]
		case has("123456789", header[i]):
			explicit = true
			ind += int(header[i]-'0') - 2
		default:
			return "", false
		}
	}
	out := ""
	for _, l := range lines {
		if len(l) <= ind {
			if strings.Trim(l, " ") != "" {
				return "", false
			}
			out += "\n"
			continue
		}
		if strings.Trim(l[:ind], " ") != "" || !explicit && l[ind] == ' ' && strings.Trim(out, "\n") == "" {
			return "", false
		}
		out += l[ind:] + "\n"
	}
	body := strings.TrimRight(out, "\n")
	if body == "" && chomp != '+' {
		return "", true
	}
	switch chomp {
	case 0:
		return body + "\n", true
	case '-':
		return body, true
	}
	return out, true
}

// reads reports whether text, found where a scalar stands, is the string s. Forms it does not know are left to the other reader.
func reads(text, s string, flow bool) bool {
	first, rest, more := strings.Cut(text, "\n")
	switch {
	case text == "":
		return false
	case text[0] == '"' && !more:
		r, ok := unescape(text)
		return ok && r == s
	case text[0] == '\'' && !more:
		return text == "'"+strings.ReplaceAll(s, "'", "''")+"'" && len(text) > 1
	case text[0] == '|':
		r, ok := literal(first, strings.Split(rest, "\n"), 2)
		return ok && r == s
	case has("\"'>", text[0]):
		return true
	case more:
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return text == s
		}
	}
	return text == s && isText(s, flow, false)
}

var styles = []yaml.Style{0, yaml.DoubleQuotedStyle, yaml.SingleQuotedStyle, yaml.LiteralStyle, yaml.FoldedStyle}

func style(n *node, s yaml.Style) *node {
	n.Attr.Style = s
	return n
}

// back evaluates the printed text.
func back(out string) ([]*node, bool) {
	docs, err := kit.Run(out)
	return docs, err == nil
}

func render(n *node) (string, bool) {
	out, err := kit.Engine().Render(n)
	return out, err == nil
}

func str(s string) {
	strIn(s, styles[nd.Choice(len(styles))], nd.Choice(4))
}

func strIn(s string, st yaml.Style, place int) {
	n := style(kit.Str(s), st)
	var v *node
	var pre, post string
	switch place {
	case 0:
		v, pre, post = kit.List(n, kit.Int(1)), "- ", "\n- 1\n"
	case 1:
		v, pre, post = kit.Map("k", n, "l", kit.Int(1)), "k: ", "\nl: 1\n"
	case 2:
		v, pre, post = style(kit.List(n, kit.Int(1)), yaml.FlowStyle), "[", ", 1]\n"
	case 3:
		v = n
	}
	out, ok := render(root(v))
	nd.Assert(ok, "a string cannot be printed")
	if !ok {
		return
	}
	if place < 3 {
		in := strings.HasPrefix(out, pre) && strings.HasSuffix(out, post)
		nd.Assert(in, "a string changes what is around it")
		if in {
			nd.Assert(reads(out[len(pre):len(out)-len(post)], s, place == 2), "a string is printed as something else")
		}
	}
	docs, ok := back(out)
	nd.Assert(ok && len(docs) == 1 && kit.Same(docs[0], v), "a printed string reads back as something else")
}

// root makes the values the documents of a stream.
func root(vs ...*node) *node {
	n := kit.List(vs...)
	n.IsDocumentRoot = true
	return n
}

// Check_Indicators: every string of up to 2 (thorough 3) characters out of the indicators of YAML, blanks, tabs, line breaks and a letter,
// in each of 5 styles, as an element, a map value, in flow style and as a document.
//
//verif:weight=5
func Check_Indicators() {
	str(nd.StringOf("a -?:,[]{}#&*!|>'\"%@`\\\n\t", 0, nd.Size(2, 3)))
}

// Check_Words: every string of up to 3 (thorough 5) characters that occur in numbers, booleans and nulls.
func Check_Words() {
	s := nd.StringOf("0179.-+_:xeEnulNyYofa~t", 1, nd.Size(2, 4))
	place(kit.Str(s), s)
}

// Check_Known: strings that are some other value in YAML 1.2 or 1.1, with an arbitrary case of one letter.
func Check_Known() {
	ws := append([]string{"0x1F", "0o17", "0b11", "1_000", ".1_0", "._1", "1:30", "1:75", "1:30:01.5", "2001-01-01", "2001-01-01T01:01:01Z", "1e3", "08", "-", "---", "...", "- a", "a: b", "a #b", "!!str", "*a", "&a", "? a", "@a", "%YAML 1.2", "--- a", "... a", "---\ta", "--- ---", "---a", "--- |", "--- {}"}, words...)
	w := ws[nd.Choice(len(ws))]
	if w != "" && nd.Choice(2) == 1 {
		b := []byte(w)
		i := len(b) - 1
		b[i] = nd.StringOf(string([]byte{b[i], b[i] ^ 0x20}), 1, 1)[0]
		nd.Assume(b[i] >= ' ' && b[i] < 0x7f)
		w = string(b)
	}
	place(kit.Str(w), w)
}

// place puts a plain string where a value or key stands.
func place(n *node, s string) {
	var v *node
	p := nd.Choice(4)
	switch p {
	case 0:
		v = kit.List(n)
	case 1:
		v = kit.Map(s, kit.Int(1))
	case 2:
		v = style(kit.Map(s, n), yaml.FlowStyle)
	case 3:
		v = n
	}
	out, ok := render(root(v, kit.Int(1)))
	nd.Assert(ok, "a string cannot be printed")
	if !ok {
		return
	}
	switch p {
	case 0:
		text := strings.TrimSuffix(strings.TrimPrefix(out, "- "), "\n---\n1\n")
		nd.Assert(reads(text, s, false), "a string is printed as something else")
	case 1:
		text := strings.TrimSuffix(out, ": 1\n---\n1\n")
		nd.Assert(text[0] == '"' || text[0] == '\'' || text[0] == '?' || text == s && isText(s, false, true), "a key is printed as something else")
	}
	docs, ok := back(out)
	nd.Assert(ok && len(docs) == 2 && kit.Same(docs[0], v), "a printed string reads back as something else")
}

// Check_Bytes: every valid UTF-8 string of one arbitrary byte or one arbitrary two- or three-byte character between letters, in 5 styles, as an element, a map value, in flow style and as a document.
//
//verif:weight=6
func Check_Bytes() {
	c := ""
	switch nd.Choice(3) {
	case 0:
		c = nd.StringN(1)
		nd.Assume(c[0] < 0x80)
	case 1:
		c = nd.StringN(2)
		nd.Assume(c[0] >= 0xc2 && c[0] <= 0xdf && c[1] >= 0x80 && c[1] <= 0xbf)
	case 2:
		c = []string{"\u2028", "\u2029", "\ufeff", "\u3042", "\ufffd", "\U0001f600", "\ue000", "\uffff"}[nd.Choice(8)]
	}
	nd.Assume(utf8.ValidString(c))
	str([]string{"", "a"}[nd.Choice(2)] + c + []string{"", "b"}[nd.Choice(nd.Size(1, 2))])
}

// Check_Lines: strings of up to 2 (thorough 5) letters, blanks and line breaks in 5 styles.
func Check_Lines() { str(nd.StringOf("a \n", 1, nd.Size(2, 5))) }

// Check_Folding: strings of 3 lines, each of 6 shapes (empty, with blanks or a tab around, looking like a comment or an entry) around an arbitrary letter, with up to 2 line breaks between them and at either end (quick: 2 lines and 6 ends), in 5 (quick 3) styles.
func Check_Folding() {
	c := nd.StringOf("abc", 1, 1)
	line := func() string {
		return []string{c, "", " " + c, c + " ", "\t" + c, "# " + c}[nd.Choice(6)]
	}
	if !nd.Thorough() {
		s := line() + []string{"\n", "\n\n"}[nd.Choice(2)] + line() + []string{"", "\n", "\n\n", "\n" + c, "\n\n\n" + c, "\n\t"}[nd.Choice(6)]
		strIn(s, styles[[]int{4, 3, 0}[nd.Choice(3)]], nd.Choice(2)*3)
		return
	}
	s := []string{"", "\n"}[nd.Choice(2)] + line() + []string{"\n", "\n\n"}[nd.Choice(2)] + line() + []string{"\n", "\n\n", " "}[nd.Choice(3)] + line() + []string{"", "\n", "\n\n"}[nd.Choice(3)]
	str(s)
}

// Check_Numbers: 29 integers and floats at the edges, in each style that a value can inherit, in all places.
func Check_Numbers() {
	ns := []*node{kit.Int(0), kit.Int(-1), kit.Int(math.MaxInt64), kit.Int(math.MinInt64), kit.Int(1 << 53), kit.Int(9007199254740993), kit.Bool(true), kit.Bool(false), kit.Null(),
		kit.Float(0), kit.Float(math.Copysign(0, -1)), kit.Float(0.1), kit.Float(1e21), kit.Float(1e20), kit.Float(-1e-7), kit.Float(5e-324), kit.Float(math.MaxFloat64), kit.Float(math.Inf(1)), kit.Float(math.Inf(-1)),
		kit.Float(1.0000000000000002), kit.Float(123456789012345680), kit.Float(1e6), kit.Float(2.5), kit.Float(100), kit.Float(-1), kit.Float(-100), kit.Float(-1e22), kit.Float(-123.25), kit.Int(-1000000)}
	n := ns[nd.Choice(len(ns))]
	n.Attr.Style = []yaml.Style{0, yaml.FlowStyle, yaml.TaggedStyle, yaml.TaggedStyle | yaml.DoubleQuotedStyle}[nd.Choice(4)]
	x := nd.StringOf("ab", 1, 1)
	var v *node
	switch nd.Choice(4) {
	case 0:
		v = kit.List(n, kit.Str(x))
	case 1:
		v = kit.Map(x, n)
	case 2:
		v = style(kit.Map("K", n, x, kit.Null()), yaml.FlowStyle) // data is read in the order of the keys
	case 3:
		v = n
	}
	out, ok := render(root(v))
	nd.Assert(ok, "a number cannot be printed")
	docs, ok := back(out)
	if v.Kind == core.KindNull {
		nd.Assert(ok && len(docs) == 0, "null is printed as something else")
		return
	}
	nd.Assert(ok && len(docs) == 1 && kit.Same(docs[0], v), "a printed number reads back as something else")
	data, err := kit.Call("yaml.unmarshal", kit.Str("first\n---\n"+out))
	nd.Assert(err == nil, "a printed number cannot be read as data")
	docs, ok = kit.Items(data)
	nd.Assert(ok && len(docs) == 2 && kit.Same(docs[1], v), "a printed number is other data")
}

// Check_Keys: map keys of up to 2 (thorough 3) characters out of indicators, blanks, line breaks, letters and digits, with each style a
// key can inherit, in block and flow style.
//
//verif:weight=2
func Check_Keys() {
	s := nd.StringOf("a1 :-?#'\"\n{~<", 0, nd.Size(2, 3))
	n := kit.Int(1)
	n.Attr.KeyStyle = styles[nd.Choice(len(styles))]
	v := kit.Map("k", kit.Null(), s, n)
	if nd.Thorough() {
		v = kit.Map("k", kit.Null(), s, n, "m", kit.List(kit.Map(s, kit.Str("x"))))
	}
	if nd.Choice(2) == 1 {
		v.Attr.Style = yaml.FlowStyle
	}
	out, ok := render(root(v))
	nd.Assert(ok, "a map cannot be printed")
	docs, ok := back(out)
	nd.Assert(ok && len(docs) == 1 && kit.Same(docs[0], v), "a printed map reads back as something else")
}

func scalar() *node {
	switch nd.Choice(nd.Size(2, 4)) {
	case 0:
		n := kit.Str(nd.StringOf([]string{"a\n", "a\n: #"}[nd.Size(0, 1)], 0, 1))
		n.Attr.Style = styles[nd.Choice(nd.Size(1, 2))*3]
		return n
	case 1:
		return kit.Null()
	case 2:
		return kit.Int(-3)
	}
	return kit.Str("true")
}

func build(depth int) *node {
	k := 0
	if depth > 0 {
		k = nd.Choice(3)
	}
	if k == 0 {
		return scalar()
	}
	n := 0
	if depth < 2 && !nd.Thorough() {
		n = nd.Choice(2)
	} else {
		n = nd.Choice(3)
	}
	var v *node
	m := core.NewYispMap()
	var items []*node
	for i := 0; i < n; i++ {
		x := build(depth - 1)
		items = append(items, x)
		m.Set([]string{"k", "1"}[i], x)
	}
	if k == 1 {
		v = kit.List(items...)
	} else {
		v = &node{Kind: core.KindMap, Value: m}
	}
	if nd.Choice(2) == 1 {
		v.Attr.Style = yaml.FlowStyle
	}
	return v
}

// Check_Structure: values nested up to 2 (thorough 3) deep of lists and maps in block and flow style with strings - empty, plain and
// with line breaks -, numbers and nulls, printed as documents and with yaml.marshal.
//
//verif:weight=5
func Check_Structure() {
	v := build(nd.Size(2, 3))
	if v.Kind == core.KindNull {
		v = kit.List(v)
	}
	out, ok := render(root(v, kit.Str("end")))
	nd.Assert(ok, "a value cannot be printed")
	docs, ok := back(out)
	nd.Assert(ok && len(docs) == 2 && kit.Same(docs[0], v) && kit.Same(docs[1], kit.Str("end")), "a printed value reads back as something else")
	text, err := kit.Call("yaml.marshal", v)
	nd.Assert(err == nil, "a value cannot be marshalled")
	r, err := kit.Call("yaml.unmarshal", text)
	nd.Assert(err == nil && same(r, kit.List(v)), "unmarshalling a marshalled value does not give the value")
}

// same compares up to the order of keys.
func same(a, b *node) bool {
	if a == nil || b == nil || a.Kind != b.Kind {
		return false
	}
	if x, ok := kit.Items(a); ok {
		y, ok := kit.Items(b)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if x, ok := kit.Entries(a); ok {
		y, ok := kit.Entries(b)
		if !ok || len(x) != len(y) {
			return false
		}
		for _, e := range x {
			found := false
			for _, f := range y {
				found = found || f.K == e.K && same(e.V, f.V)
			}
			if !found {
				return false
			}
		}
		return true
	}
	return kit.Same(a, b)
}

// Check_Marshal: yaml.unmarshal of yaml.marshal is the value, for a string of up to 2 (thorough 3) arbitrary characters of the alphabet
// as document, element, value or key, 3 levels deep.
//
//verif:weight=4
func Check_Marshal() {
	s := nd.StringOf([]string{"a1: \n\t", "a1 :-#\"\n\t{,"}[nd.Size(0, 1)], 0, nd.Size(2, 3))
	n := kit.Str(s)
	n.Attr.Style = styles[nd.Choice(len(styles))]
	v := []*node{n, kit.List(n, n), kit.Map("k", n, "l", kit.List(kit.Map(s, n))), kit.List(kit.List(kit.List(n)))}[nd.Choice(4)]
	text, err := kit.Call("yaml.marshal", v)
	nd.Assert(err == nil, "a value cannot be marshalled")
	r, err := kit.Call("yaml.unmarshal", text)
	nd.Assert(err == nil && same(r, kit.List(v)), "unmarshalling a marshalled value does not give the value")
}

// Check_Comments: comments around, behind and below every element of a list or map, its keys and the value itself, in block and flow style, with an arbitrary character in each, do
// not change the data.
//
//verif:weight=5
func Check_Comments() {
	item := func(i int) *node {
		return []*node{kit.Int(1), kit.Str("a\nb"), kit.List(), kit.List(kit.Int(1)), kit.Map("x", kit.Str("y")), kit.Null()}[i]
	}
	a := item(nd.Choice(6))
	if nd.Choice(2) == 1 && (a.Kind == core.KindArray || a.Kind == core.KindMap) {
		a.Attr.Style = yaml.FlowStyle
	}
	var v *node
	if nd.Choice(2) == 1 {
		v = kit.List(a, kit.Str("e"))
	} else {
		v = kit.Map("k", a, "l", kit.Str("e"))
	}
	if nd.Choice(2) == 1 {
		v.Attr.Style = yaml.FlowStyle
	}
	c := "#" + nd.StringOf("a:]}\"- #", 1, 1)
	if nd.Choice(2) == 1 {
		c += "\n# more"
	}
	t := a
	if nd.Choice(4) == 0 {
		t = v
	}
	switch nd.Choice(7) {
	case 0:
		t.Attr.HeadComment = c
	case 1:
		nd.Assume(!strings.Contains(c, "\n"))
		t.Attr.LineComment = c
	case 2:
		t.Attr.FootComment = c
	case 3:
		t.Attr.KeyHeadComment = c
	case 4:
		t.Attr.KeyFootComment = c
	case 5:
		t.Attr.KeyHeadComment, t.Attr.HeadComment = c, c
	case 6:
		t.Attr.HeadComment, t.Attr.FootComment = c, c
	}
	out, ok := render(root(v, kit.Str("end")))
	nd.Assert(ok, "a value with comments cannot be printed")
	docs, ok := back(out)
	nd.Assert(ok && len(docs) == 2 && kit.Same(docs[0], v) && kit.Same(docs[1], kit.Str("end")), "a value with comments reads back as something else")
}

// Check_Documents: streams of up to 2 (thorough 3) documents, each a string out of indicators or a list or map, stay separate documents.
func Check_Documents() {
	n := 1 + nd.Choice(nd.Size(2, 3))
	var want []*node
	for i := 0; i < n; i++ {
		switch nd.Choice(6) {
		case 0:
			want = append(want, kit.Str(nd.StringOf("-.a\n%", 0, nd.Size(1, 3))))
		case 1:
			want = append(want, kit.List(kit.Int(i)))
		case 2:
			want = append(want, kit.Map("k", kit.Str("--- a")))
		case 3:
			want = append(want, kit.Str("---\nx\n...\n"))
		case 4:
			want = append(want, kit.List())
		case 5:
			want = append(want, kit.Map())
		}
		want[i].Attr.Style = styles[nd.Choice(2)*3]
	}
	out, ok := render(root(want...))
	nd.Assert(ok, "a stream cannot be printed")
	docs, ok := back(out)
	nd.Assert(ok && kit.Same(kit.List(docs...), kit.List(want...)), "a stream reads back as something else")
}

// Check_Long: strings and keys of 129 or 1030 (thorough: 79 to 1030) characters - one word, words with blanks, or lines - in 3 (thorough 5) styles, with an arbitrary indicator,
// blank, line break or letter at the start, in the middle or at the end; lists and maps of 30 elements and values nested 12 deep around it.
//
//verif:weight=2
func Check_Long() {
	n := []int{1030, 129, 79, 127, 1023}[nd.Choice(nd.Size(2, 5))]
	odd := nd.StringOf([]string{":#\"\n ", ":#'\"-\n\\a "}[nd.Size(0, 1)], 1, 1)
	s := strings.Repeat("x", n)
	form, place := nd.Choice(3), nd.Choice(3)
	switch form {
	case 0:
		s = strings.Repeat("word and ", n/9) + "x"
	case 1:
		s = strings.Repeat("line one\n", n/9) + "x"
	}
	switch place {
	case 0:
		s = odd + s
	case 1:
		s = s[:n/2] + odd + s[n/2:]
	default:
		s += odd
	}
	st := (form + place) % 5
	if nd.Thorough() {
		st = nd.Choice(5)
	}
	v := style(kit.Str(s), styles[st])
	switch nd.Choice(4) {
	case 1:
		es := make([]*node, 30)
		for i := range es {
			es[i] = kit.Int(i)
		}
		es[17] = v
		v = kit.List(es...)
	case 2:
		for i := 0; i < 6; i++ {
			v = kit.List(kit.Map("k", v), kit.Int(i))
		}
	case 3:
		m := core.NewYispMap()
		for i := 0; i < 20; i++ {
			m.Set("k"+string(rune('a'+i)), kit.Int(i))
		}
		m.Set(s, kit.Str(s))
		v = kit.List(&node{Kind: core.KindMap, Value: m})
	}
	out, ok := render(root(v))
	nd.Assert(ok, "a long value cannot be printed")
	docs, ok := back(out)
	nd.Assert(ok && len(docs) == 1 && kit.Same(docs[0], v), "a long value reads back as something else")
	m, err := kit.Call("yaml.marshal", v)
	nd.Assert(err == nil, "a long value cannot be marshalled")
	u, err := kit.Call("yaml.unmarshal", m)
	nd.Assert(err == nil && same(u, kit.List(v)), "a long value changes in yaml.marshal and yaml.unmarshal")
}
