// Package c20: reading any bytes ends with documents or an error.
// A panic, a read outside a buffer or a path beyond the step bound is a violation in every harness here, and so is a tree that is not
// well formed.
package c20

import (
	"strings"

	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

func read(text string) {
	docs, err := kit.Run(text)
	good := true
	for _, d := range docs {
		good = good && kit.WellFormed(d)
	}
	nd.Assert(err != nil || good, "a document is not a well-formed tree")
	if err != nil {
		nd.Assert(err.Error() != "", "an error has no message")
	}
}

// data reads text with the reader of included files.
func data(text string) {
	r, err := kit.Call("yaml.unmarshal", kit.Str(text))
	nd.Assert(err != nil || kit.WellFormed(r), "unmarshalled data is not a well-formed tree")
	if err == nil {
		_, ok := kit.Items(r)
		nd.Assert(ok, "unmarshalled data is not a list of documents")
	}
}

// Check_Bytes: every program of up to 3 (thorough 4) bytes.
//
//verif:weight=2
func Check_Bytes() { read(nd.String(nd.Size(3, 4))) }

// Check_Data: every YAML file of up to 3 (thorough 4) bytes, read as data.
//
//verif:weight=2
func Check_Data() { data(nd.String(nd.Size(3, 4))) }

var contexts = [][2]string{
	{"a: ", "\n"}, {"- ", "\n- b\n"}, {"[a, ", " b]\n"}, {"{a: ", ", c: d}\n"}, {"a: &x", " 1\nb: *x \n"}, {"a: &x 1\nb: *x", "\n"},
	{"a: '", "'\n"}, {"a: \"b", "c\"\n"}, {"a: |", "\n  b\n c\n"}, {"a: >\n  b\n", "\n  c\n"}, {"- a\n", "b\n"}, {"? ", "\n: c\n"},
	{"%YAML 1.", "\n---\na\n"}, {"%TAG !", " !a\n--- b\n"}, {"!", " a\n"}, {"!<", "> a\n"}, {"a: # b", "\n  c\n"}, {"---", "a\n---\nb\n"}, {"a\n...", "\n---\nb\n"},
	{"!yisp\n- +\n- 1\n- ", "\n"}, {"!yisp ", "\n"}, {"!yisp [quote, ", "]\n"}, {"<<: ", "\na: 1\n"}, {"a:\n  - b\n ", "c: d\n"}, {"!!", " 1\n"}, {"!yisp &f\n- lambda\n- [", "]\n- 1\n"},
}

// Check_Contexts: one arbitrary byte (thorough two), and for the first half of the contexts one more of the indicators, blanks and line breaks, in each of 26 contexts, as a program and as data.
//
//verif:weight=4
func Check_Contexts() {
	c := contexts[nd.Choice(len(contexts))]
	s := nd.StringN(1)
	if nd.Choice(2) == 1 {
		if nd.Thorough() {
			s += nd.StringN(1)
		} else {
			s += nd.StringOf("\n :#'", 1, 1)
		}
	}
	if nd.Choice(2) == 0 {
		read(c[0] + s + c[1])
	} else {
		data(c[0] + s + c[1])
	}
}

// Check_Tokens: every program of 3 and 4 (thorough up to 6) characters that have a meaning in YAML, between a prefix and a suffix.
//
//verif:weight=6
func Check_Tokens() {
	s := nd.StringOf("-?:[{},]&*!|>#\n a\"", 3, nd.Size(4, 6))
	if nd.Choice(2) == 0 {
		read(s)
	} else {
		read("a: " + s + "\nb: 1\n")
	}
}

// Check_Blocks: block scalar headers of up to 2 characters, two lines with arbitrary indentation and characters, after a parent at a depth
// of 0 to 2.
//
//verif:weight=3
func Check_Blocks() {
	head := nd.StringOf("+-019 #a", 0, 2)
	body := nd.StringOf(" \n\ta-", 0, nd.Size(3, 5))
	pre := []string{"", "a: ", "- a:\n    - "}[nd.Choice(3)]
	read(pre + []string{"|", ">"}[nd.Choice(nd.Size(1, 2))] + head + "\n" + body + []string{"", "\n"}[nd.Choice(2)])
}

// Check_Escapes: double quoted scalars with every escape: two arbitrary bytes after a backslash, and four (eight in the thorough tier) of the
// digits and others after \x, \u and \U.
//
//verif:weight=2
func Check_Escapes() {
	s := ""
	switch nd.Choice(4) {
	case 0:
		s = nd.StringN(nd.Size(1, 2))
	case 1:
		s = "x" + nd.StringN(2)
	case 2:
		s = "u" + nd.StringOf("0dDfF8g\"", 3, 4)
	case 3:
		s = "U" + nd.StringOf("01fd", 1, 1) + "0" + nd.StringOf("01fdg", nd.Size(1, 5), nd.Size(2, 6)) + "0000"
	}
	read("a: \"\\" + s + []string{"\"\n", "\\", "\n\"\n"}[nd.Choice(3)])
}

// Check_Encodings: every byte after a byte order mark of UTF-8, UTF-16LE and UTF-16BE, surrogates in every order, and UTF-8 sequences of 2 to 4 arbitrary bytes that begin like one.
//
//verif:weight=2
func Check_Encodings() {
	switch nd.Choice(4) {
	case 0:
		read("\xef\xbb\xbf" + nd.String(nd.Size(1, 2)))
	case 1:
		read("\xff\xfe" + nd.String(nd.Size(2, 4)))
	case 2:
		read("\xfe\xff" + nd.String(nd.Size(2, 4)))
	case 3:
		a := nd.Byte()
		nd.Assume(a >= 0xc0)
		read("a: " + string([]byte{a}) + nd.String(nd.Size(1, 3)))
	}
}

// Check_Buffers: an arbitrary byte and a line break or a two-byte character at every distance from the ends of the buffers that the reader
// fills (512 raw bytes, 1536 decoded bytes).
//
//verif:weight=2
//verif:maxsteps=60000000
func Check_Buffers() {
	n := []int{512, 1536, 1024}[nd.Choice(nd.Size(2, 3))] - 4 + nd.Choice(6)
	tail := nd.StringN(1) + []string{"b", "\xc3\xa9", "\r\n", " #"}[nd.Choice(4)]
	switch nd.Choice(nd.Size(1, 3)) {
	case 0:
		read("a: " + strings.Repeat("a", n-3) + tail + "\nb: 1\n")
	case 1:
		read("a: \"" + strings.Repeat("a", n-4) + tail + "\"\nb: 1\n")
	case 2:
		read("a: |\n" + strings.Repeat("  a\n", n/4) + "  " + strings.Repeat("b", n%4) + tail + "\nb: 1\n")
	}
}

// Check_Anchors: documents out of anchors, aliases and merge keys - also to themselves and to nodes around them - with arbitrary names of
// one byte, as programs and as data.
//
//verif:weight=2
func Check_Anchors() {
	x, y := nd.StringN(1), nd.StringOf("ab", 1, 1)
	text := []string{"&" + x + " [*" + y + " ]\n", "&a {k: *" + x + " }\n", "k: &a {<<: *" + x + " }\n", "- &" + x + " 1\n- &a 2\n- *" + y + " \n", "a: &" + x + " {c: 1}\nb: {<<: *" + y + " , c: 2}\n",
		"<<: [*" + x + " , *a ]\n", "? *" + x + " \n: 1\n", "&a " + x + ": *a \n", "&a &" + x + " 1\n", "*a : &" + x + "\n", "- &a [&b [*a , *" + y + " ], *" + x + " ]\n"}[nd.Choice(11)]
	if nd.Choice(2) == 0 {
		read(text)
	} else {
		data(text)
	}
}

// Check_Depth: up to 40 (thorough 300) nested flow or block collections, open or closed, around an arbitrary byte.
//
//verif:maxsteps=60000000
func Check_Depth() {
	n := []int{1, 7, nd.Size(40, 300)}[nd.Choice(3)]
	open, close := [][2]string{{"[", "]"}, {"{a: ", "}"}, {"- ", ""}, {"? ", ""}, {"[{", "}]"}}[nd.Choice(5)][0], ""
	if nd.Choice(2) == 1 {
		close = map[string]string{"[": "]", "{a: ": "}", "[{": "}]"}[open]
	}
	read(strings.Repeat(open, n) + nd.StringN(1) + strings.Repeat(close, n) + "\n")
}

var samples = []string{
	"%YAML 1.2\n---\n!yisp\n- import\n- [\"a\", b.yisp]\n---\nx: &a |+\n  t\n\n'y z': *a \n...\n",
	"? - a\n  - {b: \"c\\n\\u00e9\", 'd': ~}\n: - >-1\n    e\n   # f\n  - !!str 1\n",
	"- &a [x, y: z, ? q : r]\n- <<: [*a , {b: c}]\n  d:\n- - e\n  -\tf\n- !t {}\n",
	"a: !yisp\n  - lambda\n  - [x !int, y]\n  - !yisp [+, *x , *y.z?.w ]\nb: \"c \\\n  d\"\ne: 'f\n\n  g'\n",
}

// Check_Mutations: 4 programs that use most of YAML, with one arbitrary byte in place of, or before, the character at every (quick: every third) position, or cut
// off behind it, as programs and as data.
//
//verif:weight=3
func Check_Mutations() {
	s := samples[nd.Choice(len(samples))]
	step := nd.Size(3, 1)
	i := nd.Choice(len(s)/step) * step
	how := nd.Choice(3)
	text := s[:i] + nd.StringN(1) + []string{s[i:], s[i+1:], ""}[how]
	if nd.Choice(2) == 0 {
		read(text)
	} else {
		data(text)
	}
}

// Check_Cut: UTF-16 of up to 3 (thorough 4) units, each an ASCII character, a line break, an indicator, a high or low surrogate with a symbolic byte, a byte order mark or a zero, in
// either byte order, cut off up to 3 bytes before its end.
//
//verif:weight=2
func Check_Cut() {
	little := nd.Choice(2) == 1
	text := "\xfe\xff"
	if little {
		text = "\xff\xfe"
	}
	for i := nd.Choice(nd.Size(3, 4)) + 1; i > 0; i-- {
		var hi, lo byte
		switch nd.Choice(7) {
		case 0:
			lo = 'a'
		case 1:
			lo = '\n'
		case 2:
			lo = []byte(":-[\"'|%")[nd.Choice(nd.Size(2, 7))]
		case 3:
			hi, lo = 0xd8, nd.Byte()
		case 4:
			hi, lo = 0xdc, nd.Byte()
		case 5:
			hi, lo = 0xfe, 0xff
		case 6:
		}
		if little {
			hi, lo = lo, hi
		}
		text += string([]byte{hi, lo})
	}
	cut := nd.Choice(4)
	if cut > len(text) {
		cut = len(text)
	}
	read(text[:len(text)-cut])
}
