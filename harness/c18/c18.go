// Package c18: string operators against a plain model of strings as byte sequences.
package c18

import (
	"crypto/sha256"
	"strconv"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

func str(what string, r *node, err error, w string) {
	nd.Assert(err == nil, what+" fails")
	s, ok := kit.IsStr(r)
	nd.Assert(ok, what+" does not give a string")
	nd.Assert(len(s) == len(w), what+" gives a string of the wrong length")
	nd.Assert(s == w, what+" gives a wrong string")
}

func strs(what string, r *node, err error, w []string) {
	nd.Assert(err == nil, what+" fails")
	items, ok := kit.Items(r)
	nd.Assert(ok, what+" does not give a list")
	nd.Assert(len(items) == len(w), what+" gives a list of the wrong length")
	for i := range w {
		s, ok := kit.IsStr(items[i])
		nd.Assert(ok && s == w[i], what+" gives a wrong element")
	}
}

// at reports whether sub stands in s at offset i.
func at(s, sub string, i int) bool {
	if i+len(sub) > len(s) {
		return false
	}
	for j := 0; j < len(sub); j++ {
		if s[i+j] != sub[j] {
			return false
		}
	}
	return true
}

// pieces cuts s at the leftmost non-overlapping occurrences of sep (not empty), at most max of them (negative: all).
func pieces(s, sep string, max int) []string {
	out := []string{}
	start := 0
	for i := 0; i+len(sep) <= len(s); {
		if max != 0 && at(s, sep, i) {
			out = append(out, s[start:i])
			i += len(sep)
			start = i
			max--
		} else {
			i++
		}
	}
	return append(out, s[start:])
}

func glue(parts []string, sep string) string {
	out := ""
	for i, p := range parts {
		if i > 0 {
			out += sep
		}
		out += p
	}
	return out
}

func nodes(ss []string) []*node {
	out := make([]*node, len(ss))
	for i, s := range ss {
		out[i] = kit.Str(s)
	}
	return out
}

// ab is a string over a small alphabet: long enough for overlapping and repeated occurrences.
func ab(max int) string { return nd.StringOf("ab", 0, max) }

// Check_Concat: concat and join of up to 3 (thorough 4) arbitrary strings of up to 2 bytes; associativity and identity.
func Check_Concat() {
	ss := make([]string, nd.Choice(nd.Size(4, 5)))
	for i := range ss {
		ss[i] = nd.String(2)
	}
	ns := nodes(ss)
	r, err := kit.Call("strings.concat", ns...)
	str("concat", r, err, glue(ss, ""))
	sep := nd.String(2)
	j, err := kit.Call("strings.join", kit.List(ns...), kit.Str(sep))
	str("join", j, err, glue(ss, sep))
	if len(ss) == 3 {
		x, err := kit.Call("strings.concat", ns[0], ns[1])
		nd.Assert(err == nil, "concat fails")
		x, err = kit.Call("strings.concat", x, ns[2])
		str("nested concat", x, err, ss[0]+ss[1]+ss[2])
		y, err := kit.Call("strings.concat", ns[1], ns[2])
		nd.Assert(err == nil, "concat fails")
		y, err = kit.Call("strings.concat", ns[0], y)
		str("nested concat", y, err, ss[0]+ss[1]+ss[2])
	}
}

// Check_Split: split at every separator of 1 or 2 bytes of every string of up to 4 (thorough 6) bytes over {a,b},
// and of every arbitrary string of up to 2 bytes; joining the parts gives the string back.
func Check_Split() {
	s, sep := "", ""
	if nd.Choice(2) == 0 {
		s, sep = ab(nd.Size(4, 6)), nd.StringOf("ab", 1, 2)
	} else {
		s, sep = nd.String(2), nd.StringN(1)
	}
	r, err := kit.Call("strings.split", kit.Str(s), kit.Str(sep))
	strs("split", r, err, pieces(s, sep, -1))
	j, err := kit.Call("strings.join", r, kit.Str(sep))
	str("join of split", j, err, s)
}

// Check_SplitAll: splitting at the empty string cuts every string of up to 3 (thorough 4) ASCII bytes into its
// characters; joining gives the string back, for arbitrary bytes too.
func Check_SplitAll() {
	s := nd.String(nd.Size(3, 4))
	r, err := kit.Call("strings.split", kit.Str(s), kit.Str(""))
	ascii := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ascii = false
		}
	}
	if ascii {
		w := []string{}
		for i := 0; i < len(s); i++ {
			w = append(w, s[i:i+1])
		}
		strs("split at the empty string", r, err, w)
	}
	j, err := kit.Call("strings.join", r, kit.Str(""))
	str("join of split at the empty string", j, err, s)
}

// Check_Replace: replace, without a count or with any count, of every pattern of 1 or 2 bytes in every string of up
// to 4 (thorough 6) bytes over {a,b} by an arbitrary string of up to 1 byte.
//
//verif:weight=4
func Check_Replace() {
	s, old, new := ab(nd.Size(4, 6)), nd.StringOf("ab", 1, 2), nd.String(1)
	if nd.Choice(2) == 0 {
		r, err := kit.Call("strings.replace", kit.Str(s), kit.Str(old), kit.Str(new))
		str("replace", r, err, glue(pieces(s, old, -1), new))
		return
	}
	n := nd.Int()
	r, err := kit.Call("strings.replace", kit.Str(s), kit.Str(old), kit.Str(new), kit.Int(n))
	limit := -1
	for i := 0; i <= len(s); i++ {
		if n == i {
			limit = i
		}
	}
	str("replace with a count", r, err, glue(pieces(s, old, limit), new))
}

// Check_Contains: contains for every string of up to 4 (thorough 6) and every pattern of up to 3 bytes over {a,b},
// and for arbitrary strings of up to 2 and 1 bytes.
func Check_Contains() {
	s, sub := "", ""
	if nd.Choice(2) == 0 {
		s, sub = ab(nd.Size(4, 6)), nd.StringOf("ab", 0, 3)
	} else {
		s, sub = nd.String(2), nd.String(1)
	}
	w := false
	for i := 0; i+len(sub) <= len(s); i++ {
		if at(s, sub, i) {
			w = true
		}
	}
	r, err := kit.Call("strings.contains", kit.Str(s), kit.Str(sub))
	nd.Assert(err == nil, "contains fails")
	b, ok := kit.IsBool(r)
	nd.Assert(ok && b == w, "contains gives a wrong answer")
}

func space(r rune) bool {
	switch {
	case r >= 9 && r <= 13, r == ' ', r == 0x85, r == 0xA0, r == 0x1680, r >= 0x2000 && r <= 0x200a, r == 0x2028, r == 0x2029, r == 0x202f, r == 0x205f, r == 0x3000:
		return true
	}
	return false
}

// Check_Trim: trim for every string of up to 3 (thorough 4) arbitrary bytes, Unicode white space included.
func Check_Trim() {
	s := nd.String(nd.Size(3, 4))
	first, last, open := -1, 0, false
	for i, r := range s {
		if open {
			last = i
		}
		open = !space(r)
		if open && first < 0 {
			first = i
		}
	}
	if open {
		last = len(s)
	}
	w := ""
	if first >= 0 {
		w = s[first:last]
	}
	r, err := kit.Call("strings.trim", kit.Str(s))
	str("trim", r, err, w)
}

// Check_Case: toUpper and toLower of every ASCII string of up to 3 (thorough 4) bytes.
func Check_Case() {
	s := nd.String(nd.Size(3, 4))
	up, low := make([]byte, len(s)), make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		nd.Assume(c < 0x80)
		up[i], low[i] = c, c
		if c >= 'a' && c <= 'z' {
			up[i] = c - 32
		}
		if c >= 'A' && c <= 'Z' {
			low[i] = c + 32
		}
	}
	r, err := kit.Call("strings.toUpper", kit.Str(s))
	str("toUpper", r, err, string(up))
	r, err = kit.Call("strings.toLower", kit.Str(s))
	str("toLower", r, err, string(low))
}

// Check_CaseUnicode: toUpper and toLower of every string of up to 2 of the characters é, É, ß, ж, 中, x, ÿ, Ω, the digraph dž in lower and title case (which is not its upper case), and the ligature fi.
func Check_CaseUnicode() {
	chars := []string{"é", "É", "ß", "ж", "中", "x", "ÿ", "Ω", "\u01c6", "\u01c5", "\ufb01"}
	ups := []string{"É", "É", "ß", "Ж", "中", "X", "Ÿ", "Ω", "\u01c4", "\u01c4", "\ufb01"}
	lows := []string{"é", "é", "ß", "ж", "中", "x", "ÿ", "ω", "\u01c6", "\u01c6", "\ufb01"}
	s, up, low := "", "", ""
	for n := nd.Choice(3); n > 0; n-- {
		i := nd.Choice(len(chars))
		s, up, low = s+chars[i], up+ups[i], low+lows[i]
	}
	r, err := kit.Call("strings.toUpper", kit.Str(s))
	str("toUpper", r, err, up)
	r, err = kit.Call("strings.toLower", kit.Str(s))
	str("toLower", r, err, low)
}

// Check_Sha256: sha256 is the lower-case hexadecimal SHA-256 digest of exactly the bytes of the string, for every string of up to 2 (thorough 3) bytes.
// The digest function itself is taken from the standard library on both sides.
func Check_Sha256() {
	s := nd.String(nd.Size(2, 3))
	r, err := kit.Call("strings.sha256", kit.Str(s))
	sum := sha256.Sum256([]byte(s))
	nd.Assert(err == nil, "sha256 fails")
	t, ok := kit.IsStr(r)
	nd.Assert(ok && len(t) == 64, "sha256 does not give 64 characters")
	for i, b := range sum {
		nd.Assert(t[2*i] == digit(b>>4), "sha256 gives a wrong digit")
		nd.Assert(t[2*i+1] == digit(b&15), "sha256 gives a wrong digit")
	}
}

func digit(d byte) byte {
	if d < 10 {
		return '0' + d
	}
	return 'a' - 10 + d
}

// Check_Format: format with %s, %v, %q-free text, %d, %% and up to 3 arguments in order: arbitrary strings of up to
// 2 bytes, small integers, booleans, null-free.
func Check_Format() {
	f, w := "", ""
	args := []*node{}
	for n := nd.Choice(4); n > 0; n-- {
		switch nd.Choice(5) {
		case 0:
			s := nd.String(1)
			f, w = f+"<%s>", w+"<"+s+">"
			args = append(args, kit.Str(s))
		case 1:
			s := nd.String(1)
			f, w = f+"%v", w+s
			args = append(args, kit.Str(s))
		case 2:
			i := nd.Concrete(nd.IntRange(-1, 1))
			f, w = f+"%d", w+[]string{"-1", "0", "1"}[i+1]
			args = append(args, kit.Int(i))
		case 3:
			f, w = f+"%%", w+"%"
		case 4:
			b := nd.Choice(2)
			f, w = f+"%v", w+[]string{"false", "true"}[b]
			args = append(args, kit.Bool(b == 1))
		}
	}
	r, err := kit.Call("strings.format", append([]*node{kit.Str(f)}, args...)...)
	str("format", r, err, w)
}

// Check_FormatVerbs: 26 formats with widths, precisions, floats, lists, maps, null, too few or too many arguments and wrong or unknown verbs
// give what the standard formatting gives.
func Check_FormatVerbs() {
	a := func(xs ...*kit.Node) []*kit.Node { return xs }
	cases := []struct {
		f    string
		args []*kit.Node
		want string
	}{
		{"%v", a(kit.Float(2)), "2"},
		{"%v %v", a(kit.Float(-0.5), kit.Float(1e21)), "-0.5 1e+21"},
		{"%.2f", a(kit.Float(2)), "2.00"},
		{"%6.1f|", a(kit.Float(-1.25)), "  -1.2|"},
		{"%g", a(kit.Float(100)), "100"},
		{"%e", a(kit.Float(12)), "1.200000e+01"},
		{"%f", a(kit.Int(2)), "%!f(int=2)"},
		{"%d", a(kit.Float(2)), "%!d(float64=2)"},
		{"%5d|%-5d|%05d", a(kit.Int(42), kit.Int(42), kit.Int(42)), "   42|42   |00042"},
		{"%x %X %o %b", a(kit.Int(255), kit.Int(255), kit.Int(8), kit.Int(5)), "ff FF 10 101"},
		{"%+d", a(kit.Int(3)), "+3"},
		{"%5s|%-5s|%.1s", a(kit.Str("ab"), kit.Str("ab"), kit.Str("ab")), "   ab|ab   |a"},
		{"%q", a(kit.Str("a\"b")), "\"a\\\"b\""},
		{"%x", a(kit.Str("ab")), "6162"},
		{"%t", a(kit.Bool(true)), "true"},
		{"%v", a(kit.Null()), "<nil>"},
		{"%v", a(kit.List(kit.Int(1), kit.Str("a"))), "[1 a]"},
		{"%v", a(kit.Map("b", kit.Int(1), "a", kit.Float(0.5))), "map[a:0.5 b:1]"},
		{"%s", nil, "%!s(MISSING)"},
		{"x", a(kit.Int(1)), "x%!(EXTRA int=1)"},
		{"%z", a(kit.Int(1)), "%!z(int=1)"},
		{"%", nil, "%!(NOVERB)"},
		{"%[2]v %[1]v", a(kit.Int(1), kit.Int(2)), "2 1"},
		{"%*d", a(kit.Int(4), kit.Int(1)), "   1"},
		{"", nil, ""},
		{"é%cü", a(kit.Int(233)), "ééü"},
	}
	c := cases[nd.Choice(len(cases))]
	r, err := kit.Call("strings.format", append([]*kit.Node{kit.Str(c.f)}, c.args...)...)
	str("format", r, err, c.want)
}

// Check_Quote: quote of every string of up to 3 printable ASCII bytes escapes quotes and backslashes and nothing else;
// line feed and tab are written \n and \t; quoting small integers gives their text, quoting floats a text with their value.
func Check_Quote() {
	switch nd.Choice(4) {
	case 0:
		f := []float64{0.5, -1.25, 3, 1e-7, 123456789.125, 1e22, 0.1}[nd.Choice(7)]
		r, err := kit.Call("strings.quote", kit.Float(f))
		nd.Assert(err == nil, "quote fails")
		text, ok := kit.IsStr(r)
		g, err := strconv.ParseFloat(text, 64)
		nd.Assert(ok && err == nil && f == g, "quote gives a number another value")
		return
	case 1:
		r, err := kit.Call("strings.quote", kit.Bool(nd.Bool()))
		nd.Assert(err == nil && r.Kind == core.KindString, "quote fails")
		return
	case 2:
		i := nd.Concrete(nd.IntRange(-2, 12))
		t := []string{"-2", "-1", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"}[i+2]
		r, err := kit.Call("strings.quote", kit.Int(i))
		str("quote", r, err, t)
		return
	}
	s := nd.String(nd.Size(2, 3))
	w := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		nd.Assume(c >= ' ' && c < 0x7f || c == '\n' || c == '\t')
		switch c {
		case '"', '\\':
			w += "\\" + s[i:i+1]
		case '\n':
			w += "\\n"
		case '\t':
			w += "\\t"
		default:
			w += s[i : i+1]
		}
	}
	r, err := kit.Call("strings.quote", kit.Str(s))
	str("quote", r, err, w)
}

// Check_Errors: every operator with any number of arguments from 0 to 4 (5), one of which has an arbitrary kind in an
// arbitrary position: an error exactly when the count or a kind is wrong.
func Check_Errors() {
	type sig struct {
		name     string
		min, max int
		kinds    string // s: string, l: list of strings, i: integer; the last one repeats
	}
	sigs := []sig{{"concat", 0, 9, "s"}, {"contains", 2, 2, "ss"}, {"join", 2, 2, "ls"}, {"replace", 3, 4, "sssi"}, {"sha256", 1, 1, "s"},
		{"split", 2, 2, "ss"}, {"toUpper", 1, 1, "s"}, {"toLower", 1, 1, "s"}, {"trim", 1, 1, "s"}}
	sg := sigs[nd.Choice(len(sigs))]
	args := make([]*node, nd.Choice(nd.Size(5, 6)))
	bad := len(args) < sg.min || len(args) > sg.max
	odd := -1
	if len(args) > 0 {
		odd = nd.Choice(len(args))
	}
	for i := range args {
		k := byte('s')
		if len(sg.kinds) > 0 {
			k = sg.kinds[min(i, len(sg.kinds)-1)]
		}
		good := kit.Str("a")
		switch k {
		case 'l':
			good = kit.List(kit.Str("a"), kit.Str("b"))
		case 'i':
			good = kit.Int(1)
		}
		args[i] = good
		if i == odd {
			args[i] = arg()
			switch k {
			case 's':
				bad = bad || args[i].Kind != core.KindString
			case 'i':
				bad = bad || args[i].Kind != core.KindInt
			case 'l':
				items, ok := kit.Items(args[i])
				bad = bad || !ok
				for _, x := range items {
					bad = bad || x.Kind != core.KindString
				}
			}
		}
	}
	r, err := kit.Call("strings."+sg.name, args...)
	if bad {
		nd.Assert(err != nil && r == nil, sg.name+" accepts wrong arguments")
	} else {
		nd.Assert(err == nil && r != nil, sg.name+" refuses right arguments")
	}
}

func arg() *node {
	switch nd.Choice(9) {
	case 0:
		return kit.Null()
	case 1:
		return kit.Bool(nd.Bool())
	case 2:
		return kit.Int(nd.Int())
	case 3:
		return kit.Float(nd.Float())
	case 4:
		return kit.Map("a", kit.Str("x"))
	case 5:
		return kit.List(kit.Str("a"), kit.Scalar(nd.Choice(5)))
	case 6:
		return kit.Lambda("x")
	case 7:
		return kit.TypeNode(&core.Schema{Type: "string"})
	}
	return kit.Str(nd.String(1))
}

// Check_Long: split, join, concat, replace (all, or the first 0, 1, 10 or 60), contains, trim, toUpper, toLower, quote, sha256 and format over a
// text of 45 or 300 characters in 15 or 100 parts with two arbitrary letters in it, at the start, the middle or the end.
func Check_Long() {
	n := []int{15, 100}[nd.Choice(2)]
	odd := nd.StringOf("abX,", 2, 2)
	place := nd.Choice(3)
	parts := make([]string, n)
	for i := range parts {
		parts[i] = "ab"
	}
	text := glue(parts, ",")
	switch place {
	case 0:
		text = odd + text
	case 1:
		text = text[:len(text)/2] + odd + text[len(text)/2:]
	case 2:
		text = text + odd
	}
	switch nd.Choice(10) {
	case 0:
		r, err := kit.Call("strings.split", kit.Str(text), kit.Str(","))
		strs("split", r, err, pieces(text, ",", -1))
		r, err = kit.Call("strings.join", r, kit.Str("--"))
		str("join", r, err, glue(pieces(text, ",", -1), "--"))
	case 1:
		ns := make([]*node, n)
		for i := range ns {
			ns[i] = kit.Str(parts[i])
		}
		ns[n/2] = kit.Str(odd)
		parts[n/2] = odd
		r, err := kit.Call("strings.concat", ns...)
		str("concat", r, err, glue(parts, ""))
	case 2:
		r, err := kit.Call("strings.replace", kit.Str(text), kit.Str("ab"), kit.Str("abab"))
		str("replace", r, err, glue(pieces(text, "ab", -1), "abab"))
	case 3:
		limit := []int{0, 1, 10, 60}[nd.Choice(4)]
		r, err := kit.Call("strings.replace", kit.Str(text), kit.Str("b"), kit.Str(""), kit.Int(limit))
		str("replace with a count", r, err, glue(pieces(text, "b", limit), ""))
	case 4:
		for _, sub := range []string{"X", "aa", odd, text} {
			r, err := kit.Call("strings.contains", kit.Str(text), kit.Str(sub))
			nd.Assert(err == nil, "contains fails")
			got, ok := kit.IsBool(r)
			nd.Assert(ok && got == (len(pieces(text, sub, -1)) > 1), "contains gives a wrong answer")
		}
	case 5:
		r, err := kit.Call("strings.trim", kit.Str(" \t\n"+text+"  \n"))
		str("trim", r, err, text)
	case 6:
		r, err := kit.Call("strings.toUpper", kit.Str(text))
		up, low := "", ""
		for i := 0; i < len(text); i++ {
			c := text[i]
			switch {
			case c >= 'a' && c <= 'z':
				up, low = up+string(rune(c-32)), low+string(rune(c))
			case c >= 'A' && c <= 'Z':
				up, low = up+string(rune(c)), low+string(rune(c+32))
			default:
				up, low = up+string(rune(c)), low+string(rune(c))
			}
		}
		str("toUpper", r, err, up)
		r, err = kit.Call("strings.toLower", kit.Str(text))
		str("toLower", r, err, low)
	case 7:
		r, err := kit.Call("strings.quote", kit.Str(text+"\"\\\n"))
		str("quote", r, err, text+"\\\"\\\\\\n")
	case 8:
		args := []*node{kit.Str("")}
		f, w := "", ""
		for i := 0; i < 12; i++ {
			f, w = f+"%s|", w+parts[i]+"|"
			args = append(args, kit.Str(parts[i]))
		}
		args[0] = kit.Str(f + "%s")
		r, err := kit.Call("strings.format", append(args, kit.Str(text))...)
		str("format", r, err, w+text)
	case 9:
		d := sha256.Sum256([]byte(text))
		w := ""
		for _, b := range d {
			w += string(rune(digit(b>>4))) + string(rune(digit(b&15)))
		}
		r, err := kit.Call("strings.sha256", kit.Str(text))
		str("sha256", r, err, w)
	}
}
