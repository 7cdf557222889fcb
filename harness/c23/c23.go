// Package c23: the documents of a file are evaluated in order, and what they contribute to the output is spliced at top level only.
// The oracle is a list of expected documents that is built up together with the text of the program.
package c23

import (
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

// stream is a YAML stream under construction, with the documents that are to come out of it.
type stream struct {
	text string
	docs int
	want []*node
	defs []def
	// printed: the stream is to be printed and read again
	printed bool
}

type def struct {
	name string
	v    *node
}

func (s *stream) doc(text string, want ...*node) {
	if s.docs > 0 {
		s.text += "---\n"
	}
	s.docs++
	s.text += text + "\n"
	s.want = append(s.want, want...)
}

// digit is a symbolic literal and its value; a fixed one in a stream of several documents that is to be printed, but in the thorough run.
func (s *stream) digit() (string, *node) {
	d := byte('7')
	if !s.printed || nd.Thorough() {
		d = nd.Byte()
	}
	nd.Assume(d >= '0' && d <= '9')
	return "1" + string([]byte{d}), kit.Int(10 + int(d-'0'))
}

// simple adds a document that needs no other file.
func (s *stream) simple(k int) {
	t, v := s.digit()
	switch k {
	case 0:
		n := 6
		if s.docs > 0 {
			n = nd.Size(3, 6)
		}
		s.doc([]string{"null", "", "!yisp [if, false, 1, null]", "~", "# nothing", "!yisp [progn, 1, null]"}[nd.Choice(n)])
	case 1:
		s.doc(t, v)
	case 2:
		s.doc("k: "+t+"\nn: null", kit.Map("k", v, "n", kit.Null()))
	case 3:
		s.doc("- "+t+"\n- null\n- [1]", kit.List(v, kit.Null(), kit.List(kit.Int(1))))
	case 4:
		// a definition is a document like any other
		name := []string{"x", "y"}[nd.Choice(2)]
		s.defs = append([]def{{name, v}}, s.defs...)
		s.doc("&"+name+" "+t, v)
	case 5:
		// the latest definition of the name counts
		for _, d := range s.defs {
			if d.name == "x" {
				s.doc("!yisp [+, *x , 1]", kit.Int(d.v.Value.(int)+1))
				return
			}
		}
		s.doc("*x?", nil...)
	case 6:
		s.doc("!yisp [lists.as-toplevel, "+t+", !quote [[2], "+t+"], !quote []]", v, kit.List(kit.Int(2)), v)
	case 7:
		s.doc("!quote []", kit.List())
	case 8:
		s.doc("!yisp [lists.as-toplevel]")
	case 9:
		// only documents are spliced
		s.doc("- !yisp [lists.as-toplevel, "+t+"]", kit.List(kit.List(v)))
	case 10:
		s.doc("l: !yisp [lists.as-toplevel, "+t+"]", kit.Map("l", kit.List(v)))
	case 11:
		s.doc("!yisp [if, true, [lists.as-toplevel, "+t+", 1], 2]", v, kit.Int(1))
	case 12:
		s.doc("!yisp &l [lists.as-toplevel, "+t+", 1]\n---\n*l\n---\n[*l ]", v, kit.Int(1), v, kit.Int(1), kit.List(kit.List(v, kit.Int(1))))
	}
}

const nSimple = 13

// file writes a file with the stream and returns its name.
func (s *stream) file(name string) string {
	nd.WriteFile(name, s.text)
	return name
}

func (o *stream) part(n int) *stream {
	s := &stream{printed: o.printed}
	for i := 0; i < n; i++ {
		s.simple([]int{0, 1, 4, 6, 3}[nd.Choice(nd.Size(4, 5))])
	}
	return s
}

// included adds a document that includes other files.
func (s *stream) included(k int) {
	// no two documents share a file
	id := string(rune('0'+s.docs)) + ".yisp"
	f := s.part(nd.Choice(3))
	f.file("f" + id)
	switch k {
	case 0:
		s.doc("!yisp [include, f"+id+"]", f.want...)
	case 1:
		g := s.part(nd.Choice(2))
		g.file("g" + id)
		s.doc("!yisp [include, f"+id+", g"+id+"]", append(append([]*node{}, f.want...), g.want...)...)
	case 2:
		s.doc("!yisp [lists.filter, [include, f"+id+"], [lambda, [v], true]]", f.want...)
	case 3:
		s.doc("!yisp [lists.map, [include, f"+id+"], [lambda, [v], *v ]]", f.want...)
	case 4:
		s.doc("- 1\n- !yisp [include, f"+id+"]", kit.List(kit.Int(1), kit.List(f.want...)))
	case 5:
		s.doc("k: !yisp [include, f"+id+"]", kit.Map("k", kit.List(f.want...)))
	case 6:
		g := &stream{printed: s.printed}
		g.simple(1)
		g.doc("!yisp [include, f"+id+"]", f.want...)
		g.simple(1)
		g.file("g" + id)
		s.doc("!yisp [include, g"+id+"]", g.want...)
	case 7:
		s.doc("!yisp [import, [m, f" + id + "]]")
	case 8:
		t, v := s.digit()
		nd.WriteFile("d"+id+".yaml", "a: "+t+"\n---\nb: 2\n")
		s.doc("!yisp [include, d"+id+".yaml]", kit.Map("a", v), kit.Map("b", kit.Int(2)))
	case 9:
		t, v := s.digit()
		nd.WriteFile("d"+id+".json", `{"a": [`+t+`]}`)
		s.doc("!yisp [include, d"+id+".json]", kit.Map("a", kit.List(v)))
	case 10:
		s.doc("!yisp [lists.at, [include, g"+id+", f"+id+"], 0]", kit.Int(7))
		nd.WriteFile("g"+id, "7")
	}
}

const nIncluded = 11

// verdict runs the stream and compares the documents.
func (s *stream) verdict() {
	p := s.file("main.yisp")
	r, err := core.CallEngineByPath(nd.Dir()+"/"+p, "", core.NewEnv(), kit.Engine())
	nd.Assert(err == nil, "a stream of documents fails")
	got, ok := kit.Items(r)
	nd.Assert(ok, "the result is not a list of documents")
	nd.Assert(len(got) == len(s.want), "wrong number of documents")
	for i := range got {
		nd.Assert(kit.Same(got[i], s.want[i]), "a document is wrong or out of place")
	}
}

// Check_Order runs streams of 1 to 3 documents (4 in the thorough run) of 13 forms (null, scalars with a symbolic digit, maps,
// lists, definitions, uses of definitions, lists.as-toplevel alone, inside others and through names).
//
//verif:weight=3
func Check_Order() {
	s := &stream{}
	n := 1 + nd.Choice(nd.Size(3, 4))
	marked := (n < 3 || nd.Thorough()) && nd.Bool()
	if marked {
		s.text = "---\n"
	}
	for ; n > 0; n-- {
		s.simple(nd.Choice(nSimple))
	}
	if marked && nd.Bool() {
		s.text += "...\n"
	}
	s.verdict()
}

// Check_Include runs streams of up to 3 documents one of which includes files of up to 2 documents in 11 ways.
//
//verif:weight=3
func Check_Include() {
	s := &stream{}
	if nd.Bool() {
		if nd.Thorough() {
			s.simple(nd.Choice(nSimple))
		} else {
			s.simple([]int{0, 1, 4, 6, 12}[nd.Choice(5)])
		}
	}
	s.included(nd.Choice(nIncluded))
	if nd.Bool() {
		s.simple([]int{1, 5}[nd.Choice(2)])
	}
	s.verdict()
}

// Check_Rendered does the same with the printed text, which must have one YAML document for each contribution. Functions and
// types are not printed.
//
//verif:weight=3
func Check_Rendered() {
	n := 1 + nd.Choice(nd.Size(2, 3))
	s := &stream{printed: n > 1}
	for ; n > 0; n-- {
		switch k := nd.Choice(nSimple + 4); {
		case k < nSimple:
			s.simple(k)
		case k == nSimple:
			s.included([]int{0, 1, 6}[nd.Choice(3)])
		case k == nSimple+1:
			s.doc("!yisp &fn [lambda, [p], *p ]")
		case k == nSimple+2:
			s.doc("!yisp &t [schema, {type: string}]")
		default:
			s.doc("k: !yisp [lambda, [p], *p ]\nl: [1, !yisp [schema, {type: string}]]", kit.Map("l", kit.List(kit.Int(1))))
		}
	}
	p := s.file("main.yisp")
	text, err := engine.NewEngine(engine.Options{}).EvaluateFileToYaml(nd.Dir() + "/" + p)
	nd.Assert(err == nil, "a stream of documents cannot be printed")
	if len(s.want) == 0 {
		nd.Assert(strings.TrimSpace(text) == "", "something is printed for nothing")
		return
	}
	r, err := kit.Call("yaml.unmarshal", kit.Str(text))
	nd.Assert(err == nil, "the printed documents cannot be read")
	got, ok := kit.Items(r)
	nd.Assert(ok && len(got) == len(s.want), "wrong number of documents printed")
	for i := range got {
		nd.Assert(kit.Same(got[i], s.want[i]), "a printed document is wrong or out of place")
	}
}

// Check_Bindings: a name has, in each document, the value of the latest definition before it, also in a function that was
// defined earlier, for symbolic integers, and for values of all kinds of one level. A definition in a later document is not visible.
func Check_Bindings() {
	a, b := nd.Int(), nd.Int()
	switch nd.Choice(6) {
	case 5:
		// whatever kinds the old and the new value have, written in the document or below it
		old, new := kit.Any(0), kit.Any(0)
		docs, err := kit.Run("- &x [0]\n---\n- !yisp &x [progn, *p ]\n- *x \n---\n"+[]string{"- !yisp &x [progn, *q ]\n", "- k: !yisp &x [progn, *q ]\n", "!yisp &x [progn, *q ]\n---\n- 1\n"}[nd.Choice(3)]+"---\n- *x \n", "p", old, "q", new)
		nd.Assert(err == nil && len(docs) >= 3, "documents are missing")
		items, _ := kit.Items(docs[1])
		nd.Assert(len(items) == 2 && kit.Same(items[1], old), "a definition does not count")
		nd.Assert(kit.Same(docs[len(docs)-1], kit.List(new)), "the new definition does not count")
	case 0:
		docs, err := kit.Run("!yisp &x [+, *a , 0]\n---\n*x\n---\n!yisp &x [+, *b , 0]\n---\n[*x , *x ]\n", "a", kit.Int(a), "b", kit.Int(b))
		nd.Assert(err == nil && len(docs) == 4, "documents are missing")
		nd.Assert(kit.Same(docs[1], kit.Int(a)), "the definition of the document before is not visible")
		nd.Assert(kit.Same(docs[3], kit.List(kit.Int(b), kit.Int(b))), "the new definition does not count")
	case 1:
		_, err := kit.Run("[*x ]\n---\n!yisp &x [+, *a , 0]\n", "a", kit.Int(a))
		nd.Assert(err != nil, "a later definition is visible")
	case 2:
		docs, err := kit.Run("v: &x 1\nw:\n  z: !yisp &y [+, *a , *x ]\n---\n[*x , *y ]\n", "a", kit.Int(a))
		nd.Assert(err == nil && len(docs) == 2 && kit.Same(docs[1], kit.List(kit.Int(1), kit.Int(a+1))), "a nested definition is not visible in the next document")
	case 3:
		docs, err := kit.Run("!yisp &f [lambda, [p], [+, *p , *a ]]\n---\nk: !yisp [*f , *b ]\n---\n!yisp [*f , 1]\n", "a", kit.Int(a), "b", kit.Int(b))
		nd.Assert(err == nil && len(docs) == 3, "documents are missing")
		nd.Assert(kit.Same(docs[1], kit.Map("k", kit.Int(a+b))) && kit.Same(docs[2], kit.Int(a+1)), "a function of an earlier document is not usable")
	default:
		// the order of evaluation inside a document is that of the text
		docs, err := kit.Run("- &x *a \n- *x \n- !yisp &x [+, *x , 1]\n- *x \n", "a", kit.Int(a))
		if err != nil {
			nd.Assert(true, "")
			return
		}
		nd.Assert(len(docs) == 1 && kit.Same(docs[0], kit.List(kit.Int(a), kit.Int(a), kit.Int(a+1), kit.Int(a+1))), "items are evaluated out of order")
	}
}

// Check_Failure: if any document fails (a symbolic condition decides which) the whole evaluation fails and nothing of it is returned.
func Check_Failure() {
	n := 1 + nd.Choice(nd.Size(3, 4))
	at := nd.Choice(n)
	text := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			text += "---\n"
		}
		switch {
		case i == at:
			text += []string{"!yisp [+, *a , \"x\"]\n", "[*nope ]\n", "!yisp [/, *a , 0]\n", "k: !yisp [lists.at, [], *a ]\n", "[1\n", "!yisp [include, nope.yisp]\n"}[nd.Choice(6)]
		default:
			text += []string{"1\n", "null\n", "k: *a \n"}[nd.Choice(3)]
		}
	}
	r, err := engine.NewEngine(engine.Options{}).EvaluateReaderToYaml(strings.NewReader(strings.ReplaceAll(text, "*a ", "5")), nd.Dir()+"/main.yisp")
	nd.Assert(err != nil && r == "", "a failing document goes unnoticed")
	docs, err := kit.Run(text, "a", kit.Int(nd.Int()))
	nd.Assert(err != nil && docs == nil, "a failing document goes unnoticed")
}

// Check_Long: streams of 20 documents of the 13 forms in turn, of which the 3rd, the 11th or the 20th has any form; and a file that includes 12 files.
func Check_Long() {
	s := &stream{}
	at := []int{2, 10, 19}[nd.Choice(3)]
	files := nd.Choice(2) == 1
	for i := 0; i < 20; i++ {
		k := i % nSimple
		if i == at {
			k = nd.Choice(nSimple)
		}
		switch {
		case files && i < 12:
			f := &stream{}
			f.fixed([]int{1, 2, 3, 6}[i%4], i)
			f.fixed(1, i)
			name := "f" + string(rune('a'+i)) + ".yisp"
			f.file(name)
			s.doc("!yisp [include, "+name+"]", f.want...)
		case i == at:
			s.simple(k)
		default:
			s.fixed([]int{1, 2, 3, 6, 7, 8, 9}[i%7], i)
		}
	}
	s.verdict()
}

// fixed adds a document with a fixed number.
func (s *stream) fixed(k, i int) {
	t, v := "1"+string(rune('0'+i%10)), kit.Int(10+i%10)
	switch k {
	case 1:
		s.doc(t, v)
	case 2:
		s.doc("k: "+t+"\nn: null", kit.Map("k", v, "n", kit.Null()))
	case 3:
		s.doc("- "+t+"\n- [1]", kit.List(v, kit.List(kit.Int(1))))
	case 6:
		s.doc("!yisp [lists.as-toplevel, "+t+", !quote [[2], "+t+"], !quote []]", v, kit.List(kit.Int(2)), v)
	case 7:
		s.doc("null")
	case 8:
		s.doc("!yisp [lists.as-toplevel]")
	default:
		s.doc("- !yisp [lists.as-toplevel, "+t+"]", kit.List(kit.List(v)))
	}
}
