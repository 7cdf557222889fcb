// Package c26: the files a program names are found from the file that names them, and evaluated on their own.
// The oracle is the layout of files the harness writes: every file has its own digit.
package c26

import (
	"sort"
	"strconv"
	"strings"

	"github.com/totegamma/yisp/core"
	fakehttp "github.com/totegamma/yisp/internal/zzverif/fakehttp"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

// run evaluates a file and returns its documents.
func run(path string) ([]*node, error) {
	r, err := core.CallEngineByPath(path, "", core.NewEnv(), kit.Engine())
	if err != nil {
		return nil, err
	}
	docs, ok := kit.Items(r)
	nd.Assert(ok, "the result of a run is not a list of documents")
	return docs, nil
}

// mark is a symbolic number that is written into a file, and the node it denotes.
func mark() (string, *node) {
	d := nd.Byte()
	nd.Assume(d >= '0' && d <= '9')
	return "1" + string([]byte{d}), kit.Int(10 + int(d-'0'))
}

// a use is a way to refer to a file from a program: the text of one document, and the value it gives
// for a file with the text `v: <mark>`.
type use struct {
	ext  string
	text func(path string) string
	file func(mark string) string
	want func(path, name, mark string, v *node) *node
}

func list(v *node) *node      { return kit.List(v) }
func body(mark string) string { return "v: " + mark + "\n" }
func glob(path, name, text string) *node {
	return kit.List(kit.Map("path", kit.Str(path), "name", kit.Str(name), "body", kit.Str(text)))
}

var uses = []use{
	{".yaml", func(p string) string { return "k: !yisp [include, " + p + "]" }, body,
		func(_, _, _ string, v *node) *node { return kit.Map("k", list(kit.Map("v", v))) }},
	{".yisp", func(p string) string { return "k: !yisp [include, " + p + "]" },
		func(m string) string { return "v: !yisp [+, " + m + "]\n" },
		func(_, _, _ string, v *node) *node { return kit.Map("k", list(kit.Map("v", v))) }},
	{".yisp", func(p string) string { return "!yisp [import, [m, " + p + "]]\n---\nk: *m.x " },
		func(m string) string { return "!yisp &x [+, " + m + "]\n" },
		func(_, _, _ string, v *node) *node { return kit.Map("k", v) }},
	{".txt", func(p string) string { return "k: !yisp [files.read, " + p + "]" }, body,
		func(_, _, m string, _ *node) *node { return kit.Map("k", kit.Str(body(m))) }},
	{".txt", func(p string) string { return "k: !yisp [files.glob, " + p + "]" }, body,
		func(p, n, m string, _ *node) *node { return kit.Map("k", glob(p, n, body(m))) }},
	{".json", func(p string) string { return "k: !yisp [include, " + p + "]" },
		func(m string) string { return `{"v": ` + m + "}\n" },
		func(_, _, _ string, v *node) *node { return kit.Map("k", list(kit.Map("v", v))) }},
	{".txt", func(p string) string { return "k: !yisp [include, " + p + "]" }, body,
		func(_, _, m string, _ *node) *node { return kit.Map("k", list(kit.Str(body(m)))) }},
	// a directory stands for its index.yisp
	{"/index.yisp", func(p string) string { return "k: !yisp [include, " + p + "]" }, body,
		func(_, _, _ string, v *node) *node { return kit.Map("k", list(kit.Map("v", v))) }},
}

// last is what the program prints that uses the file.
func last(docs []*node) *node {
	nd.Assert(len(docs) > 0, "nothing is printed")
	return docs[len(docs)-1]
}

// Check_Layout puts a program and the file it uses in any of 4 directories of depth 0 to 2, with a file of the same name and another
// mark in all the other directories. The program refers to the file by its relative path (plain, with ./ in front, in
// a detour through another directory, or as an absolute path), as text or computed with strings.concat, in 8 ways (include of .yaml, .yisp, .json, .txt and of a
// directory, import, files.read, files.glob), is itself run, included or imported by a program in another directory, and the working directory is
// any of them (quick: two for each of these). The value must be that of the file meant.
//
//verif:weight=3
func Check_Layout() {
	dirs := []string{"", "a/", "a/b/", "c/"}
	u := uses[nd.Choice(len(uses))]
	from, to := nd.Choice(len(dirs)), nd.Choice(len(dirs))
	target := ""
	var v *node
	for i, d := range dirs {
		m, n := mark()
		nd.WriteFile(d+"t"+u.ext, u.file(m))
		if i == to {
			target, v = m, n
		}
	}
	rel := relative(dirs[from], dirs[to])
	shape := nd.Choice(4)
	shown := rel + "t" + strings.TrimSuffix(u.ext, "/index.yisp")
	if u.ext != "/index.yisp" {
		shown = rel + "t" + u.ext
	} else {
		shown = rel + "t"
	}
	path := shown
	switch shape {
	case 1:
		path = "./" + path
	case 2:
		// through a directory and back
		path = strings.Repeat("../", strings.Count(dirs[from], "/")) + "c/../" + dirs[to] + path[len(rel):]
		shown = strings.Repeat("../", strings.Count(dirs[from], "/")) + dirs[to] + shown[len(rel):]
	case 3:
		if strings.Contains(u.text(""), "files.read") {
			nd.Assert(true, "")
			return
		}
		path = nd.Dir() + "/" + dirs[to] + path[len(rel):]
		shown = path
	}
	text := path
	if nd.Bool() && !strings.Contains(u.text(""), "import") {
		text = "[strings.concat, \"" + path[:1] + "\", " + path[1:] + "]"
	}
	p := nd.WriteFile(dirs[from]+"prog.yisp", u.text(text)+"\n")
	want := u.want(shown, "t"+u.ext, target, v)
	at := nd.Choice(nd.Size(2, 4)) * nd.Size(3, 1)
	prog := relative(dirs[at], dirs[from]) + "prog.yisp"
	switch nd.Choice(3) {
	case 1:
		p = nd.WriteFile(dirs[at]+"main.yisp", "!yisp [include, "+prog+"]\n")
	case 2:
		// the definitions of a module are made from the files of the module
		p = nd.WriteFile(dirs[at]+"main.yisp", "!yisp [import, [lib, "+prog+"]]\n---\n!yisp [*lib.f , 1]\n")
		def := u.text(text)
		if strings.Contains(def, "import") {
			nd.Assert(true, "")
			return
		}
		nd.WriteFile(dirs[from]+"prog.yisp", "!yisp &f [lambda, [q], {"+strings.Replace(def, "!yisp ", "", 1)+"}]\n")
	}
	nd.Chdir(nd.Dir() + "/" + dirs[nd.Choice(nd.Size(2, 4))*nd.Size(2, 1)])
	docs, err := run(p)
	nd.Assert(err == nil, "a file that is there cannot be used")
	nd.Assert(kit.Same(last(docs), want), "another file is used")
}

// relative is the path from one directory to another.
func relative(from, to string) string {
	if strings.HasPrefix(to, from) {
		return to[len(from):]
	}
	return strings.Repeat("../", strings.Count(from, "/")) + to
}

// Check_Names gives the directory and the file a symbolic byte each in their names (any ASCII byte except NUL and /; for the file also
// no meta character of glob patterns: * ? [ ] { } \), and uses the file in the 8 ways. The program is included by another one
// outside the directory.
//
//verif:weight=2
func Check_Names() {
	u := uses[nd.Choice(len(uses))]
	b := nd.Byte()
	nd.Assume(b > 0 && b < 0x80 && b != '/')
	nd.Assume(strings.IndexByte("*?[]{}\\", b) < 0)
	dir, name := "d", "f"
	switch nd.Choice(4) {
	case 0:
		dir += string([]byte{b})
	case 1:
		name += string([]byte{b})
	case 2:
		dir = string([]byte{b}) + dir
	default:
		name = string([]byte{b}) + name
	}
	m, v := mark()
	nd.WriteFile(dir+"/"+name+u.ext, u.file(m))
	short := name
	if u.ext != "/index.yisp" {
		short += u.ext
	}
	text := u.text(quoted(short))
	nd.WriteFile(dir+"/prog.yisp", text+"\n")
	p := nd.WriteFile("main.yisp", "!yisp [include, "+quoted(dir+"/prog.yisp")+"]\n")
	docs, err := run(p)
	nd.Assert(err == nil, "a file cannot be used because of a name")
	nd.Assert(kit.Same(last(docs), u.want(short, name+u.ext, m, v)), "another file is used")
}

// quoted writes a path in a program.
func quoted(s string) string {
	const hex = "0123456789abcdef"
	r := "\""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 0x20 || c == '"' || c == '\\' || c == 0x7f {
			r += "\\x" + string([]byte{hex[c>>4], hex[c&15]})
		} else {
			r += string([]byte{c})
		}
	}
	return r + "\""
}

// entry is the value of the only key.
func entry(m *node) *node {
	kv, ok := kit.Entries(m)
	nd.Assert(ok && len(kv) == 1, "the program does not print its map")
	return kv[0].V
}

// Check_Glob writes up to 2 files (4 in the thorough run) whose names are a symbolic letter of a to d and one of 2 extensions, in the directory of the
// program, a directory below it, or one beside it, and collects them with patterns of 9 forms in include or files.glob. Exactly the matching files count, each
// once, sorted by name, and the program itself never, under any of 3 names.
//
//verif:weight=3
func Check_Glob() {
	type file struct {
		dir, name, ext string
		m              string
		v              *node
	}
	self := []string{"main.yisp", "index.yisp", "b.yisp"}[nd.Choice(3)]
	var files []file
	for n := nd.Choice(nd.Size(3, 5)); n > 0; n-- {
		f := file{dir: []string{"w/", "w/s/", "o/"}[nd.Choice(3)], ext: []string{".yaml", ".yisp"}[nd.Choice(2)]}
		b := nd.Byte()
		nd.Assume(b >= 'a' && b <= 'd')
		f.name = string([]byte{b})
		nd.Assume(f.dir != "w/" || f.name+f.ext != self)
		for _, o := range files {
			nd.Assume(o.dir != f.dir || o.name != f.name || o.ext != f.ext)
		}
		f.m, f.v = mark()
		nd.WriteFile(f.dir+f.name+f.ext, body(f.m))
		files = append(files, f)
	}
	nd.Mkdir("w/s")
	nd.Mkdir("o")
	pat := nd.Choice(9)
	var match func(f file) (string, bool)
	below := func(dir string, pick func(f file) bool) func(f file) (string, bool) {
		return func(f file) (string, bool) {
			if f.dir != dir || !pick(f) {
				return "", false
			}
			return strings.TrimPrefix(f.dir, "w/") + f.name + f.ext, true
		}
	}
	any := func(file) bool { return true }
	yaml := func(f file) bool { return f.ext == ".yaml" }
	text := ""
	switch pat {
	case 0:
		text, match = "*.yaml", below("w/", yaml)
	case 1:
		text, match = "./*.y*", below("w/", any)
	case 2:
		text, match = "s/*.yaml", below("w/s/", yaml)
	case 3:
		text, match = "s/?.yisp", below("w/s/", func(f file) bool { return !yaml(f) })
	case 4:
		text, match = "[ab].yaml", below("w/", func(f file) bool { return yaml(f) && f.name <= "b" })
	case 5:
		text, match = "../o/*", func(f file) (string, bool) { return "../o/" + f.name + f.ext, f.dir == "o/" }
	case 6:
		text, match = "{a,c}.y*", below("w/", func(f file) bool { return f.name == "a" || f.name == "c" })
	case 7:
		text = nd.Dir() + "/w/*.yisp"
		match = func(f file) (string, bool) { return nd.Dir() + "/w/" + f.name + f.ext, f.dir == "w/" && !yaml(f) }
	default:
		text = "**/*.yaml"
		match = func(f file) (string, bool) {
			return strings.TrimPrefix(f.dir, "w/") + f.name + f.ext, strings.HasPrefix(f.dir, "w") && yaml(f)
		}
	}
	type hit struct {
		key string
		f   file
	}
	var hits []hit
	for _, f := range files {
		if p, ok := match(f); ok {
			hits = append(hits, hit{p, f})
		}
	}
	sort.Slice(hits, func(i, j int) bool { return hits[i].key < hits[j].key })
	include := nd.Bool()
	op := "files.glob"
	if include {
		op = "include"
	}
	p := nd.WriteFile("w/"+self, "k: !yisp ["+op+", \""+text+"\"]\n")
	selfHit := pat == 1 || pat == 7
	docs, err := run(p)
	if include && len(hits) == 0 && !selfHit {
		nd.Assert(err != nil, "a pattern that matches no file is included")
		return
	}
	nd.Assert(err == nil, "the files that match a pattern cannot be used")
	var want []*node
	for _, h := range hits {
		if include {
			want = append(want, kit.Map("v", h.f.v))
		} else {
			want = append(want, kit.Map("path", kit.Str(h.key), "name", kit.Str(h.f.name+h.f.ext), "body", kit.Str(body(h.f.m))))
		}
	}
	got, ok := kit.Items(entry(last(docs)))
	nd.Assert(ok && len(got) == len(want), "a pattern yields the wrong number of files")
	for i := range got {
		nd.Assert(kit.Same(got[i], want[i]), "a pattern yields a wrong file, or the files in a wrong order")
	}
}

// Check_Self: a program that includes * or ** or . does not include itself, whether it is named by itself or as the index of its directory.
func Check_Self() {
	m, v := mark()
	pat := []string{"*", "**", "./*", "**/*.yisp", "../w/*", "../*", "w*/*.yisp"}[nd.Choice(7)]
	self := []string{"index.yisp", "main.yisp"}[nd.Choice(2)]
	nd.WriteFile("z/index.yisp", body(m))
	nd.WriteFile("w/x.yaml", body(m))
	p := nd.WriteFile("w/"+self, "k: !yisp [include, \""+pat+"\"]\n")
	docs, err := run(p)
	if self == "main.yisp" && (pat == "../*" || pat == "**") || pat == "w*/*.yisp" {
		// a directory without an index, or nothing
		nd.Assert(err != nil, "a file that is not there is included")
		return
	}
	nd.Assert(err == nil, "a program that matches its own pattern fails")
	want := []*node{kit.Map("v", v)}
	if pat == "**/*.yisp" {
		want = nil
	}
	nd.Assert(kit.Same(last(docs), kit.Map("k", kit.List(want...))), "a program includes itself or not the others")
}

// Check_Missing refers to a file that is not there in the 8 ways, from a program in a directory while a file of that name lies elsewhere
// (in the working directory, beside the including program, above), alone or behind a file that is there.
func Check_Missing() {
	u := uses[nd.Choice(len(uses))]
	if strings.Contains(u.text(""), "files.glob") {
		nd.Assert(true, "")
		return
	}
	m, _ := mark()
	name := "t" + u.ext
	ref := strings.TrimSuffix(name, "/index.yisp")
	where := []string{"", "cwd/", "up/", "d/e/"}[nd.Choice(4)]
	nd.WriteFile(where+name, u.file(m))
	nd.WriteFile("d/there.yaml", body(m))
	nd.Mkdir("cwd")
	text := u.text(ref)
	if nd.Bool() && strings.Contains(text, "include") {
		text = strings.Replace(text, "include, ", "include, there.yaml, ", 1)
	}
	p := nd.WriteFile("d/prog.yisp", text+"\n")
	if nd.Bool() {
		p = nd.WriteFile("up/main.yisp", "!yisp [include, ../d/prog.yisp]\n")
	}
	nd.Chdir(nd.Dir() + "/cwd")
	_, err := run(p)
	nd.Assert(err != nil, "a missing file is taken from elsewhere or ignored")
}

// Check_Isolation: names that are defined around an include or an import are neither visible in the file nor changed by it, and import
// exposes the definitions of the file under its name, with symbolic numbers.
//
//verif:weight=2
func Check_Isolation() {
	a, va := mark()
	b, vb := mark()
	inner := ""
	sees := false
	switch nd.Choice(5) {
	case 0:
		inner = "!yisp &x [+, " + b + "]\n"
	case 1:
		inner = "k: &x " + b + "\n---\nl: *x \n"
	case 2:
		inner, sees = "l: *x \n", true
	case 3:
		inner, sees = "!yisp &x [+, *x , 1]\n", true
	default:
		inner = "l: *x? \n---\n!yisp &x [lambda, [y], " + b + "]\n---\n!yisp &x [*x , 1]\n"
	}
	nd.WriteFile("inner.yisp", inner)
	outer := "!yisp &x [+, " + a + "]\n---\n"
	form := nd.Choice(6)
	switch form {
	case 0:
		outer += "!yisp [include, inner.yisp]\n---\n"
	case 1:
		outer += "!yisp [import, [m, inner.yisp]]\n---\n"
	case 2:
		outer += "k: !yisp [[lambda, [x], [include, inner.yisp]], 5]\n---\n"
	case 3:
		outer += "k: !yisp [lists.map, !quote [1, 2], [lambda, [x], [include, inner.yisp]]]\n---\n"
	case 4:
		nd.WriteFile("mid.yisp", "!yisp &x [+, 7]\n---\n!yisp [include, inner.yisp]\n---\nw: *x \n")
		outer += "!yisp [include, mid.yisp]\n---\n"
	default:
		nd.WriteFile("mid.yisp", "!yisp &y [+, 7]\n---\n!yisp [import, [n, inner.yisp]]\n")
		outer += "!yisp [import, [m, mid.yisp]]\n---\n"
	}
	probe := nd.Choice(4)
	switch probe {
	case 0:
		outer += "r: *x \n"
	case 1:
		outer += "r: *m.x \n"
	case 2:
		outer += "r: *m.n.x \n"
	default:
		outer += "r: *y \n"
	}
	docs, err := run(nd.WriteFile("main.yisp", outer))
	if sees {
		nd.Assert(err != nil, "an included file sees the names of the file that includes it")
		return
	}
	var want *node
	switch {
	case probe == 0:
		want = va
	case probe == 1 && form == 1, probe == 2 && form == 5:
		want = vb
	}
	if want == nil {
		nd.Assert(err != nil, "a name of an included file is visible outside")
		return
	}
	nd.Assert(err == nil, "a name is not visible")
	nd.Assert(kit.Same(last(docs), kit.Map("r", want)), "a name has been changed by another file")
}

// Check_Modules: two modules with the same names and the same local module name do not interfere, their functions keep seeing their own
// definitions, a second import under the same name replaces the first, and up to 5 modules can be imported at once.
func Check_Modules() {
	a, va := mark()
	b, vb := mark()
	nd.WriteFile("a.yisp", "!yisp [import, [d, da.yisp]]\n---\n!yisp &x [+, "+a+"]\n---\n!yisp &f [lambda, [q], *x ]\n---\n!yisp &g [lambda, [q], *d.x ]\n")
	nd.WriteFile("b.yisp", "!yisp [import, [d, db.yisp]]\n---\n!yisp &x [+, "+b+"]\n---\n!yisp &f [lambda, [q], *x ]\n---\n!yisp &g [lambda, [q], *d.x ]\n")
	nd.WriteFile("da.yisp", "!yisp &x [+, "+b+", 1]\n")
	nd.WriteFile("db.yisp", "!yisp &x [+, "+a+", 2]\n")
	switch nd.Choice(4) {
	case 3:
		n := 1 + nd.Choice(5)
		text, use := "!yisp [import", ""
		var want []*node
		for i := 0; i < n; i++ {
			m := "m" + string(rune('0'+i))
			nd.WriteFile(m+".yisp", "!yisp &x [+, "+a+", "+string(rune('0'+i))+"]\n")
			text += ", [" + m + ", " + m + ".yisp]"
			use += "- *" + m + ".x \n"
			want = append(want, kit.Int(va.Value.(int)+i))
		}
		docs, err := run(nd.WriteFile("main.yisp", text+"]\n---\n"+use))
		nd.Assert(err == nil, "several modules cannot be imported at once")
		nd.Assert(kit.Same(last(docs), kit.List(want...)), "modules that are imported together interfere")
	case 0:
		docs, err := run(nd.WriteFile("main.yisp", "!yisp [import, [p, a.yisp], [q, b.yisp]]\n---\n- *p.x \n- *q.x \n- !yisp [*p.f , 0]\n- !yisp [*q.f , 0]\n- !yisp [*p.g , 0]\n- !yisp [*q.g , 0]\n- *p.d.x \n"))
		nd.Assert(err == nil, "two modules cannot be used together")
		bump := func(v *node, n int) *node { return kit.Int(v.Value.(int) + n) }
		nd.Assert(kit.Same(last(docs), kit.List(va, vb, va, vb, bump(vb, 1), bump(va, 2), bump(vb, 1))), "two modules interfere")
	case 1:
		docs, err := run(nd.WriteFile("main.yisp", "!yisp [import, [p, a.yisp]]\n---\n!yisp &old [if, true, *p.f , 1]\n---\n!yisp [import, [p, b.yisp]]\n---\n- *p.x \n- !yisp [*p.f , 0]\n- !yisp [*old , 0]\n"))
		nd.Assert(err == nil, "a module cannot be imported under the name of another")
		nd.Assert(kit.Same(last(docs), kit.List(vb, vb, va)), "a later import does not replace an earlier one, or changes its functions")
	default:
		_, err := run(nd.WriteFile("main.yisp", "!yisp [import, [p, a.yisp]]\n---\n- *p.zz \n"))
		nd.Assert(err != nil, "a module exposes a name it does not define")
	}
}

// Check_Stdin: a program read from standard input finds its files from the working directory.
func Check_Stdin() {
	u := uses[nd.Choice(len(uses))]
	m, v := mark()
	m2, _ := mark()
	name := "t" + u.ext
	nd.WriteFile("w/"+name, u.file(m))
	nd.WriteFile(name, u.file(m2))
	ref := strings.TrimSuffix(name, "/index.yisp")
	up := nd.Bool()
	shown := ref
	if up {
		shown = "../w/" + ref
	}
	nd.Stdin(u.text(shown)+"\n", false)
	nd.Chdir(nd.Dir() + "/w")
	docs, err := run("-")
	nd.Assert(err == nil, "a program on standard input cannot use a file")
	nd.Assert(kit.Same(last(docs), u.want(shown, name, m, v)), "another file is used")
}

// Check_Remote: a program fetched from a server finds its files there, relative to its own address; a page that is not there is an error.
// Status codes are symbolic.
func Check_Remote() {
	fakehttp.Reset()
	m, v := mark()
	status := nd.IntRange(100, 599)
	path, target := "t.yaml", "http://h/a/b/t.yaml"
	switch nd.Choice(5) {
	case 1:
		path, target = "../t.yaml", "http://h/a/t.yaml"
	case 2:
		path, target = "/t.yaml", "http://h/t.yaml"
	case 3:
		path, target = "http://g/t.yaml", "http://g/t.yaml"
	case 4:
		path, target = "c/t.yaml", "http://h/a/b/c/t.yaml"
	}
	fakehttp.Pages["http://h/a/b/p.yisp"] = fakehttp.Page{Status: 200, Body: "!yisp [include, \"" + path + "\"]\n"}
	fakehttp.Pages[target] = fakehttp.Page{Status: status, Body: body(m)}
	nd.WriteFile("t.yaml", "v: 1")
	p := "http://h/a/b/p.yisp"
	if nd.Bool() {
		p = nd.WriteFile("main.yisp", "!yisp [include, \"http://h/a/b/p.yisp\"]\n")
	}
	nd.Chdir(nd.Dir())
	docs, err := run(p)
	if status != 200 {
		nd.Assert(err != nil, "a page that cannot be fetched is used")
		return
	}
	nd.Assert(err == nil, "a page cannot be used")
	nd.Assert(len(docs) == 1 && kit.Same(docs[0], kit.Map("v", v)), "another page is used")
}

// Check_Long: a chain of 9 files in nested directories, each of which includes or imports the next one beside or below it under the same relative name, ends at the innermost one with its symbolic
// number; patterns over 14 (thorough 30) files, of which one has a symbolic number, collect all of them in order.
func Check_Long() {
	m, v := mark()
	if nd.Bool() {
		n := 9
		dir := ""
		kind := nd.Choice(3)
		for i := 0; i < n; i++ {
			next := "d/f.yisp"
			if i%2 == 1 {
				next = "./e/../d/f.yisp"
				nd.Mkdir(dir + "e")
			}
			switch kind {
			case 0:
				nd.WriteFile(dir+"f.yisp", "!yisp [include, "+next+"]\n")
			case 1:
				nd.WriteFile(dir+"f.yisp", "!yisp [import, [m, "+next+"]]\n---\n!yisp &x [if, true, *m.x , 0]\n---\nk: *x \n")
			case 2:
				nd.WriteFile(dir+"f.yisp", "!yisp &r [include, "+next+"]\n---\n- !yisp [lists.car, *r ]\n")
			}
			dir += "d/"
		}
		nd.WriteFile(dir+"f.yisp", "!yisp &x [+, "+m+"]\n---\nk: *x \n")
		nd.WriteFile("d.yisp", "k: wrong\n")
		docs, err := run(nd.Dir() + "/f.yisp")
		nd.Assert(err == nil, "a chain of files fails")
		nd.Reach("chain")
		d := last(docs)
		for {
			if l, ok := kit.Items(d); ok && len(l) > 0 {
				d = l[len(l)-1]
				continue
			}
			break
		}
		if kind == 2 {
			nd.Assert(kit.Same(d, kit.Map("k", v)) || kit.Same(d, v), "a chain of files ends elsewhere")
			return
		}
		nd.Assert(kit.Same(d, kit.Map("k", v)), "a chain of files ends elsewhere")
		return
	}
	n := nd.Size(14, 30)
	at := []int{0, 6, n - 1}[nd.Choice(3)]
	var texts, bodies []*node
	for i := 0; i < n; i++ {
		j := i * 7 % n // written in another order
		if n%7 == 0 {
			j = i * 5 % n
		}
		s := strconv.Itoa(j)
		if j == at {
			s = m
		}
		nd.WriteFile("g/f"+string(rune('a'+j/10))+strconv.Itoa(j%10)+".yaml", body(s))
	}
	for i := 0; i < n; i++ {
		s, w := strconv.Itoa(i), kit.Int(i)
		if i == at {
			s, w = m, v
		}
		name := "f" + string(rune('a'+i/10)) + strconv.Itoa(i%10) + ".yaml"
		texts = append(texts, kit.Map("path", kit.Str("g/"+name), "name", kit.Str(name), "body", kit.Str(body(s))))
		bodies = append(bodies, kit.Map("v", w))
	}
	if nd.Bool() {
		docs, err := run(nd.WriteFile("main.yisp", "k: !yisp [include, \"g/*.yaml\"]\n"))
		nd.Assert(err == nil, "a pattern over many files fails")
		nd.Assert(kit.Same(entry(last(docs)), kit.List(bodies...)), "a pattern does not include its files in order")
		return
	}
	docs, err := run(nd.WriteFile("main.yisp", "k: !yisp [files.glob, \"g/*.yaml\"]\n"))
	nd.Assert(err == nil, "a pattern over many files fails")
	nd.Assert(kit.Same(entry(last(docs)), kit.List(texts...)), "a pattern does not collect its files in order")
}
