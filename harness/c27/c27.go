// Package c27: manifests written in a program get the type of their group, version and kind, and output that violates a type is refused.
// The oracle is the table of types the harness writes into the cache, each of which asks for a field of its own.
package c27

import (
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	fakehttp "github.com/totegamma/yisp/internal/zzverif/fakehttp"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

// schema asks for the integer field f, which must not be above 4.
func schema(f string) string {
	return `{"type":"object","required":["` + f + `"],"properties":{"` + f + `":{"type":"integer","maximum":4}},"additionalProperties":true}`
}

// The cache: group, version and kind of each type and the field it asks for.
var known = []struct{ group, version, kind, field string }{
	{"", "v1", "Foo", "a"}, {"", "v2", "Foo", "b"}, {"g", "v1", "Foo", "c"}, {"", "v1", "Fop", "d"}, {"v", "1", "Foo", "e"},
}

func cache() {
	nd.Setenv("HOME", nd.Dir())
	for _, k := range known {
		nd.WriteFile(".cache/yisp/gvk/"+k.group+"_"+k.version+"_"+k.kind+".txt", "t-"+k.field)
		nd.WriteFile(".cache/yisp/schemas/t-"+k.field+".json", schema(k.field))
	}
}

// run evaluates a program for printing, through one of the three ways to do that.
func run(text string, way int, opts engine.Options) (string, error) {
	e := engine.NewEngine(opts)
	switch way {
	case 0:
		return e.EvaluateFileToYaml(nd.WriteFile("main.yisp", text))
	case 1:
		_, err := e.EvaluateFileToAny(nd.WriteFile("main.yisp", text))
		return "", err
	}
	return e.EvaluateReaderToYaml(strings.NewReader(text), "main.yisp")
}

// Check_Resolve: a map with apiVersion and kind is accepted if the cache has the type and the map conforms, refused otherwise, and always accepted if untyped
// manifests are allowed; with checking disabled only the type must exist. apiVersion is a symbolic text of up to 4 bytes over g, v, 1, 2 and /, kind is
// Foo with a symbolic last byte or a prefix; the field given is a symbolic letter from a to f. The fields are given in any order, as text or computed, in the map
// itself or through a merge key before or behind other values.
//
//verif:weight=3
func Check_Resolve() {
	cache()
	api := nd.StringOf("gv12/", 1, nd.Size(4, 5))
	kind := []string{"Fo", "fo", "F"}[nd.Choice(3)]
	b := nd.Byte()
	nd.Assume(b > 0x20 && b < 0x7f && b != '/' && b != '_' && b != '"' && b != '\\')
	kind += string([]byte{b})
	f := nd.Byte()
	nd.Assume(f >= 'a' && f <= 'f')
	opts := engine.Options{AllowUntypedManifest: nd.Bool(), DisableTypeCheck: nd.Bool()}
	a, k, v := `apiVersion: "`+api+`"`, `kind: "`+kind+`"`, string([]byte{f})+": 1"
	text := ""
	form, way := nd.Choice(9), 0
	if form == 0 || nd.Thorough() {
		way = nd.Choice(3)
	}
	switch form {
	case 0:
		text = a + "\n" + k + "\n" + v + "\n"
	case 1:
		text = v + "\n" + k + "\n" + a + "\n"
	case 2:
		text = "!yisp\n" + v + "\n" + a + "\nkind: [strings.concat, \"" + kind[:1] + "\", \"" + kind[1:] + "\"]\n"
	case 3:
		text = "!yisp &base [progn, !quote {" + a + "}]\n---\n<<: *base \n" + k + "\n" + v + "\n"
	case 4:
		text = "!yisp &base [maps.from-entries, !quote [[apiVersion, \"" + api + "\"], [kind, \"" + kind + "\"]]]\n---\n" + v + "\n<<: *base \n"
	case 5:
		// the later value counts
		text = "!yisp &base [maps.from-entries, !quote [[apiVersion, \"" + api + "\"], [kind, \"" + kind + "\"]]]\n---\napiVersion: v9\nkind: None\n" + v + "\n<<: *base \n"
	case 6:
		text = "!yisp &base [maps.from-entries, !quote [[apiVersion, v9], [kind, None]]]\n---\n<<: *base \n" + a + "\n" + k + "\n" + v + "\n"
	case 7:
		text = "!yisp &base [progn, !quote [{" + a + "}, null, {" + k + "}]]\n---\n" + v + "\n<<: *base \n"
	default:
		text = "!yisp &mk [lambda, [x, y], {apiVersion: *x , kind: *y , " + v + "}]\n---\n!yisp [*mk , \"" + api + "\", \"" + kind + "\"]\n"
	}
	_, err := run(text, way, opts)
	field := ""
	group, version := "", ""
	switch s := strings.Split(api, "/"); len(s) {
	case 1:
		version = s[0]
	case 2:
		group, version = s[0], s[1]
	}
	for _, k := range known {
		if k.group == group && k.version == version && k.kind == kind {
			field = k.field
		}
	}
	switch {
	case opts.AllowUntypedManifest:
		nd.Assert(err == nil, "a manifest is refused though untyped manifests are allowed")
	case field == "":
		nd.Assert(err != nil, "a manifest of an unknown kind is accepted")
	case opts.DisableTypeCheck:
		nd.Assert(err == nil, "a manifest of a known kind is refused though checking is disabled")
	case field == string([]byte{f}):
		nd.Assert(err == nil, "a manifest is refused that conforms to the type of its kind")
	default:
		nd.Assert(err != nil, "a manifest is accepted that does not conform to the type of its kind")
	}
}

// Check_Groups: 7 groups and 3 versions as they are in use, each with its own type, which asks for a field of its own: a
// manifest with an arbitrary one-letter field is accepted exactly by the type of its group and version.
func Check_Groups() {
	groups := []string{"", "apps", "batch", "v1", "networking.k8s.io", "rbac.authorization.k8s.io", "a-b.example.com"}
	versions := []string{"v1", "v1beta1", "v2"}
	nd.Setenv("HOME", nd.Dir())
	g, v := nd.Choice(len(groups)), nd.Choice(len(versions))
	for i := range groups {
		for j := range versions {
			f := string([]byte{byte('a' + i*len(versions) + j)})
			nd.WriteFile(".cache/yisp/gvk/"+groups[i]+"_"+versions[j]+"_Deployment.txt", "t-"+f)
			nd.WriteFile(".cache/yisp/schemas/t-"+f+".json", schema(f))
		}
	}
	f := nd.Byte()
	nd.Assume(f >= 'a' && f <= 'z')
	api := versions[v]
	if groups[g] != "" {
		api = groups[g] + "/" + api
	}
	_, err := run("apiVersion: "+api+"\nkind: Deployment\n\""+string([]byte{f})+"\": 1\n", nd.Choice(3), engine.Options{})
	nd.Assert((err == nil) == (f == byte('a'+g*len(versions)+v)), "a manifest is checked by the type of another group or version")
}

// manifest is a manifest in flow style with a symbolic digit for its field, and whether that conforms.
func manifest() (string, bool) {
	d := nd.Byte()
	nd.Assume(d >= '0' && d <= '9')
	return "{apiVersion: v1, kind: Foo, metadata: {name: n}, a: " + string([]byte{d}) + "}", d <= '4'
}

// Check_Depth: a manifest that does not conform is refused wherever it is printed: as a document, in lists and maps up to
// depth 4, in another manifest, in the second document, from functions, operators, included files and modules, patched, merged. One that is only used to
// compute something else does not matter. The field is a symbolic digit, all options and ways to print are tried.
//
//verif:weight=3
func Check_Depth() {
	cache()
	m, ok := manifest()
	m2, ok2 := manifest()
	text := ""
	switch nd.Choice(28) {
	case 0:
		text, ok2 = m, true
	case 1:
		text = "- " + m + "\n- " + m2
	case 2:
		text = "k: " + m + "\nl: " + m2
	case 3:
		text = "k: [1, {l: [" + m + ", {m: " + m2 + "}]}]"
	case 4:
		text = m + "\n---\n" + m2
	case 5:
		// a manifest in a manifest
		text, ok2 = "{apiVersion: v2, kind: Foo, b: 1, items: ["+m+"]}", true
	case 6:
		text = "{apiVersion: v2, kind: Foo, b: 1, items: [{x: " + m + "}], y: " + m2 + "}"
	case 7:
		text = "!yisp &f [lambda, [x], [if, *x , " + m + ", " + m2 + "]]\n---\n- !yisp [*f , true]\n- !yisp [*f , false]"
	case 8:
		text = "!yisp [lists.as-toplevel, " + m + ", " + m2 + "]"
	case 9:
		text = "!yisp [lists.map, !quote [1, 2], [lambda, [x], [if, [==, *x , 1], " + m + ", " + m2 + "]]]"
	case 10:
		nd.WriteFile("o.yisp", m+"\n---\nk: "+m2+"\n")
		text = "!yisp [include, o.yisp]"
	case 11:
		nd.WriteFile("o.yisp", "!yisp &x [progn, "+m+"]\n---\n!yisp &y [lambda, [q], "+m2+"]\n")
		text = "!yisp [import, [o, o.yisp]]\n---\n- *o.x \n- !yisp [*o.y , 1]"
	case 12:
		// the last value of the field counts
		text, ok = "!yisp [maps.merge, "+m+", {a: "+digitOf(m2)+"}]", true
	case 13:
		text, ok2 = "!yisp [maps.merge, "+m+", {zz: "+m2+"}]", ok2
	case 14:
		text, ok = "!yisp [maps.patch, "+m+", !quote [{op: replace, path: /a, value: "+digitOf(m2)+"}]]", true
	case 15:
		text, ok = "!yisp [k8s.patch, !quote ["+m+"], !quote ["+strings.Replace(m2, ", a: ", ", q: 1, a: ", 1)+"]]", true
	case 16:
		text = "!yisp [lists.cons, " + m + ", !quote [" + m2 + "]]"
	case 17:
		text = "!yisp [lists.flatten, !quote [[" + m + "], [" + m2 + "]]]"
	case 18:
		text = "!yisp [lists.filter, !quote [" + m + ", " + m2 + "], [lambda, [x], true]]"
	case 19:
		text = "!yisp [pipeline, " + m + ", [lambda, [x], {k: *x , l: " + m2 + "}]]"
	case 20:
		// a field removed or of another kind
		text, ok, ok2 = "!yisp [maps.patch, "+m+", !quote [{op: remove, path: /a}]]", false, true
	case 21:
		text, ok, ok2 = "!yisp [maps.merge, "+m+", {a: x}]", false, true
	case 22:
		// used, but not printed
		text, ok, ok2 = "k: !yisp [maps.get, "+m+", kind]", true, true
	case 23:
		text, ok, ok2 = "k: !yisp [progn, "+m+", 1]", true, true
	case 24:
		text, ok, ok2 = "!yisp [==, "+digitOf(m)+", 1]", true, true
	case 25:
		text, ok2 = "- &x "+m+"\n- [*x ]", true
	case 26:
		text = "!yisp\n- lists.cons\n- " + m2 + "\n- - maps.values\n  - {k: " + m + "}"
	default:
		text = "!yisp\n- lists.at\n- !quote\n  - " + m + "\n  - " + m2 + "\n- 1"
		ok = true
	}
	opts := engine.Options{AllowUntypedManifest: nd.Bool(), DisableTypeCheck: nd.Bool()}
	way := nd.Choice(3)
	if way == 2 && strings.Contains(text, "o.yisp") {
		way = 0
	}
	_, err := run(text+"\n", way, opts)
	if ok && ok2 || opts.AllowUntypedManifest || opts.DisableTypeCheck {
		nd.Assert(err == nil, "output is refused that conforms")
	} else {
		nd.Assert(err != nil, "output is printed that contains a manifest that violates its type")
	}
}

// digitOf is the text of the field of a manifest.
func digitOf(m string) string { return m[len(m)-2 : len(m)-1] }

// Check_Schema: a map with $schema gets the type of that address, from the cache or fetched once and then kept, instead of that of its group, version and kind;
// without a type it is refused. Status codes are symbolic, and so is the field.
func Check_Schema() {
	cache()
	fakehttp.Reset()
	status := nd.IntRange(100, 599)
	url := "https://h/x?y.json"
	fakehttp.Pages[url] = fakehttp.Page{Status: status, Body: []string{
		schema("s"),
		`{"type":"object","properties":{"s":{"type":"integer","maximum":4}},"additionalProperties":false,"required":["s","$schema"]}`,
		`{"type":"object","properties":{"$schema":{"type":"string","minLength":1},"s":{"oneOf":[{"type":"integer","maximum":4},{"type":"null"}]},"l":{"type":"array","items":{"type":"integer"}}},"required":["s"]}`,
	}[nd.Choice(3)]}
	d := nd.Byte()
	nd.Assume(d >= '0' && d <= '9')
	text := "$schema: " + url + "\ns: " + string([]byte{d}) + "\n"
	opts := engine.Options{AllowUntypedManifest: nd.Bool(), DisableTypeCheck: nd.Bool()}
	for i := 0; i < 2; i++ {
		_, err := run(text, 0, opts)
		switch {
		case opts.AllowUntypedManifest:
			nd.Assert(err == nil, "a map is refused though untyped manifests are allowed")
		case status != 200:
			nd.Assert(err != nil, "a map is accepted whose type cannot be fetched")
		case opts.DisableTypeCheck:
			nd.Assert(err == nil, "a map is refused though checking is disabled")
		case d <= '4':
			nd.Assert(err == nil, "a map is refused that conforms to the type of its $schema")
		default:
			nd.Assert(err != nil, "a map is accepted that does not conform to the type of its $schema")
		}
	}
	if status == 200 {
		nd.Assert(len(fakehttp.Log) == 1, "a type is fetched again")
		// another type under another address is not mixed up with it
		fakehttp.Pages[url+"2"] = fakehttp.Page{Status: 200, Body: schema("z")}
		_, err := run(strings.Replace(text, url, url+"2", 1), 0, engine.Options{})
		nd.Assert(err != nil, "the type of another address is used")
	}
}

// Check_Which: $schema wins over apiVersion and kind, wherever they stand, and is found through a merge key too.
func Check_Which() {
	cache()
	fakehttp.Reset()
	fakehttp.Pages["https://h/s"] = fakehttp.Page{Status: 200, Body: schema("s")}
	d, e := nd.Byte(), nd.Byte()
	nd.Assume(d >= '0' && d <= '9' && e >= '0' && e <= '9')
	gvk := "apiVersion: v1\nkind: Foo\na: " + string([]byte{e}) + "\n"
	sch := "$schema: https://h/s\ns: " + string([]byte{d}) + "\n"
	text := ""
	switch nd.Choice(4) {
	case 0:
		text = gvk + sch
	case 1:
		text = sch + gvk
	case 2:
		text = "!yisp &b [maps.from-entries, !quote [[$schema, https://h/s]]]\n---\n" + gvk + "<<: *b \ns: " + string([]byte{d}) + "\n"
	default:
		text = "!yisp &b [maps.from-entries, !quote [[apiVersion, v1], [kind, Foo]]]\n---\n" + sch + "<<: *b \na: " + string([]byte{e}) + "\n"
	}
	_, err := run(text, nd.Choice(3), engine.Options{})
	nd.Assert((err == nil) == (d <= '4'), "a map with $schema is not checked with the type of its $schema")
}

// Check_TypeOf: types.of and the schema used for merging tell the same type: lists merge by the key of the cached type.
func Check_TypeOf() {
	nd.Setenv("HOME", nd.Dir())
	nd.WriteFile(".cache/yisp/gvk/_v1_Foo.txt", "foo")
	nd.WriteFile(".cache/yisp/schemas/foo.json", `{"type":"object","properties":{"l":{"type":"array","items":{"$ref":"#/d/item"},"x-kubernetes-patch-strategy":"merge","x-kubernetes-patch-merge-key":"name"}}}`)
	nd.WriteFile(".cache/yisp/schemas/item.json", `{"type":"object","properties":{"name":{"type":"string"},"v":{"type":"integer"}}}`)
	d, e := nd.Byte(), nd.Byte()
	nd.Assume(d >= 'a' && d <= 'd' && e >= '0' && e <= '9')
	base := "{apiVersion: v1, kind: Foo, metadata: {name: m}, l: !quote [{name: a, v: 1}, {name: b, v: 2}]}"
	patch := "{apiVersion: v1, kind: Foo, metadata: {name: m}, l: !quote [{name: " + string([]byte{d}) + ", v: " + string([]byte{e}) + "}]}"
	text := "!yisp [maps.merge, " + base + ", " + patch + "]\n"
	if nd.Bool() {
		text = "!yisp [k8s.patch, !quote [" + base + "], !quote [" + patch + "]]\n"
	}
	r, err := engine.NewEngine(engine.Options{}).Run(strings.NewReader(text), core.NewEnv(), "main.yisp")
	nd.Assert(err == nil, "manifests cannot be merged")
	docs, ok := kit.Items(r)
	nd.Assert(ok && len(docs) == 1, "merging yields the wrong number of documents")
	doc := docs[0]
	if l, ok := kit.Items(doc); ok {
		nd.Assert(len(l) == 1, "merging yields the wrong number of manifests")
		doc = l[0]
	}
	item := func(n string, v int) *node { return kit.Map("name", kit.Str(n), "v", kit.Int(v)) }
	want := []*node{item("a", 1), item("b", 2)}
	switch v := int(e - '0'); {
	case d == 'a':
		want[0] = item("a", v)
	case d == 'b':
		want[1] = item("b", v)
	default:
		want = append(want, item(string([]byte{d}), v))
	}
	for _, kv := range entries(doc) {
		if kv.K == "l" {
			nd.Assert(kit.Same(kv.V, kit.List(want...)), "lists are not merged as the type of the manifest says")
		}
	}
	nd.Assert(len(entries(doc)) == 4, "merging loses or adds fields")
}

func entries(m *node) []kit.KV {
	kv, ok := kit.Entries(m)
	nd.Assert(ok, "merging does not yield a map")
	return kv
}

// Check_Long: a stream or list of 25 manifests, or values nested 12 deep, of which the first, a middle, the last or the innermost one has a symbolic digit as its
// field: the output is refused exactly if that one violates its type.
func Check_Long() {
	cache()
	m, ok := manifest()
	n := 25
	at := []int{0, 12, n - 1}[nd.Choice(3)]
	text := ""
	form := nd.Choice(4)
	for i := 0; i < n && form < 3; i++ {
		x := []string{"{apiVersion: v1, kind: Foo, a: 1}", "{apiVersion: v2, kind: Foo, b: 4}", "plain"}[i%3]
		if i == at {
			x = m
		}
		text += []string{"- " + x + "\n", x + "\n---\n", "k" + string(rune('A'+i)) + ": " + x + "\n"}[form]
	}
	if form == 3 {
		text = m
		for i := 0; i < 6; i++ {
			text = "{k: [" + text + "], l: " + string(rune('0'+i)) + "}"
		}
		text += "\n"
	}
	_, err := run(text, nd.Choice(3), engine.Options{})
	nd.Assert((err == nil) == ok, "a large output is refused exactly if one of its manifests violates its type")
}
