// Package c22: the same input gives the same output, whatever order hash maps are iterated in.
// Every harness evaluates twice: once with the maps in the order of insertion, and once either with every iteration backwards or with the steps of
// the first iterations in an arbitrary order.
package c22

import (
	"strconv"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

func opts() engine.Options { return engine.Options{AllowUntypedManifest: true} }

// twice runs f twice and compares.
func twice(orders int, f func() (string, error)) {
	a, err1 := f()
	if nd.Choice(2) == 0 {
		orders = -1
	}
	nd.MapOrder(orders)
	b, err2 := f()
	nd.MapOrder(0)
	nd.Assert((err1 == nil) == (err2 == nil), "one evaluation fails and the next one does not")
	if err1 != nil && err2 != nil {
		nd.Assert(err1.Error() == err2.Error(), "two evaluations fail with different errors")
		nd.Reach("error")
		return
	}
	nd.Assert(a == b, "two evaluations print different texts")
	nd.Reach("output")
}

func file(name, text string) func() (string, error) {
	p := nd.WriteFile(name, text)
	return func() (string, error) { return engine.NewEngine(opts()).EvaluateFileToYaml(p) }
}

func num() string { return strconv.Itoa(nd.IntRange(-1, 3)) }

// Check_Data: a JSON and a YAML file of nested maps with up to 4 keys, two of which have an arbitrary letter, included or unmarshalled.
//
//verif:weight=2
func Check_Data() {
	k := nd.StringOf("abyz", 2, 2)
	text := "{\"" + k[:1] + "1\": {\"q\": 1, \"p\": [1, {\"d\": 1, \"c\": 2}]}, \"n\": 1.5, \"" + k[1:] + "2\": null, \"b\": {}}"
	nd.WriteFile("d.json", text)
	nd.WriteFile("d.yaml", text)
	main := []string{"!yisp [include, d.json]\n", "!yisp [include, d.yaml, d.json]\n", "a: !yisp [yaml.unmarshal, '" + text + "']\n"}[nd.Choice(3)]
	twice(nd.Size(2, 8), file("main.yisp", main))
}

// Check_Defaults: a type with up to 5 defaults - plain, nested, objects made for the defaults they hold, defaults with several keys - casts a map that lacks an arbitrary part of them.
//
//verif:weight=2
func Check_Defaults() {
	has := nd.Choice(nd.Size(4, 8))
	m := "x: " + num()
	for i, k := range []string{"a", "b", "o"} {
		if has>>i&1 == 1 {
			m += ", " + k + ": " + []string{"1", "s", "{}"}[i]
		}
	}
	schema := "{type: object, properties: {x: {type: integer}, a: {type: integer, default: 3}, b: {type: string, default: t}, o: {type: object, default: {}, properties: {r: {type: integer, default: 1}, q: {type: integer, default: 2}}}, c: {type: boolean, default: true}}}"
	if nd.Choice(2) == 1 {
		schema = "{type: object, additionalProperties: true, properties: {x: {type: integer}, u: {type: object, properties: {r: {type: integer, default: 1}, q: {type: object, properties: {d: {type: string, default: t}, c: {type: integer, default: 2}}}}}, w: {type: object, additionalProperties: true, default: {z: 1, y: {d: 1, c: 2}}}}}"
	}
	twice(nd.Size(2, 10), file("main.yisp", "&t !yisp [schema, !quote "+schema+"]\n---\n!t {"+m+"}\n"))
}

// Check_Failures: a map that breaks several constraints of a type at once is refused for the same reason each time.
//
//verif:weight=2
func Check_Failures() {
	n := num()
	m := []string{"{a: s, b: 1, c: x}", "{a: " + n + ", b: " + n + ", d: {p: 1, q: 2}}", "{z: 1, y: 2, x: 3}", "{a: 1, b: s, d: {p: s, q: s}}", "{d: 1, c: 2}"}[nd.Choice(5)]
	schema := []string{"{type: object, required: [a, b, c], properties: {a: {type: integer, maximum: 0}, b: {type: string}, c: {type: boolean}, d: {type: object, properties: {p: {type: string}, q: {type: integer}}}}}",
		"{type: object, properties: {a: {type: integer}}, additionalProperties: {type: boolean}}", "{type: object, properties: {d: {type: object, properties: {p: {type: boolean}, q: {type: boolean}}}, c: {type: string}}, additionalProperties: false}",
		"{oneOf: [{type: object, properties: {a: {type: string}, b: {type: string}}, additionalProperties: false}, {type: array}]}"}[nd.Choice(4)]
	twice(nd.Size(2, 10), file("main.yisp", "&t !yisp [schema, !quote "+schema+"]\n---\n!t "+m+"\n"))
}

// Check_Operators: 25 uses of operators on a map from a JSON file and on one in the program.
//
//verif:weight=3
func Check_Operators() {
	n, k := num(), nd.StringOf("abm", 1, 1)
	text := "{\"m\": {\"b\": " + n + ", \"a\": [{\"name\": \"x\", \"v\": 1}, {\"name\": \"y\"}]}, \"" + k + "\": {\"c\": 2, \"b\": null}, \"0\": \"s\"}"
	nd.WriteFile("d.json", text)
	use := []string{
		"*d ", "!yisp [maps.merge, *d , !quote {m: {a: 1, z: 2}, q: 1}]", "!yisp [maps.keys, *d ]", "!yisp [maps.values, *d ]", "!yisp [maps.to-entries, *d ]", "!yisp [maps.from-entries, !yisp [maps.to-entries, *d ]]",
		"{<<: *d , z: 1, m: 2}", "{z: 1, <<: [*d , {b: 1, a: 2}]}", "!yisp [strings.format, '%v', *d ]", "!yisp [strings.quote, !yisp [yaml.marshal, *d ]]", "!yisp [yaml.unmarshal, !yisp [yaml.marshal, *d ]]",
		"!yisp [maps.patch, *d , !quote {m: {a: 1, y: 2}, z: 1}]", "!yisp [\"==\", *d , *e ]", "!yisp [types.of, *d ]", "!yisp [types.assert, !yisp [types.of, *d ], *e ]",
		"!yisp [k8s.patch, !quote [{kind: K, metadata: {name: n}, spec: {b: 1, a: 2}}], !quote [{kind: K, metadata: {name: n}, spec: {d: 1, c: 2}}]]", "!yisp [lists.map, !yisp [maps.to-entries, *d ], !yisp [lambda, [x], *x ]]", "!yisp [strings.concat, *d ]", "!yisp [+, *d , 1]",
		"!yisp [lists.contains, !quote [*e , 1], *d ]", "!yisp [lambda, [x], *d ]", "!int *d ", "*d.nope ", "!yisp [schema, *d ]", "!yisp [strings.join, !quote [*d , a], \"-\"]",
	}
	u := use[nd.Choice(len(use))]
	twice(nd.Size(2, 8), file("main.yisp", "&e "+text+"\n---\n&d !yisp [lists.at, !yisp [include, d.json], 0]\n---\nr: "+u+"\n"))
}

// Check_Patched: maps.merge and k8s.patch with lists merged by key, on data typed by the solver's choice of merge keys.
func Check_Patched() {
	n := num()
	schema := "{type: object, properties: {l: {type: array, patchStrategy: merge, patchMergeKey: name, items: {type: object, properties: {name: {type: string}, v: {type: integer}, w: {type: integer, default: 4}}}}, m: {type: object, properties: {b: {type: integer}, a: {type: integer}}}}}"
	names := nd.StringOf("abc", 3, 3)
	main := "&t !yisp [schema, !quote " + schema + "]\n---\n&v !t {l: [{name: " + names[:1] + ", v: 1}, {name: " + names[1:2] + ", v: 2}], m: {a: 1}}\n---\nr: !yisp [maps.merge, *v , !quote {l: [{name: " + names[2:] + ", v: " + n + "}], m: {b: 2}, k: 1}]\n"
	twice(nd.Size(2, 8), file("main.yisp", main))
}

// Check_Globals: variables handed to an evaluation, with arbitrary values, some of which cannot be converted.
func Check_Globals() {
	x := nd.IntRange(-2, 12)
	vals := []any{x, "s", []any{x, 1.5}, map[string]any{"b": x, "a": nil}, make(chan int), uint64(1) << 63}
	global := map[string]any{"a": vals[nd.Choice(6)], "b": vals[nd.Choice(6)], "c": map[string]any{"z": x, "y": true}}
	twice(nd.Size(2, 8), func() (string, error) {
		return engine.NewEngine(opts()).EvaluateBytesToYaml([]byte("[*a , *b , *c ]\n"), global)
	})
}

// Check_Manifests: a stream of manifests of a known type and of an unknown one, checked when it is printed.
func Check_Manifests() {
	nd.Setenv("HOME", nd.Dir())
	nd.WriteFile(".cache/yisp/gvk/apps_v1_K.txt", "the.K")
	nd.WriteFile(".cache/yisp/schemas/the.K.json", `{"$id":"the.K","type":"object","required":["spec"],"properties":{"apiVersion":{"type":"string"},"kind":{"type":"string"},"spec":{"$ref":"#/definitions/the.S"}}}`)
	nd.WriteFile(".cache/yisp/schemas/the.S.json", `{"$id":"the.S","type":"object","properties":{"n":{"type":"integer"},"s":{"type":"string","default":"d"},"b":{"type":"boolean"}}}`)
	p := nd.WriteFile("main.yisp", "apiVersion: apps/v1\nkind: "+nd.StringOf("KL", 1, 1)+"\nspec: {n: "+[]string{"1", "x", "1.5"}[nd.Choice(3)]+", b: "+[]string{"true", "1"}[nd.Choice(2)]+"}\n---\na: 1\n")
	typed := nd.Choice(2) == 0
	twice(nd.Size(2, 8), func() (string, error) {
		return engine.NewEngine(engine.Options{AllowUntypedManifest: !typed}).EvaluateFileToYaml(p)
	})
}

// Check_Order: the keys of a map in a program are printed in the order they are written in, also those with merged and overridden entries, with
// arbitrary letters for keys.
func Check_Order() {
	k := nd.StringOf("abc", 3, 3)
	nd.Assume(k[0] != k[1] && k[0] != k[2] && k[1] != k[2])
	text := "{" + k[:1] + ": 1, " + k[1:2] + ": 2, " + k[2:] + ": 3}"
	r, err := kit.Run([]string{"&d " + text, "!yisp [maps.merge, !quote {" + k[:1] + ": 0}, !quote " + text + "]", "x: &x {" + k[:1] + ": 0}\ny: {<<: *x , " + k[1:2] + ": 2, " + k[2:] + ": 3}", "!quote {" + k[:1] + ": 1, <<: {" + k[1:2] + ": 2}, " + k[2:] + ": 3}"}[nd.Choice(4)] + "\n")
	nd.Assert(err == nil && len(r) == 1, "a map is an error")
	if err != nil || len(r) != 1 {
		return
	}
	m := r[0]
	if es, ok := kit.Entries(m); ok && es[0].K == "x" {
		m = es[1].V
	}
	es, ok := kit.Entries(m)
	nd.Assert(ok && len(es) == 3 && es[0].K == k[:1] && es[1].K == k[1:2] && es[2].K == k[2:], "keys are not in the order of the program")
}

// Check_History: what was evaluated before - with the same or another engine - does not change the output of a program.
func Check_History() {
	n := num()
	nd.Setenv("HOME", nd.Dir())
	progs := []string{"a: " + n + "\n", "&f !yisp\n- lambda\n- [x]\n- !yisp [+, *x , " + n + "]\n---\n!yisp [*f , 1]\n", "&t !yisp [schema, !quote {type: integer, maximum: " + n + "}]\n---\n!t 1\n", "!yisp [import, [d, mod.yisp]]\n---\nr: *d.v \n", "*v \n", "&v 7\n---\n*v \n",
		"!yisp [include, mod.yisp]\n", "!yisp [schema, !quote {type: object, properties: {b: {type: string}, a: {type: integer}}}]\n", "!yisp [/, 1, 0]\n"}
	nd.WriteFile("mod.yisp", "&v "+n+"\n---\n{k: *v }\n")
	i, j := nd.Choice(len(progs)), nd.Choice(len(progs))
	p, q := nd.WriteFile("p.yisp", progs[i]), nd.WriteFile("q.yisp", progs[j])
	e := engine.NewEngine(opts())
	a, err1 := engine.NewEngine(opts()).EvaluateFileToYaml(p)
	if nd.Choice(2) == 0 {
		_, _ = e.EvaluateFileToYaml(q)
	} else {
		_, _ = engine.NewEngine(opts()).EvaluateFileToYaml(q)
	}
	b, err2 := e.EvaluateFileToYaml(p)
	nd.Assert(a == b && (err1 == nil) == (err2 == nil), "another evaluation changes the output of a program")
	nd.Assert(err1 == nil || err2 == nil || err1.Error() == err2.Error(), "another evaluation changes the error of a program")
}

var _ = core.KindMap

// Check_Long: data of 17 (thorough 40) keys at two levels, one of them with an arbitrary letter, from a JSON file, a YAML file, a JSON text, or the defaults of a type, as they are, merged, taken apart or cast.
//
//verif:weight=2
func Check_Long() {
	n := nd.Size(17, 40)
	at := []int{n - 1, 0, 9}[nd.Choice(nd.Size(1, 3))]
	json, props := "{", "{type: object, properties: {"
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i*37%101)
		if i == at {
			k = nd.StringOf("az", 1, 1) + "k"
		}
		if i > 0 {
			json += ", "
			props += ", "
		}
		json += "\"" + k + "\": {\"b\": " + strconv.Itoa(i) + ", \"a\": 1}"
		props += k + ": {type: object, properties: {b: {type: integer, default: " + strconv.Itoa(i) + "}, a: {type: integer, default: 1}}}"
	}
	json += "}"
	nd.WriteFile("d.json", json)
	nd.WriteFile("d.yaml", json)
	main := []string{
		"!yisp [include, d.json]\n",
		"!yisp [include, d.yaml]\n",
		"&d !yisp [lists.at, !yisp [include, d.json], 0]\n---\nr: !yisp [maps.merge, *d , {z: 1, k37: {a: 2}}]\n---\nk: !yisp [maps.keys, *d ]\n---\ne: !yisp [maps.to-entries, *d ]\n",
		"!yisp &T [schema, " + props + "}}]\n---\na: !T {}\n",
		"!yisp &T [schema, " + props + "}}]\n---\na: !T {nope: 1}\nb: !T {k37: {a: x}, k74: {b: x}}\n",
	}[nd.Choice(5)]
	twice(nd.Size(1, 4), file("main.yisp", main))
}
