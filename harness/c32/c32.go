// Package c32: cache-kube-schemas makes the types of a cluster available to builds.
// kubectl is replaced by a recorder (harness/fakeexec), natively too: no process is ever started.
package c32

import (
	"strings"

	"github.com/totegamma/yisp/internal/zzverif/cli"
	exec "github.com/totegamma/yisp/internal/zzverif/fakeexec"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

func digit(n int) string { return string([]byte{byte('0' + n)}) }

// limit is a bound of a definition: any digit, and the one given in the quick runs.
func limit(quick int) int {
	if nd.Thorough() {
		return nd.IntRange(0, 9)
	}
	return quick
}

// gvk writes one entry of a definition's list.
func gvk(group, version, kind string) string {
	return `{"group":"` + group + `","kind":"` + kind + `","version":"` + version + `"}`
}

// definition writes a definition whose field n may be up to max.
func definition(max int, gvks string) string {
	s := `{"type":"object","description":"d","required":["n"],"properties":{"apiVersion":{"type":"string"},"kind":{"type":"string"},"n":{"type":"integer","format":"int32","maximum":` + digit(max) + `}}`
	if gvks != "" {
		s += `,"x-kubernetes-group-version-kind":` + gvks
	}
	return s + "}"
}

func openapi(defs ...string) string {
	return `{"swagger":"2.0","info":{"title":"k","version":"v1"},"paths":{},"definitions":{` + strings.Join(defs, ",") + `}}`
}

// fill runs the command, the operator pressing Enter.
func fill(doc, cacheDir string) {
	exec.Reset()
	exec.Out = doc
	_, code := cli.Run("\n", "cache-kube-schemas", "--cache-dir="+cacheDir)
	nd.Assert(code == 0, "the command fails")
	nd.Assert(len(exec.Log) == 1 && exec.Log[0].Path == "kubectl" && strings.Join(exec.Log[0].Args, " ") == "kubectl get --raw /openapi/v2", "another command is started")
}

// accepted builds a manifest.
func accepted(api, kind, fields, cacheDir string) bool {
	nd.WriteFile("work/m.yisp", "apiVersion: "+api+"\nkind: "+kind+"\n"+fields)
	out, code := cli.Build("", "m.yisp", cli.Flags{CacheDir: cacheDir})
	nd.Assert((code == 0) == (strings.TrimSpace(out) != ""), "a build prints a document and fails, or prints none and does not")
	return code == 0
}

// Check_Kinds: after the command, a manifest is accepted exactly if the cluster has a definition for its group, version and kind and it conforms to that one: two definitions with
// symbolic bounds, for up to two groups, versions and kinds each, in the home directory or one given with --cache-dir.
//
//verif:weight=3
func Check_Kinds() {
	cli.Home()
	dir := ""
	if nd.Bool() {
		dir = nd.Dir() + "/cache"
	}
	a, b, n := limit(4), limit(6), nd.IntRange(0, 9)
	first := []string{gvk("", "v1", "Foo"), gvk("", "v1", "Foo") + "," + gvk("g.io", "v1", "Foo"), gvk("g.io", "v1", "Foo") + "," + gvk("g.io", "v1", "Foo2")}
	of := [][]string{{"v1/Foo"}, {"v1/Foo", "g.io/v1/Foo"}, {"g.io/v1/Foo", "g.io/v1/Foo2"}}
	f := nd.Choice(3)
	fill(openapi(`"io.k8s.a.Foo":`+definition(a, "["+first[f]+"]"), `"io.k8s.b.Foo":`+definition(b, "["+gvk("", "v2", "Foo")+","+gvk("h.io", "v1", "Foo")+"]")), dir)
	type probe struct{ api, kind string }
	p := []probe{{"v1", "Foo"}, {"g.io/v1", "Foo"}, {"g.io/v1", "Foo2"}, {"v2", "Foo"}, {"h.io/v1", "Foo"}, {"h.io/v2", "Foo"}, {"v1", "Fo"}}[nd.Choice(7)]
	want := false
	for _, k := range of[f] {
		if p.api+"/"+p.kind == k {
			want = n <= a
		}
	}
	if p == (probe{"v2", "Foo"}) || p == (probe{"h.io/v1", "Foo"}) {
		want = n <= b
	}
	nd.Assert(accepted(p.api, p.kind, "n: "+digit(n)+"\n", dir) == want, "a manifest is not checked with the definition of its kind")
}

// Check_Refs: definitions that refer to others, directly, in lists, in additional properties, in themselves and through definitions without a kind of their own, are checked
// with all of them: a symbolic bound and a symbolic value.
//
//verif:weight=2
func Check_Refs() {
	cli.Home()
	max, n := limit(4), nd.IntRange(0, 9)
	k := gvk("", "v1", "Foo")
	ref := `{"$ref":"#/definitions/io.k8s.api.core.v1.Part"}`
	var props, fields string
	switch nd.Choice(5) {
	case 0:
		props, fields = `"part":`+ref, "part: {n: "+digit(n)+"}\n"
	case 1:
		props, fields = `"parts":{"type":"array","items":`+ref+`}`, "parts: [{n: 0}, {n: "+digit(n)+"}]\n"
	case 2:
		props, fields = `"parts":{"type":"object","additionalProperties":`+ref+`}`, "parts: {x: {n: 0}, y: {n: "+digit(n)+"}}\n"
	case 3:
		props, fields = `"part":{"$ref":"#/definitions/io.cert-manager.v1.Alias"}`, "part: {n: "+digit(n)+"}\n"
	default:
		props, fields = `"part":`+ref, "part: {n: 0, next: {n: 0, next: {n: "+digit(n)+"}}}\n"
	}
	fill(openapi(
		`"io.k8s.Foo":{"type":"object","properties":{"apiVersion":{"type":"string"},"kind":{"type":"string"},`+props+`},"x-kubernetes-group-version-kind":[`+k+`]}`,
		`"io.cert-manager.v1.Alias":{"$ref":"#/definitions/io.k8s.api.core.v1.Part"}`,
		`"io.k8s.api.core.v1.Part":{"type":"object","required":["n"],"properties":{"n":{"type":"integer","maximum":`+digit(max)+`},"next":`+ref+`}}`,
	), "")
	nd.Assert(accepted("v1", "Foo", fields, "") == (n <= max), "a definition another one refers to is not applied")
}

// Check_Odd: definitions without a kind, or with one that is written wrongly, do not keep the others from being saved and are nobody's type; running the command again
// replaces what it saved before.
//
//verif:weight=2
func Check_Odd() {
	cli.Home()
	max, n := limit(4), nd.IntRange(0, 9)
	bad := []string{"", "[]", "{}", `"Foo"`, "[1]", `[{"version":"v1","kind":"Bar"}]`, `[{"group":"","kind":"Bar"}]`, `[{"group":"","version":"v1"}]`, "null"}[nd.Choice(9)]
	good := `"io.k8s.Foo":` + definition(max, "["+gvk("", "v1", "Foo")+"]")
	odd := `"io.k8s.Bar":` + definition(9, bad)
	defs := []string{odd, good}
	if nd.Bool() {
		defs = []string{good, odd}
	}
	if nd.Bool() {
		fill(openapi(`"io.k8s.Foo":`+strings.Replace(definition(9, "["+gvk("", "v1", "Foo")+"]"), `"description":"d"`, `"description":"a much longer description than the one that is written later"`, 1)), "")
	}
	fill(openapi(defs...), "")
	nd.Assert(accepted("v1", "Foo", "n: "+digit(n)+"\n", "") == (n <= max), "a manifest is not checked with the definition of its kind")
	nd.Assert(!accepted("v1", "Bar", "n: 1\n", ""), "a definition without a kind is the type of one")
}

// Check_Again: an entry that is written wrongly does not hide a right one of the same definition, and a kind that another definition takes over is the new one's.
func Check_Again() {
	cli.Home()
	max, n := limit(4), nd.IntRange(0, 9)
	wrong := []string{`{"version":"v1"}`, `{"group":"","kind":"Two"}`, `{"group":"","version":"v1"}`, `"Two"`, "null", "[]"}[nd.Choice(6)]
	fill(openapi(`"io.k8s.Old":`+definition(9, "["+gvk("", "v1", "Two")+"]"), `"io.k8s.Two":{"type":"object"}`), "")
	fill(openapi(`"io.k8s.Two":`+definition(max, `[`+wrong+`,`+gvk("", "v1", "Two")+`]`)), "")
	nd.Assert(accepted("v1", "Two", "n: "+digit(n)+"\n", "") == (n <= max), "a wrong entry or an old definition hides another one")
}

// Check_Refused: without confirmation nothing is started; if kubectl fails or its answer is empty or not JSON, the command fails and the types saved before remain.
func Check_Refused() {
	cli.Home()
	max, n := limit(4), nd.IntRange(0, 9)
	fill(openapi(`"io.k8s.Foo":`+definition(max, "["+gvk("", "v1", "Foo")+"]")), "")
	exec.Reset()
	in := "\n"
	started := 1
	switch nd.Choice(5) {
	case 0:
		in, started = "", 0
		exec.Out = openapi(`"io.k8s.Foo":` + definition(9, "["+gvk("", "v1", "Foo")+"]"))
	case 1:
		exec.Fail = true
		exec.Out = openapi(`"io.k8s.Foo":` + definition(9, "["+gvk("", "v1", "Foo")+"]"))
	case 2:
		exec.Out = ""
	case 3:
		exec.Out = "error: no cluster"
	default:
		exec.Out = `{"definitions":{"io.k8s.Foo":` + definition(9, "["+gvk("", "v1", "Foo")+"]")
	}
	_, code := cli.Run(in, "cache-kube-schemas", "--cache-dir=")
	nd.Assert(code != 0, "a command that fails has exit status 0")
	nd.Assert(len(exec.Log) == started, "something is started without confirmation, or nothing with it")
	nd.Assert(accepted("v1", "Foo", "n: "+digit(n)+"\n", "") == (n <= max), "a command that fails changes the types")
}

// Check_Long: a cluster of 20 (thorough 40) definitions, each with up to 12 groups, versions and kinds, of which the first, a middle or the last one has the symbolic bound.
func Check_Long() {
	cli.Home()
	max, n := limit(4), nd.IntRange(0, 9)
	count := nd.Size(20, 40)
	at := []int{0, count / 2, count - 1}[nd.Choice(3)]
	var defs []string
	for i := 0; i < count; i++ {
		name := "K" + string(rune('a'+i%26)) + string(rune('a'+i/26))
		k := gvk("g.io", "v1", name)
		if i == at {
			for j := 0; j < 11; j++ {
				k += "," + gvk("g"+string(rune('a'+j))+".io", "v1", name)
			}
			defs = append(defs, `"io.k8s.`+name+`":`+definition(max, "["+k+"]"))
			continue
		}
		defs = append(defs, `"io.k8s.`+name+`":`+definition(9, "["+k+"]"))
	}
	fill(openapi(defs...), "")
	name := "K" + string(rune('a'+at%26)) + string(rune('a'+at/26))
	api := []string{"g.io", "ga.io", "gk.io"}[nd.Choice(3)] + "/v1"
	nd.Assert(accepted(api, name, "n: "+digit(n)+"\n", "") == (n <= max), "a manifest is not checked with the definition of its kind")
	nd.Assert(accepted("g.io/v1", "Kda", "n: 9\n", ""), "a manifest is not checked with the definition of its kind")
	nd.Assert(!accepted("ga.io/v1", "Kda", "n: 1\n", ""), "a manifest of an unknown kind is accepted")
}

// Check_Renamed: when the command is run again, a kind is the type of the definition that has it now, whatever its name and text and whatever it was called before: longer,
// shorter, the beginning of the old name, the same, or swapped with another one; a definition that is gone is replaced or stays, but changes no other.
func Check_Renamed() {
	cli.Home()
	max, n := limit(4), nd.IntRange(0, 9)
	names := []string{"io.k8s.Foo", "io.k8s.Fo", "io.k8s.Foo2", "io.k8s.api.core.v1.Foo", "F"}
	from, to := names[nd.Choice(len(names))], names[nd.Choice(len(names))]
	first, second := definition(9, "["+gvk("", "v1", "Foo")+"]"), definition(max, "["+gvk("", "v1", "Foo")+"]")
	long := func(s string) string {
		return strings.Replace(s, `"description":"d"`, `"description":"a much longer description than the one of the other definition"`, 1)
	}
	switch nd.Choice(3) {
	case 1:
		first = long(first)
	case 2:
		second = long(second)
	}
	dir := []string{"", "cache"}[nd.Choice(2)]
	other := `"io.k8s.Other":` + definition(7, "["+gvk("g.io", "v1", "Other")+","+gvk("", "v1", "Other")+"]")
	fill(openapi(`"`+from+`":`+first, other), dir)
	fill(openapi(other, `"`+to+`":`+second), dir)
	nd.Assert(accepted("v1", "Foo", "n: "+digit(n)+"\n", dir) == (n <= max), "a kind is not checked with the definition it has now")
	nd.Assert(accepted("g.io/v1", "Other", "n: "+digit(n)+"\n", dir) == (n <= 7), "another definition has changed")
}
