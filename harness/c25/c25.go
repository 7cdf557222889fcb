// Package c25: exec.go runs only packages that match the allow list.
// os/exec is replaced by a recorder (harness/fakeexec), natively too: no process is ever started.
package c25

import (
	exec "github.com/totegamma/yisp/internal/zzverif/fakeexec"
	"strings"

	"github.com/spf13/viper"
	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/cli"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

const option = "net.gammalab.yisp.exec.allowed_go_pkgs"

// matches is what an entry of the allow list means.
func matches(entry, pkg string) bool {
	if entry == "" {
		return pkg == ""
	}
	if entry[0] == '*' {
		return matches(entry[1:], pkg) || pkg != "" && matches(entry, pkg[1:])
	}
	return pkg != "" && entry[0] == pkg[0] && matches(entry[1:], pkg[1:])
}

func call(list any, spec *node) (*node, error) {
	e := engine.NewEngine(engine.Options{})
	if list != nil {
		e.SetOption(option, list)
	}
	return e.Apply(kit.Str("exec.go"), []*node{spec}, core.NewEnv(), core.EvalModeEval)
}

// decide runs exec.go for the package and decides whether it may be started. A package with a line break in it need not.
func decide(entries []string, pkg string) {
	exec.Reset()
	exec.Out = "7"
	want := false
	for _, e := range entries {
		want = want || matches(e, pkg)
	}
	_, err := call(entries, kit.Map("pkg", kit.Str(pkg)))
	nd.Assert(len(exec.Log) <= 1, "several processes are started")
	if len(exec.Log) == 0 {
		nd.Assert(err != nil, "nothing was started and nobody was told")
		nd.Assert(!want || strings.Contains(pkg, "\n"), "an allowed package is refused")
		return
	}
	nd.Assert(want, "a package is started that no entry of the allow list matches")
	p := exec.Log[0]
	nd.Assert(p.Path == "go" && len(p.Args) == 3 && p.Args[0] == "go" && p.Args[1] == "run" && p.Args[2] == pkg, "another command is started")
	nd.Assert(err == nil, "a command that succeeds is an error")
}

// Check_Meta: entries with every character that means something in regular expressions, against a symbolic package of the same
// alphabet.
//
//verif:weight=3
func Check_Meta() {
	decide([]string{nd.StringOf(".*+?()[]{}|^$\\/a", 1, nd.Size(2, 3))}, nd.StringOf(".*+[(|^$\\/ab", 0, 2))
}

// Check_Patterns: symbolic entries of letters, dots, slashes and stars (up to 4 bytes; 6 in the thorough run) against symbolic
// packages.
//
//verif:weight=4
func Check_Patterns() {
	decide([]string{nd.StringOf("a*.", 0, nd.Size(4, 6))}, nd.StringOf("a.b/", 0, nd.Size(4, 6)))
}

// Check_Real: entries as people write them, against packages with symbolic bytes around and inside.
//
//verif:weight=4
func Check_Real() {
	entry := []string{"example.com/tools/*", "*/gen@v1.*", "./cmd/*/main", "example.com/a", "*", "**a", ""}[nd.Choice(7)]
	pkg := []string{"example.com/tools/x", "example@com/tools/", "example.com/tools", "x/gen@v1.2", "x/gen@v112", "./cmd/a/b/main", "./cmd//main", "./cmd/main", "example.com/a", ""}[nd.Choice(10)]
	switch nd.Choice(4) {
	case 0:
		pkg = nd.StringN(1) + pkg
	case 1:
		pkg += nd.StringN(1)
	case 2:
		pkg = strings.Replace(pkg, "m", nd.StringN(1), 1)
	}
	decide([]string{entry}, pkg)
}

// Check_List: lists of up to 3 symbolic entries of up to 2 bytes allow what one of them matches.
//
//verif:weight=3
func Check_List() {
	entries := []string{}
	for n := nd.Choice(nd.Size(3, 4)); n > 0; n-- {
		entries = append(entries, nd.StringOf("a*.", 0, 2))
	}
	decide(entries, nd.StringOf("ab.", 0, 2))
}

// Check_Option: without an allow list nothing runs, neither with one of another type.
func Check_Option() {
	exec.Reset()
	var list any
	switch nd.Choice(5) {
	case 1:
		list = []string{}
	case 2:
		list = "*"
	case 3:
		list = []any{"*"}
	case 4:
		list = []string(nil)
	}
	r, err := call(list, kit.Map("pkg", kit.Str(nd.String(2))))
	nd.Assert(err != nil && r == nil && len(exec.Log) == 0, "a package is started without an allow list")
}

// Check_Command: a build runs the packages that were allowed with the allow command before it, in this or an earlier configuration file, and no others: up to 2
// (thorough 3) symbolic entries, a symbolic package, a configuration file that is missing, empty or has an entry already.
//
//verif:weight=2
func Check_Command() {
	viper.Reset()
	cli.Home()
	exec.Reset()
	exec.Out = "7"
	want := false
	pkg := "p" + nd.StringOf("a/b", 0, 2)
	conf := "home/.config/yisp/config.yaml"
	switch nd.Choice(4) {
	case 1:
		nd.WriteFile(conf, "")
	case 2:
		nd.WriteFile(conf, "allowedgopkgs: []\n")
	case 3:
		nd.WriteFile(conf, "allowedgopkgs:\n- pa\n")
		want = pkg == "pa"
	}
	for n := nd.Choice(nd.Size(3, 4)); n > 0; n-- {
		entry := "p" + nd.StringOf("a*", 0, 1)
		want = want || matches(entry, pkg)
		_, code := cli.Run("", "allow", entry)
		nd.Assert(code == 0, "an entry cannot be added")
		if nd.Bool() {
			viper.Reset() // the next command is another process
		}
	}
	viper.Reset()
	_, code := cli.Build("x: !yisp\n- exec.go\n- pkg: "+pkg+"\n", "-", cli.Flags{})
	nd.Assert(len(exec.Log) <= 1 && (len(exec.Log) == 1) == want, "a package that is not allowed is started, or one that is allowed is not")
	nd.Assert((code == 0) == want, "a package that is refused is not a failure, or one that is allowed is")
}

// Check_Spec: a specification with symbolic arguments, standard input and output mode starts go run with exactly these; one without a
// package starts nothing.
//
//verif:weight=3
func Check_Spec() {
	exec.Reset()
	exec.Out = nd.StringOf("7 ", 0, 2)
	exec.ErrOut = "a\n"
	exec.Fail = nd.Bool()
	kv := []any{}
	ok := true
	switch nd.Choice(3) {
	case 0:
		ok = false
	case 1:
		kv, ok = append(kv, "pkg", []*node{kit.Null(), kit.Int(1), kit.List(kit.Str("p"))}[nd.Choice(3)]), false
	default:
		kv = append(kv, "pkg", kit.Str("p"))
	}
	var args []string
	switch nd.Choice(3) {
	case 0:
	case 1:
		kv, ok = append(kv, "args", []*node{kit.Null(), kit.Str("a"), kit.List(kit.Str("a"), kit.Int(1))}[nd.Choice(3)]), false
	default:
		l := []*node{}
		for n := nd.Choice(3); n > 0; n-- {
			args = append(args, nd.String(1))
			l = append(l, kit.Str(args[len(args)-1]))
		}
		kv = append(kv, "args", kit.List(l...))
	}
	in := ""
	switch nd.Choice(3) {
	case 0:
	case 1:
		kv, ok = append(kv, "stdin", []*node{kit.Null(), kit.Int(1), kit.List()}[nd.Choice(3)]), false
	default:
		in = nd.String(2)
		kv = append(kv, "stdin", kit.Str(in))
	}
	asString := false
	if nd.Bool() {
		asString = nd.Bool()
		kv = append(kv, "asString", kit.Bool(asString))
	}
	r, err := call([]string{"q", "p"}, kit.Map(kv...))
	if !ok {
		nd.Assert(len(exec.Log) == 0 && err != nil, "a malformed specification starts a process")
		return
	}
	nd.Assert(len(exec.Log) == 1, "not exactly one process is started")
	p := exec.Log[0]
	nd.Assert(p.Path == "go" && len(p.Args) == 3+len(args) && p.Args[1] == "run" && p.Args[2] == "p", "another command is started")
	for i, a := range args {
		nd.Assert(p.Args[3+i] == a, "an argument is wrong or out of place")
	}
	nd.Assert(p.Stdin == in, "standard input is wrong")
	nd.Assert((err != nil) == exec.Fail, "the failure of the program is not that of the expression")
	if err == nil && asString {
		nd.Assert(kit.Same(r, kit.Str(exec.Out)), "the output is not returned verbatim")
	}
}

// Check_Long: allow lists of 12 (thorough 40) entries or entries of 60 bytes, of which the first, a middle or the last one is the one that matters, against a long package with a symbolic byte
// at its start, in the middle or at its end.
//
//verif:weight=2
func Check_Long() {
	n := nd.Size(12, 40)
	at := []int{0, n / 2, n - 1}[nd.Choice(3)]
	base := "example.com/" + strings.Repeat("tools/", 8) + "gen@v1.20.300"
	entry := []string{base, "example.com/*", "*" + base[20:], "example.com/*/gen@v1.20.300", "*/*/*/*/*/*/*/*/*/*", base + "*", "example.com/" + strings.Repeat("tools/", 8) + "gen@v1*0"}[nd.Choice(7)]
	var entries []string
	for i := 0; i < n; i++ {
		entries = append(entries, "other.org/p"+string(rune('a'+i%26))+"/*")
	}
	entries[at] = entry
	k := []int{0, 11, 30, len(base) - 2, len(base)}[nd.Choice(5)]
	pkg := base[:k] + nd.StringOf("em/.0x", 0, 1)
	if nd.Bool() {
		pkg += base[k:]
	} else if k < len(base) {
		pkg += base[k+1:]
	}
	decide(entries, pkg)
}
