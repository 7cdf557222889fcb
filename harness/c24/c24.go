// Package c24: exec.cmd runs only approved commands, exactly as specified.
// os/exec is replaced by a recorder (harness/fakeexec), natively too: no process is ever started.
package c24

import (
	exec "github.com/totegamma/yisp/internal/zzverif/fakeexec"
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/cli"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

type node = kit.Node

const option = "net.gammalab.yisp.exec.allow_cmd"

// spec is the specification of a command, with what it asks for.
type spec struct {
	n        *node
	ok       bool
	cmd      string
	args     []string
	stdin    string
	asString bool
}

func wrong(s string) *node {
	return []*node{kit.Null(), kit.Int(nd.IntRange(0, 2)), kit.Bool(nd.Bool()), kit.List(), kit.Map("a", kit.Str(s))}[nd.Choice(5)]
}

func symbolicSpec() spec {
	s := spec{ok: true}
	kv := []any{}
	switch nd.Choice(3) {
	case 0:
		s.ok = false
	case 1:
		kv, s.ok = append(kv, "cmd", wrong("c")), false
	default:
		s.cmd = nd.String(2)
		kv = append(kv, "cmd", kit.Str(s.cmd))
	}
	switch nd.Choice(4) {
	case 0:
	case 1:
		kv = append(kv, "args", []*node{kit.Null(), kit.Str("a"), kit.Int(1), kit.Map("a", kit.Str("b"))}[nd.Choice(4)])
		s.ok = false
	case 2:
		kv = append(kv, "args", kit.List(kit.Str("a"), wrong("b")))
		s.ok = false
	default:
		l := kit.List()
		for n := nd.Choice(3); n > 0; n-- {
			a := nd.String(1)
			s.args = append(s.args, a)
			l = kit.List(append(items(l), kit.Str(a))...)
		}
		kv = append(kv, "args", l)
	}
	switch nd.Choice(3) {
	case 0:
	case 1:
		kv, s.ok = append(kv, "stdin", wrong("c")), false
	default:
		s.stdin = nd.String(2)
		kv = append(kv, "stdin", kit.Str(s.stdin))
	}
	switch nd.Choice(3) {
	case 0:
	case 1:
		kv = append(kv, "asString", []*node{kit.Null(), kit.Str("true"), kit.Int(1), kit.List()}[nd.Choice(4)])
		s.ok = false
	default:
		s.asString = nd.Bool()
		kv = append(kv, "asString", kit.Bool(s.asString))
	}
	s.n = kit.Map(kv...)
	return s
}

func items(n *node) []*node {
	i, _ := kit.Items(n)
	return i
}

// approval sets up the option and standard input and reports whether the next command is approved.
func approval() (core.Engine, bool) {
	e := engine.NewEngine(engine.Options{})
	input := nd.String(1)
	fail := nd.Bool()
	nd.Stdin(input, fail)
	confirmed := input != "" && !fail
	switch nd.Choice(4) {
	case 0:
		return e, confirmed
	case 1:
		e.SetOption(option, false)
		return e, confirmed
	case 2:
		e.SetOption(option, "true")
		return e, false
	}
	e.SetOption(option, true)
	return e, true
}

func call(e core.Engine, args ...*node) (*node, error) {
	return e.Apply(kit.Str("exec.cmd"), args, core.NewEnv(), core.EvalModeEval)
}

// started decides whether exactly that one process was started.
func started(s spec) {
	nd.Assert(len(exec.Log) == 1, "not exactly one process is started")
	p := exec.Log[0]
	nd.Assert(p.Path == s.cmd, "another command is started")
	nd.Assert(len(p.Args) == 1+len(s.args) && p.Args[0] == s.cmd, "wrong number of arguments")
	for i, a := range s.args {
		nd.Assert(p.Args[1+i] == a, "an argument is wrong or out of place")
	}
	nd.Assert(p.Stdin == s.stdin, "standard input is wrong")
	nd.Assert(p.Dir == "" && len(p.Env) == 0, "the surroundings of the process are changed")
}

// Check_Start calls exec.cmd with any specification (each key missing, of a wrong kind or symbolic: a command of up to 2 bytes, 2
// arguments of 1 byte, input of 2 bytes) with the option unset, false, true or of a wrong type and a symbolic answer of up to one
// byte on standard input, which may fail.
//
//verif:weight=4
func Check_Start() {
	exec.Reset()
	exec.Out = "7"
	s := symbolicSpec()
	e, approved := approval()
	r, err := call(e, s.n)
	if !s.ok || !approved {
		nd.Assert(len(exec.Log) == 0, "a process is started without approval or specification")
		nd.Assert(err != nil && r == nil, "a refused command is not an error")
		return
	}
	started(s)
	nd.Assert(err == nil, "a command that succeeds is an error")
	if s.asString {
		nd.Assert(kit.Same(r, kit.Str("7")), "the output is not returned")
	} else {
		nd.Assert(kit.Same(r, kit.List(kit.Int(7))), "the output is not evaluated")
	}
}

// Check_Output: an approved command prints symbolic bytes (up to 4 on each stream) and fails or not; the output is returned
// verbatim, or evaluated (as one of several texts with symbolic digits).
//
//verif:weight=3
func Check_Output() {
	exec.Reset()
	exec.ErrOut = nd.StringOf("a\n%", 0, 2)
	exec.Fail = nd.Bool()
	e := engine.NewEngine(engine.Options{})
	e.SetOption(option, true)
	if nd.Bool() {
		exec.Out = nd.String(nd.Size(4, 5))
		r, err := call(e, kit.Map("cmd", kit.Str("c"), "asString", kit.Bool(true)))
		nd.Assert(len(exec.Log) == 1, "not exactly one process is started")
		nd.Assert((err != nil) == exec.Fail, "the failure of the command is not that of the expression")
		nd.Assert(exec.Fail || kit.Same(r, kit.Str(exec.Out)), "the output is not returned verbatim")
		return
	}
	d := nd.Byte()
	nd.Assume(d >= '0' && d <= '9')
	v := kit.Int(10 + int(d-'0'))
	k := nd.Choice(7)
	exec.Out = []string{"1@", "a: 1@\n---\n- 1@\n", "!yisp [+, 1@, 1]", "", "null\n---\n1@", "&x 1@\n---\n!yisp [lists.as-toplevel, *x , *x ]\n", "[1@"}[k]
	exec.Out = strings.ReplaceAll(exec.Out, "@", string([]byte{d}))
	want := [][]*node{{v}, {kit.Map("a", v), kit.List(v)}, {kit.Int(v.Value.(int) + 1)}, {}, {v}, {v, v, v}, nil}[k]
	r, err := call(e, kit.Map("cmd", kit.Str("c")))
	nd.Assert(len(exec.Log) == 1, "not exactly one process is started")
	nd.Assert((err != nil) == (exec.Fail || want == nil), "the failure of the command is not that of the expression")
	if err == nil {
		nd.Assert(kit.Same(r, kit.List(want...)), "the output is not evaluated")
	}
}

// Check_Program: programs that mention two to four commands start those that are evaluated, in order, each with an approval of its
// own: with a symbolic number of answers on standard input only so many commands run.
//
//verif:weight=3
func Check_Program() {
	exec.Reset()
	exec.Out = "ok"
	texts := []string{
		"!yisp [progn, [exec.cmd, {cmd: a}], [exec.cmd, {cmd: b, asString: true}]]",
		"- !yisp [exec.cmd, {cmd: a}]\n- k: !yisp [exec.cmd, {cmd: b, asString: true}]",
		"!yisp [exec.cmd, {cmd: a}]\n---\n!yisp [exec.cmd, {cmd: b}]",
		"!yisp [if, true, [exec.cmd, {cmd: a}], [exec.cmd, {cmd: x}]]\n---\n- !yisp [lambda, [], [exec.cmd, {cmd: x}]]\n---\n!yisp [[lambda, [p], [exec.cmd, {cmd: *p }]], b]",
		"!yisp [lists.map, !quote [a, b], [lambda, [c], [exec.cmd, {cmd: *c }]]]",
		"!yisp [exec.cmd, {cmd: a}, 1]\n",
		"!yisp [exec.cmd]\n",
		"!yisp [exec.cmd, !quote [a]]\n",
		"a: !quote [exec.cmd, {cmd: x}]\nb: [exec.cmd, {cmd: x}]",
	}
	k := nd.Choice(len(texts))
	possible := []int{2, 2, 2, 2, 2, 0, 0, 0, 0}[k]
	fails := []bool{false, false, false, false, false, true, true, true, false}[k]
	e := engine.NewEngine(engine.Options{})
	allowed := possible
	if nd.Bool() {
		e.SetOption(option, true)
		nd.Stdin("", true)
	} else {
		answers := nd.StringOf("\ny", 0, 3)
		nd.Stdin(answers, false)
		allowed = min(len(answers), possible)
	}
	_, err := e.Run(strings.NewReader(texts[k]), core.NewEnv(), "main.yisp")
	nd.Assert(len(exec.Log) == allowed, "the wrong number of processes is started")
	for i, p := range exec.Log {
		nd.Assert(p.Path == []string{"a", "b"}[i], "processes are started out of order")
	}
	nd.Assert((err != nil) == (fails || allowed < possible), "a refused command is not an error, or another one is")
}

// Check_Command: the build command starts a command only with --allow-cmd or with an answer on standard input, which a program read from there is not, however long it is and
// wherever the command is in it; neither is one in a file the program includes, nor one of the KRM function.
//
//verif:weight=2
func Check_Command() {
	cli.Home()
	exec.Reset()
	exec.Out = "ok"
	const run = "!yisp [exec.cmd, {cmd: a}]\n"
	pad := strings.Repeat([]string{"", "# padding\n", "- item\n"}[nd.Choice(3)], []int{1, 60, 600}[nd.Choice(3)])
	text := run
	switch nd.Choice(4) {
	case 0:
		text += "---\n" + pad
	case 1:
		text = pad + "---\n" + text
	case 2:
		nd.WriteFile("work/part.yisp", run)
		text = "!yisp [include, part.yisp]\n---\n" + pad + "---\nend\n"
	default:
		text += pad[:len(pad)/8*2] + "\n---\n" + pad
		text = strings.Replace(text, "]\n- item", "]\n---\n- item", 1)
	}
	allow := nd.Bool()
	answers := nd.StringOf("\ny", 0, 1)
	code, want := 0, allow
	switch nd.Choice(3) {
	case 0:
		_, code = cli.Build(text, "-", cli.Flags{Cmd: allow})
	case 1:
		nd.WriteFile("work/main.yisp", text)
		_, code = cli.Build(answers, "main.yisp", cli.Flags{Cmd: allow})
		want = allow || answers != ""
	default:
		_, code = cli.Run("functionConfig:\n  spec:\n    yisp: "+cli.Block(run, 6)+"items: []\n"+pad, "krm")
		nd.Assert(code != 0 && len(exec.Log) == 0, "a KRM function starts a command")
		return
	}
	nd.Assert((len(exec.Log) == 1) == want && len(exec.Log) <= 1, "a command is started without approval, or not with one")
	nd.Assert((code == 0) == want, "a refused command is not an error")
}

// Check_Long: a command of 12 (thorough 40) arguments, of which the first, a middle or the last one has 2 symbolic bytes, with an input and an output of 200 bytes with a symbolic one in them, is
// started and read as it is.
//
//verif:weight=2
func Check_Long() {
	exec.Reset()
	n := nd.Size(12, 40)
	at := []int{0, n / 2, n - 1}[nd.Choice(3)]
	var l []*node
	var want []string
	for i := 0; i < n; i++ {
		a := "--arg=" + string(rune('a'+i%26)) + " b"
		if i == at {
			a = nd.String(2)
		}
		want = append(want, a)
		l = append(l, kit.Str(a))
	}
	in := strings.Repeat("line\n", 20) + nd.StringN(1) + strings.Repeat(" x", 50)
	exec.Out = strings.Repeat("out\n", 30) + nd.StringN(1) + strings.Repeat("y ", 40)
	e := engine.NewEngine(engine.Options{})
	e.SetOption(option, true)
	r, err := call(e, kit.Map("cmd", kit.Str("c"), "args", kit.List(l...), "stdin", kit.Str(in), "asString", kit.Bool(true)))
	nd.Assert(err == nil, "an approved command fails")
	nd.Assert(len(exec.Log) == 1, "not one process is started")
	p := exec.Log[0]
	nd.Assert(p.Path == "c" && len(p.Args) == n+1, "another command is started")
	for i, a := range want {
		nd.Assert(p.Args[i+1] == a, "an argument is changed")
	}
	nd.Assert(p.Stdin == in, "the input is changed")
	out, ok := kit.IsStr(r)
	nd.Assert(ok && out == exec.Out, "the output is changed")
}
