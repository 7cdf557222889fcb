// Package smoke exercises the executor itself.
package smoke

import (
	"strings"

	"github.com/totegamma/yisp/core"
	"github.com/totegamma/yisp/engine"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

func run(s string) (string, error) {
	e := engine.NewEngine(engine.Options{})
	return e.EvaluateReaderToYamlWithEnv(strings.NewReader(s), core.NewEnv(), "/x/main.yisp")
}

func Check_Concrete() {
	out, err := run("a: 1\nb: [x, 'y', 2.5, true, null]\nc: !yisp [+, 1, 2]\n---\nfoo: &x 3\n---\n!yisp\n- lists.map\n- !quote [1,2]\n- [lambda, [v], [+, *v, *x]]\n")
	if err != nil {
		nd.ObserveStr(err.Error())
	}
	nd.ObserveStr(out)
	nd.Assert(err == nil, "err")
}
func Check_Sym1() {
	s := nd.StringOf("abc1", 1, 2)
	out, err := run("a: " + s + "\n")
	nd.Assert(err == nil, "err")
	nd.Assert(out == "a: "+s+"\n", "out")
}
func Check_Sym2() {
	s := nd.String(2)
	_, err := run("a: " + s + "\n")
	_ = err
}
func Check_Raw() {
	s := nd.String(nd.Size(2, 3))
	_, err := run(s)
	_ = err
}
