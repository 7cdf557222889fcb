// Package cli runs the yisp command inside the harness.
package cli

import (
	"os"
	"strings"

	"github.com/totegamma/yisp/cmd"
	"github.com/totegamma/yisp/internal/zzverif/kit"
	"github.com/totegamma/yisp/internal/zzverif/nd"
)

// Home makes an empty home directory and goes to an empty working directory.
func Home() {
	nd.Setenv("HOME", nd.Mkdir("home"))
	nd.Chdir(nd.Mkdir("work"))
}

// Run runs the command with the arguments and gives what it printed and its exit status.
func Run(stdin string, args ...string) (out string, code int) {
	os.Args = append([]string{"yisp"}, args...)
	nd.Stdin(stdin, false)
	out = nd.Stdout(func() { code = nd.Main(cmd.Execute) })
	return out, code
}

// Docs reads printed YAML.
func Docs(out string) []*kit.Node {
	if strings.TrimSpace(out) == "" {
		return nil
	}
	r, err := kit.Call("yaml.unmarshal", kit.Str("first\n---\n"+out))
	nd.Assert(err == nil, "the printed documents cannot be read")
	docs, ok := kit.Items(r)
	nd.Assert(ok && len(docs) > 1, "the printed documents cannot be read")
	return docs[1:]
}

// Block writes the text as a literal block scalar, each line indented by n.
func Block(text string, n int) string {
	pad := strings.Repeat(" ", n)
	return "|\n" + pad + strings.ReplaceAll(strings.TrimSuffix(text, "\n"), "\n", "\n"+pad) + "\n"
}

// Flags are those of the build command. All of them are given every time, because the flags of one run stay set for the next one of the replay program.
type Flags struct {
	Json, Untyped, Unchecked, Special, Sources, Trace, Cmd bool
	CacheDir, Output                                       string
}

func (f Flags) args() []string {
	on := func(name string, v bool) string {
		if v {
			return "--" + name
		}
		return "--" + name + "=false"
	}
	out := f.Output
	if out == "" {
		out = "yaml"
	}
	if f.Json {
		out = "json"
	}
	return []string{"--output=" + out, on("allow-untyped-manifest", f.Untyped), on("disable-type-check", f.Unchecked), on("render-special-objects", f.Special),
		on("enable-sourcemap", f.Sources), on("show-trace", f.Trace), on("allow-cmd", f.Cmd), "--cache-dir=" + f.CacheDir}
}

// Build runs the build command on a file, or on standard input if the file is -.
func Build(stdin, file string, f Flags) (out string, code int) {
	return Run(stdin, append([]string{"build", file}, f.args()...)...)
}
