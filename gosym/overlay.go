package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// fakedImports are packages whose effects must not reach the sandbox: in an overlay copy of the
// repository's sources their import is replaced by a recorder with the same API. Both the symbolic
// and the native run use the same overlay.
var fakedImports = map[string]string{
	"os/exec":  zz + "fakeexec",
	"net/http": zz + "fakehttp",
}

// overlayContents maps a path in /repo to the text used instead of it.
func overlayContents() (map[string][]byte, error) {
	ov := map[string][]byte{}
	base := filepath.Join(verifDir, "harness")
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(base, p)
		b, err := os.ReadFile(p)
		ov[filepath.Join(repoDir, "internal", "zzverif", rel)] = b
		return err
	})
	if err != nil {
		return nil, err
	}
	err = filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == "testdata" || n == "node_modules" || n == "zzverif" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ImportsOnly)
		if err != nil {
			return nil
		}
		out := string(src)
		off := 0
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			to, ok := fakedImports[path]
			if !ok {
				continue
			}
			pos := fs.Position(im.Path.Pos()).Offset + off
			repl := strconv.Quote(to)
			if im.Name == nil {
				repl = path[strings.LastIndex(path, "/")+1:] + " " + repl
			}
			out = out[:pos] + repl + out[pos+len(im.Path.Value):]
			off += len(repl) - len(im.Path.Value)
		}
		out = fakeExits(out)
		if out != string(src) {
			ov[p] = []byte(out)
		}
		return nil
	})
	return ov, err
}

// fakeExits makes calls of os.Exit end the command instead of the process.
func fakeExits(src string) string {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		return src
	}
	name := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"os"` {
			name = "os"
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	if name == "" || name == "." || name == "_" {
		return src
	}
	var at []int
	ast.Inspect(f, func(n ast.Node) bool {
		if sel, ok := n.(*ast.SelectorExpr); ok && sel.Sel.Name == "Exit" {
			if id, ok := sel.X.(*ast.Ident); ok && id.Name == name {
				at = append(at, fs.Position(id.Pos()).Offset)
			}
		}
		return true
	})
	if len(at) == 0 {
		return src
	}
	sort.Sort(sort.Reverse(sort.IntSlice(at)))
	for _, o := range at {
		src = src[:o] + "zzfakeexit" + src[o+len(name):]
	}
	o := fs.Position(f.Name.End()).Offset
	return src[:o] + "; import zzfakeexit " + strconv.Quote(zz+"fakeexit") + src[o:] + "\nvar _ = " + name + ".Args\n"
}

// nativeDriver is the program that replays input vectors against the real code.
func nativeDriver(pkg string, names []string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, `package main

import (
	"bufio"
	"encoding/json"
	"os"

	"%snd"
	h "%s%s"
)

var table = map[string]func(){
`, zz, zz, pkg)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", n, n)
	}
	sb.WriteString(`}

type req struct {
	H      string
	Inputs []string
}
type resp struct {
	Status string
	Trace  []string
}

func main() {
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	out := os.NewFile(4, "out")
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	for {
		var r req
		if dec.Decode(&r) != nil {
			return
		}
		st, tr := nd.RunNative(table[r.H], r.Inputs)
		if enc.Encode(resp{st, tr}) != nil {
			return
		}
	}
}
`)
	return sb.String()
}

// buildNative compiles the replay program with the Go toolchain.
func buildNative(ov map[string][]byte, pkg string, names []string, scratch string) (string, error) {
	repl := map[string]string{}
	i := 0
	put := func(target string, b []byte) error {
		i++
		p := filepath.Join(scratch, fmt.Sprintf("f%d.go", i))
		repl[target] = p
		return os.WriteFile(p, b, 0o644)
	}
	for t, b := range ov {
		if err := put(t, b); err != nil {
			return "", err
		}
	}
	if err := put(filepath.Join(repoDir, "internal", "zzverif", "zzmain", "main.go"), []byte(nativeDriver(pkg, names))); err != nil {
		return "", err
	}
	oj := filepath.Join(scratch, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(oj, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(scratch, "replay")
	c := exec.Command("go", "build", "-buildvcs=false", "-overlay", oj, "-o", bin, zz+"zzmain")
	c.Dir = repoDir
	c.Env = append(os.Environ(), "CGO_ENABLED=0")
	if o, err := c.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the replay program: %v\n%s", err, o)
	}
	return bin, nil
}
