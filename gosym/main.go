package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
	thorough bool
)

const zz = "github.com/totegamma/yisp/internal/zzverif/"

func loadProgram(ov map[string][]byte, pkgs ...string) (map[string]*ssa.Package, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: ov,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod"),
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, zz+p)
	}
	pats = append(pats, zz+"model")
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var lerr error
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if lerr == nil {
				lerr = e
			}
		}
	})
	if lerr != nil {
		return nil, nil, lerr
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P = NewProg(prog)
	out := map[string]*ssa.Package{}
	for i, sp := range spkgs {
		if sp != nil {
			out[strings.TrimPrefix(ps[i].PkgPath, zz)] = sp
		}
	}
	P.model = out["model"]
	return out, ps, nil
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "error:", err)
	os.Exit(2)
}

type harness struct {
	name string
	fn   *ssa.Function
	opts map[string]string
	doc  string
}

// harnesses lists the Check_ functions of a package with the options in their doc comments
func harnesses(sp *ssa.Package, pp *packages.Package) []harness {
	docs := map[string]string{}
	plain := map[string]string{}
	order := map[string]int{}
	for _, f := range pp.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				if fd.Doc != nil {
					var sb strings.Builder
					for _, c := range fd.Doc.List {
						sb.WriteString(c.Text + "\n")
					}
					docs[fd.Name.Name] = sb.String()
					plain[fd.Name.Name] = strings.TrimSpace(strings.ReplaceAll(fd.Doc.Text(), "\n", " "))
				}
				order[fd.Name.Name] = int(fd.Pos())
			}
		}
	}
	var out []harness
	for n, m := range sp.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !(strings.HasPrefix(n, "Check_") || strings.HasPrefix(n, "Known_")) {
			continue
		}
		h := harness{name: n, fn: fn, opts: map[string]string{}, doc: plain[n]}
		for _, l := range strings.Split(docs[n], "\n") {
			if s, ok := strings.CutPrefix(strings.TrimSpace(l), "//verif:"); ok {
				for _, kv := range strings.Fields(s) {
					k, v, _ := strings.Cut(kv, "=")
					h.opts[k] = v
				}
			}
		}
		out = append(out, h)
	}
	sort.Slice(out, func(i, j int) bool { return order[out[i].name] < order[out[j].name] })
	return out
}

// finding is one line of known-findings.txt: "finding: property=<id> id=<key> <text>".
type finding struct{ prop, id, text string }

func readFindings() []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		s, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		p, rest, _ := strings.Cut(s, " ")
		rest, _ = strings.CutPrefix(rest, "id=")
		id, text, _ := strings.Cut(rest, " ")
		out = append(out, finding{p, id, text})
	}
	return out
}

func main() {
	prop := flag.String("prop", "", "property id")
	only := flag.String("run", "", "run only harnesses containing this text")
	tier := flag.String("tier", "quick", "quick or thorough")
	verbose := flag.Bool("v", false, "verbose")
	nw := flag.Int("j", 8, "workers")
	budget := flag.Duration("t", 0, "total exploration time")
	noNative := flag.Bool("nonative", false, "no native replay")
	replay := flag.String("replay", "", "re-run the counterexample in this file natively")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "verification directory")
	flag.Parse()
	thorough = *tier == "thorough"
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t0 := time.Now()
	id := strings.ToUpper(*prop)
	pk := strings.ToLower(*prop)
	total := *budget
	if total == 0 {
		total = 40 * time.Second
		if thorough {
			total = 9 * time.Minute
		}
	}
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(err)
	}
	code := 2
	defer func() {
		os.RemoveAll(scratch)
		os.Exit(code)
	}()
	ov, err := overlayContents()
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return
	}
	sps, ps, err := loadProgram(ov, pk)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error: the tree does not type-check:", err)
		return
	}
	var hs []harness
	var names []string
	for _, p := range ps {
		if strings.TrimPrefix(p.PkgPath, zz) == pk {
			for _, h := range harnesses(sps[pk], p) {
				names = append(names, h.name)
				if *only == "" || strings.Contains(h.name, *only) {
					hs = append(hs, h)
				}
			}
		}
	}
	loadS := time.Since(t0).Seconds()
	type built struct {
		bin string
		err error
	}
	nb := make(chan built, 1)
	if !*noNative {
		go func() {
			bin, err := buildNative(ov, pk, names, scratch)
			nb <- built{bin, err}
		}()
	}
	var nat *Native
	native := func() *Native {
		if nat == nil {
			b := <-nb
			if b.err != nil {
				fmt.Fprintln(os.Stderr, "error:", b.err)
				os.RemoveAll(scratch)
				os.Exit(2)
			}
			nat = &Native{bin: b.bin, scratch: scratch}
		}
		return nat
	}
	defer func() {
		if nat != nil {
			nat.stop()
		}
	}()
	if *replay != "" {
		code = doReplay(native(), *replay)
		return
	}
	fmt.Printf("%s: %d harnesses, loaded in %.1fs\n", id, len(hs), loadS)
	rep := newReport(id, *tier, seed)
	finds := readFindings()
	end := time.Now().Add(total)
	left := 0.0
	weight := func(h harness) float64 {
		if f, err := strconv.ParseFloat(h.opts["weight"], 64); err == nil {
			return f
		}
		return 1
	}
	for _, h := range hs {
		left += weight(h)
	}
	// what light harnesses leave over goes to the heavy ones
	sort.SliceStable(hs, func(i, j int) bool { return weight(hs[i]) < weight(hs[j]) })
	es := make([]*Engine, len(hs))
	wall := make([]float64, len(hs))
	explore := func(i int, share time.Duration) {
		es[i].deadline = time.Now().Add(share)
		t1 := time.Now()
		es[i].Run(*nw)
		wall[i] += time.Since(t1).Seconds()
	}
	for i, h := range hs {
		e := NewEngine(P.Func(h.fn), h.name)
		es[i] = e
		e.verbose = *verbose
		e.seed = seed
		share := time.Duration(float64(time.Until(end)) * weight(h) / left)
		if share < 500*time.Millisecond {
			share = 500 * time.Millisecond
		}
		left -= weight(h)
		if s, err := strconv.Atoi(h.opts["maxsteps"]); err == nil {
			e.maxSteps = s
		}
		e.solverMs = 3000
		if thorough {
			e.solverMs = 20000
		}
		if s, err := strconv.Atoi(h.opts["solverms"]); err == nil {
			e.solverMs = s
		}
		explore(i, share)
	}
	// the time that is left goes to those that were cut off
	for round := 0; round < 3; round++ {
		left = 0
		for i, h := range hs {
			if es[i].pending() {
				left += weight(h)
			}
		}
		for i, h := range hs {
			if rest := time.Until(end); es[i].pending() && rest > time.Second {
				share := time.Duration(float64(rest) * weight(h) / left)
				left -= weight(h)
				explore(i, share)
			}
		}
	}
	for i, h := range hs {
		e := es[i]
		fmt.Printf("%s: paths=%d done=%d pruned=%d unsup=%d limit=%d asserts=%d queries=%d(hits %d, bytes %d, unk %d) solver=%.1fs max=%.2fs wall=%.1fs steps=%d maxsteps=%d complete=%v cand=%d\n",
			h.name, e.paths, e.done, e.pruned, e.unsups, e.limits, e.asserts, e.queries, e.hits, e.fast, e.unknown, e.solverT.Seconds(), e.maxQ.Seconds(), wall[i], e.steps, e.maxPathSteps, e.complete(), len(e.viols))
		for _, n := range e.noteList() {
			fmt.Println("   note:", n)
		}
		if *noNative {
			for _, v := range e.viols {
				fmt.Println("   cand", v.Kind, v.Msg, v.Where, v.Inputs)
			}
			continue
		}
		rep.add(h, e, native(), finds, wall[i])
	}
	if *noNative {
		code = 0
		return
	}
	code = rep.finish(time.Since(t0).Seconds(), *only == "")
}

func doReplay(n *Native, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i := 0; i < 300; i++ {
		st, tr := n.Run(r.Harness, r.Inputs, 60*time.Second)
		if bad(st) || !r.MapOrder || i == 299 {
			fmt.Println(st, tr)
			if bad(st) {
				return 1
			}
			return 0
		}
	}
	return 0
}
