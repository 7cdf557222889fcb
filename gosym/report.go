package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type replayFile struct {
	Property string
	Harness  string
	Status   string
	Inputs   []string
	Decoded  []string
	MapOrder bool
	Where    string
	HowTo    string
}

type report struct {
	id, tier  string
	seed      int64
	states    int64
	trans     int64
	validated int
	samples   []any
	hs        []map[string]any
	funcs     map[string]bool
	viols     []string
	known     []string
	problems  []string
	queries   int
	decided   int64
	solver    float64
	complete  bool
}

func newReport(id, tier string, seed int64) *report {
	return &report{id: id, tier: tier, seed: seed, funcs: map[string]bool{}, complete: true}
}

func decode(in []string) []string {
	var out []string
	for _, s := range in {
		if strings.HasPrefix(s, "s") {
			b, _ := hex.DecodeString(s[1:])
			out = append(out, fmt.Sprintf("%q", b))
		} else {
			out = append(out, s)
		}
	}
	return out
}

func (r *report) add(h harness, e *Engine, n *Native, finds []finding, wall float64) {
	known := strings.HasPrefix(h.name, "Known_")
	confirmed, unconfirmed := 0, 0
	hangLimit := 10 * time.Second
	for _, v := range e.viols {
		tries := 1
		if v.MapOrder {
			tries = 300
		}
		if confirmed >= 3 {
			break
		}
		st := ""
		for i := 0; i < tries; i++ {
			st, _ = n.Run(h.name, v.Inputs, hangLimit)
			if bad(st) {
				break
			}
		}
		if !bad(st) {
			unconfirmed++
			r.problem(fmt.Sprintf("%s: solver counterexample not confirmed natively (%s): %s at %s inputs %v", h.name, st, v.Msg, v.Where, decode(v.Inputs)))
			continue
		}
		confirmed++
		r.confirm(h, v.Inputs, st, v.MapOrder, v.Where, finds)
	}
	if known && confirmed == 0 {
		fmt.Printf("   note: known finding %s no longer reproduces\n", h.opts["finding"])
	}
	// run the model of sampled paths through the real code
	nval, nmis := 0, 0
	if !known {
		lim := 48
		until := time.Now().Add(4 * time.Second)
		for _, s := range e.samples {
			if nval >= lim || time.Now().After(until) {
				break
			}
			st, tr := n.Run(h.name, s.Inputs, hangLimit)
			switch {
			case bad(st):
				if confirmed == 0 {
					r.confirm(h, s.Inputs, st, false, "", finds)
				}
				confirmed++
			case st != "OK":
				nmis++
				r.problem(fmt.Sprintf("%s: path model not followed natively (%s) inputs %v", h.name, st, decode(s.Inputs)))
			case !sameTrace(tr, s.Trace):
				nmis++
				r.problem(fmt.Sprintf("%s: encoding and real code disagree on inputs %v: %v vs %v", h.name, decode(s.Inputs), decode(s.Trace), decode(tr)))
			default:
				nval++
			}
		}
		if e.done == 0 || e.asserts == 0 {
			r.problem(h.name + ": no path reached an assertion within the time budget")
		}
	}
	r.validated += nval
	r.states += int64(e.paths)
	r.trans += e.forks
	r.queries += e.queries
	r.decided += e.asserts
	r.solver += e.solverT.Seconds()
	if !e.complete() {
		r.complete = false
	}
	for i, c := range e.covered {
		if c && i < len(P.names) {
			r.funcs[P.names[i]] = true
		}
	}
	hm := map[string]any{
		"harness": h.name, "bounds": h.doc, "paths_explored": e.paths, "paths_completed": e.done, "pruned_by_assumption": e.pruned,
		"paths_outside_encoding": e.unsups, "paths_at_step_bound": e.limits, "assertions_decided": e.asserts,
		"solver_queries": e.queries, "cached_queries": e.hits, "branches_decided_on_byte_sets": e.fast, "solver_no_answer": e.unknown, "solver_seconds": round(e.solverT.Seconds()),
		"max_query_seconds": round(e.maxQ.Seconds()), "symbolic_variables_max": e.vars, "ssa_steps": e.steps,
		"exhaustive_within_bounds": e.complete(), "time_budget_hit": e.timedOut, "wall_s": round(wall),
		"counterexamples_confirmed": confirmed, "counterexamples_unconfirmed": unconfirmed, "path_models_replayed_natively": nval,
	}
	if nl := e.noteList(); len(nl) > 0 {
		hm["notes"] = nl
	}
	r.hs = append(r.hs, hm)
	for i, s := range e.samples {
		if i < 2 {
			r.samples = append(r.samples, map[string]any{"harness": h.name, "inputs": decode(s.Inputs), "observed": decode(s.Trace)})
		}
	}
}

func sameTrace(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r *report) problem(s string) {
	if len(r.problems) < 40 {
		r.problems = append(r.problems, s)
	}
	fmt.Println("   problem:", s)
}

func (r *report) confirm(h harness, inputs []string, st string, mo bool, where string, finds []finding) {
	if strings.HasPrefix(h.name, "Known_") {
		for _, f := range finds {
			if f.prop == r.id && f.id == h.opts["finding"] {
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", r.id, f.text)
				for _, k := range r.known {
					if k == line {
						return
					}
				}
				r.known = append(r.known, line)
				fmt.Println(line)
				return
			}
		}
	}
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", r.id, h.name, len(r.viols)))
	rf := replayFile{r.id, h.name, st, inputs, decode(inputs), mo, where, "bash /verif/check.sh " + r.id + " quick -replay " + p}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(p, b, 0o644)
	r.viols = append(r.viols, p)
	fmt.Printf("   counterexample: %s %s inputs %v (%s)\n", h.name, st, decode(inputs), where)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, p)
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func (r *report) finish(wall float64, write bool) int {
	var fn []string
	for f := range r.funcs {
		if strings.Contains(f, "totegamma/yisp") && !strings.Contains(f, "zzverif") {
			fn = append(fn, strings.ReplaceAll(f, "github.com/totegamma/yisp/", ""))
		}
	}
	sort.Strings(fn)
	cov := map[string]any{
		"states": r.states, "transitions": r.trans, "traces_validated_against_impl": r.validated, "samples": r.samples,
		"exhaustive": r.complete, "functions_encoded": fn, "functions_encoded_total": len(r.funcs),
		"harnesses": r.hs, "queries_discharged": r.queries, "assertions_decided": r.decided, "solver_seconds": round(r.solver), "solver": solverBin,
		"explanation": "states = symbolic paths, transitions = solver-decided forks between them; each path stands for all inputs that satisfy its path condition",
		"problems":    r.problems, "known_findings": r.known,
	}
	ev := map[string]any{
		"property": r.id, "tier": r.tier, "seed": r.seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall),
		"violations": len(r.viols),
		"assumptions": []string{
			"bounds are those in each harness' 'bounds' text; a harness with exhaustive_within_bounds=false was cut by the time budget, the encoding or the solver as its notes say, and claims only the paths explored",
			"go/ssa translation and the executor's models of runtime, strings, strconv, fmt, reflect, encoding/json, regexp, os and time functions (cross-checked by replaying path models natively)",
			"z3",
		},
	}
	if write {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", r.id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s: %d paths, %d assertions, %d queries, %.1fs solver, %d models replayed, exhaustive=%v, %d violations, wall %.1fs\n", r.id, r.states, r.decided, r.queries, r.solver, r.validated, r.complete, len(r.viols), wall)
	if len(r.viols) > 0 {
		return 1
	}
	return 0
}
