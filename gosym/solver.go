package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

var debugQ = os.Getenv("GOSYM_SLOW") != ""

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	gen     uint32
	ndef    int
	vars    map[string]bool
	cache   map[string]cacheEnt
	tt      *TermTab
	Queries int
	Hits    int
	Fast    int // decided on byte sets
	Time    time.Duration
	MaxT    time.Duration
	Unk     int
	timeout int
	bin     string
	dead    bool
	curLim  int
}

type cacheEnt struct {
	res SatRes
	m   map[int32]uint64
}

func NewSolver(tt *TermTab, bin string, timeoutMs int) *Solver {
	s := &Solver{tt: tt, timeout: timeoutMs, bin: bin, cache: map[string]cacheEnt{}}
	s.start()
	return s
}

func (s *Solver) start() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	var wr io.Writer = in
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		f, _ := os.CreateTemp(d, "q*.smt2")
		wr = io.MultiWriter(in, f)
	}
	s.in = bufio.NewWriterSize(wr, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.ndef = 0
	s.vars = map[string]bool{}
	fmt.Fprint(s.in, "(set-logic QF_BVFP)\n")
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
	s.curLim = s.timeout
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.defined == s.gen {
		return
	}
	if t.op == OVar {
		n := refName(t)
		if !s.vars[n] {
			s.vars[n] = true
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortName(t.w))
		}
		t.defined = s.gen
		return
	}
	for _, x := range [...]*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), bodyText(t))
	t.defined = s.gen
	s.ndef++
}

// Check decides the conjunction of cs. On Sat returns values for all variables occurring in cs.
func (s *Solver) Check(cs []*Term, assertion bool) (SatRes, map[int32]uint64) {
	if !assertion {
		if r, m, ok := s.byteCheck(cs); ok {
			s.Fast++
			return r, m
		}
	}
	ids := make([]int32, 0, len(cs))
	for _, c := range cs {
		if c.isC() {
			if c.val == 0 {
				return Unsat, nil
			}
			continue
		}
		ids = append(ids, c.id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(int(i)))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.Hits++
		return e.res, e.m
	}
	r, m := s.check(cs)
	if r == Unknown {
		r, m = s.portfolio(cs)
	}
	if r == Unknown {
		s.Unk++
	} else {
		s.cache[key] = cacheEnt{r, m}
	}
	return r, m
}

func (s *Solver) check(cs []*Term) (SatRes, map[int32]uint64) {
	if s.ndef > 150000 || s.dead {
		s.start()
		s.dead = false
	}
	t0 := time.Now()
	s.Queries++
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxT {
			s.MaxT = d
		}
		if debugQ && d > 15*time.Millisecond {
			var vs []int32
			for _, c := range cs {
				vs = mergeVars(vs, c.vars)
			}
			fmt.Println("SLOW", d, len(cs), vs)
			for _, c := range cs {
				fmt.Println("   ", c.size, bodyText(c), c.vars)
			}
		}
	}()
	var vars []int32
	for _, c := range cs {
		s.define(c)
		vars = mergeVars(vars, c.vars)
	}
	lim := s.timeout
	if hasFP(cs) && lim > 300 {
		lim = 300 // the one-shot solvers below are better at floating point
	}
	if lim != s.curLim {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", lim)
		s.curLim = lim
	}
	s.in.WriteString("(push)\n")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", refName(c))
	}
	s.in.WriteString("(check-sat)\n")
	if s.in.Flush() != nil {
		s.dead = true
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.dead = true
		return Unknown, nil
	}
	switch line {
	case "unsat":
		s.in.WriteString("(pop)\n")
		return Unsat, nil
	case "sat":
	default:
		if strings.HasPrefix(line, "(error") {
			fmt.Println("SOLVER", line)
			s.dead = true
			return Unknown, nil
		}
		s.in.WriteString("(pop)\n")
		return Unknown, nil
	}
	m := map[int32]uint64{}
	if len(vars) > 0 {
		s.in.WriteString("(get-value (")
		// variable widths: find var terms
		names := map[string]int32{}
		var walk func(t *Term)
		seen := map[*Term]bool{}
		walk = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			if t.op == OVar {
				n := refName(t)
				if _, ok := names[n]; !ok {
					names[n] = int32(t.val)
					s.in.WriteString(n + " ")
				}
				return
			}
			walk(t.a)
			walk(t.b)
			walk(t.c)
		}
		for _, c := range cs {
			walk(c)
		}
		s.in.WriteString("))\n")
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil {
			s.dead = true
			return Unknown, nil
		}
		for n, v := range parseValues(txt) {
			if idx, ok := names[n]; ok {
				m[idx] = v
			}
		}
	}
	s.in.WriteString("(pop)\n")
	return Sat, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	depth := 0
	var sb strings.Builder
	started := false
	for {
		b, err := s.out.ReadByte()
		if err == io.EOF {
			return "", err
		}
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string) map[string]uint64 {
	// ((v0_8 #x41) (v1_64 (_ bv5 64)) (v2_0 true))
	res := map[string]uint64{}
	toks := tokenize(txt)
	i := 0
	for i < len(toks) {
		if strings.HasPrefix(toks[i], "v") && i+1 < len(toks) {
			n := toks[i]
			v := toks[i+1]
			switch {
			case strings.HasPrefix(v, "#x"):
				x, _ := strconv.ParseUint(v[2:], 16, 64)
				res[n] = x
			case strings.HasPrefix(v, "#b"):
				x, _ := strconv.ParseUint(v[2:], 2, 64)
				res[n] = x
			case v == "true":
				res[n] = 1
			case v == "false":
				res[n] = 0
			case v == "(" && i+3 < len(toks) && strings.HasPrefix(toks[i+3], "bv"):
				x, _ := strconv.ParseUint(toks[i+3][2:], 10, 64)
				res[n] = x
			}
		}
		i++
	}
	return res
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\r' || c == '\t':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\r\t", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func hasFP(cs []*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		return t.w == WF64 && t.op != OConst || walk(t.a) || walk(t.b) || walk(t.c)
	}
	for _, c := range cs {
		if walk(c) {
			return true
		}
	}
	return false
}

// portfolio decides a query in fresh solver processes, in parallel
func (s *Solver) portfolio(cs []*Term) (SatRes, map[int32]uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxT {
			s.MaxT = d
		}
	}()
	var sb strings.Builder
	names := map[string]int32{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	var order []string
	var widths []uint8
	walk = func(t *Term) {
		if t == nil || seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		if t.op == OVar {
			n := refName(t)
			if _, ok := names[n]; !ok {
				names[n] = int32(t.val)
				order = append(order, n)
				widths = append(widths, t.w)
				fmt.Fprintf(&sb, "(declare-const %s %s)\n", n, sortName(t.w))
			}
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), bodyText(t))
	}
	for _, c := range cs {
		walk(c)
	}
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", refName(c))
	}
	sb.WriteString("(check-sat)\n")
	body := "(set-option :produce-models true)\n(set-logic QF_BVFP)\n" + sb.String()
	if len(order) > 0 {
		body += "(get-value (" + strings.Join(order, " ") + "))\n"
	}
	// The last instance looks only at corner values of the integers. It cannot show that there is no
	// model, but finds one where the general search runs out of time.
	var corner strings.Builder
	for i, n := range order {
		if widths[i] == 64 {
			corner.WriteString("(assert (or")
			for _, v := range cornerValues {
				fmt.Fprintf(&corner, " (= %s #x%016x)", n, v)
			}
			corner.WriteString("))\n")
		}
	}
	limit := time.Duration(s.timeout) * time.Millisecond * 2
	type ans struct {
		r SatRes
		m map[int32]uint64
	}
	ch := make(chan ans, len(fallbackSolvers)+1)
	var cmds []*exec.Cmd
	solvers := fallbackSolvers
	if corner.Len() > 0 {
		solvers = append(solvers[:len(solvers):len(solvers)], []string{solverBin, "-in", "-smt2"})
	}
	for k, f := range solvers {
		c := exec.Command(f[0], f[1:]...)
		restricted := k >= len(fallbackSolvers)
		c.Stdin = strings.NewReader(body)
		if restricted {
			c.Stdin = strings.NewReader(strings.Replace(body, "(check-sat)\n", corner.String()+"(check-sat)\n", 1))
		}
		cmds = append(cmds, c)
		var out strings.Builder
		c.Stdout = &out
		if c.Start() != nil {
			ch <- ans{Unknown, nil}
			continue
		}
		go func() {
			c.Wait()
			txt := out.String()
			line, rest, _ := strings.Cut(strings.TrimSpace(txt), "\n")
			switch strings.TrimSpace(line) {
			case "unsat":
				if restricted {
					ch <- ans{Unknown, nil}
				} else {
					ch <- ans{Unsat, nil}
				}
			case "sat":
				m := map[int32]uint64{}
				for n, v := range parseValues(rest) {
					if idx, ok := names[n]; ok {
						m[idx] = v
					}
				}
				ch <- ans{Sat, m}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
	}
	res := ans{Unknown, nil}
	to := time.After(limit)
loop:
	for range cmds {
		select {
		case a := <-ch:
			if a.r != Unknown {
				res = a
				break loop
			}
		case <-to:
			break loop
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	return res.r, res.m
}

var fallbackSolvers = [][]string{{"z3", "-in", "-smt2"}, {"z3-new", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "--produce-models", "-"}}

var cornerValues = func() []uint64 {
	var out []uint64
	for _, v := range []int64{0, 1, 2, 3, 5, 7, 10, 100, 255, 256, 1 << 31, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 + 1, 1<<63 - 1} {
		out = append(out, uint64(v), uint64(-v))
	}
	return append(out, 1<<63)
}()
