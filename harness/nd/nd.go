// Package nd provides the arbitrary inputs of the harnesses. Under the symbolic
// executor every function here is intercepted; natively it replays a recorded input vector.
package nd

import (
	"encoding/hex"
	"fmt"
	"github.com/totegamma/yisp/internal/zzverif/fakeexit"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type stopPath struct{ why string }

// State of the native replay.
var (
	feed     []string
	pos      int
	fails    []string
	trace    []string
	reach    []string
	nass     int
	dir      string
	savedEnv = map[string]string{}
	thorough = os.Getenv("VERIF_TIER") == "thorough"
)

func next(kind byte) string {
	if pos >= len(feed) {
		panic(stopPath{"MISMATCH inputs exhausted"})
	}
	s := feed[pos]
	pos++
	if s == "" || s[0] != kind {
		panic(stopPath{"MISMATCH kind " + string(kind) + " vs " + s})
	}
	return s[1:]
}

func nextInt(kind byte) int64 {
	n, err := strconv.ParseInt(next(kind), 10, 64)
	if err != nil {
		panic(stopPath{"MISMATCH " + err.Error()})
	}
	return n
}

// Int is an arbitrary int.
func Int() int { return int(nextInt('i')) }

// IntRange is an arbitrary int in [lo,hi].
func IntRange(lo, hi int) int { return int(nextInt('i')) }

// Byte is an arbitrary byte.
func Byte() byte { return byte(nextInt('b')) }

// Bool is an arbitrary bool.
func Bool() bool { return nextInt('t') != 0 }

// Float is an arbitrary float64 (any bit pattern).
func Float() float64 { return math.Float64frombits(uint64(nextInt('f'))) }

// Choice is an arbitrary int in [0,n), explored one value per path.
func Choice(n int) int {
	if n <= 1 {
		return 0
	}
	return int(nextInt('c'))
}

// String is an arbitrary byte string of length at most max.
func String(max int) string { return str() }

// StringN is an arbitrary byte string of length n.
func StringN(n int) string { return str() }

// StringOf is an arbitrary string over the alphabet of length between min and max.
func StringOf(alphabet string, min, max int) string { return str() }

func str() string {
	b, err := hex.DecodeString(next('s'))
	if err != nil {
		panic(stopPath{"MISMATCH " + err.Error()})
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stopPath{"ASSUME"})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	nass++
	if !c {
		fails = append(fails, msg)
		panic(stopPath{"FAIL " + msg})
	}
}

// Concrete forks on every value of v (bounded by lo..hi).
func Concrete(v int) int { return v }

// ObserveInt, ObserveStr record values compared between the symbolic and the native run.
func ObserveInt(v int)    { trace = append(trace, "i"+strconv.Itoa(v)) }
func ObserveStr(s string) { trace = append(trace, "s"+hex.EncodeToString([]byte(s))) }
func ObserveBool(b bool) {
	if b {
		trace = append(trace, "t1")
	} else {
		trace = append(trace, "t0")
	}
}

// Reach marks that a point was reached (vacuity witness).
func Reach(tag string) { reach = append(reach, tag) }

// MapOrder makes the next n steps of iterations over maps with several entries arbitrary. With -1 every iteration goes backwards.
func MapOrder(n int) {}

// Thorough reports whether the thorough bounds are in force.
func Thorough() bool { return thorough }

// Size picks the quick or the thorough bound.
func Size(quick, deep int) int {
	if Thorough() {
		return deep
	}
	return quick
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopPath); ok {
				panic(s)
			}
			p = true
		}
	}()
	f()
	return false
}

// Main runs a command in this process and returns its exit status, which is 2 after a panic.
func Main(f func()) (code int) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopPath); ok {
				panic(s)
			}
			code = 2
			if c, ok := r.(fakeexit.Code); ok {
				code = int(c)
			}
		}
	}()
	f()
	return 0
}

// Dir is a scratch directory (of this path only).
func Dir() string {
	if dir == "" {
		d, err := os.MkdirTemp("", "yispverif")
		if err != nil {
			panic(stopPath{"MISMATCH " + err.Error()})
		}
		d, _ = filepath.EvalSymlinks(d)
		dir = d
	}
	return dir
}

// WriteFile puts a file below Dir.
func WriteFile(rel, content string) string {
	p := filepath.Join(Dir(), rel)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		panic(stopPath{"MISMATCH " + err.Error()})
	}
	return p
}

// Mkdir makes a directory below Dir.
func Mkdir(rel string) string {
	p := filepath.Join(Dir(), rel)
	os.MkdirAll(p, 0o755)
	return p
}

// ReadFile reads a file below Dir.
func ReadFile(rel string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(Dir(), rel))
	return string(b), err == nil
}

// Chdir changes the working directory.
func Chdir(dir string) { os.Chdir(dir) }

// Setenv sets an environment variable (undone after the path).
func Setenv(k, v string) {
	if _, ok := savedEnv[k]; !ok {
		savedEnv[k] = os.Getenv(k)
	}
	os.Setenv(k, v)
}

// Stdin provides standard input; reading fails if fail is set.
func Stdin(content string, fail bool) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(stopPath{"MISMATCH " + err.Error()})
	}
	w.WriteString(content)
	w.Close()
	if fail {
		r.Close()
	}
	os.Stdin = r
}

// Stdout runs f and returns what it printed.
func Stdout(f func()) string {
	t, err := os.CreateTemp("", "yispverif")
	if err != nil {
		panic(stopPath{"MISMATCH " + err.Error()})
	}
	defer os.Remove(t.Name())
	old := os.Stdout
	os.Stdout = t
	defer func() { os.Stdout = old }()
	f()
	b, _ := os.ReadFile(t.Name())
	return string(b)
}

// ---------- native driver

// RunNative executes one vector and returns a status line.
func RunNative(h func(), inputs []string) (status string, tr []string) {
	feed, pos, fails, trace, reach, nass = inputs, 0, nil, nil, nil, 0
	dir = ""
	savedEnv = map[string]string{}
	home, _ := os.Getwd()
	stdin := os.Stdin
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopPath); ok {
				status = s.why
			} else {
				status = "PANIC " + strings.ReplaceAll(fmt.Sprint(r), "\n", " ")
			}
		}
		tr = trace
		os.Stdin = stdin
		os.Chdir(home)
		for k, v := range savedEnv {
			os.Setenv(k, v)
		}
		if dir != "" && strings.Contains(dir, "yispverif") {
			os.RemoveAll(dir)
		}
	}()
	h()
	return "OK", trace
}
