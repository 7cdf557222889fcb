package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

const ndPkg = "github.com/totegamma/yisp/internal/zzverif/nd."
const modelPath = "github.com/totegamma/yisp/internal/zzverif/model"

var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/godebug": true, "internal/poll": true, "syscall": false,
	"reflect": true, "internal/reflectlite": true, "crypto/internal/fips140/check": true, "net/http": true, "crypto/tls": true,
	"time": false, "net": true, "internal/abi": false, "math/rand": true, "math/rand/v2": true,
	"crypto/internal/sysrand": true, "crypto/internal/entropy": true, "runtime/debug": true, "os/signal": true,
	"internal/bisect": true, "context": true, "os/user": true, "github.com/rs/xid": true,
	"golang.org/x/net/http2": true, "crypto/x509": true,
}

func eagerInit(path string) bool {
	if !strings.Contains(strings.SplitN(path, "/", 2)[0], ".") {
		return false
	}
	return strings.HasPrefix(path, "github.com/totegamma/yisp")
}

func A(args []Value, i int) Value { return args[i] }

func tuple(vs ...Value) Value { return Value{p: Tuple(vs)} }

func (w *Worker) mkErr(msg string) Value {
	r := w.callNamed("errors", "New", mkStr(msg))
	return r
}

var intrinsics map[string]Intrinsic
var fastIntr map[string]func(w *Worker, a []Value) (Value, bool)
var redirects = map[string]string{}

func allConc(a []Value) bool {
	for _, v := range a {
		switch v.p.(type) {
		case *Term, *SymStr:
			return false
		case *LazyStr:
			return false
		}
	}
	return true
}

func S(v Value) string { s, _ := strConc(v); return s }

func noop(w *Worker, a []Value) Value { return Value{} }

func init() {
	intrinsics = map[string]Intrinsic{}
	fastIntr = map[string]func(w *Worker, a []Value) (Value, bool){}
	in := intrinsics
	// ----- nd
	nd := func(n string, f Intrinsic) { in[ndPkg+n] = f }
	record := func(w *Worker, kind string, v Value) Value {
		w.specNo("nd")
		w.inputs = append(w.inputs, inputRec{kind, v})
		return v
	}
	nd("Int", func(w *Worker, a []Value) Value { return record(w, "i", Value{p: w.newVar(64, 0)}) })
	nd("IntRange", func(w *Worker, a []Value) Value {
		lo, hi := int64(a[0].n), int64(a[1].n)
		if lo == hi {
			return record(w, "i", Value{n: uint64(lo)})
		}
		init := uint64(0)
		if lo > 0 {
			init = uint64(lo)
		}
		if hi < 0 {
			init = uint64(hi)
		}
		t := w.newVar(64, init)
		w.addPC(w.tt.Sle(w.tt.Const(64, uint64(lo)), t))
		w.addPC(w.tt.Sle(t, w.tt.Const(64, uint64(hi))))
		return record(w, "i", Value{p: t})
	})
	nd("Byte", func(w *Worker, a []Value) Value { return record(w, "b", Value{p: w.newVar(8, 0)}) })
	nd("Bool", func(w *Worker, a []Value) Value { return record(w, "t", Value{p: w.newVar(WBool, 0)}) })
	nd("Float", func(w *Worker, a []Value) Value {
		t := w.newVar(64, 0)
		w.inputs = append(w.inputs, inputRec{"f", Value{p: t}})
		return Value{p: w.tt.mk(OFBits, WF64, t, nil, nil, 0)}
	})
	nd("Choice", func(w *Worker, a []Value) Value {
		n := w.concInt(a[0])
		if n <= 1 {
			return Value{}
		}
		return record(w, "c", mkInt(w.choose(n)))
	})
	symstr := func(w *Worker, n int, init uint64, alpha string) Value {
		b := make([]Value, n)
		for i := range b {
			t := w.newVar(8, init)
			if alpha != "" {
				w.addPC(w.inAlphabet(t, alpha))
			}
			b[i] = Value{p: t}
		}
		return record(w, "s", mkSym(b))
	}
	nd("String", func(w *Worker, a []Value) Value {
		n := w.choose(int(a[0].n) + 1)
		return symstr(w, n, 'a', "")
	})
	nd("StringN", func(w *Worker, a []Value) Value { return symstr(w, int(a[0].n), 'a', "") })
	nd("StringOf", func(w *Worker, a []Value) Value {
		al := S(a[0])
		lo, hi := int(a[1].n), int(a[2].n)
		n := lo + w.choose(hi-lo+1)
		if len(al) == 1 {
			return record(w, "s", mkStr(strings.Repeat(al, n)))
		}
		return symstr(w, n, uint64(al[0]), al)
	})
	nd("Assume", func(w *Worker, a []Value) Value { w.specNo("nd"); w.assume(w.toTerm(a[0], WBool)); return Value{} })
	nd("Assert", func(w *Worker, a []Value) Value {
		w.specNo("nd")
		w.assert(w.toTerm(a[0], WBool), w.lazyText(a[1]))
		return Value{}
	})
	nd("Concrete", func(w *Worker, a []Value) Value { return mkInt(w.concInt(a[0])) })
	nd("ObserveInt", func(w *Worker, a []Value) Value {
		w.specNo("nd")
		w.trace = append(w.trace, inputRec{"i", a[0]})
		return Value{}
	})
	nd("ObserveBool", func(w *Worker, a []Value) Value {
		w.specNo("nd")
		w.trace = append(w.trace, inputRec{"t", a[0]})
		return Value{}
	})
	nd("ObserveStr", func(w *Worker, a []Value) Value {
		w.specNo("nd")
		w.trace = append(w.trace, inputRec{"s", a[0]})
		return Value{}
	})
	nd("Reach", func(w *Worker, a []Value) Value {
		w.specNo("nd")
		w.eng.mu.Lock()
		w.eng.reached[S(a[0])]++
		w.eng.mu.Unlock()
		return Value{}
	})
	nd("MapOrder", func(w *Worker, a []Value) Value {
		w.specNo("nd")
		n := int(int64(a[0].n))
		w.mapOrder = n != 0
		w.mapForks, w.mapRev = n, false
		if n < 0 {
			w.mapForks, w.mapRev = 0, true
		}
		return Value{}
	})
	nd("Thorough", func(w *Worker, a []Value) Value { return mkBool(thorough) })
	nd("Size", func(w *Worker, a []Value) Value {
		if thorough {
			return a[1]
		}
		return a[0]
	})
	nd("Panics", func(w *Worker, a []Value) (res Value) {
		depth, cur := w.depth, w.cur
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tpanic); ok {
					w.depth, w.cur = depth, cur
					res = mkBool(true)
					return
				}
				panic(r)
			}
		}()
		w.callValue(a[0])
		return mkBool(false)
	})
	nd("Main", func(w *Worker, a []Value) (res Value) {
		depth, cur := w.depth, w.cur
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tpanic); ok {
					w.depth, w.cur = depth, cur
					res = mkInt(2)
					return
				}
				if x, ok := r.(abort); ok && x.kind == abExit {
					w.depth, w.cur = depth, cur
					c, _ := strconv.Atoi(x.msg)
					res = mkInt(c)
					return
				}
				panic(r)
			}
		}()
		w.callValue(a[0])
		return mkInt(0)
	})

	// ----- bytealg
	idxByte := func(w *Worker, b []Value, c Value) Value {
		ct := w.toTerm(c, 8)
		r := w.tt.Const(64, ^uint64(0))
		for i := len(b) - 1; i >= 0; i-- {
			r = w.tt.Ite(w.tt.Eq(w.toTerm(b[i], 8), ct), w.tt.Const(64, uint64(i)), r)
		}
		return fromTerm(r, kInt)
	}
	in["internal/bytealg.IndexByte"] = func(w *Worker, a []Value) Value { return idxByte(w, w.sliceVals(a[0]), a[1]) }
	in["internal/bytealg.IndexByteString"] = func(w *Worker, a []Value) Value {
		if s, ok := strConc(a[0]); ok && a[1].p == nil {
			return mkInt(strings.IndexByte(s, byte(a[1].n)))
		}
		return idxByte(w, strBytes(a[0]), a[1])
	}
	lastIdx := func(w *Worker, b []Value, c Value) Value {
		ct := w.toTerm(c, 8)
		r := w.tt.Const(64, ^uint64(0))
		for i := 0; i < len(b); i++ {
			r = w.tt.Ite(w.tt.Eq(w.toTerm(b[i], 8), ct), w.tt.Const(64, uint64(i)), r)
		}
		return fromTerm(r, kInt)
	}
	in["internal/bytealg.LastIndexByte"] = func(w *Worker, a []Value) Value { return lastIdx(w, w.sliceVals(a[0]), a[1]) }
	in["internal/bytealg.LastIndexByteString"] = func(w *Worker, a []Value) Value { return lastIdx(w, strBytes(a[0]), a[1]) }
	count := func(w *Worker, b []Value, c Value) Value {
		ct := w.toTerm(c, 8)
		r := w.tt.Const(64, 0)
		for i := range b {
			r = w.tt.bin(OAdd, r, w.tt.Ite(w.tt.Eq(w.toTerm(b[i], 8), ct), w.tt.Const(64, 1), w.tt.Const(64, 0)))
		}
		return fromTerm(r, kInt)
	}
	in["internal/bytealg.Count"] = func(w *Worker, a []Value) Value { return count(w, w.sliceVals(a[0]), a[1]) }
	in["internal/bytealg.CountString"] = func(w *Worker, a []Value) Value { return count(w, strBytes(a[0]), a[1]) }
	in["internal/bytealg.Equal"] = func(w *Worker, a []Value) Value {
		return w.boolVal(w.strEq(mkSym(w.sliceVals(a[0])), mkSym(w.sliceVals(a[1]))), false)
	}
	in["bytes.Equal"] = in["internal/bytealg.Equal"]
	compare := func(w *Worker, x, y Value) Value {
		if s, ok := strConc(x); ok {
			if t, ok := strConc(y); ok {
				return mkInt(strings.Compare(s, t))
			}
		}
		lt := w.strLess(x, y)
		eq := w.strEq(x, y)
		return fromTerm(w.tt.Ite(lt, w.tt.Const(64, ^uint64(0)), w.tt.Ite(eq, w.tt.Const(64, 0), w.tt.Const(64, 1))), kInt)
	}
	in["internal/bytealg.Compare"] = func(w *Worker, a []Value) Value {
		return compare(w, mkSym(w.sliceVals(a[0])), mkSym(w.sliceVals(a[1])))
	}
	in["internal/bytealg.CompareString"] = func(w *Worker, a []Value) Value { return compare(w, a[0], a[1]) }
	in["strings.Compare"] = in["internal/bytealg.CompareString"]
	in["internal/bytealg.abigen_runtime_cmpstring"] = in["internal/bytealg.CompareString"]
	index := func(w *Worker, s, sub []Value) Value {
		r := w.tt.Const(64, ^uint64(0))
		for i := len(s) - len(sub); i >= 0; i-- {
			m := w.tt.T
			for j := range sub {
				m = w.tt.And(m, w.tt.Eq(w.toTerm(s[i+j], 8), w.toTerm(sub[j], 8)))
				if m.isC() && m.val == 0 {
					break
				}
			}
			r = w.tt.Ite(m, w.tt.Const(64, uint64(i)), r)
		}
		return fromTerm(r, kInt)
	}
	in["strings.Index"] = func(w *Worker, a []Value) Value {
		if s, ok := strConc(a[0]); ok {
			if t, ok := strConc(a[1]); ok {
				return mkInt(strings.Index(s, t))
			}
		}
		return index(w, strBytes(a[0]), strBytes(a[1]))
	}
	in["internal/bytealg.IndexString"] = in["strings.Index"]
	in["internal/stringslite.Index"] = in["strings.Index"]
	in["strings.Contains"] = func(w *Worker, a []Value) Value {
		r := in["strings.Index"](w, a)
		if r.p == nil {
			return mkBool(int64(r.n) >= 0)
		}
		return w.boolVal(w.tt.Slt(r.p.(*Term), w.tt.Const(64, 0)), true)
	}
	in["bytes.Index"] = func(w *Worker, a []Value) Value { return index(w, w.sliceVals(a[0]), w.sliceVals(a[1])) }
	in["internal/bytealg.Index"] = in["bytes.Index"]
	in["internal/bytealg.MakeNoZero"] = func(w *Worker, a []Value) Value {
		n := w.concInt(a[0])
		return Value{p: &SliceV{obj: w.newObj(n, nil), len: n, cap: n, esz: 1}}
	}
	in["internal/abi.NoEscape"] = func(w *Worker, a []Value) Value { return a[0] }
	in["internal/abi.Escape"] = func(w *Worker, a []Value) Value { return a[0] }
	in["internal/race.Enabled"] = noop

	// strings fast paths (concrete operands only)
	fast := func(n string, f func(w *Worker, a []Value) (Value, bool)) { fastIntr[n] = f }
	ss := func(n string, f func(string) string) {
		fast(n, func(w *Worker, a []Value) (Value, bool) {
			if !allConc(a) {
				return Value{}, false
			}
			return mkStr(f(S(a[0]))), true
		})
	}
	ss("strings.ToLower", strings.ToLower)
	ss("strings.ToUpper", strings.ToUpper)
	ss("strings.TrimSpace", strings.TrimSpace)
	ss("strconv.Quote", strconv.Quote)
	s3 := func(n string, f func(a, b, c string) string) {
		fast(n, func(w *Worker, a []Value) (Value, bool) {
			if !allConc(a) {
				return Value{}, false
			}
			return mkStr(f(S(a[0]), S(a[1]), S(a[2]))), true
		})
	}
	s3("strings.ReplaceAll", strings.ReplaceAll)
	s2b := func(n string, f func(a, b string) bool) {
		fast(n, func(w *Worker, a []Value) (Value, bool) {
			if !allConc(a) {
				return Value{}, false
			}
			return mkBool(f(S(a[0]), S(a[1]))), true
		})
	}
	s2b("strings.HasPrefix", strings.HasPrefix)
	s2b("strings.HasSuffix", strings.HasSuffix)
	s2b("strings.EqualFold", strings.EqualFold)
	r1 := func(n string, f func(r rune) bool) {
		fast(n, func(w *Worker, a []Value) (Value, bool) {
			if a[0].p != nil {
				return Value{}, false
			}
			return mkBool(f(rune(int64(a[0].n)))), true
		})
	}
	r1("unicode.IsSpace", unicode.IsSpace)
	r1("unicode.IsLetter", unicode.IsLetter)
	r1("unicode.IsDigit", unicode.IsDigit)
	r1("unicode.IsUpper", unicode.IsUpper)
	r1("unicode.IsLower", unicode.IsLower)
	r1("unicode.IsPrint", unicode.IsPrint)
	r1("strconv.IsPrint", strconv.IsPrint)
	r1("unicode.IsControl", unicode.IsControl)
	rr := func(n string, f func(r rune) rune) {
		fast(n, func(w *Worker, a []Value) (Value, bool) {
			if a[0].p != nil {
				return Value{}, false
			}
			return Value{n: uint64(int64(f(rune(int64(a[0].n)))))}, true
		})
	}
	rr("unicode.ToLower", unicode.ToLower)
	rr("unicode.ToUpper", unicode.ToUpper)
	rr("unicode.SimpleFold", unicode.SimpleFold)
	fast("unicode/utf8.DecodeRuneInString", func(w *Worker, a []Value) (Value, bool) {
		s, ok := strConc(a[0])
		if !ok {
			return Value{}, false
		}
		r, n := utf8.DecodeRuneInString(s)
		return tuple(Value{n: uint64(int64(r))}, mkInt(n)), true
	})
	fast("unicode/utf8.ValidString", func(w *Worker, a []Value) (Value, bool) {
		s, ok := strConc(a[0])
		if !ok {
			return Value{}, false
		}
		return mkBool(utf8.ValidString(s)), true
	})
	fast("unicode/utf8.RuneCountInString", func(w *Worker, a []Value) (Value, bool) {
		s, ok := strConc(a[0])
		if !ok {
			return Value{}, false
		}
		return mkInt(utf8.RuneCountInString(s)), true
	})
	// bits
	b64 := func(n string, f func(uint64) int) {
		fast("math/bits."+n, func(w *Worker, a []Value) (Value, bool) {
			if a[0].p != nil {
				return Value{}, false
			}
			return mkInt(f(a[0].n)), true
		})
	}
	b64("TrailingZeros64", bits.TrailingZeros64)
	b64("TrailingZeros", func(x uint64) int { return bits.TrailingZeros64(x) })
	b64("LeadingZeros64", bits.LeadingZeros64)
	b64("Len64", bits.Len64)
	b64("Len", bits.Len64)
	b64("Len32", bits.Len64)
	fast("math/bits.Mul64", func(w *Worker, a []Value) (Value, bool) {
		if !allConc(a) {
			return Value{}, false
		}
		h, l := bits.Mul64(a[0].n, a[1].n)
		return tuple(Value{n: h}, Value{n: l}), true
	})

	// ----- strconv
	fast("strconv.ParseFloat", func(w *Worker, a []Value) (Value, bool) {
		if !allConc(a) || S(a[0]) == "" {
			return Value{}, false
		}
		x, err := strconv.ParseFloat(S(a[0]), int(a[1].n))
		if err != nil {
			return Value{}, false // take the interpreted path for the error value
		}
		return tuple(mkF(x), Value{}), true
	})
	in["strconv.FormatFloat"] = func(w *Worker, a []Value) Value {
		x := w.concScalar(a[0], kF64)
		return mkStr(strconv.FormatFloat(f(x.n), byte(a[1].n), int(int64(a[2].n)), int(a[3].n)))
	}
	in["strconv.AppendFloat"] = func(w *Worker, a []Value) Value {
		x := w.concScalar(a[1], kF64)
		return w.appendSlice(a[0], mkStr(strconv.FormatFloat(f(x.n), byte(a[2].n), int(int64(a[3].n)), int(a[4].n))), 1)
	}
	in["strconv.Itoa"] = func(w *Worker, a []Value) Value { return w.itoa(a[0]) }
	fmtInt := func(w *Worker, v Value, base Value, signed bool) (Value, bool) {
		if v.p == nil && base.p == nil {
			if signed {
				return mkStr(strconv.FormatInt(int64(v.n), int(base.n))), true
			}
			return mkStr(strconv.FormatUint(v.n, int(base.n))), true
		}
		if base.p == nil && base.n == 10 && signed {
			return w.itoa(v), true
		}
		return Value{}, false
	}
	fast("strconv.FormatInt", func(w *Worker, a []Value) (Value, bool) { return fmtInt(w, a[0], a[1], true) })
	fast("strconv.FormatUint", func(w *Worker, a []Value) (Value, bool) { return fmtInt(w, a[0], a[1], false) })
	fast("strconv.AppendInt", func(w *Worker, a []Value) (Value, bool) {
		s, ok := fmtInt(w, a[1], a[2], true)
		if !ok {
			return Value{}, false
		}
		return w.appendSlice(a[0], s, 1), true
	})
	fast("strconv.AppendUint", func(w *Worker, a []Value) (Value, bool) {
		s, ok := fmtInt(w, a[1], a[2], false)
		if !ok {
			return Value{}, false
		}
		return w.appendSlice(a[0], s, 1), true
	})

	// ----- math
	in["math.Float64bits"] = func(w *Worker, a []Value) Value {
		if t, ok := a[0].p.(*Term); ok {
			if t.op == OFBits {
				return fromTerm(t.a, kUint)
			}
			return Value{n: w.concTerm(t)}
		}
		return Value{n: a[0].n}
	}
	in["math.Float64frombits"] = func(w *Worker, a []Value) Value {
		if t, ok := a[0].p.(*Term); ok {
			return fromTerm(w.tt.mapLeaves(t, func(l *Term) *Term {
				if l.isC() {
					return w.tt.Const(WF64, l.val)
				}
				return w.tt.mk(OFBits, WF64, l, nil, nil, 0)
			}), kF64)
		}
		return Value{n: a[0].n}
	}
	in["internal/strconv.float64frombits"] = in["math.Float64frombits"]
	in["internal/strconv.float64bits"] = in["math.Float64bits"]
	in["math.Float32bits"] = func(w *Worker, a []Value) Value {
		x := w.concScalar(a[0], kF32)
		return Value{n: uint64(math.Float32bits(float32(f(x.n))))}
	}
	in["math.Float32frombits"] = func(w *Worker, a []Value) Value {
		x := w.concScalar(a[0], kUint)
		return mkF(float64(math.Float32frombits(uint32(x.n))))
	}
	in["math.Abs"] = func(w *Worker, a []Value) Value {
		if t, ok := a[0].p.(*Term); ok {
			if t.op == OFBits {
				return Value{p: w.tt.mk(OFBits, WF64, w.tt.bin(OBAnd, t.a, w.tt.Const(64, 1<<63-1)), nil, nil, 0)}
			}
			return fromTerm(w.tt.Ite(w.tt.FBin(OFLt, t, w.tt.Const(WF64, 0)), w.tt.FNeg(t), t), kF64)
		}
		return mkF(math.Abs(f(a[0].n)))
	}
	rnd := func(n string, mode uint64, f1 func(float64) float64) {
		g := func(w *Worker, a []Value) Value {
			if t, ok := a[0].p.(*Term); ok {
				return Value{p: w.tt.mk(OFRound, WF64, t, nil, nil, mode)}
			}
			return mkF(f1(f(a[0].n)))
		}
		in["math."+n] = g
		in["math."+strings.ToLower(n)] = g
		in["math.arch"+n] = g
	}
	rnd("Floor", 0, math.Floor)
	rnd("Ceil", 1, math.Ceil)
	rnd("Trunc", 2, math.Trunc)
	f1c := func(n string, f1 func(float64) float64) {
		in["math."+n] = func(w *Worker, a []Value) Value {
			x := w.concScalar(a[0], kF64)
			return mkF(f1(f(x.n)))
		}
	}
	f1c("Sqrt", math.Sqrt)
	f1c("Log", math.Log)
	f1c("Log10", math.Log10)
	f1c("Log2", math.Log2)
	f1c("Exp", math.Exp)
	f1c("Round", math.Round)
	in["math.Mod"] = func(w *Worker, a []Value) Value {
		x := w.concScalar(a[0], kF64)
		y := w.concScalar(a[1], kF64)
		return mkF(math.Mod(f(x.n), f(y.n)))
	}
	in["math.Remainder"] = func(w *Worker, a []Value) Value {
		x := w.concScalar(a[0], kF64)
		y := w.concScalar(a[1], kF64)
		return mkF(math.Remainder(f(x.n), f(y.n)))
	}
	in["math.Pow"] = func(w *Worker, a []Value) Value {
		x := w.concScalar(a[0], kF64)
		y := w.concScalar(a[1], kF64)
		return mkF(math.Pow(f(x.n), f(y.n)))
	}
	in["math.FMA"] = func(w *Worker, a []Value) Value {
		x, y, z := w.concScalar(a[0], kF64), w.concScalar(a[1], kF64), w.concScalar(a[2], kF64)
		return mkF(math.FMA(f(x.n), f(y.n), f(z.n)))
	}

	// ----- sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched",
		"sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).register", "internal/godebug.setUpdate", "internal/godebug.registerMetric",
		"runtime.LockOSThread", "runtime.UnlockOSThread", "runtime.AddCleanup", "os.runtime_beforeExit", "os.runtime_args", "syscall.runtime_envs",
		"crypto/internal/boring/sig.StandardCrypto", "crypto/internal/boring/sig.BoringCrypto", "crypto/internal/fips140only.RecordApproved",
		"internal/runtime/maps.rand", "log.init"} {
		in[n] = noop
	}
	in["(*sync.Mutex).TryLock"] = func(w *Worker, a []Value) Value { return mkBool(true) }
	in["(*internal/godebug.Setting).Value"] = noop
	in["internal/godebug.New"] = func(w *Worker, a []Value) Value {
		return Value{p: w.newObj(8, nil)}
	}
	in["(*sync.Pool).Get"] = func(w *Worker, a []Value) Value {
		w.specNo("pool")
		o := a[0].p.(*Obj)
		st := TT.poolOff
		if st == 0 {
			t := P.byPath["sync"].Type("Pool").Type().Underlying().(*types.Struct)
			st = fieldOffsets(t)[t.NumFields()-1]
			TT.poolOff = st
		}
		fn := o.get(int(a[0].n) + st)
		if fn.p == nil {
			return Value{}
		}
		return w.callValue(fn)
	}
	in["(*sync.Pool).Put"] = noop
	in["(*sync.Once).Do"] = func(w *Worker, a []Value) Value {
		o := a[0].p.(*Obj)
		if o.get(int(a[0].n)).n == 0 && o.get(int(a[0].n)).p == nil {
			w.specNo("once")
			w.set(o, int(a[0].n), Value{n: 1, p: onceDone{}})
			// the first cell may belong to a noCopy/atomic field; only its truth matters here
			w.callValue(a[1])
		}
		return Value{}
	}
	// sync.Map
	smap := func(w *Worker, v Value, create bool) *MapObj {
		o := v.p.(*Obj)
		c := o.get(int(v.n))
		if m, ok := c.p.(*MapObj); ok {
			return m
		}
		if !create {
			return nil
		}
		m := w.newMap(TT.RT(types.NewInterfaceType(nil, nil)))
		w.set(o, int(v.n), Value{p: m})
		return m
	}
	in["(*sync.Map).Load"] = func(w *Worker, a []Value) Value {
		m := smap(w, a[0], false)
		if m == nil {
			return tuple(Value{}, Value{})
		}
		v, ok := w.mapGet(Value{p: m}, a[1], m.kt)
		return tuple(v, mkBool(ok))
	}
	in["(*sync.Map).Store"] = func(w *Worker, a []Value) Value {
		m := smap(w, a[0], true)
		w.mapSet(m, a[1], a[2], m.kt)
		return Value{}
	}
	in["(*sync.Map).LoadOrStore"] = func(w *Worker, a []Value) Value {
		m := smap(w, a[0], true)
		if v, ok := w.mapGet(Value{p: m}, a[1], m.kt); ok {
			return tuple(v, mkBool(true))
		}
		w.mapSet(m, a[1], a[2], m.kt)
		return tuple(a[2], Value{})
	}

	// ----- sync/atomic
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "Bool", "32", "64", "", "uintptr", "p", "Acq", "Acq64", "Rel", "8"} {
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			ty := ty
			in[pk+"Load"+ty] = func(w *Worker, a []Value) Value { return w.load(a[0], 1, false) }
			in[pk+"Store"+ty] = func(w *Worker, a []Value) Value { w.store(a[0], a[1], 1, false); return Value{} }
			in[pk+"Swap"+ty] = func(w *Worker, a []Value) Value {
				o := w.load(a[0], 1, false)
				w.store(a[0], a[1], 1, false)
				return o
			}
			in[pk+"Add"+ty] = func(w *Worker, a []Value) Value {
				o := w.load(a[0], 1, false)
				if o.p != nil || a[1].p != nil {
					panic(unsup("symbolic atomic add"))
				}
				n := Value{n: o.n + a[1].n}
				switch ty {
				case "Int32":
					n.n = uint64(int64(int32(n.n)))
				case "Uint32":
					n.n = uint64(uint32(n.n))
				}
				w.store(a[0], n, 1, false)
				return n
			}
			in[pk+"CompareAndSwap"+ty] = func(w *Worker, a []Value) Value {
				o := w.load(a[0], 1, false)
				if o.n == a[1].n && o.p == a[1].p {
					w.store(a[0], a[2], 1, false)
					return mkBool(true)
				}
				return Value{}
			}
		}
	}
	in["(*sync/atomic.Value).Load"] = func(w *Worker, a []Value) Value { return w.load(a[0], 1, false) }
	in["(*sync/atomic.Value).Store"] = func(w *Worker, a []Value) Value { w.store(a[0], a[1], 1, false); return Value{} }

	// ----- runtime / os / time
	in["runtime.Callers"] = noop
	in["runtime.Caller"] = func(w *Worker, a []Value) Value { return tuple(Value{}, Value{}, Value{}, Value{}) }
	in["runtime.FuncForPC"] = noop
	in["runtime.GOMAXPROCS"] = func(w *Worker, a []Value) Value { return mkInt(1) }
	in["runtime.NumCPU"] = func(w *Worker, a []Value) Value { return mkInt(1) }
	in["runtime/debug.SetGCPercent"] = noop
	in[zz+"fakeexit.Exit"] = func(w *Worker, a []Value) Value { w.specNo("exit"); panic(abort{abExit, fmt.Sprint(int64(a[0].n))}) }
	in["os.Exit"] = func(w *Worker, a []Value) Value { w.specNo("exit"); panic(abort{abExit, fmt.Sprint(int64(a[0].n))}) }
	in["os.Getenv"] = noop
	in["os.LookupEnv"] = func(w *Worker, a []Value) Value { return tuple(Value{}, Value{}) }
	in["syscall.Getenv"] = func(w *Worker, a []Value) Value { return tuple(Value{}, Value{}) }
	in["os.Environ"] = noop
	in["time.Now"] = noop
	in["time.now"] = func(w *Worker, a []Value) Value { return tuple(Value{}, Value{}, Value{}) }
	in["time.runtimeNano"] = noop
	in["time.runtimeNow"] = func(w *Worker, a []Value) Value { return tuple(Value{}, Value{}, Value{}) }
	in["time.runtimeIsBubbled"] = noop
	in["time.Since"] = noop
	in["time.Sleep"] = noop
	in["os.NewFile"] = func(w *Worker, a []Value) Value {
		o := w.newObj(4, nil)
		if t := P.byPath["os"]; t != nil {
			o.typ = t.Type("File").Type()
		}
		o.spec = fmt.Sprintf("fd%d", a[0].n)
		return Value{p: o}
	}
	in["syscall.Getpagesize"] = func(w *Worker, a []Value) Value { return mkInt(4096) }
	in["os.Getpid"] = func(w *Worker, a []Value) Value { return mkInt(1) }

	// ----- crypto, ids
	in["crypto/sha256.Sum256"] = func(w *Worker, a []Value) Value {
		sym := mkSym(w.sliceVals(a[0]))
		s, conc := strConc(sym)
		out := make(Agg, 32)
		if !conc {
			// uninterpreted: the same bytes have the same digest; counterexamples are replayed with the real function
			key := "sha256"
			bs := make([]byte, 0, 8)
			for _, b := range strBytes(sym) {
				if t, ok := b.p.(*Term); ok {
					key += fmt.Sprintf(",t%d", t.id)
					bs = append(bs, byte(w.evalM(t)))
				} else {
					key += fmt.Sprintf(",%d", b.n)
					bs = append(bs, byte(b.n))
				}
			}
			if r, ok := w.ctx[key]; ok {
				return r.(Value)
			}
			h := sha256.Sum256(bs)
			for i := range out {
				out[i].p = w.newVar(8, uint64(h[i])) // a replayed path keeps its own model
			}
			w.ctx[key] = Value{p: out}
			return Value{p: out}
		}
		h := sha256.Sum256([]byte(s))
		for i := range out {
			out[i].n = uint64(h[i])
		}
		return Value{p: out}
	}
	in["github.com/rs/xid.New"] = func(w *Worker, a []Value) Value {
		w.specNo("xid")
		w.xid++
		out := make(Agg, 12)
		out[0].n = 0x5f
		out[10].n = uint64(w.xid >> 8 & 255)
		out[11].n = uint64(w.xid & 255)
		return Value{p: out}
	}
	in["(github.com/rs/xid.ID).String"] = func(w *Worker, a []Value) Value {
		return mkStr(fmt.Sprintf("xid%017d", int(aggGet(a[0], 10).n)<<8|int(aggGet(a[0], 11).n)))
	}

	// ----- errors
	in["errors.As"] = func(w *Worker, a []Value) Value { return mkBool(w.errorsAs(a[0], a[1])) }
	in["errors.Is"] = func(w *Worker, a []Value) Value { return w.boolVal(w.errorsIs(a[0], a[1]), false) }

	// ----- fmt
	in["fmt.Sprintf"] = func(w *Worker, a []Value) Value { return w.sprintf(a[0], w.sliceVals(a[1])) }
	in["fmt.Sprint"] = func(w *Worker, a []Value) Value { return w.sprint(w.sliceVals(a[0]), false) }
	in["fmt.Sprintln"] = func(w *Worker, a []Value) Value { return w.sprint(w.sliceVals(a[0]), true) }
	in["fmt.Errorf"] = func(w *Worker, a []Value) Value { return w.errorf(a[0], w.sliceVals(a[1])) }
	fwrite := func(w *Worker, wr Value, s Value) Value {
		w.specNo("write")
		ifc := wr.p.(*Iface)
		if o, ok := ifc.v.p.(*Obj); ok {
			if sp, ok := o.spec.(string); ok && strings.HasPrefix(sp, "fd") {
				w.fdWrite(sp, s)
				return tuple(Value{}, Value{})
			}
		}
		r, ok := w.callMethod(ifc, "Write", w.mkByteSlice(force(s)))
		if !ok {
			panic(unsup("Fprintf to " + ifc.t.String()))
		}
		return r
	}
	in["fmt.Fprintf"] = func(w *Worker, a []Value) Value { return fwrite(w, a[0], w.sprintf(a[1], w.sliceVals(a[2]))) }
	in["fmt.Fprint"] = func(w *Worker, a []Value) Value { return fwrite(w, a[0], w.sprint(w.sliceVals(a[1]), false)) }
	in["fmt.Fprintln"] = func(w *Worker, a []Value) Value { return fwrite(w, a[0], w.sprint(w.sliceVals(a[1]), true)) }
	in["fmt.Printf"] = func(w *Worker, a []Value) Value {
		w.fdWrite("fd1", w.sprintf(a[0], w.sliceVals(a[1])))
		return tuple(Value{}, Value{})
	}
	in["fmt.Print"] = func(w *Worker, a []Value) Value {
		w.fdWrite("fd1", w.sprint(w.sliceVals(a[0]), false))
		return tuple(Value{}, Value{})
	}
	in["fmt.Println"] = func(w *Worker, a []Value) Value {
		w.fdWrite("fd1", w.sprint(w.sliceVals(a[0]), true))
		return tuple(Value{}, Value{})
	}
	in["fmt.Appendf"] = func(w *Worker, a []Value) Value {
		return w.appendSlice(a[0], force(w.sprintf(a[1], w.sliceVals(a[2]))), 1)
	}
	in["(*os.File).Write"] = func(w *Worker, a []Value) Value {
		o := a[0].p.(*Obj)
		if sp, ok := o.spec.(string); ok {
			w.specNo("write")
			w.fdWrite(sp, mkSym(w.sliceVals(a[1])))
			return tuple(mkInt(sliceLen(a[1])), Value{})
		}
		return w.callNamed(modelPkg, "FileWrite", a...)
	}
	in["(*os.File).WriteString"] = func(w *Worker, a []Value) Value {
		o := a[0].p.(*Obj)
		if sp, ok := o.spec.(string); ok {
			w.specNo("write")
			w.fdWrite(sp, a[1])
			return tuple(mkInt(strLen(a[1])), Value{})
		}
		return w.callNamed(modelPkg, "FileWrite", a[0], w.mkByteSlice(force(a[1])))
	}

	// ----- regexp
	in["regexp.Compile"] = func(w *Worker, a []Value) Value {
		s := w.concStrN(a[0], 32)
		if _, err := regexp.Compile(s); err != nil {
			return tuple(Value{}, w.mkErr(err.Error()))
		}
		return tuple(w.mkRegexp(s), Value{})
	}
	in["regexp.MustCompile"] = func(w *Worker, a []Value) Value {
		s := w.concStrN(a[0], 32)
		if _, err := regexp.Compile(s); err != nil {
			panic(tpanic{mkIface(TT.RT(types.Typ[types.String]), mkStr(err.Error())), "regexp.MustCompile"})
		}
		return w.mkRegexp(s)
	}
	in["regexp.MatchString"] = func(w *Worker, a []Value) Value {
		s := w.concStrN(a[0], 32)
		if _, err := regexp.Compile(s); err != nil {
			return tuple(Value{}, w.mkErr(err.Error()))
		}
		return tuple(w.reMatch(s, a[1]), Value{})
	}
	in["(*regexp.Regexp).MatchString"] = func(w *Worker, a []Value) Value {
		return w.reMatch(w.reExpr(a[0]), a[1])
	}
	in["(*regexp.Regexp).Match"] = func(w *Worker, a []Value) Value {
		return w.reMatch(w.reExpr(a[0]), mkSym(w.sliceVals(a[1])))
	}
	in["(*regexp.Regexp).String"] = func(w *Worker, a []Value) Value { return mkStr(w.reExpr(a[0])) }
	in["(*regexp.Regexp).ReplaceAllString"] = func(w *Worker, a []Value) Value {
		return mkStr(reGet(w.reExpr(a[0])).ReplaceAllString(w.concStr(a[1]), w.concStr(a[2])))
	}
	in["(*regexp.Regexp).FindStringSubmatch"] = func(w *Worker, a []Value) Value {
		r := reGet(w.reExpr(a[0])).FindStringSubmatch(w.concStr(a[1]))
		if r == nil {
			return Value{}
		}
		out := make([]Value, len(r))
		for i := range r {
			out[i] = mkStr(r[i])
		}
		return w.mkSlice(out)
	}
	in["(*regexp.Regexp).FindStringIndex"] = func(w *Worker, a []Value) Value {
		r := reGet(w.reExpr(a[0])).FindStringIndex(w.concStr(a[1]))
		if r == nil {
			return Value{}
		}
		return w.mkSlice([]Value{mkInt(r[0]), mkInt(r[1])})
	}
	in["regexp.QuoteMeta"] = nil
	delete(in, "regexp.QuoteMeta")
	initReflect()
	initModel()
}

type onceDone struct{}

func (w *Worker) inAlphabet(t *Term, alpha string) *Term {
	var set [256]bool
	for i := 0; i < len(alpha); i++ {
		set[alpha[i]] = true
	}
	return w.inSet(t, &set)
}

func (w *Worker) inSet(t *Term, set *[256]bool) *Term {
	r := w.tt.F
	for i := 0; i < 256; {
		if !set[i] {
			i++
			continue
		}
		j := i
		for j < 256 && set[j] {
			j++
		}
		var c *Term
		if j-i == 1 {
			c = w.tt.Eq(t, w.tt.Const(8, uint64(i)))
		} else {
			c = w.tt.And(w.tt.Ule(w.tt.Const(8, uint64(i)), t), w.tt.Ule(t, w.tt.Const(8, uint64(j-1))))
		}
		r = w.tt.Or(r, c)
		i = j
	}
	return r
}

// itoa renders a (symbolic) int in base 10: the number of digits is decided by branching, the digits are
// fresh variables defined by the equation sum(d_i*10^i) = |v|.
func (w *Worker) itoa(v Value) Value {
	if v.p == nil {
		return mkStr(strconv.FormatInt(int64(v.n), 10))
	}
	t := v.p.(*Term)
	if t.w < 64 {
		t = w.tt.Sext(t, 64)
	}
	key := fmt.Sprintf("itoa%d", t.id)
	if r, ok := w.ctx[key]; ok {
		return r.(Value)
	}
	neg := w.branch(w.tt.Slt(t, w.tt.Const(64, 0)))
	m := t
	if neg {
		m = w.tt.Neg(t)
	}
	// digits
	n := 1
	p10 := uint64(10)
	for n < 19 && !w.branch(w.tt.Ult(m, w.tt.Const(64, p10))) {
		n++
		p10 *= 10
	}
	mv := w.evalM(m)
	ds := make([]Value, n)
	sum := w.tt.Const(64, 0)
	for i := n - 1; i >= 0; i-- {
		d := w.newVar(8, 0)
		w.setModel(d, mv%10)
		ds[i] = Value{p: w.tt.bin(OAdd, d, w.tt.Const(8, '0'))}
		w.addPC(w.tt.Ult(d, w.tt.Const(8, 10)))
		sum = w.tt.bin(OAdd, w.tt.bin(OMul, w.tt.Zext(d, 64), w.tt.Const(64, pow10(n-1-i))), sum)
		mv /= 10
	}
	w.addPC(w.tt.Eq(sum, m))
	r := mkSym(ds)
	if neg {
		r = strConcat(mkStr("-"), r)
	}
	w.ctx[key] = r
	return r
}

func pow10(n int) uint64 {
	r := uint64(1)
	for ; n > 0; n-- {
		r *= 10
	}
	return r
}

// setModel gives a fresh variable the value its definition demands under the current model
func (w *Worker) setModel(t *Term, v uint64) { w.model[t.val] = v }

// ---------- errors

func (w *Worker) unwrapAll(err Value) []Value {
	ifc := err.p.(*Iface)
	f := findMethod(ifc.t.t, nil, "Unwrap")
	if f == nil || len(f.res) != 1 {
		return nil
	}
	r := w.call(f, []Value{ifc.v}, nil, nil)
	if _, ok := f.res[0].Underlying().(*types.Slice); ok {
		return w.sliceVals(r)
	}
	if r.p == nil {
		return nil
	}
	return []Value{r}
}

func (w *Worker) errorsAs(err, target Value) bool {
	if err.p == nil {
		return false
	}
	ti := target.p.(*Iface)
	pt := ti.t.t.Underlying().(*types.Pointer)
	et := TT.RT(pt.Elem())
	_, isI := pt.Elem().Underlying().(*types.Interface)
	e := err.p.(*Iface)
	if isI {
		if w.implements(e.t, et) {
			w.store(ti.v, err, 1, false)
			return true
		}
	} else if e.t == et {
		w.store(ti.v, e.v, cellsOf(pt.Elem()), isAgg(pt.Elem()))
		return true
	}
	if f := findMethod(e.t.t, nil, "As"); f != nil {
		if r := w.call(f, []Value{e.v, target}, nil, nil); r.p == nil && r.n != 0 {
			return true
		}
	}
	for _, u := range w.unwrapAll(err) {
		if u.p != nil && w.errorsAs(u, target) {
			return true
		}
	}
	return false
}

func (w *Worker) errorsIs(err, target Value) *Term {
	if err.p == nil || target.p == nil {
		return w.tt.Bool(err.p == nil && target.p == nil)
	}
	e, t := err.p.(*Iface), target.p.(*Iface)
	if e.t == t.t && types.Comparable(e.t.t) {
		if c := w.eqVals(e.t.t, e.v, t.v); c.isC() && c.val != 0 {
			return c
		}
	}
	if f := findMethod(e.t.t, nil, "Is"); f != nil {
		if r := w.call(f, []Value{e.v, target}, nil, nil); r.p == nil && r.n != 0 {
			return w.tt.T
		}
	}
	for _, u := range w.unwrapAll(err) {
		if u.p != nil {
			if c := w.errorsIs(u, target); c.isC() && c.val != 0 {
				return c
			}
		}
	}
	return w.tt.F
}

// ---------- standard output

func (w *Worker) fdWrite(fd string, s Value) {
	w.specNo("write")
	switch fd {
	case "fd1":
		old, _ := w.ctx["stdout"].(Value)
		w.ctx["stdout"] = strConcat(old, s)
	case "fd2":
	}
}

// ---------- regexp

var reCache = map[string]*regexp.Regexp{}

func (w *Worker) mkRegexp(s string) Value {
	o := w.newObj(20, nil)
	o.spec = reSpec(s)
	return Value{p: o}
}

type reSpec string

func (w *Worker) reExpr(v Value) string {
	if v.p == nil {
		w.nilDeref()
	}
	return string(v.p.(*Obj).spec.(reSpec))
}

func reGet(s string) *regexp.Regexp {
	P.bmu.Lock()
	defer P.bmu.Unlock()
	if r, ok := reCache[s]; ok {
		return r
	}
	r := regexp.MustCompile(s)
	reCache[s] = r
	return r
}
