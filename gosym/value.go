package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is the universal runtime value. Scalars: n (normalised: signed types sign-extended,
// unsigned zero-extended, floats as float64 bits) with p==nil, or p=*Term when symbolic.
// The zero Value is the zero value of every type.
type Value struct {
	n uint64
	p any
}

type Agg []Value // struct or array, flattened
type Tuple []Value

type Obj struct {
	cells []Value // lazily grown up to size
	size  int
	epoch int32
	id    int64
	typ   types.Type
	spec  any
}

type SliceV struct {
	obj      *Obj
	off      int // in cells
	len, cap int // in elements
	esz      int
}

type SymStr struct {
	b []Value // bytes, p==nil or *Term(w8)
}

type Iface struct {
	t *RT
	v Value
}

type Closure struct {
	fn   *Func
	bind []Value
	nat  func(w *Worker, args []Value) Value // native closures
}

type SymPtr struct { // pointer into array with symbolic element index (in range)
	obj    *Obj
	off    int
	esz    int
	idx    *Term
	n      int // number of elements
	add    int // extra cell offset
	kc     kclass
	kw     uint8
	isBool bool
}

type MapEnt struct {
	k, v Value
	live bool
	sym  bool
}
type MapObj struct {
	ents  []MapEnt
	idx   map[any]int // concrete keys -> index
	nsym  int
	count int
	epoch int32
	id    int64
	kt    *RT
}

type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
}

type MapIter struct {
	m      *MapObj
	keys   []int // remaining entry indices
	n0     int
	noFork bool
}
type StrIter struct {
	s   Value
	pos int
}

// RT is a canonical runtime type
type RT struct {
	t       types.Type
	id      int
	cells   int
	kind    types.Type // underlying
	mu      sync.Mutex
	methods map[string]*Func
	elem    *RT
	key     *RT
	str     string
	obj     *Obj
}

type Types struct {
	mu      sync.Mutex
	tab     typeutil.Map
	n       int
	cellC   sync.Map // types.Type -> int
	offC    sync.Map // *types.Struct -> []int
	poolOff int
}

var TT = &Types{}

func (ts *Types) RT(t types.Type) *RT {
	t = types.Unalias(t)
	ts.mu.Lock()
	defer ts.mu.Unlock()
	if r := ts.tab.At(t); r != nil {
		return r.(*RT)
	}
	ts.n++
	r := &RT{t: t, id: ts.n, kind: t.Underlying(), methods: map[string]*Func{}}
	ts.tab.Set(t, r)
	return r
}

func (r *RT) Cells() int {
	if r.cells == 0 {
		r.cells = cellsOf(r.t) + 1
	}
	return r.cells - 1
}

func (r *RT) String() string { return r.t.String() }

func cellsOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if c, ok := TT.cellC.Load(u); ok {
			return c.(int)
		}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += cellsOf(u.Field(i).Type())
		}
		TT.cellC.Store(u, n)
		return n
	case *types.Array:
		return int(u.Len()) * cellsOf(u.Elem())
	case *types.Tuple:
		return 1
	}
	return 1
}

func fieldOffsets(u *types.Struct) []int {
	if c, ok := TT.offC.Load(u); ok {
		return c.([]int)
	}
	offs := make([]int, u.NumFields()+1)
	n := 0
	for i := 0; i < u.NumFields(); i++ {
		offs[i] = n
		n += cellsOf(u.Field(i).Type())
	}
	offs[u.NumFields()] = n
	TT.offC.Store(u, offs)
	return offs
}

// isAgg: value of t is represented as Agg (struct/array) in registers
func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// scalar classification
type kclass uint8

const (
	kOther kclass = iota
	kBool
	kInt  // signed
	kUint // unsigned
	kF64
	kF32
	kString
	kComplex
)

func classify(t types.Type) (kclass, uint8) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kOther, 0
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kBool, 0
	case types.Int, types.Int64, types.UntypedInt:
		return kInt, 64
	case types.Int8:
		return kInt, 8
	case types.Int16:
		return kInt, 16
	case types.Int32, types.UntypedRune:
		return kInt, 32
	case types.Uint, types.Uint64, types.Uintptr:
		return kUint, 64
	case types.Uint8:
		return kUint, 8
	case types.Uint16:
		return kUint, 16
	case types.Uint32:
		return kUint, 32
	case types.Float64, types.UntypedFloat:
		return kF64, WF64
	case types.Float32:
		return kF32, WF64
	case types.String, types.UntypedString:
		return kString, 0
	case types.Complex128, types.Complex64:
		return kComplex, 0
	}
	return kOther, 0
}

func norm(v uint64, k kclass, w uint8) uint64 {
	switch k {
	case kInt:
		if w < 64 {
			return uint64(sx(v, w))
		}
	case kUint:
		if w < 64 {
			return v & mask(w)
		}
	case kF32:
		return fb(float64(float32(f(v))))
	}
	return v
}

func mkInt(i int) Value   { return Value{n: uint64(i)} }
func mkBool(b bool) Value { return Value{n: b2u(b)} }
func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{p: s}
}
func mkF(x float64) Value { return Value{n: math.Float64bits(x)} }

func (v Value) isSym() bool { _, ok := v.p.(*Term); return ok }

func (v Value) term() *Term { t, _ := v.p.(*Term); return t }

// toTerm converts a scalar to a term of width w
func (w *Worker) toTerm(v Value, width uint8) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return w.tt.Const(width, v.n)
}

// fromTerm normalises a term into a Value
func fromTerm(t *Term, k kclass) Value {
	if t.isC() {
		return Value{n: norm(t.val, k, t.w)}
	}
	return Value{p: t}
}

// ---------- strings

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case *LazyStr:
		return strLen(force(v))
	}
	panic(fmt.Sprintf("strLen %T", v.p))
}

func strByte(v Value, i int) Value {
	switch s := v.p.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	case *LazyStr:
		return strByte(force(v), i)
	}
	panic("strByte")
}

func strSub(v Value, lo, hi int) Value {
	switch s := v.p.(type) {
	case nil:
		return v
	case string:
		return mkStr(s[lo:hi])
	case *SymStr:
		return mkSym(s.b[lo:hi])
	case *LazyStr:
		return strSub(force(v), lo, hi)
	}
	panic("strSub")
}

// mkSym makes a string from bytes, concretising representation when possible. Does not alias-mutate b.
func mkSym(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	for _, x := range b {
		if x.p != nil {
			return Value{p: &SymStr{b[:len(b):len(b)]}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.n)
	}
	return Value{p: string(bs)}
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i].n = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.b
	case *LazyStr:
		return strBytes(force(v))
	}
	panic("strBytes")
}

func strConc(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *LazyStr:
		return strConc(force(v))
	}
	return "", false
}

func isLazy(v Value) bool { l, ok := v.p.(*LazyStr); return ok && !l.done }

func strConcat(a, b Value) Value {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return Value{p: x + y}
	}
	if isLazy(a) || isLazy(b) {
		return Value{p: &LazyStr{f: func() Value { return strConcat(force(a), force(b)) }}}
	}
	xb, yb := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(xb)+len(yb))
	out = append(out, xb...)
	out = append(out, yb...)
	return mkSym(out)
}

// ---------- memory

func (w *Worker) newObj(size int, t types.Type) *Obj {
	w.objSeq++
	o := &Obj{size: size, epoch: w.epoch, id: w.objSeq, typ: t}
	if size <= 32 {
		o.cells = make([]Value, size)
	}
	return o
}

func (o *Obj) get(i int) Value {
	if i < len(o.cells) {
		return o.cells[i]
	}
	return Value{}
}

func (w *Worker) set(o *Obj, i int, v Value) {
	if o.epoch != w.epoch {
		if w.initDepth == 0 && w.epoch != 0 {
			w.journal = append(w.journal, undo{o: o, i: i, old: o.get(i)})
		}
	}
	if i >= len(o.cells) {
		if i >= o.size {
			panic(fmt.Sprintf("cell out of range %d/%d %v", i, o.size, o.typ))
		}
		n := len(o.cells)*2 + 16
		if n <= i {
			n = i + 1
		}
		if n > o.size {
			n = o.size
		}
		nc := make([]Value, n)
		copy(nc, o.cells)
		o.cells = nc
	}
	o.cells[i] = v
}

type undo struct {
	o   *Obj
	i   int
	old Value
	m   *MapObj
	ms  MapObj
}

func (w *Worker) touchMap(m *MapObj) {
	if m.epoch != w.epoch && w.initDepth == 0 && w.epoch != 0 {
		save := *m
		w.journal = append(w.journal, undo{m: m, ms: save})
		// deep-copy so that the saved one stays intact
		m.ents = append([]MapEnt(nil), m.ents...)
		ni := make(map[any]int, len(m.idx))
		for k, v := range m.idx {
			ni[k] = v
		}
		m.idx = ni
		m.epoch = w.epoch
	}
}

func (w *Worker) rollback() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		u := &w.journal[i]
		if u.m != nil {
			*u.m = u.ms
		} else {
			u.o.cells[u.i] = u.old
		}
	}
	w.journal = w.journal[:0]
}

func (w *Worker) loadCells(o *Obj, off, n int) Value {
	out := make(Agg, n)
	if off < len(o.cells) {
		copy(out, o.cells[off:min(len(o.cells), off+n)])
	}
	return Value{p: out}
}

func (w *Worker) storeCells(o *Obj, off, n int, v Value) {
	if v.p == nil {
		for i := 0; i < n; i++ {
			if off+i < len(o.cells) {
				w.set(o, off+i, Value{})
			}
		}
		return
	}
	a := v.p.(Agg)
	for i := 0; i < n; i++ {
		w.set(o, off+i, a[i])
	}
}

func aggGet(v Value, i int) Value {
	if v.p == nil {
		return Value{}
	}
	return v.p.(Agg)[i]
}

func aggSub(v Value, off, n int) Value {
	if v.p == nil {
		return Value{}
	}
	return Value{p: v.p.(Agg)[off : off+n : off+n]}
}

// typed field extraction from Agg
func aggField(v Value, off int, t types.Type) Value {
	if isAgg(t) {
		return aggSub(v, off, cellsOf(t))
	}
	return aggGet(v, off)
}

func sliceOf(v Value) *SliceV {
	if v.p == nil {
		return nil
	}
	return v.p.(*SliceV)
}

func sliceLen(v Value) int {
	if v.p == nil {
		return 0
	}
	return v.p.(*SliceV).len
}

func (w *Worker) mkSlice(vals []Value) Value { // single-cell elements
	o := w.newObj(len(vals), nil)
	o.cells = append([]Value(nil), vals...)
	return Value{p: &SliceV{obj: o, len: len(vals), cap: len(vals), esz: 1}}
}

func (w *Worker) mkByteSlice(v Value) Value { return w.mkSlice(strBytes(v)) }

func (w *Worker) sliceVals(v Value) []Value { // single-cell elements
	s := sliceOf(v)
	if s == nil {
		return nil
	}
	out := make([]Value, s.len)
	for i := range out {
		out[i] = s.obj.get(s.off + i)
	}
	return out
}

func mkIface(t *RT, v Value) Value { return Value{p: &Iface{t, v}} }

// ---------- describing

func (w *Worker) describe(v Value) string {
	switch p := v.p.(type) {
	case nil:
		return fmt.Sprint(int64(v.n))
	case *Term:
		return "sym:" + strings.TrimSpace(refName(p))
	case string:
		return fmt.Sprintf("%q", p)
	case *Iface:
		return fmt.Sprintf("%s(%s)", p.t, w.describe(p.v))
	}
	return fmt.Sprintf("%T", v.p)
}

var _ = ssa.NaiveForm
