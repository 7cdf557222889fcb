package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	k uint8 // 0 none 1 reg 2 const 3 global
	i int32
}

type opcode uint8

const (
	iNop opcode = iota
	iAlloc
	iBin
	iCmp
	iNot
	iNeg
	iCompl
	iLoad
	iStore
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iCall
	iInvoke
	iCallDyn
	iBuiltin
	iDefer
	iGo
	iConvert
	iMove
	iMakeIface
	iTypeAssert
	iExtract
	iMakeClosure
	iMakeMap
	iMakeSlice
	iSlice
	iMapUpdate
	iRange
	iNext
	iIf
	iJump
	iReturn
	iPanic
	iRunDefers
	iRecv
	iSend
	iMakeChan
	iArrPtr
	iUnsup
	iEqGen
)

type Instr struct {
	op      opcode
	tok     token.Token
	k       kclass
	w       uint8
	k2      kclass
	w2      uint8
	flag    bool
	flag2   bool
	dst     int32
	n, n2   int
	a, b, c opnd
	args    []opnd
	t       types.Type
	rt      *RT
	fn      *Func
	aux     any
	ssa     ssa.Instruction
}

type phiMove struct {
	dst int32
	src opnd
}

type Block struct {
	idx     int
	ins     []Instr
	phis    map[int][]phiMove // by pred index in Preds list... keyed by pred block idx
	succs   []*Block
	preds   []*Block
	merge   *mergeInfo
	phiKind []vkind
	mdone   bool
	hasPhi  bool
}

type Func struct {
	ssa     *ssa.Function
	name    string
	pkg     *ssa.Package
	pkgIdx  int
	once    sync.Once
	blocks  []*Block
	nregs   int
	consts  []Value
	nparam  int
	nfree   int
	recov   *Block
	hasDef  bool
	intr    Intrinsic
	fast    func(w *Worker, a []Value) (Value, bool)
	redir   *Func
	nores   bool
	res     []types.Type
	intrOK  bool
	pure    int8 // 0 unknown 1 pure 2 not
	gid     int32
	mu      sync.Mutex
	ipdom   []*Block
	resKind vkind
}

type Intrinsic func(w *Worker, args []Value) Value

type Prog struct {
	prog    *ssa.Program
	mu      sync.Mutex
	bmu     sync.Mutex
	funcs   map[*ssa.Function]*Func
	names   []string
	globals map[*ssa.Global]int32
	glist   []*ssa.Global
	pkgIdx  map[*ssa.Package]int
	pkgs    []*ssa.Package
	byPath  map[string]*ssa.Package
	model   *ssa.Package
	redir   map[string]string
}

var P *Prog

func NewProg(p *ssa.Program) *Prog {
	pr := &Prog{prog: p, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]int32{}, pkgIdx: map[*ssa.Package]int{}, byPath: map[string]*ssa.Package{}}
	for _, pk := range p.AllPackages() {
		pr.pkgIdx[pk] = len(pr.pkgs)
		pr.pkgs = append(pr.pkgs, pk)
		pr.byPath[pk.Pkg.Path()] = pk
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				pr.globals[g] = int32(len(pr.glist))
				pr.glist = append(pr.glist, g)
			}
		}
	}
	return pr
}

func funcPkg(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if fn.Parent() != nil {
		return funcPkg(fn.Parent())
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return P.byPath[obj.Pkg().Path()]
	}
	return nil
}

func (p *Prog) Func(fn *ssa.Function) *Func {
	p.mu.Lock()
	f := p.funcs[fn]
	if f != nil {
		p.mu.Unlock()
		return f
	}
	f = &Func{ssa: fn, name: fn.String(), pkgIdx: -1, gid: int32(len(p.funcs))}
	if o := fn.Origin(); o != nil {
		f.name = o.String()
	}
	f.pkg = funcPkg(fn)
	if f.pkg != nil {
		f.pkgIdx = p.pkgIdx[f.pkg]
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		f.res = append(f.res, res.At(i).Type())
	}
	p.funcs[fn] = f
	p.names = append(p.names, f.name)
	p.mu.Unlock()
	return f
}

// prepare binds intrinsics and compiles
func (f *Func) prepare() {
	f.once.Do(func() {
		if in, ok := intrinsics[f.name]; ok {
			f.intr = in
			return
		}
		f.fast = fastIntr[f.name]
		if r, ok := redirects[f.name]; ok {
			if P.model != nil {
				if m := P.model.Func(r); m != nil {
					f.redir = P.Func(m)
					return
				}
				panic("missing model function " + r)
			}
		}
		if f.pkg != nil && f.pkg.Pkg.Path() == "reflect" {
			if in := reflectIntrinsic(f); in != nil {
				f.intr = in
				return
			}
		}
		if f.ssa.Blocks == nil {
			name := f.name
			f.intr = func(w *Worker, args []Value) Value {
				panic(unsup("no body: " + name))
			}
			return
		}
		f.compile()
	})
}

type comp struct {
	f    *Func
	regs map[ssa.Value]int32
	cmap map[*ssa.Const]int32
}

func (c *comp) addConst(v Value) opnd {
	c.f.consts = append(c.f.consts, v)
	return opnd{2, int32(len(c.f.consts) - 1)}
}

func constValue(k *ssa.Const) Value {
	if k.Value == nil {
		return Value{}
	}
	kc, w := classify(k.Type())
	switch kc {
	case kBool:
		return mkBool(constant.BoolVal(k.Value))
	case kInt:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: norm(uint64(i), kc, w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: norm(u, kc, w)}
	case kUint:
		v := constant.ToInt(k.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return Value{n: norm(u, kc, w)}
		}
		i, _ := constant.Int64Val(v)
		return Value{n: norm(uint64(i), kc, w)}
	case kF64:
		x, _ := constant.Float64Val(k.Value)
		return mkF(x)
	case kF32:
		x, _ := constant.Float32Val(k.Value)
		return mkF(float64(x))
	case kString:
		if k.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return mkStr(string(rune(i)))
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return Value{p: complex(re, im)}
	}
	panic(fmt.Sprintf("const %v %v", k, k.Type()))
}

func (c *comp) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return c.addConst(constValue(v))
	case *ssa.Function:
		return c.addConst(Value{p: &Closure{fn: P.Func(v)}})
	case *ssa.Global:
		P.mu.Lock()
		gi, ok := P.globals[v]
		P.mu.Unlock()
		if !ok {
			panic("unknown global " + v.String())
		}
		return opnd{3, gi}
	case *ssa.Builtin:
		return opnd{}
	}
	if r, ok := c.regs[v]; ok {
		return opnd{1, r}
	}
	panic(fmt.Sprintf("no reg for %T %v in %v", v, v, c.f.name))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	// type-param core etc. not supported
	return t
}

func (f *Func) compile() {
	fn := f.ssa
	c := &comp{f: f, regs: map[ssa.Value]int32{}}
	n := int32(0)
	for _, p := range fn.Params {
		c.regs[p] = n
		n++
	}
	f.nparam = int(n)
	for _, p := range fn.FreeVars {
		c.regs[p] = n
		n++
	}
	f.nfree = int(n) - f.nparam
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				f.hasDef = true
			}
		}
	}
	f.nregs = int(n)
	f.blocks = make([]*Block, len(fn.Blocks))
	for i := range fn.Blocks {
		f.blocks[i] = &Block{idx: i}
	}
	for i, b := range fn.Blocks {
		bl := f.blocks[i]
		for _, s := range b.Succs {
			bl.succs = append(bl.succs, f.blocks[s.Index])
		}
		for _, s := range b.Preds {
			bl.preds = append(bl.preds, f.blocks[s.Index])
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				if bl.phis == nil {
					bl.phis = map[int][]phiMove{}
				}
				bl.hasPhi = true
				bl.phiKind = append(bl.phiKind, kindOf(phi.Type()))
				for pi, e := range phi.Edges {
					// note: a pred may occur twice (both If edges); same values then must be equal per edge index.
					bl.phis[pi] = append(bl.phis[pi], phiMove{c.regs[phi], c.op(e)})
				}
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			bl.ins = append(bl.ins, c.instr(in))
		}
	}
	if len(f.res) == 1 {
		f.resKind = kindOf(f.res[0])
	} else if len(f.res) > 1 {
		for _, t := range f.res {
			f.resKind.tup = append(f.resKind.tup, kindOf(t))
		}
	}
	if fn.Recover != nil {
		f.recov = f.blocks[fn.Recover.Index]
	}
}

func canSymPtr(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !canSymPtr(r) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (c *comp) call(in *Instr, cc *ssa.CallCommon) {
	for _, a := range cc.Args {
		in.args = append(in.args, c.op(a))
	}
	if cc.IsInvoke() {
		in.op = iInvoke
		in.a = c.op(cc.Value)
		in.aux = cc.Method
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		in.op = iCall
		in.fn = P.Func(v)
	case *ssa.Builtin:
		in.op = iBuiltin
		in.aux = v.Name()
		if len(cc.Args) > 0 {
			in.t = cc.Args[0].Type()
		}
		if v.Name() == "ssa:wrapnilchk" {
			in.aux = "wrapnilchk"
		}
		in.n = 1
		switch v.Name() {
		case "append", "copy", "clear":
			if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
				in.n = cellsOf(s.Elem())
			}
		}
	default:
		in.op = iCallDyn
		in.a = c.op(cc.Value)
	}
}

func (c *comp) instr(si ssa.Instruction) Instr {
	in := Instr{dst: -1, ssa: si}
	if v, ok := si.(ssa.Value); ok {
		in.dst = c.regs[v]
	}
	switch s := si.(type) {
	case *ssa.Alloc:
		in.op = iAlloc
		in.t = deref(s.Type())
		in.n = cellsOf(in.t)
	case *ssa.BinOp:
		in.a, in.b = c.op(s.X), c.op(s.Y)
		in.tok = s.Op
		in.k, in.w = classify(s.X.Type())
		in.k2, in.w2 = classify(s.Y.Type())
		in.t = s.X.Type()
		in.op = iBin
		switch s.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			in.op = iCmp
			if in.k == kOther || in.k == kComplex {
				in.op = iEqGen
				if _, ok := s.X.Type().Underlying().(*types.Interface); ok {
					in.t = s.X.Type()
					if _, ok2 := s.Y.Type().Underlying().(*types.Interface); !ok2 {
						in.flag2 = true
					}
				} else if _, ok := s.Y.Type().Underlying().(*types.Interface); ok {
					in.flag = true
				}
			}
		}
	case *ssa.UnOp:
		in.a = c.op(s.X)
		in.t = s.Type()
		in.k, in.w = classify(s.Type())
		switch s.Op {
		case token.NOT:
			in.op = iNot
		case token.SUB:
			in.op = iNeg
		case token.XOR:
			in.op = iCompl
		case token.MUL:
			in.op = iLoad
			in.n = cellsOf(s.Type())
			in.flag = isAgg(s.Type())
		case token.ARROW:
			in.op = iRecv
			in.flag = s.CommaOk
		default:
			in.op = iUnsup
		}
	case *ssa.Store:
		in.op = iStore
		in.a, in.b = c.op(s.Addr), c.op(s.Val)
		in.n = cellsOf(s.Val.Type())
		in.flag = isAgg(s.Val.Type())
	case *ssa.FieldAddr:
		in.op = iFieldAddr
		in.a = c.op(s.X)
		st := deref(s.X.Type()).Underlying().(*types.Struct)
		in.n = fieldOffsets(st)[s.Field]
	case *ssa.Field:
		in.op = iField
		in.a = c.op(s.X)
		st := s.X.Type().Underlying().(*types.Struct)
		in.n = fieldOffsets(st)[s.Field]
		in.flag = isAgg(s.Type())
		in.n2 = cellsOf(s.Type())
	case *ssa.IndexAddr:
		in.op = iIndexAddr
		in.a, in.b = c.op(s.X), c.op(s.Index)
		in.k, in.w = classify(s.Index.Type())
		in.flag2 = canSymPtr(s)
		switch t := s.X.Type().Underlying().(type) {
		case *types.Slice:
			in.n = cellsOf(t.Elem())
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			in.flag = true
			in.n = cellsOf(at.Elem())
			in.n2 = int(at.Len())
		default:
			panic("indexaddr")
		}
	case *ssa.Index:
		in.op = iIndex
		in.a, in.b = c.op(s.X), c.op(s.Index)
		in.k, in.w = classify(s.Index.Type())
		switch t := s.X.Type().Underlying().(type) {
		case *types.Array:
			in.n = cellsOf(t.Elem())
			in.n2 = int(t.Len())
			in.flag2 = isAgg(t.Elem())
		default:
			in.flag = true // string
		}
	case *ssa.Lookup:
		in.a, in.b = c.op(s.X), c.op(s.Index)
		if m, ok := s.X.Type().Underlying().(*types.Map); ok {
			in.op = iLookup
			in.flag = s.CommaOk
			in.t = m.Key()
			in.rt = TT.RT(m.Key())
		} else {
			in.op = iIndex
			in.k, in.w = classify(s.Index.Type())
			in.flag = true
		}
	case *ssa.Call:
		c.call(&in, &s.Call)
	case *ssa.Defer:
		c.call(&in, &s.Call)
		in.n2 = int(in.op)
		in.op = iDefer
		if s.DeferStack != nil {
			in.b = c.op(s.DeferStack)
			in.flag = true
		}
	case *ssa.Go:
		c.call(&in, &s.Call)
		in.n2 = int(in.op)
		in.op = iGo
	case *ssa.ChangeInterface:
		in.op = iMove
		in.a = c.op(s.X)
	case *ssa.ChangeType:
		in.op = iMove
		in.a = c.op(s.X)
	case *ssa.Convert:
		in.op = iConvert
		in.a = c.op(s.X)
		in.k, in.w = classify(s.X.Type())
		in.k2, in.w2 = classify(s.Type())
		in.t = s.Type()
		in.aux = s.X.Type()
	case *ssa.MultiConvert:
		in.op = iUnsup
	case *ssa.MakeInterface:
		in.op = iMakeIface
		in.a = c.op(s.X)
		in.rt = TT.RT(s.X.Type())
	case *ssa.TypeAssert:
		in.op = iTypeAssert
		in.a = c.op(s.X)
		in.t = s.AssertedType
		in.rt = TT.RT(s.AssertedType)
		in.flag = s.CommaOk
		_, in.flag2 = s.AssertedType.Underlying().(*types.Interface)
	case *ssa.Extract:
		in.op = iExtract
		in.a = c.op(s.Tuple)
		in.n = s.Index
	case *ssa.MakeClosure:
		in.op = iMakeClosure
		in.fn = P.Func(s.Fn.(*ssa.Function))
		for _, b := range s.Bindings {
			in.args = append(in.args, c.op(b))
		}
	case *ssa.MakeMap:
		in.op = iMakeMap
		in.rt = TT.RT(s.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeSlice:
		in.op = iMakeSlice
		in.a, in.b = c.op(s.Len), c.op(s.Cap)
		in.t = s.Type().Underlying().(*types.Slice).Elem()
		in.n = cellsOf(in.t)
	case *ssa.MakeChan:
		in.op = iMakeChan
		in.a = c.op(s.Size)
	case *ssa.Send:
		in.op = iSend
		in.a, in.b = c.op(s.Chan), c.op(s.X)
	case *ssa.Slice:
		in.op = iSlice
		in.a = c.op(s.X)
		if s.Low != nil {
			in.b = c.op(s.Low)
		}
		if s.High != nil {
			in.c = c.op(s.High)
		}
		if s.Max != nil {
			in.args = []opnd{c.op(s.Max)}
		}
		switch t := s.X.Type().Underlying().(type) {
		case *types.Slice:
			in.n = cellsOf(t.Elem())
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			in.n = cellsOf(at.Elem())
			in.n2 = int(at.Len())
			in.flag = true
		default:
			in.flag2 = true // string
		}
	case *ssa.SliceToArrayPointer:
		in.op = iArrPtr
		in.a = c.op(s.X)
		in.n = int(deref(s.Type()).Underlying().(*types.Array).Len())
	case *ssa.MapUpdate:
		in.op = iMapUpdate
		in.a, in.b, in.c = c.op(s.Map), c.op(s.Key), c.op(s.Value)
		in.rt = TT.RT(s.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.Range:
		in.op = iRange
		in.a = c.op(s.X)
		_, in.flag = s.X.Type().Underlying().(*types.Map)
	case *ssa.Next:
		in.op = iNext
		in.a = c.op(s.Iter)
		in.flag = s.IsString
	case *ssa.If:
		in.op = iIf
		in.a = c.op(s.Cond)
	case *ssa.Jump:
		in.op = iJump
	case *ssa.Return:
		in.op = iReturn
		for _, r := range s.Results {
			in.args = append(in.args, c.op(r))
		}
	case *ssa.Panic:
		in.op = iPanic
		in.a = c.op(s.X)
	case *ssa.RunDefers:
		in.op = iRunDefers
	default:
		in.op = iUnsup
	}
	return in
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, "github.com/totegamma/yisp/", "")
	return s
}

func kindOf(t types.Type) vkind {
	k, w := classify(t)
	return vkind{k: k, w: w}
}
