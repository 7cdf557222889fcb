package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// A small model of package fmt. Directives on concrete scalars are delegated to the real fmt.

func (w *Worker) symIn(v Value, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.p.(type) {
	case *Term, *SymStr:
		return true
	case *LazyStr:
		return !x.done || w.symIn(x.v, d+1)
	case *Iface:
		return w.symIn(x.v, d+1)
	case Agg:
		for _, e := range x {
			if w.symIn(e, d+1) {
				return true
			}
		}
	}
	return false
}

// immutableArg: formatting it later gives the same text as formatting it now
func (w *Worker) immutableArg(v Value) bool {
	if v.p == nil {
		return true
	}
	ifc, ok := v.p.(*Iface)
	if !ok {
		return false
	}
	if _, ok := ifc.t.t.Underlying().(*types.Basic); ok {
		return true
	}
	return w.isError(ifc.t)
}

var errorRT *RT

func (w *Worker) isError(t *RT) bool {
	if errorRT == nil {
		errorRT = TT.RT(types.Universe.Lookup("error").Type())
	}
	return w.implements(t, errorRT)
}

func (w *Worker) sprintf(format Value, args []Value) Value {
	fs, ok := strConc(format)
	if !ok {
		fs = w.concStr(format)
	}
	imm := true
	sym := false
	for _, a := range args {
		if !w.immutableArg(a) {
			imm = false
		}
		if w.symIn(a, 0) {
			sym = true
		} else if a.p != nil {
			// errors may embed symbolic text
			if _, ok := a.p.(*Iface).t.t.Underlying().(*types.Basic); !ok {
				sym = true
			}
		}
	}
	if imm && sym {
		args = append([]Value(nil), args...)
		return Value{p: &LazyStr{f: func() Value { return w.doPrintf(fs, args) }}}
	}
	return w.doPrintf(fs, args)
}

// native is the Go value of a concrete argument of a predeclared type.
func native(a Value) (any, bool) {
	if a.p == nil {
		return nil, true
	}
	ifc, ok := a.p.(*Iface)
	if !ok {
		return nil, false
	}
	b, ok := ifc.t.t.(*types.Basic)
	if !ok {
		return nil, false
	}
	if b.Kind() == types.String {
		s, ok := strConc(ifc.v)
		return s, ok
	}
	if ifc.v.p != nil {
		return nil, false
	}
	switch b.Kind() {
	case types.Bool:
		return ifc.v.n != 0, true
	case types.Int:
		return int(ifc.v.n), true
	case types.Int32:
		return int32(ifc.v.n), true
	case types.Int64:
		return int64(ifc.v.n), true
	case types.Uint8:
		return uint8(ifc.v.n), true
	case types.Float64:
		return f(ifc.v.n), true
	}
	return nil, false
}

func (w *Worker) doPrintf(fs string, args []Value) Value {
	if !strings.Contains(fs, "%w") {
		natives := make([]any, len(args))
		all := true
		for i, a := range args {
			var ok bool
			natives[i], ok = native(a)
			all = all && ok
		}
		if all {
			return mkStr(fmt.Sprintf(fs, natives...))
		}
	}
	out := Value{}
	ai := 0
	i := 0
	emit := func(s string) { out = strConcat(out, mkStr(s)) }
	for i < len(fs) {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			emit(fs[i:])
			break
		}
		emit(fs[i : i+j])
		i += j
		k := i + 1
		for k < len(fs) && strings.IndexByte("+-# 0123456789.*[]", fs[k]) >= 0 {
			k++
		}
		if k >= len(fs) {
			emit("%!(NOVERB)")
			break
		}
		flags := fs[i+1 : k]
		verb := fs[k]
		i = k + 1
		if verb == '%' {
			emit("%")
			continue
		}
		for strings.Contains(flags, "*") {
			if ai >= len(args) {
				emit("%!(BADWIDTH)")
				break
			}
			n := w.concInt(args[ai].p.(*Iface).v)
			ai++
			flags = strings.Replace(flags, "*", fmt.Sprint(n), 1)
		}
		if ai >= len(args) {
			emit("%!" + string(verb) + "(MISSING)")
			continue
		}
		out = strConcat(out, w.fmtArg(flags, verb, args[ai], 0))
		ai++
	}
	if ai < len(args) {
		emit("%!(EXTRA ")
		for j, a := range args[ai:] {
			if j > 0 {
				emit(", ")
			}
			if a.p == nil {
				emit("<nil>")
			} else {
				emit(rtString(a.p.(*Iface).t.t) + "=")
				out = strConcat(out, w.fmtArg("", 'v', a, 0))
			}
		}
		emit(")")
	}
	return out
}

func rtString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" {
		return "interface {}"
	}
	s = strings.ReplaceAll(s, "[]any", "[]interface {}")
	s = strings.ReplaceAll(s, "]any", "]interface {}")
	return s
}

func (w *Worker) sprint(args []Value, ln bool) Value {
	out := Value{}
	for i, a := range args {
		if i > 0 {
			isS := func(v Value) bool {
				if v.p == nil {
					return false
				}
				k, _ := classify(v.p.(*Iface).t.t)
				return k == kString
			}
			if ln || (!isS(a) && !isS(args[i-1])) {
				out = strConcat(out, mkStr(" "))
			}
		}
		out = strConcat(out, w.fmtArg("", 'v', a, 0))
	}
	if ln {
		out = strConcat(out, mkStr("\n"))
	}
	return out
}

func (w *Worker) fmtArg(flags string, verb byte, a Value, depth int) Value {
	if verb == 'T' {
		if a.p == nil {
			return mkStr("<nil>")
		}
		return mkStr(rtString(a.p.(*Iface).t.t))
	}
	if a.p == nil {
		switch verb {
		case 'v':
			return mkStr("<nil>")
		}
		return mkStr("%!" + string(verb) + "(<nil>)")
	}
	ifc, ok := a.p.(*Iface)
	if !ok {
		panic(fmt.Sprintf("fmtArg %T", a.p))
	}
	return w.fmtVal(flags, verb, ifc.t.t, ifc.v, depth, true)
}

func (w *Worker) fmtVal(flags string, verb byte, t types.Type, v Value, depth int, methods bool) Value {
	if w.sharpV(flags, verb) {
		methods = false
	}
	if methods && strings.IndexByte("vsxXqw", verb) >= 0 {
		for _, m := range []string{"Error", "String"} {
			key := mnkey{TT.RT(t), m}
			f, ok := w.mncache[key]
			if !ok {
				f = findMethod(t, nil, m)
				if f != nil && (len(f.res) != 1 || f.ssa.Signature.Params().Len() != 0 || !types.Identical(f.res[0], types.Typ[types.String])) {
					f = nil
				}
				w.mncache[key] = f
			}
			if f != nil {
				if _, isPtr := t.Underlying().(*types.Pointer); isPtr && v.p == nil {
					return mkStr("<nil>")
				}
				s := w.call(f, []Value{v}, nil, nil)
				return w.fmtStr(flags, verb, s)
			}
		}
	}
	if verb == 'w' {
		verb = 'v'
	}
	k, _ := classify(t)
	switch k {
	case kString:
		return w.fmtStr(flags, verb, v)
	case kBool:
		if tm, ok := v.p.(*Term); ok {
			v = mkBool(w.branch(tm))
		}
		return mkStr(fmt.Sprintf("%"+flags+string(verb), v.n != 0))
	case kInt:
		if v.p != nil {
			if (verb == 'd' || verb == 'v') && flags == "" {
				return w.itoa(v)
			}
			v = w.concScalar(v, k)
		}
		return mkStr(fmt.Sprintf("%"+flags+string(verb), int64(v.n)))
	case kUint:
		if v.p != nil {
			v = w.concScalar(v, k)
		}
		return mkStr(fmt.Sprintf("%"+flags+string(verb), v.n))
	case kF64:
		v = w.concScalar(v, k)
		return mkStr(fmt.Sprintf("%"+flags+string(verb), f(v.n)))
	case kF32:
		return mkStr(fmt.Sprintf("%"+flags+string(verb), float32(f(v.n))))
	case kComplex:
		return mkStr(fmt.Sprintf("%"+flags+string(verb), cplx(v)))
	}
	plus := strings.Contains(flags, "+")
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if v.p == nil {
			return mkStr("<nil>")
		}
		i := v.p.(*Iface)
		return w.fmtVal(flags, verb, i.t.t, i.v, depth, methods)
	case *types.Slice, *types.Array:
		var et types.Type
		var n int
		var at func(i int) Value
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
			n = sliceLen(v)
			sv := sliceOf(v)
			c := cellsOf(et)
			at = func(i int) Value {
				if isAgg(et) {
					return w.loadCells(sv.obj, sv.off+i*c, c)
				}
				return sv.obj.get(sv.off + i*c)
			}
		} else {
			ar := u.(*types.Array)
			et = ar.Elem()
			n = int(ar.Len())
			c := cellsOf(et)
			at = func(i int) Value { return aggField(v, i*c, et) }
		}
		if _, ew := classify(et); ew == 8 && (verb == 's' || verb == 'x' || verb == 'X' || verb == 'q') {
			b := make([]Value, n)
			for i := range b {
				b[i] = at(i)
			}
			return w.fmtStr(flags, verb, mkSym(b))
		}
		out := mkStr("[")
		for i := 0; i < n; i++ {
			if i > 0 {
				out = strConcat(out, mkStr(" "))
			}
			out = strConcat(out, w.fmtVal(flags, verb, et, at(i), depth+1, methods))
		}
		return strConcat(out, mkStr("]"))
	case *types.Struct:
		out := mkStr("{")
		offs := fieldOffsets(u)
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = strConcat(out, mkStr(" "))
			}
			if plus {
				out = strConcat(out, mkStr(u.Field(i).Name()+":"))
			}
			ft := u.Field(i).Type()
			out = strConcat(out, w.fmtVal(flags, verb, ft, aggField(v, offs[i], ft), depth+1, methods && u.Field(i).Exported()))
		}
		return strConcat(out, mkStr("}"))
	case *types.Map:
		out := mkStr("map[")
		if v.p != nil {
			m := v.p.(*MapObj)
			type kv struct {
				s string
				i int
			}
			var ks []kv
			for i, e := range m.ents {
				if e.live {
					ks = append(ks, kv{w.concStr(w.fmtVal("", 'v', u.Key(), e.k, depth+1, methods)), i})
				}
			}
			sort.Slice(ks, func(a, b int) bool { return ks[a].s < ks[b].s })
			for j, k := range ks {
				if j > 0 {
					out = strConcat(out, mkStr(" "))
				}
				out = strConcat(out, mkStr(k.s+":"))
				out = strConcat(out, w.fmtVal(flags, verb, u.Elem(), m.ents[k.i].v, depth+1, methods))
			}
		}
		return strConcat(out, mkStr("]"))
	case *types.Pointer:
		if v.p == nil {
			return mkStr("<nil>")
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				return strConcat(mkStr("&"), w.fmtVal(flags, verb, u.Elem(), w.load(v, cellsOf(u.Elem()), isAgg(u.Elem())), depth+1, methods))
			}
		}
		return mkStr("0xc000012345")
	}
	if v.p == nil {
		return mkStr("<nil>")
	}
	return mkStr("0xc000054321")
}

func (w *Worker) sharpV(flags string, verb byte) bool {
	return verb == 'v' && strings.Contains(flags, "#")
}

func (w *Worker) fmtStr(flags string, verb byte, s Value) Value {
	if verb == 'w' {
		verb = 'v'
	}
	if flags == "" || flags == "+" {
		switch verb {
		case 's', 'v':
			return s
		case 'q':
			if _, ok := strConc(s); !ok {
				return w.callNamed("strconv", "Quote", s)
			}
		}
	}
	if _, ok := strConc(s); !ok {
		if verb == 'x' && flags == "" {
			var out []Value
			for _, b := range strBytes(force(s)) {
				t, ok := b.p.(*Term)
				if !ok {
					h := fmt.Sprintf("%02x", byte(b.n))
					out = append(out, Value{n: uint64(h[0])}, Value{n: uint64(h[1])})
					continue
				}
				for _, d := range []*Term{w.tt.bin(OLshr, t, w.tt.Const(8, 4)), w.tt.bin(OBAnd, t, w.tt.Const(8, 15))} {
					c := w.tt.Ult(d, w.tt.Const(8, 10))
					out = append(out, Value{p: w.tt.Ite(c, w.tt.bin(OAdd, d, w.tt.Const(8, '0')), w.tt.bin(OAdd, d, w.tt.Const(8, 'a'-10)))})
				}
			}
			return mkSym(out)
		}
	}
	return mkStr(fmt.Sprintf("%"+flags+string(verb), w.concStr(s)))
}

// errorf builds *fmt.wrapError or *errors.errorString-like values
func (w *Worker) errorf(format Value, args []Value) Value {
	fs, _ := strConc(format)
	pk := P.byPath["fmt"]
	msg := w.sprintf(format, args)
	// locate %w operands
	var wrapped []Value
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			continue
		}
		k := i + 1
		for k < len(fs) && strings.IndexByte("+-# 0123456789.", fs[k]) >= 0 {
			k++
		}
		if k >= len(fs) {
			break
		}
		if fs[k] == '%' {
			i = k
			continue
		}
		if fs[k] == 'w' && ai < len(args) && args[ai].p != nil {
			wrapped = append(wrapped, args[ai])
		}
		ai++
		i = k
	}
	switch len(wrapped) {
	case 0:
		o := w.newObj(1, nil)
		o.cells[0] = msg
		name := "errorString"
		t := P.byPath["errors"].Type(name)
		if ft := pk.Type("fmtError"); ft != nil {
			t = ft
		}
		return mkIface(TT.RT(types.NewPointer(t.Type())), Value{p: o})
	case 1:
		t := pk.Type("wrapError").Type()
		o := w.newObj(2, t)
		o.cells[0] = msg
		o.cells[1] = wrapped[0]
		return mkIface(TT.RT(types.NewPointer(t)), Value{p: o})
	default:
		t := pk.Type("wrapErrors").Type()
		o := w.newObj(2, t)
		o.cells[0] = msg
		o.cells[1] = w.mkSlice(wrapped)
		return mkIface(TT.RT(types.NewPointer(t)), Value{p: o})
	}
}

// lazyText gives a short concrete text without forking
func (w *Worker) lazyText(v Value) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *LazyStr:
		if s.done {
			return w.lazyText(s.v)
		}
		return "(formatted message)"
	case *SymStr:
		out := make([]byte, len(s.b))
		w.tt.ep++
		for i, b := range s.b {
			if t, ok := b.p.(*Term); ok {
				out[i] = byte(w.tt.eval(t, w.model))
			} else {
				out[i] = byte(b.n)
			}
		}
		return string(out)
	}
	return "?"
}
