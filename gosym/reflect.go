package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// Native model of package reflect over the interpreter's values.

type RV struct {
	t    *RT
	v    Value
	obj  *Obj
	off  int
	addr bool
	ro   bool
}

func (w *Worker) rvGet(r *RV) Value {
	if r.addr {
		return w.load(Value{p: r.obj, n: uint64(r.off)}, cellsOf(r.t.t), isAgg(r.t.t))
	}
	return r.v
}

func mkRV(r *RV) Value { return Value{p: Agg{{p: r}, {}, {}}} }

func rvOf(v Value) *RV {
	if v.p == nil {
		return nil
	}
	if c := v.p.(Agg)[0]; c.p != nil {
		return c.p.(*RV)
	}
	return nil
}

func (w *Worker) mkType(t *RT) Value {
	t.mu.Lock()
	if t.obj == nil {
		t.obj = &Obj{spec: t, size: 1, cells: make([]Value, 1)}
	}
	t.mu.Unlock()
	return mkIface(TT.RT(types.NewPointer(P.byPath["reflect"].Type("rtype").Type())), Value{p: t.obj})
}

func rtOf(v Value) *RT {
	if ifc, ok := v.p.(*Iface); ok {
		v = ifc.v
	}
	return v.p.(*Obj).spec.(*RT)
}

func kindNum(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (w *Worker) rvFromIface(v Value) Value {
	if v.p == nil {
		return Value{}
	}
	i := v.p.(*Iface)
	return mkRV(&RV{t: i.t, v: i.v})
}

func (w *Worker) rvIface(r *RV) Value {
	v := w.rvGet(r)
	if _, ok := r.t.t.Underlying().(*types.Interface); ok {
		return v
	}
	return mkIface(r.t, v)
}

func (w *Worker) rvSet(r *RV, x *RV) {
	if !r.addr {
		w.rtPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	var v Value
	if _, ok := r.t.t.Underlying().(*types.Interface); ok {
		if x.t == nil {
			v = Value{}
		} else {
			v = w.rvIface(x)
		}
	} else {
		v = w.rvGet(x)
	}
	w.store(Value{p: r.obj, n: uint64(r.off)}, v, cellsOf(r.t.t), isAgg(r.t.t))
}

func (w *Worker) rvStore(r *RV, v Value) {
	if !r.addr {
		w.rtPanic("reflect: Set using unaddressable value")
	}
	w.store(Value{p: r.obj, n: uint64(r.off)}, v, cellsOf(r.t.t), isAgg(r.t.t))
}

var reflIntr = map[string]Intrinsic{}

func reflectIntrinsic(f *Func) Intrinsic {
	if in, ok := reflIntr[f.name]; ok {
		return in
	}
	switch f.ssa.Name() {
	case "init":
		return noop
	}
	if strings.HasPrefix(f.name, "(reflect.Kind).") || strings.HasPrefix(f.name, "(reflect.StructTag)") || strings.HasPrefix(f.name, "(*reflect.ValueError)") {
		return nil
	}
	name := f.name
	return func(w *Worker, a []Value) Value { panic(unsup("reflect: " + name)) }
}

func initReflect() {
	r := reflIntr
	val := func(n string, f func(w *Worker, v *RV, a []Value) Value) {
		r["(reflect.Value)."+n] = func(w *Worker, a []Value) Value { return f(w, rvOf(a[0]), a[1:]) }
	}
	typ := func(n string, f func(w *Worker, t *RT, a []Value) Value) {
		r["(*reflect.rtype)."+n] = func(w *Worker, a []Value) Value { return f(w, rtOf(a[0]), a[1:]) }
	}
	r["reflect.TypeOf"] = func(w *Worker, a []Value) Value {
		if a[0].p == nil {
			return Value{}
		}
		return w.mkType(a[0].p.(*Iface).t)
	}
	intrinsics["internal/reflectlite.TypeOf"] = r["reflect.TypeOf"]
	r["reflect.TypeFor"] = func(w *Worker, a []Value) Value { panic(unsup("reflect.TypeFor")) }
	r["reflect.ValueOf"] = func(w *Worker, a []Value) Value { return w.rvFromIface(a[0]) }
	intrinsics["internal/reflectlite.ValueOf"] = r["reflect.ValueOf"]
	r["reflect.New"] = func(w *Worker, a []Value) Value {
		t := rtOf(a[0])
		return mkRV(&RV{t: TT.RT(types.NewPointer(t.t)), v: Value{p: w.newObj(cellsOf(t.t), t.t)}})
	}
	r["reflect.Zero"] = func(w *Worker, a []Value) Value { return mkRV(&RV{t: rtOf(a[0])}) }
	r["reflect.MakeMap"] = func(w *Worker, a []Value) Value {
		t := rtOf(a[0])
		return mkRV(&RV{t: t, v: Value{p: w.newMap(TT.RT(t.t.Underlying().(*types.Map).Key()))}})
	}
	r["reflect.MakeMapWithSize"] = r["reflect.MakeMap"]
	r["reflect.MakeSlice"] = func(w *Worker, a []Value) Value {
		t := rtOf(a[0])
		c := cellsOf(t.t.Underlying().(*types.Slice).Elem())
		n, cp := w.concInt(a[1]), w.concInt(a[2])
		return mkRV(&RV{t: t, v: Value{p: &SliceV{obj: w.newObj(cp*c, nil), len: n, cap: cp, esz: c}}})
	}
	r["reflect.PtrTo"] = func(w *Worker, a []Value) Value { return w.mkType(TT.RT(types.NewPointer(rtOf(a[0]).t))) }
	r["reflect.PointerTo"] = r["reflect.PtrTo"]
	r["reflect.Indirect"] = func(w *Worker, a []Value) Value {
		v := rvOf(a[0])
		if v == nil || kindNum(v.t.t) != reflect.Pointer {
			return a[0]
		}
		return r["(reflect.Value).Elem"](w, a)
	}
	r["reflect.Append"] = func(w *Worker, a []Value) Value {
		v := rvOf(a[0])
		et := v.t.t.Underlying().(*types.Slice).Elem()
		c := cellsOf(et)
		cur := w.rvGet(v)
		for _, xv := range w.sliceValsN(a[1], 3) {
			x := rvOf(xv)
			xval := w.rvGet(x)
			if _, ok := et.Underlying().(*types.Interface); ok {
				xval = w.rvIface(x)
			}
			o := w.newObj(c, nil)
			if isAgg(et) {
				w.storeCells(o, 0, c, xval)
			} else {
				w.set(o, 0, xval)
			}
			cur = w.appendSlice(cur, Value{p: &SliceV{obj: o, len: 1, cap: 1, esz: c}}, c)
		}
		return mkRV(&RV{t: v.t, v: cur})
	}
	r["reflect.DeepEqual"] = func(w *Worker, a []Value) Value {
		return w.boolVal(w.deepEq(types.NewInterfaceType(nil, nil), a[0], a[1], 0), false)
	}
	swapper := func(w *Worker, a []Value) Value {
		i := a[0].p.(*Iface)
		sv := sliceOf(i.v)
		return Value{p: &Closure{nat: func(w *Worker, b []Value) Value {
			x, y := w.concInt(b[0]), w.concInt(b[1])
			if sv == nil || x < 0 || y < 0 || x >= sv.len || y >= sv.len {
				w.rtPanic("reflect: slice index out of range")
			}
			for k := 0; k < sv.esz; k++ {
				p, q := sv.off+x*sv.esz+k, sv.off+y*sv.esz+k
				u, v := sv.obj.get(p), sv.obj.get(q)
				w.set(sv.obj, p, v)
				w.set(sv.obj, q, u)
			}
			return Value{}
		}}}
	}
	r["reflect.Swapper"] = swapper
	intrinsics["internal/reflectlite.Swapper"] = swapper

	val("IsValid", func(w *Worker, v *RV, a []Value) Value { return mkBool(v != nil) })
	val("Kind", func(w *Worker, v *RV, a []Value) Value {
		if v == nil {
			return Value{}
		}
		return mkInt(int(kindNum(v.t.t)))
	})
	val("Type", func(w *Worker, v *RV, a []Value) Value {
		if v == nil {
			w.rtPanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return w.mkType(v.t)
	})
	val("Interface", func(w *Worker, v *RV, a []Value) Value {
		if v == nil {
			w.rtPanic("reflect: call of reflect.Value.Interface on zero Value")
		}
		return w.rvIface(v)
	})
	val("CanInterface", func(w *Worker, v *RV, a []Value) Value { return mkBool(v != nil && !v.ro) })
	val("CanAddr", func(w *Worker, v *RV, a []Value) Value { return mkBool(v != nil && v.addr) })
	val("CanSet", func(w *Worker, v *RV, a []Value) Value { return mkBool(v != nil && v.addr && !v.ro) })
	val("Addr", func(w *Worker, v *RV, a []Value) Value {
		return mkRV(&RV{t: TT.RT(types.NewPointer(v.t.t)), v: Value{p: v.obj, n: uint64(v.off)}})
	})
	val("Elem", func(w *Worker, v *RV, a []Value) Value {
		x := w.rvGet(v)
		switch u := v.t.t.Underlying().(type) {
		case *types.Interface:
			return w.rvFromIface(x)
		case *types.Pointer:
			if x.p == nil {
				return Value{}
			}
			return mkRV(&RV{t: TT.RT(u.Elem()), obj: x.p.(*Obj), off: int(x.n), addr: true})
		}
		w.rtPanic("reflect: call of reflect.Value.Elem on " + v.t.String())
		return Value{}
	})
	val("IsNil", func(w *Worker, v *RV, a []Value) Value { return mkBool(w.rvGet(v).p == nil) })
	val("IsZero", func(w *Worker, v *RV, a []Value) Value { return w.boolVal(w.isZero(v.t.t, w.rvGet(v)), false) })
	val("Len", func(w *Worker, v *RV, a []Value) Value { return mkInt(w.lenOf(w.rvGet(v), v.t.t)) })
	val("Cap", func(w *Worker, v *RV, a []Value) Value {
		if s := sliceOf(w.rvGet(v)); s != nil {
			return mkInt(s.cap)
		}
		return Value{}
	})
	val("Index", func(w *Worker, v *RV, a []Value) Value {
		i := w.concInt(a[0])
		switch u := v.t.t.Underlying().(type) {
		case *types.Slice:
			s := sliceOf(w.rvGet(v))
			if s == nil || i < 0 || i >= s.len {
				w.rtPanic("reflect: slice index out of range")
			}
			return mkRV(&RV{t: TT.RT(u.Elem()), obj: s.obj, off: s.off + i*s.esz, addr: true})
		case *types.Array:
			c := cellsOf(u.Elem())
			if v.addr {
				return mkRV(&RV{t: TT.RT(u.Elem()), obj: v.obj, off: v.off + i*c, addr: true})
			}
			return mkRV(&RV{t: TT.RT(u.Elem()), v: aggField(v.v, i*c, u.Elem())})
		case *types.Basic:
			return mkRV(&RV{t: TT.RT(types.Typ[types.Uint8]), v: strByte(force(w.rvGet(v)), i)})
		}
		panic(unsup("reflect Index"))
	})
	field := func(w *Worker, v *RV, i int) *RV {
		st := v.t.t.Underlying().(*types.Struct)
		fl := st.Field(i)
		off := fieldOffsets(st)[i]
		ro := v.ro || !fl.Exported()
		if v.addr {
			return &RV{t: TT.RT(fl.Type()), obj: v.obj, off: v.off + off, addr: true, ro: ro}
		}
		return &RV{t: TT.RT(fl.Type()), v: aggField(v.v, off, fl.Type()), ro: ro}
	}
	val("Field", func(w *Worker, v *RV, a []Value) Value { return mkRV(field(w, v, w.concInt(a[0]))) })
	val("NumField", func(w *Worker, v *RV, a []Value) Value { return mkInt(v.t.t.Underlying().(*types.Struct).NumFields()) })
	val("FieldByName", func(w *Worker, v *RV, a []Value) Value {
		st := v.t.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == S(a[0]) {
				return mkRV(field(w, v, i))
			}
		}
		return Value{}
	})
	val("FieldByIndex", func(w *Worker, v *RV, a []Value) Value {
		for _, ix := range w.sliceVals(a[0]) {
			v = field(w, v, w.concInt(ix))
		}
		return mkRV(v)
	})
	val("MapIndex", func(w *Worker, v *RV, a []Value) Value {
		mt := v.t.t.Underlying().(*types.Map)
		k := rvOf(a[0])
		kv := w.rvGet(k)
		if _, ok := mt.Key().Underlying().(*types.Interface); ok {
			kv = w.rvIface(k)
		}
		x, ok := w.mapGet(w.rvGet(v), kv, TT.RT(mt.Key()))
		if !ok {
			return Value{}
		}
		return mkRV(&RV{t: TT.RT(mt.Elem()), v: x})
	})
	val("SetMapIndex", func(w *Worker, v *RV, a []Value) Value {
		mt := v.t.t.Underlying().(*types.Map)
		k := rvOf(a[0])
		kv := w.rvGet(k)
		if _, ok := mt.Key().Underlying().(*types.Interface); ok {
			kv = w.rvIface(k)
		}
		mv := w.rvGet(v)
		if mv.p == nil {
			w.rtPanic("assignment to entry in nil map")
		}
		e := rvOf(a[1])
		if e == nil {
			w.mapDelete(mv.p.(*MapObj), kv)
			return Value{}
		}
		ev := w.rvGet(e)
		if _, ok := mt.Elem().Underlying().(*types.Interface); ok {
			ev = w.rvIface(e)
		}
		w.mapSet(mv.p.(*MapObj), kv, ev, TT.RT(mt.Key()))
		return Value{}
	})
	val("MapKeys", func(w *Worker, v *RV, a []Value) Value {
		mt := v.t.t.Underlying().(*types.Map)
		o := w.newObj(0, nil)
		n := 0
		if mv := w.rvGet(v); mv.p != nil {
			m := mv.p.(*MapObj)
			it := &MapIter{m: m, n0: len(m.ents)}
			for i := range m.ents {
				if m.ents[i].live {
					it.keys = append(it.keys, i)
				}
			}
			for {
				t := w.mapNext(it).p.(Tuple)
				if t[0].n == 0 {
					break
				}
				o.cells = append(o.cells, Value{p: &RV{t: TT.RT(mt.Key()), v: t[1]}}, Value{}, Value{})
				n++
			}
		}
		o.size = len(o.cells)
		return Value{p: &SliceV{obj: o, len: n, cap: n, esz: 3}}
	})
	val("MapRange", func(w *Worker, v *RV, a []Value) Value {
		it := &MapIter{}
		if mv := w.rvGet(v); mv.p != nil {
			it.m = mv.p.(*MapObj)
			it.n0 = len(it.m.ents)
			for i := range it.m.ents {
				if it.m.ents[i].live {
					it.keys = append(it.keys, i)
				}
			}
		}
		o := w.newObj(4, nil)
		o.spec = &rmapIter{it: it, mt: v.t.t.Underlying().(*types.Map)}
		return Value{p: o}
	})
	r["(*reflect.MapIter).Next"] = func(w *Worker, a []Value) Value {
		mi := a[0].p.(*Obj).spec.(*rmapIter)
		t := w.mapNext(mi.it).p.(Tuple)
		mi.k, mi.v = t[1], t[2]
		return t[0]
	}
	r["(*reflect.MapIter).Key"] = func(w *Worker, a []Value) Value {
		mi := a[0].p.(*Obj).spec.(*rmapIter)
		return mkRV(&RV{t: TT.RT(mi.mt.Key()), v: mi.k})
	}
	r["(*reflect.MapIter).Value"] = func(w *Worker, a []Value) Value {
		mi := a[0].p.(*Obj).spec.(*rmapIter)
		return mkRV(&RV{t: TT.RT(mi.mt.Elem()), v: mi.v})
	}
	val("Set", func(w *Worker, v *RV, a []Value) Value {
		x := rvOf(a[0])
		if x == nil {
			w.rtPanic("reflect: call of reflect.Value.Set on zero Value")
		}
		w.rvSet(v, x)
		return Value{}
	})
	val("SetZero", func(w *Worker, v *RV, a []Value) Value { w.rvStore(v, Value{}); return Value{} })
	for _, n := range []string{"SetInt", "SetUint"} {
		val(n, func(w *Worker, v *RV, a []Value) Value {
			k, wd := classify(v.t.t)
			x := a[0]
			if x.p != nil {
				x = fromTerm(w.tt.Trunc(x.p.(*Term), wd), k)
			} else {
				x.n = norm(x.n, k, wd)
			}
			w.rvStore(v, x)
			return Value{}
		})
	}
	for _, n := range []string{"SetFloat", "SetBool", "SetString", "SetBytes"} {
		val(n, func(w *Worker, v *RV, a []Value) Value { w.rvStore(v, a[0]); return Value{} })
	}
	for _, n := range []string{"Int", "Uint"} {
		val(n, func(w *Worker, v *RV, a []Value) Value {
			x := w.rvGet(v)
			k, _ := classify(v.t.t)
			if t, ok := x.p.(*Term); ok {
				if k == kInt {
					return fromTerm(w.tt.Sext(t, 64), k)
				}
				return fromTerm(w.tt.Zext(t, 64), k)
			}
			return x
		})
	}
	for _, n := range []string{"Float", "Bool", "Bytes", "Complex"} {
		val(n, func(w *Worker, v *RV, a []Value) Value { return w.rvGet(v) })
	}
	val("String", func(w *Worker, v *RV, a []Value) Value {
		if v == nil {
			return mkStr("<invalid Value>")
		}
		if k, _ := classify(v.t.t); k == kString {
			return w.rvGet(v)
		}
		return mkStr("<" + rtString(v.t.t) + " Value>")
	})
	val("CanInt", func(w *Worker, v *RV, a []Value) Value { k, _ := classify(v.t.t); return mkBool(k == kInt) })
	val("CanUint", func(w *Worker, v *RV, a []Value) Value { k, _ := classify(v.t.t); return mkBool(k == kUint) })
	val("CanFloat", func(w *Worker, v *RV, a []Value) Value {
		k, _ := classify(v.t.t)
		return mkBool(k == kF64 || k == kF32)
	})
	val("OverflowInt", func(w *Worker, v *RV, a []Value) Value {
		_, wd := classify(v.t.t)
		if wd == 64 {
			return mkBool(false)
		}
		x := w.concScalar(a[0], kInt)
		return mkBool(sx(x.n, wd) != int64(x.n))
	})
	val("OverflowUint", func(w *Worker, v *RV, a []Value) Value {
		_, wd := classify(v.t.t)
		if wd == 64 {
			return mkBool(false)
		}
		x := w.concScalar(a[0], kUint)
		return mkBool(x.n&mask(wd) != x.n)
	})
	val("OverflowFloat", func(w *Worker, v *RV, a []Value) Value { return mkBool(false) })
	val("NumMethod", func(w *Worker, v *RV, a []Value) Value { return mkInt(numMethod(v.t.t)) })
	val("SetLen", func(w *Worker, v *RV, a []Value) Value {
		s := *sliceOf(w.rvGet(v))
		s.len = w.concInt(a[0])
		w.rvStore(v, Value{p: &s})
		return Value{}
	})
	val("Slice", func(w *Worker, v *RV, a []Value) Value {
		s := *sliceOf(w.rvGet(v))
		lo, hi := w.concInt(a[0]), w.concInt(a[1])
		s.off += lo * s.esz
		s.len = hi - lo
		s.cap -= lo
		return mkRV(&RV{t: v.t, v: Value{p: &s}})
	})
	val("Convert", func(w *Worker, v *RV, a []Value) Value {
		t := rtOf(a[0])
		x := w.rvGet(v)
		if types.Identical(v.t.t.Underlying(), t.t.Underlying()) {
			return mkRV(&RV{t: t, v: x})
		}
		if _, ok := t.t.Underlying().(*types.Interface); ok {
			return mkRV(&RV{t: t, v: w.rvIface(v)})
		}
		in := &Instr{t: t.t, aux: v.t.t}
		in.k, in.w = classify(v.t.t)
		in.k2, in.w2 = classify(t.t)
		return mkRV(&RV{t: t, v: w.convert(in, x)})
	})
	val("Pointer", func(w *Worker, v *RV, a []Value) Value {
		x := w.rvGet(v)
		if o, ok := x.p.(*Obj); ok {
			return Value{n: uint64(o.id)*1024 + x.n}
		}
		return Value{}
	})
	for _, n := range []string{"UnsafePointer"} {
		val(n, func(w *Worker, v *RV, a []Value) Value { return w.rvGet(v) })
	}
	intrinsics["(internal/reflectlite.Value).Len"] = r["(reflect.Value).Len"]

	// types
	typ("Kind", func(w *Worker, t *RT, a []Value) Value { return mkInt(int(kindNum(t.t))) })
	typ("String", func(w *Worker, t *RT, a []Value) Value { return mkStr(rtString(t.t)) })
	typ("Name", func(w *Worker, t *RT, a []Value) Value {
		switch n := t.t.(type) {
		case *types.Named:
			return mkStr(n.Obj().Name())
		case *types.Basic:
			return mkStr(n.Name())
		}
		return Value{}
	})
	typ("PkgPath", func(w *Worker, t *RT, a []Value) Value {
		if n, ok := t.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return mkStr(n.Obj().Pkg().Path())
		}
		return Value{}
	})
	typ("Elem", func(w *Worker, t *RT, a []Value) Value {
		switch u := t.t.Underlying().(type) {
		case *types.Pointer:
			return w.mkType(TT.RT(u.Elem()))
		case *types.Slice:
			return w.mkType(TT.RT(u.Elem()))
		case *types.Array:
			return w.mkType(TT.RT(u.Elem()))
		case *types.Map:
			return w.mkType(TT.RT(u.Elem()))
		}
		w.rtPanic("reflect: Elem of invalid type " + t.String())
		return Value{}
	})
	typ("Key", func(w *Worker, t *RT, a []Value) Value { return w.mkType(TT.RT(t.t.Underlying().(*types.Map).Key())) })
	typ("Len", func(w *Worker, t *RT, a []Value) Value { return mkInt(int(t.t.Underlying().(*types.Array).Len())) })
	typ("NumField", func(w *Worker, t *RT, a []Value) Value { return mkInt(t.t.Underlying().(*types.Struct).NumFields()) })
	typ("NumMethod", func(w *Worker, t *RT, a []Value) Value { return mkInt(numMethod(t.t)) })
	typ("Implements", func(w *Worker, t *RT, a []Value) Value { return mkBool(w.implements(t, rtOf(a[0]))) })
	typ("AssignableTo", func(w *Worker, t *RT, a []Value) Value { return mkBool(types.AssignableTo(t.t, rtOf(a[0]).t)) })
	typ("ConvertibleTo", func(w *Worker, t *RT, a []Value) Value { return mkBool(types.ConvertibleTo(t.t, rtOf(a[0]).t)) })
	typ("Comparable", func(w *Worker, t *RT, a []Value) Value { return mkBool(types.Comparable(t.t)) })
	typ("Field", func(w *Worker, t *RT, a []Value) Value {
		st := t.t.Underlying().(*types.Struct)
		i := w.concInt(a[0])
		fl := st.Field(i)
		pkg := Value{}
		if !fl.Exported() && fl.Pkg() != nil {
			pkg = mkStr(fl.Pkg().Path())
		}
		return Value{p: Agg{mkStr(fl.Name()), pkg, w.mkType(TT.RT(fl.Type())), mkStr(st.Tag(i)), Value{}, w.mkSlice([]Value{mkInt(i)}), mkBool(fl.Embedded())}}
	})
}

type rmapIter struct {
	it   *MapIter
	mt   *types.Map
	k, v Value
}

func numMethod(t types.Type) int {
	if i, ok := t.Underlying().(*types.Interface); ok {
		return i.NumMethods()
	}
	P.bmu.Lock()
	defer P.bmu.Unlock()
	ms := P.prog.MethodSets.MethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

func (w *Worker) sliceValsN(v Value, c int) []Value {
	s := sliceOf(v)
	if s == nil {
		return nil
	}
	out := make([]Value, s.len)
	for i := range out {
		out[i] = w.loadCells(s.obj, s.off+i*c, c)
	}
	return out
}

func (w *Worker) isZero(t types.Type, v Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k, wd := classify(t)
		switch k {
		case kString:
			return w.tt.Bool(strLen(force(v)) == 0)
		case kBool, kInt, kUint:
			return w.tt.Eq(w.toTerm(v, wd), w.tt.Const(wd, 0))
		case kF64, kF32:
			return w.tt.FBin(OFEq, w.toTerm(v, wd), w.tt.Const(WF64, 0))
		}
	case *types.Struct:
		r := w.tt.T
		offs := fieldOffsets(u)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r = w.tt.And(r, w.isZero(ft, aggField(v, offs[i], ft)))
		}
		return r
	case *types.Array:
		r := w.tt.T
		c := cellsOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = w.tt.And(r, w.isZero(u.Elem(), aggField(v, i*c, u.Elem())))
		}
		return r
	}
	return w.tt.Bool(v.p == nil)
}

// deepEq models reflect.DeepEqual
func (w *Worker) deepEq(t types.Type, a, b Value, d int) *Term {
	if d > 200 {
		panic(unsup("DeepEqual depth"))
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if a.p == nil || b.p == nil {
			return w.tt.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x.t != y.t {
			return w.tt.F
		}
		return w.deepEq(x.t.t, x.v, y.v, d+1)
	case *types.Pointer:
		if a.p == nil || b.p == nil {
			return w.tt.Bool(a.p == nil && b.p == nil)
		}
		if ptrEq(a, b) {
			return w.tt.T
		}
		n, ag := cellsOf(u.Elem()), isAgg(u.Elem())
		return w.deepEq(u.Elem(), w.load(a, n, ag), w.load(b, n, ag), d+1)
	case *types.Struct:
		r := w.tt.T
		offs := fieldOffsets(u)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r = w.tt.And(r, w.deepEq(ft, aggField(a, offs[i], ft), aggField(b, offs[i], ft), d+1))
			if r.isC() && r.val == 0 {
				return r
			}
		}
		return r
	case *types.Slice:
		x, y := sliceOf(a), sliceOf(b)
		if (x == nil) != (y == nil) {
			return w.tt.F
		}
		if x == nil {
			return w.tt.T
		}
		if x.len != y.len {
			return w.tt.F
		}
		r := w.tt.T
		for i := 0; i < x.len; i++ {
			var p, q Value
			if isAgg(u.Elem()) {
				p, q = w.loadCells(x.obj, x.off+i*x.esz, x.esz), w.loadCells(y.obj, y.off+i*y.esz, y.esz)
			} else {
				p, q = x.obj.get(x.off+i), y.obj.get(y.off+i)
			}
			r = w.tt.And(r, w.deepEq(u.Elem(), p, q, d+1))
			if r.isC() && r.val == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		r := w.tt.T
		c := cellsOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = w.tt.And(r, w.deepEq(u.Elem(), aggField(a, i*c, u.Elem()), aggField(b, i*c, u.Elem()), d+1))
		}
		return r
	case *types.Map:
		if a.p == nil || b.p == nil {
			return w.tt.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*MapObj), b.p.(*MapObj)
		if x.count != y.count {
			return w.tt.F
		}
		r := w.tt.T
		kt := TT.RT(u.Key())
		for i := range x.ents {
			if !x.ents[i].live {
				continue
			}
			v, ok := w.mapGet(b, x.ents[i].k, kt)
			if !ok {
				return w.tt.F
			}
			r = w.tt.And(r, w.deepEq(u.Elem(), x.ents[i].v, v, d+1))
		}
		return r
	case *types.Signature:
		return w.tt.Bool(a.p == nil && b.p == nil)
	}
	return w.eqVals(t, a, b)
}

var _ = fmt.Sprint
