package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn = func(e *Exec, fr *Frame, args []Value, dst int) bool

// simple wraps a model that just computes its result.
func simple(f func(e *Exec, args []Value) Value) modelFn {
	return func(e *Exec, fr *Frame, args []Value, dst int) bool {
		e.set(fr, dst, f(e, args))
		return true
	}
}

func (P *Program) findModel(fn *ssa.Function) modelFn {
	if fn.Pkg != nil && fn.Pkg == P.sorty && P.isHarnessFn(fn) {
		if m := intrinsics[fn.Name()]; m != nil {
			return m
		}
		return nil
	}
	name := fn.String()
	if fn.Name() == "init" && fn.Pkg != P.sorty && !P.initPkgs[fn.Pkg] && fn.Signature.Recv() == nil && fn.Parent() == nil {
		return simple(func(e *Exec, a []Value) Value { return nil })
	}
	if m := models[name]; m != nil {
		return m
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		return atomicModel(fn)
	}
	return nil
}

func atomicModel(fn *ssa.Function) modelFn {
	n := fn.Name()
	var op string
	for _, p := range []string{"CompareAndSwap", "Add", "Load", "Store", "Swap", "And", "Or"} {
		if strings.HasPrefix(n, p) {
			op = p
			break
		}
	}
	if op == "" {
		return nil
	}
	return func(e *Exec, fr *Frame, args []Value, dst int) bool {
		p := args[0].(*Ptr)
		e.deref(p)
		if p.obj.big {
			e.unsup("atomic on an abstract object")
		}
		ci := e.cellIndex(p)
		o := p.obj
		if e.open != nil && !e.open.dead {
			et := fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
			w := e.width(et)
			it := oItem{op: op, loc: e.oloc(p, ci), wid: w}
			for _, a := range args[1:] {
				it.args = append(it.args, e.oarg(a))
			}
			var r *Term
			if op == "CompareAndSwap" {
				it.op = "CAS"
				r = e.ores(0)
			} else if op != "Store" {
				r = e.ores(w)
			}
			if r != nil {
				it.res, it.w = true, r.w
			}
			if e.open.started {
				e.oitem(it)
			}
			if r != nil {
				e.set(fr, dst, r)
			}
			return true
		}
		if o.meta == nil {
			o.meta = map[int]*cellMeta{}
		}
		m := o.meta[ci]
		if m == nil {
			m = &cellMeta{rd: map[int]int{}}
			o.meta[ci] = m
		}
		m.atomic = true
		th := e.cur
		th.tick()
		th.vc = join(th.vc, m.avc)
		if op != "Load" {
			m.avc = join(m.avc, th.vc)
		}
		t := fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
		old := e.load(p, t)
		var res Value
		switch op {
		case "Load":
			res = old
		case "Store":
			e.store(p, args[1], t)
		case "Add":
			nv := e.c.Add(e.term(old), e.term(args[1]))
			e.store(p, nv, t)
			res = nv
		case "Swap":
			e.store(p, args[1], t)
			res = old
		case "And":
			e.store(p, e.c.Bin(OBAnd, e.term(old), e.term(args[1])), t)
			res = old
		case "Or":
			e.store(p, e.c.Bin(OBOr, e.term(old), e.term(args[1])), t)
			res = old
		case "CompareAndSwap":
			if e.branch(e.deepEq(old, args[1])) {
				e.store(p, args[2], t)
				res = e.c.True
			} else {
				res = e.c.False
			}
		}
		if res != nil {
			e.set(fr, dst, res)
		}
		return true
	}
}

var models = map[string]modelFn{}
var intrinsics = map[string]modelFn{}

func init() {
	ident := simple(func(e *Exec, a []Value) Value { return a[0] })
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits"} {
		models[n] = simple(func(e *Exec, a []Value) Value { e.needBV(); return a[0] })
	}
	_ = ident
	models["math.IsNaN"] = simple(func(e *Exec, a []Value) Value { return e.fnan(a[0].(*Term)) })
	models["runtime.Gosched"] = simple(func(e *Exec, a []Value) Value { return nil })
	models["runtime.KeepAlive"] = simple(func(e *Exec, a []Value) Value { return nil })
	models["internal/race.Acquire"] = simple(func(e *Exec, a []Value) Value { return nil })
	cmp3 := func(e *Exec, a, b *Str) Value {
		lt, eq := e.strCmp(token.LSS, a, b), e.strCmp(token.EQL, a, b)
		return e.c.Ite(lt, e.k(mask(e.W)), e.c.Ite(eq, e.k(0), e.k(1)))
	}
	models["strings.Compare"] = simple(func(e *Exec, a []Value) Value { return cmp3(e, a[0].(*Str), a[1].(*Str)) })
	models["bytes.Compare"] = simple(func(e *Exec, a []Value) Value {
		return cmp3(e, e.sliceToStr(a[0].(*Slice)), e.sliceToStr(a[1].(*Slice)))
	})
	models["bytes.Equal"] = simple(func(e *Exec, a []Value) Value {
		return e.strCmp(token.EQL, e.sliceToStr(a[0].(*Slice)), e.sliceToStr(a[1].(*Slice)))
	})
	// reflect
	models["reflect.TypeOf"] = simple(func(e *Exec, a []Value) Value {
		i := a[0].(*Iface)
		if i.sym != nil {
			return &Iface{v: i.sym}
		}
		if i.typ == nil {
			return &Iface{}
		}
		return &Iface{v: &RType{t: i.typ}}
	})
	models["reflect.ValueOf"] = simple(func(e *Exec, a []Value) Value { return &RValue{a[0].(*Iface)} })
	models["(reflect.Value).Kind"] = simple(func(e *Exec, a []Value) Value {
		i := a[0].(*RValue).i
		return e.kindOf(i)
	})
	models["(reflect.Value).Type"] = simple(func(e *Exec, a []Value) Value {
		i := a[0].(*RValue).i
		if i.sym != nil {
			return &Iface{v: i.sym}
		}
		if i.typ == nil {
			panic(goPanic{"reflect: Type of zero Value"})
		}
		return &Iface{v: &RType{t: i.typ}}
	})
	models["(reflect.Value).Len"] = simple(func(e *Exec, a []Value) Value {
		switch x := e.rv(a[0].(*RValue).i).(type) {
		case *Slice:
			return x.len
		case *Str:
			return e.strLen(x)
		case *Arr:
			return e.kint(len(x.e))
		}
		panic(goPanic{"reflect: Len"})
	})
	models["(reflect.Value).Cap"] = simple(func(e *Exec, a []Value) Value {
		switch x := e.rv(a[0].(*RValue).i).(type) {
		case *Slice:
			return x.cap
		}
		panic(goPanic{"reflect: Cap"})
	})
	dataPtr := simple(func(e *Exec, a []Value) Value {
		switch x := e.rv(a[0].(*RValue).i).(type) {
		case *Slice:
			return e.sliceData(x)
		case *Ptr:
			return x
		}
		panic(goPanic{"reflect: Pointer"})
	})
	models["(reflect.Value).Pointer"] = dataPtr
	models["(reflect.Value).UnsafePointer"] = dataPtr
	models["(reflect.Value).IsNil"] = simple(func(e *Exec, a []Value) Value {
		switch x := e.rv(a[0].(*RValue).i).(type) {
		case *Slice:
			return e.c.Bool(x.obj == nil)
		case *Ptr:
			return e.c.Bool(x.isNil())
		}
		panic(goPanic{"reflect: IsNil"})
	})

	in := intrinsics
	scalar := func(kind string, w uint8, sg bool) modelFn {
		return simple(func(e *Exec, a []Value) Value {
			ww := w
			if w == 99 {
				ww = e.W
			}
			t := e.freshNum("x", ww, sg)
			e.inputs = append(e.inputs, Input{Kind: kind, Terms: []*Term{t}})
			return t
		})
	}
	in["vI8"], in["vU8"] = scalar("u64", 64, true), scalar("u64", 64, false)
	in["vI4"], in["vU4"] = scalar("u32", 32, true), scalar("u32", 32, false)
	in["vF8"] = simple(func(e *Exec, a []Value) Value {
		t := e.newFloat(64)
		e.inputs = append(e.inputs, Input{Kind: "u64", Terms: []*Term{t}})
		return t
	})
	in["vF4"] = simple(func(e *Exec, a []Value) Value {
		t := e.newFloat(32)
		e.inputs = append(e.inputs, Input{Kind: "u32", Terms: []*Term{t}})
		return t
	})
	in["vI"], in["vU"] = scalar("word", 99, true), scalar("word", 99, false)
	in["vU1"] = scalar("u8", 8, false)
	in["vBool"] = scalar("bool", 0, false)
	in["vInt"] = simple(func(e *Exec, a []Value) Value {
		lo, hi := e.term(a[0]), e.term(a[1])
		l, _ := lo.iv()
		_, h := hi.iv()
		t := lo
		if lo != hi {
			t = e.freshRange("n", e.W, l, h)
		}
		e.inputs = append(e.inputs, Input{Kind: "word", Terms: []*Term{t}})
		e.assume(e.c.And(e.c.SLe(lo, t), e.c.SLe(t, hi)))
		return t
	})
	in["vStr"] = simple(func(e *Exec, a []Value) Value {
		s := e.newStr("s")
		e.inputs = append(e.inputs, Input{Kind: "str", Terms: append([]*Term{s.sd.len}, s.sd.bytes...)})
		return s
	})
	in["vBytes"] = simple(func(e *Exec, a []Value) Value {
		s := e.newBytes("s")
		e.inputs = append(e.inputs, Input{Kind: "bytes", Terms: append([]*Term{s.len, s.cap}, s.obj.sd.bytes...)})
		return s
	})
	in["vLStr"] = simple(func(e *Exec, a []Value) Value { // opaque string of length in [0,max]
		x := e.newLStr(e.term(a[0]))
		e.inputs = append(e.inputs, Input{Kind: "lstr", Terms: []*Term{x.sd.len}})
		return x
	})
	in["vLBytes"] = simple(func(e *Exec, a []Value) Value {
		x := e.newLBytes(e.term(a[0]))
		e.inputs = append(e.inputs, Input{Kind: "lbytes", Terms: []*Term{x.len, x.cap}})
		return x
	})
	in["vPtr"] = simple(func(e *Exec, a []Value) Value {
		t := e.fresh("p", e.W)
		e.inputs = append(e.inputs, Input{Kind: "ptr", Terms: []*Term{t}})
		return &Ptr{addr: t}
	})
	in["vAssume"] = simple(func(e *Exec, a []Value) Value { e.assume(e.term(a[0])); return nil })
	in["vAssert"] = simple(func(e *Exec, a []Value) Value {
		p, m := splitTag(a[1].(*Str).lit)
		for _, q := range p {
			e.oblige(q, e.term(a[0]), m)
		}
		return nil
	})
	in["vNote"] = simple(func(e *Exec, a []Value) Value {
		e.pathNote = append(e.pathNote, a[0].(*Str).lit)
		return nil
	})
	in["vOut"] = simple(func(e *Exec, a []Value) Value {
		e.outs = append(e.outs, append([]Value(nil), e.elems(a[0])...))
		return nil
	})
	in["vOutI"] = simple(func(e *Exec, a []Value) Value { e.outs = append(e.outs, []Value{a[0]}); return nil })
	in["vReach"] = simple(func(e *Exec, a []Value) Value { e.St.reach(a[0].(*Str).lit); return nil })
	in["vCut"] = simple(func(e *Exec, a []Value) Value { e.St.Cut++; panic(pathEnd{"cut"}) })
	in["vEnd"] = simple(func(e *Exec, a []Value) Value { panic(pathEnd{"end"}) })
	in["vAnd"] = simple(func(e *Exec, a []Value) Value { return e.c.And(e.term(a[0]), e.term(a[1])) })
	in["vOr"] = simple(func(e *Exec, a []Value) Value { return e.c.Or(e.term(a[0]), e.term(a[1])) })
	in["vNot"] = simple(func(e *Exec, a []Value) Value { return e.c.Not(e.term(a[0])) })
	in["vImp"] = simple(func(e *Exec, a []Value) Value { return e.c.Or(e.c.Not(e.term(a[0])), e.term(a[1])) })
	in["vIte"] = simple(func(e *Exec, a []Value) Value { return e.c.Ite(e.term(a[0]), e.term(a[1]), e.term(a[2])) })
	in["vConc"] = simple(func(e *Exec, a []Value) Value { t := e.term(a[0]); return e.c.Const(e.concretize(t), t.w) })
	in["vIsConcrete"] = simple(func(e *Exec, a []Value) Value { return e.c.False })
	in["vSameI"] = simple(func(e *Exec, a []Value) Value { // provenance equality, no solver
		return e.c.Bool(e.ident(a[0]) == e.ident(a[1]))
	})
	in["vSame"] = simple(func(e *Exec, a []Value) Value {
		p, m := splitTag(a[2].(*Str).lit)
		c := e.c.True
		if e.ident(a[0]) != e.ident(a[1]) {
			x, ok1 := a[0].(*Term)
			y, ok2 := a[1].(*Term)
			if ok1 && ok2 {
				c = e.c.Eq(x, y)
			} else {
				c = e.c.False
			}
		}
		for _, q := range p {
			e.oblige(q, c, m)
		}
		return nil
	})
	in["vPerm"] = simple(func(e *Exec, a []Value) Value {
		p, m := splitTag(a[2].(*Str).lit)
		c := e.perm(e.elems(a[0]), e.elems(a[1]))
		for _, q := range p {
			e.oblige(q, c, m)
		}
		return nil
	})
	in["vCatch"] = func(e *Exec, fr *Frame, a []Value, dst int) bool {
		th := e.cur
		e.call(th, a[0], nil, -1)
		th.frames[len(th.frames)-1].catch = dst
		return true
	}
	in["vStub"] = simple(func(e *Exec, a []Value) Value {
		f := a[0].(*Iface).v.(*Closure)
		g := a[1].(*Iface).v.(*Closure)
		e.stubs[f.fn] = g
		return nil
	})
	in["vTail"] = simple(func(e *Exec, a []Value) Value {
		if e.tails == nil {
			e.tails = map[*ssa.Function]*Closure{}
		}
		e.tails[a[0].(*Iface).v.(*Closure).fn] = a[1].(*Iface).v.(*Closure)
		return nil
	})
	in["vMeanS"] = simple(func(e *Exec, a []Value) Value { return e.c.Bin(OSMean, e.term(a[0]), e.term(a[1])) })
	in["vMeanU"] = simple(func(e *Exec, a []Value) Value { return e.c.Bin(OUMean, e.term(a[0]), e.term(a[1])) })
	in["vLens"] = simple(func(e *Exec, a []Value) Value { e.lenMode = true; return nil })
	in["vInts"] = simple(func(e *Exec, a []Value) Value { e.intMode = true; return nil })
	in["vMerge"] = simple(func(e *Exec, a []Value) Value { e.merge = true; return nil })
	in["vStubEq"] = in["vStub"]
	in["vUnstub"] = simple(func(e *Exec, a []Value) Value {
		delete(e.stubs, a[0].(*Iface).v.(*Closure).fn)
		return nil
	})
	in["vBig"] = simple(nil)
	in["vBig"] = func(e *Exec, fr *Frame, a []Value, dst int) bool {
		// result type tells the element
		var t types.Type
		in := &fr.fi.code[fr.blk.Index][fr.pc-1]
		t = in.i.(*ssa.Call).Type()
		e.nobj++
		n := e.term(a[0])
		o := &Obj{id: e.nobj, big: true, blen: n, elem: under(t).(*types.Slice).Elem(), name: "collection"}
		e.set(fr, dst, &Slice{obj: o, off: e.k(0), len: n, cap: n})
		return true
	}
	in["vOff"] = simple(func(e *Exec, a []Value) Value { return a[0].(*Slice).off })
	in["vFirst"] = simple(func(e *Exec, a []Value) Value { return a[0] })
	in["vTrack"] = simple(func(e *Exec, a []Value) Value {
		o := a[0].(*Slice).obj
		if o != nil {
			o.track = true
			o.name = "the collection"
		}
		return nil
	})
	in["vStrict"] = simple(func(e *Exec, a []Value) Value {
		a[0].(*Slice).obj.strict = true
		return nil
	})
	in["vWrite"] = simple(func(e *Exec, a []Value) Value { // whole-range write of an abstract collection
		s := a[0].(*Slice)
		if s.obj == nil {
			return nil
		}
		s.obj.reads = nil
		e.bigEv(s.obj, s.off, e.c.Add(s.off, s.len), true, a[1].(*Str).lit)
		return nil
	})
	in["vRange"] = simple(func(e *Exec, a []Value) Value { // same for index ranges: vRange(key []T, lo, hi, write, what)
		s := a[0].(*Slice)
		w := e.term(a[3]).isTrue()
		if w {
			s.obj.reads = nil
		}
		e.bigEv(s.obj, e.term(a[1]), e.term(a[2]), w, a[4].(*Str).lit)
		return nil
	})
	in["vNumReads"] = simple(func(e *Exec, a []Value) Value { return e.kint(len(a[0].(*Slice).obj.reads)) })
	in["vReadVal"] = simple(func(e *Exec, a []Value) Value {
		return a[0].(*Slice).obj.reads[e.term(a[1]).val].v
	})
	in["vReadIdx"] = simple(func(e *Exec, a []Value) Value {
		return a[0].(*Slice).obj.reads[e.term(a[1]).val].idx
	})
	in["vClearReads"] = simple(func(e *Exec, a []Value) Value { a[0].(*Slice).obj.reads = nil; return nil })
	in["vOpen"] = simple(func(e *Exec, a []Value) Value { // see open.go
		e.open = &openRun{bname: map[*Term]string{}, objs: map[*Obj]string{}, cur: &gNode{}, chain: e.job.chain, max: int(e.term(a[0]).val)}
		if len(e.job.chain) > 0 {
			e.open.max-- // the caller waits, too
		} else {
			e.oroot()
		}
		return nil
	})
	in["vOpenEnd"] = simple(func(e *Exec, a []Value) Value {
		e.ofinish("done")
		e.open.dead = true
		return nil
	})
	in["vWork"] = simple(func(e *Exec, a []Value) Value {
		if e.open.live() {
			e.oitem(oItem{op: "W"})
		}
		return nil
	})
	in["vSched"] = simple(func(e *Exec, a []Value) Value { e.sched = int(e.term(a[0]).val); return nil })
	in["vVolatile"] = simple(func(e *Exec, a []Value) Value { e.vol[a[0].(*Ptr).obj] = true; return nil })
	in["vGoCount"] = simple(func(e *Exec, a []Value) Value { return e.kint(e.ngo) })
	in["vChanCount"] = simple(func(e *Exec, a []Value) Value { return e.kint(e.nchan) })
	in["vThread"] = simple(func(e *Exec, a []Value) Value { return e.kint(e.cur.id) })
	in["vQuiesce"] = func(e *Exec, fr *Frame, a []Value, dst int) bool {
		// the call under test has returned: what is left of its goroutines?
		e.after = true
		me := e.cur
		me.block = "waiting for the others"
		me.pred = func() bool {
			for _, t := range e.ths {
				if t != me && e.runnable(t) {
					return false
				}
			}
			for _, t := range e.ths {
				if t != me && !t.done {
					e.oblige("C09", e.c.False, "goroutine "+t.name+" is blocked forever after the call returned: "+t.block)
				}
			}
			e.after = false
			return true
		}
		return true
	}
	in["vDepth"] = simple(func(e *Exec, a []Value) Value { return e.kint(len(e.cur.frames)) })
	in["vMaxVisit"] = simple(func(e *Exec, a []Value) Value { e.maxVisit = int(e.term(a[0]).val); return nil })
	in["vParam"] = simple(func(e *Exec, a []Value) Value {
		n := a[0].(*Str).lit
		v, ok := e.job.Params[n]
		if !ok {
			e.unsup("no parameter %s", n)
		}
		return e.kint(v)
	})
	in["vIntLess"] = simple(func(e *Exec, a []Value) Value { return e.c.SLt(e.term(a[0]), e.term(a[1])) })
	// symbolic dynamic type: vAnyKind(nkinds) any, an empty slice of symbolic kinds
	in["vAnyTyped"] = simple(func(e *Exec, a []Value) Value {
		r := &RType{}
		for i := 0; i < 4; i++ {
			k := e.fresh("kind", 8)
			r.kinds = append(r.kinds, k)
			e.assume(e.c.And(e.c.ULe(e.c.Const(1, 8), k), e.c.ULe(k, e.c.Const(26, 8))))
		}
		e.assume(e.c.Not(e.c.Eq(r.kinds[0], e.c.Const(uint64(reflect.Interface), 8))))
		e.inputs = append(e.inputs, Input{Kind: "kinds", Terms: r.kinds})
		return &Iface{sym: r}
	})
	in["vKind"] = simple(func(e *Exec, a []Value) Value {
		return e.c.ZExt(a[0].(*Iface).sym.kinds[e.term(a[1]).val], e.W)
	})
}

func splitTag(s string) ([]string, string) {
	f := strings.SplitN(s, " ", 2)
	m := s
	if len(f) > 1 {
		m = f[1]
	}
	return strings.Split(f[0], ","), m
}

func (e *Exec) elems(v Value) []Value {
	s := v.(*Slice)
	if s.obj == nil {
		return nil
	}
	n, off := int(e.concretize(s.len)), int(e.concretize(s.off))
	return s.obj.cells[off : off+n]
}

func (e *Exec) perm(a, b []Value) *Term {
	if len(a) != len(b) {
		return e.c.False
	}
	cnt := map[string]int{}
	for _, v := range a {
		cnt[e.ident(v)]++
	}
	ok := true
	for _, v := range b {
		id := e.ident(v)
		cnt[id]--
		if cnt[id] < 0 {
			ok = false
		}
	}
	if ok {
		return e.c.True
	}
	// by value: every word occurs equally often
	if len(a) == 0 {
		return e.c.True
	}
	if _, isT := a[0].(*Term); !isT {
		return e.c.False
	}
	w := a[0].(*Term).w
	probe := e.fresh("probe", w)
	count := func(vs []Value) *Term {
		s := e.c.Const(0, 16)
		for _, v := range vs {
			s = e.c.Add(s, e.c.Ite(e.c.Eq(v.(*Term), probe), e.c.Const(1, 16), e.c.Const(0, 16)))
		}
		return s
	}
	return e.c.Eq(count(a), count(b))
}

// ---------- reflect ----------

func (e *Exec) kindOf(i *Iface) Value {
	if i.sym != nil {
		return e.c.ZExt(i.sym.kinds[0], e.W)
	}
	if i.typ == nil {
		return e.k(0)
	}
	return e.k(uint64(rkind(i.typ)))
}

func (e *Exec) rv(i *Iface) Value {
	if i.sym != nil {
		if e.branch(e.c.Eq(i.sym.kinds[0], e.c.Const(uint64(reflect.Slice), 8))) {
			return e.mkSlice(types.Typ[types.Uint8], 0, 0, "empty")
		}
		panic(goPanic{"reflect: not a slice"})
	}
	if i.typ == nil {
		panic(goPanic{"reflect: zero Value"})
	}
	return i.v
}

func rkind(t types.Type) reflect.Kind {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (e *Exec) rtypeMethod(r *RType, name string, args []Value) Value {
	switch name {
	case "Kind":
		if r.t != nil {
			return e.k(uint64(rkind(r.t)))
		}
		return e.c.ZExt(r.kinds[0], e.W)
	case "Elem":
		if r.t != nil {
			switch u := under(r.t).(type) {
			case *types.Array:
				return &Iface{v: &RType{t: u.Elem()}}
			case *types.Slice:
				return &Iface{v: &RType{t: u.Elem()}}
			case *types.Pointer:
				return &Iface{v: &RType{t: u.Elem()}}
			case *types.Chan:
				return &Iface{v: &RType{t: u.Elem()}}
			case *types.Map:
				return &Iface{v: &RType{t: u.Elem()}}
			}
			panic(goPanic{"reflect: Elem of invalid type"})
		}
		if len(r.kinds) < 2 {
			e.unsup("element type too deep")
		}
		ok := e.c.False
		for _, k := range []reflect.Kind{reflect.Array, reflect.Chan, reflect.Map, reflect.Pointer, reflect.Slice} {
			ok = e.c.Or(ok, e.c.Eq(r.kinds[0], e.c.Const(uint64(k), 8)))
		}
		if !e.branch(ok) {
			panic(goPanic{"reflect: Elem of invalid type"})
		}
		return &Iface{v: &RType{kinds: r.kinds[1:]}}
	case "Size":
		if r.t != nil {
			return e.k(uint64(e.P.sizes.Sizeof(r.t)))
		}
	case "String", "Name":
		return &Str{lit: fmt.Sprint(r.t)}
	}
	e.unsup("reflect.Type.%s", name)
	return nil
}
