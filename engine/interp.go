package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) newThread(name string) *Thread {
	th := &Thread{id: len(e.ths), name: name}
	e.ths = append(e.ths, th)
	th.tick()
	return th
}

// call starts fn in thread th; the result goes to slot dst of the current top frame.
func (e *Exec) call(th *Thread, fv Value, args []Value, dst int) {
	cl, ok := fv.(*Closure)
	if !ok || cl == nil {
		if ok {
			panic(goPanic{"nil function call"})
		}
		e.unsup("call of %T", fv)
	}
	if cl.bi != nil {
		e.unsup("builtin as value")
	}
	if len(e.stubs) > 0 && !(len(th.frames) > 0 && e.P.isHarnessFn(th.frames[len(th.frames)-1].fi.fn)) {
		if st := e.stubs[cl.fn]; st != nil {
			e.St.stub(cl.fn.Name())
			cl = st
		}
	}
	fi := e.info(cl.fn)
	var top *Frame
	if len(th.frames) > 0 {
		top = th.frames[len(th.frames)-1]
	}
	if fi.model != nil {
		if top == nil {
			top = &Frame{fi: fi, regs: make([]Value, 1), dst: -1, catch: -1}
			// go of a modelled function: run it in a dummy frame
			e.unsup("go %s", fi.name)
		}
		if fi.model(e, top, args, dst) {
			return
		}
	}
	if cl.fn.Blocks == nil {
		e.unsup("external function %s", fi.name)
	}
	if fi.repo {
		e.St.fn(fi.name)
	}
	if len(th.frames) > 400 {
		e.unsup("call depth")
	}
	if e.open.live() {
		e.ocall(th, cl.fn)
	}
	fr := &Frame{fi: fi, regs: make([]Value, fi.nslot), env: cl.env, blk: cl.fn.Blocks[0], dst: dst, catch: -1}
	copy(fr.regs, args)
	th.frames = append(th.frames, fr)
}

func (e *Exec) set(fr *Frame, dst int, v Value) {
	if dst >= 0 {
		fr.regs[dst] = v
	}
}

// runAll runs threads until the main thread has finished.
func (e *Exec) runAll() {
	for {
		th := e.pick()
		if th == nil {
			if e.main.done {
				return
			}
			why := ""
			for _, t := range e.ths {
				if !t.done {
					why += fmt.Sprintf(" goroutine %d (%s): %s;", t.id, t.name, t.block)
				}
			}
			e.oblige("C09", e.c.False, "deadlock:"+why)
			panic(pathEnd{"deadlock"})
		}
		e.cur = th
		e.runThread(th)
		if e.main.done {
			return
		}
	}
}

func (e *Exec) runnable(t *Thread) bool {
	if t.done {
		return false
	}
	if t.pred != nil {
		if !t.pred() {
			return false
		}
		t.pred = nil
		t.block = ""
	}
	return t.block == ""
}

func (e *Exec) pick() *Thread {
	if e.cur != nil && e.runnable(e.cur) {
		return e.cur
	}
	switch e.sched {
	case 0: // newest first
		for i := len(e.ths) - 1; i >= 0; i-- {
			if e.runnable(e.ths[i]) {
				return e.ths[i]
			}
		}
	default: // oldest first
		for _, t := range e.ths {
			if e.runnable(t) {
				return t
			}
		}
	}
	return nil
}

func (e *Exec) runThread(th *Thread) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				e.handlePanic(th, gp.msg)
				return
			}
			panic(r)
		}
	}()
	for len(th.frames) > 0 && th.block == "" && e.cur == th {
		e.step(th)
	}
	if len(th.frames) == 0 {
		th.done = true
	}
}

func (e *Exec) handlePanic(th *Thread, msg string) {
	for len(th.frames) > 0 {
		fr := th.frames[len(th.frames)-1]
		if len(fr.defs) > 0 {
			e.unsup("panic with deferred calls: %s", msg)
		}
		th.frames = th.frames[:len(th.frames)-1]
		if fr.catch >= 0 {
			caller := th.frames[len(th.frames)-1]
			e.set(caller, fr.catch, e.c.True)
			return
		}
	}
	e.oblige("C14", e.c.False, "panic: "+msg)
	panic(pathEnd{"panic: " + msg})
}

func (e *Exec) ret(th *Thread, fr *Frame, v Value) {
	th.frames = th.frames[:len(th.frames)-1]
	if fr.onRet != nil {
		v = fr.onRet(v)
	}
	if len(th.frames) == 0 {
		th.done = true
		return
	}
	caller := th.frames[len(th.frames)-1]
	if fr.catch >= 0 {
		e.set(caller, fr.catch, e.c.False)
		return
	}
	e.set(caller, fr.dst, v)
}

// mergeIf executes a branch whose arms only select values without forking.
func (e *Exec) mergeIf(fr *Frame, c *Term) bool {
	if _, ok := e.facts[c]; ok {
		return false
	}
	b := fr.blk
	empty := func(x *ssa.BasicBlock) bool { return len(x.Instrs) == 1 && len(x.Preds) == 1 && len(x.Succs) == 1 }
	s0, s1 := b.Succs[0], b.Succs[1]
	var j, p0, p1 *ssa.BasicBlock
	switch {
	case empty(s0) && s0.Succs[0] == s1:
		j, p0, p1 = s1, s0, b
	case empty(s1) && s1.Succs[0] == s0:
		j, p0, p1 = s0, b, s1
	case empty(s0) && empty(s1) && s0.Succs[0] == s1.Succs[0]:
		j, p0, p1 = s0.Succs[0], s0, s1
	default:
		return false
	}
	if fr.fi.loop[j.Index] || s0 == s1 {
		return false
	}
	code := fr.fi.code[j.Index]
	pred := func(p *ssa.BasicBlock) int {
		for i, x := range j.Preds {
			if x == p {
				return i
			}
		}
		return -1
	}
	i0, i1 := pred(p0), pred(p1)
	var vals []Value
	np := 0
	for np < len(code) {
		if _, ok := code[np].i.(*ssa.Phi); !ok {
			break
		}
		v0, v1 := e.op(fr, &code[np], i0), e.op(fr, &code[np], i1)
		t0, ok0 := v0.(*Term)
		t1, ok1 := v1.(*Term)
		switch {
		case ok0 && ok1:
			vals = append(vals, e.c.Ite(c, t0, t1))
		case e.ident(v0) == e.ident(v1):
			vals = append(vals, v0)
		default:
			if _, ok := v0.(*Str); !ok {
				return false
			}
			vals = append(vals, e.newStr("m")) // any string: loses information only
		}
		np++
	}
	for i, v := range vals {
		fr.regs[code[i].dst] = v
	}
	fr.prev, fr.blk, fr.pc = p0, j, np
	return true
}

// tailCut replaces a further round of a function's main loop by the function's contract.
func (e *Exec) tailCut(fr *Frame, to *ssa.BasicBlock) bool {
	cl := e.tails[fr.fi.fn]
	if cl == nil {
		return false
	}
	entry := fr.fi.fn.Blocks[0]
	if len(entry.Succs) != 1 || entry.Succs[0] != to || fr.blk == entry {
		return false
	}
	at := func(p *ssa.BasicBlock) int {
		for i, x := range to.Preds {
			if x == p {
				return i
			}
		}
		return -1
	}
	i0, i1 := at(entry), at(fr.blk)
	var args []Value
	for k, p := range fr.fi.fn.Params {
		v := fr.regs[k]
		for i := range fr.fi.code[to.Index] {
			in := &fr.fi.code[to.Index][i]
			ph, ok := in.i.(*ssa.Phi)
			if !ok {
				break
			}
			if ph.Edges[i0] == p {
				v = e.op(fr, in, i1)
			}
		}
		args = append(args, v)
	}
	th := e.cur
	if fr.catch >= 0 || fr.onRet != nil || len(fr.defs) > 0 {
		e.unsup("tail of a deferring frame")
	}
	th.frames = th.frames[:len(th.frames)-1]
	e.call(th, cl, args, fr.dst)
	return true
}

func (e *Exec) jump(fr *Frame, to *ssa.BasicBlock) {
	if e.tails != nil && e.tailCut(fr, to) {
		return
	}
	fr.prev, fr.blk, fr.pc = fr.blk, to, 0
	if fr.fi.loop[to.Index] && e.maxVisit > 0 && fr.fi.repo && !e.P.isHarnessFn(fr.fi.fn) {
		if fr.visit == nil {
			fr.visit = map[int]int{}
		}
		fr.visit[to.Index]++
		if fr.visit[to.Index] > e.maxVisit {
			e.St.Cut++
			panic(pathEnd{"loop bound"})
		}
	}
	// phis
	code := fr.fi.code[to.Index]
	np := 0
	for np < len(code) {
		if _, ok := code[np].i.(*ssa.Phi); !ok {
			break
		}
		np++
	}
	if np > 0 {
		pi := -1
		for i, p := range to.Preds {
			if p == fr.prev {
				pi = i
				break
			}
		}
		var tmp [16]Value
		vals := tmp[:0]
		for i := 0; i < np; i++ {
			vals = append(vals, e.op(fr, &code[i], pi))
		}
		for i := 0; i < np; i++ {
			fr.regs[code[i].dst] = vals[i]
		}
		fr.pc = np
	}
}

func (e *Exec) term(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Ptr:
		if x.addr != nil {
			return x.addr
		}
		if x.obj == nil {
			return e.k(0)
		}
	case unsupVal:
		e.unsup("%s", x.msg)
	}
	e.unsup("scalar expected, got %T", v)
	return nil
}

// toInt widens an index of type t to the word size.
func (e *Exec) toInt(v *Term, t types.Type) *Term {
	if v.w > e.W {
		return e.c.Extract(v, 0, e.W) // callers check the range first
	}
	if isSigned(t) {
		return e.c.SExt(v, e.W)
	}
	return e.c.ZExt(v, e.W)
}

func (e *Exec) boundsCheck(idx *Term, t types.Type, n *Term, what string) *Term {
	if idx.w > e.W {
		hi := e.c.Extract(idx, e.W, idx.w-e.W)
		if !e.must(e.c.Eq(hi, e.c.Const(0, idx.w-e.W))) {
			panic(goPanic{"index out of range"})
		}
	}
	i := e.toInt(idx, t)
	if !e.must(e.c.ULt(i, n)) {
		panic(goPanic{"index out of range in " + what})
	}
	return i
}

func (e *Exec) step(th *Thread) {
	fr := th.frames[len(th.frames)-1]
	in := &fr.fi.code[fr.blk.Index][fr.pc]
	fr.pc++
	e.steps++
	if e.steps > e.job.maxSteps() {
		e.oblige("C14", e.c.False, fmt.Sprintf("no termination within %d steps", e.job.maxSteps()))
		panic(pathEnd{"step limit"})
	}
	switch x := in.i.(type) {
	case *ssa.Alloc:
		o := e.newObj(x.Type().(*types.Pointer).Elem(), x.Comment)
		e.oalloc(o, x)
		fr.regs[in.dst] = &Ptr{obj: o, idx: e.k(0), whole: o.isArr}
	case *ssa.BinOp:
		fr.regs[in.dst] = e.binop(x.Op, e.op(fr, in, 0), e.op(fr, in, 1), x.X.Type(), x.Y.Type())
	case *ssa.UnOp:
		e.unop(th, fr, in, x)
	case *ssa.If:
		c := e.term(e.op(fr, in, 0))
		if e.merge && fr.fi.repo && !c.isConst() && e.mergeIf(fr, c) {
			return
		}
		if e.branch(c) {
			e.jump(fr, fr.blk.Succs[0])
		} else {
			e.jump(fr, fr.blk.Succs[1])
		}
	case *ssa.Jump:
		e.jump(fr, fr.blk.Succs[0])
	case *ssa.Return:
		var v Value
		switch len(in.ops) {
		case 0:
		case 1:
			v = e.op(fr, in, 0)
		default:
			t := make(Tuple, len(in.ops))
			for i := range in.ops {
				t[i] = e.op(fr, in, i)
			}
			v = t
		}
		e.ret(th, fr, v)
	case *ssa.Phi:
		e.unsup("phi")
	case *ssa.Store:
		p := e.toPtr(e.op(fr, in, 0)).(*Ptr)
		e.store(p, e.op(fr, in, 1), x.Val.Type())
	case *ssa.IndexAddr:
		base := e.op(fr, in, 0)
		idx := e.term(e.op(fr, in, 1))
		switch b := base.(type) {
		case *Slice:
			i := e.boundsCheck(idx, x.Index.Type(), b.len, fr.fi.name)
			if b.obj == nil {
				panic(goPanic{"index of nil slice"})
			}
			fr.regs[in.dst] = &Ptr{obj: b.obj, idx: e.c.Add(b.off, i)}
		case *Ptr:
			e.deref(b)
			at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
			i := e.boundsCheck(idx, x.Index.Type(), e.kint(int(at.Len())), fr.fi.name)
			if b.whole {
				if len(b.obj.cells) < int(at.Len()) {
					e.unsup("array cast")
				}
				fr.regs[in.dst] = &Ptr{obj: b.obj, idx: i}
			} else {
				ii := int(e.concretize(i))
				fr.regs[in.dst] = &Ptr{obj: b.obj, idx: b.idx, path: append(append([]int(nil), b.path...), ii)}
			}
		default:
			e.unsup("IndexAddr of %T", base)
		}
	case *ssa.Index:
		base := e.op(fr, in, 0)
		idx := e.term(e.op(fr, in, 1))
		switch b := base.(type) {
		case *Arr:
			i := e.boundsCheck(idx, x.Index.Type(), e.kint(len(b.e)), fr.fi.name)
			fr.regs[in.dst] = b.e[e.concretize(i)]
		case *Str:
			i := e.boundsCheck(idx, x.Index.Type(), e.strLen(b), fr.fi.name)
			fr.regs[in.dst] = e.strByte(b, i)
		default:
			e.unsup("Index of %T", base)
		}
	case *ssa.Lookup:
		base := e.op(fr, in, 0)
		if b, ok := base.(*Str); ok {
			i := e.boundsCheck(e.term(e.op(fr, in, 1)), x.Index.Type(), e.strLen(b), fr.fi.name)
			fr.regs[in.dst] = e.strByte(b, i)
			break
		}
		e.unsup("map lookup")
	case *ssa.FieldAddr:
		p := e.toPtr(e.op(fr, in, 0)).(*Ptr)
		e.deref(p)
		q := *p
		q.path = append(append([]int(nil), p.path...), x.Field)
		fr.regs[in.dst] = &q
	case *ssa.Field:
		v := e.adapt(e.op(fr, in, 0), x.X.Type())
		fr.regs[in.dst] = e.sub(v, x.Field)
	case *ssa.Extract:
		fr.regs[in.dst] = e.op(fr, in, 0).(Tuple)[x.Index]
	case *ssa.Slice:
		fr.regs[in.dst] = e.slice(fr, in, x)
	case *ssa.Convert:
		fr.regs[in.dst] = e.convert(e.op(fr, in, 0), x.X.Type(), x.Type())
	case *ssa.ChangeType, *ssa.ChangeInterface:
		fr.regs[in.dst] = e.op(fr, in, 0)
	case *ssa.MakeInterface:
		fr.regs[in.dst] = &Iface{typ: x.X.Type(), v: e.op(fr, in, 0)}
	case *ssa.MakeClosure:
		cl := &Closure{fn: x.Fn.(*ssa.Function)}
		for i := 1; i < len(in.ops); i++ {
			cl.env = append(cl.env, e.op(fr, in, i))
		}
		fr.regs[in.dst] = cl
	case *ssa.MakeSlice:
		n := int(sx(e.concretize(e.toInt(e.term(e.op(fr, in, 0)), x.Len.Type())), e.W))
		cp := int(sx(e.concretize(e.toInt(e.term(e.op(fr, in, 1)), x.Cap.Type())), e.W))
		if n < 0 || cp < n {
			panic(goPanic{"makeslice: len out of range"})
		}
		if cp > 1<<20 {
			e.unsup("make of %d elements", cp)
		}
		et := under(x.Type()).(*types.Slice).Elem()
		fr.regs[in.dst] = e.mkSlice(et, n, cp, "make in "+fr.fi.name)
	case *ssa.MakeChan:
		n := int(e.concretize(e.term(e.op(fr, in, 0))))
		e.nchan++
		fr.regs[in.dst] = &Chan{id: e.nchan, cap: n, elem: under(x.Type()).(*types.Chan).Elem()}
	case *ssa.TypeAssert:
		e.typeAssert(fr, in, x)
	case *ssa.Call:
		e.doCall(th, fr, in, &x.Call, in.dst)
	case *ssa.Go:
		e.doGo(th, fr, in, &x.Call)
	case *ssa.Defer:
		fv, args := e.callee(fr, in, &x.Call)
		if cl, ok := fv.(*Closure); ok && cl != nil && cl.bi != nil {
			e.unsup("defer of a builtin")
		}
		fr.defs = append(fr.defs, deferred{fv, args})
	case *ssa.RunDefers:
		if n := len(fr.defs); n > 0 {
			d := fr.defs[n-1]
			fr.defs = fr.defs[:n-1]
			fr.pc-- // come back for the rest
			e.call(th, d.fn, d.args, -1)
		}
	case *ssa.Panic:
		panic(goPanic{"explicit panic " + e.panicText(e.op(fr, in, 0))})
	case *ssa.Send:
		ch, _ := e.op(fr, in, 0).(*Chan)
		e.send(th, ch, e.op(fr, in, 1))
	case *ssa.Range, *ssa.Next:
		e.unsup("range over map or string")
	case *ssa.MakeMap, *ssa.MapUpdate:
		if _, ok := in.i.(*ssa.MakeMap); !ok {
			e.unsup("map")
		}
		fr.regs[in.dst] = &Ptr{idx: e.k(0), addr: e.fresh("map", e.W)} // only passed around
	case *ssa.Select:
		e.unsup("select")
	case *ssa.SliceToArrayPointer:
		s := e.op(fr, in, 0).(*Slice)
		n := under(under(x.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
		if !e.branch(e.c.SLe(e.kint(int(n)), s.len)) {
			panic(goPanic{"slice to array conversion"})
		}
		off := e.concretize(s.off)
		if off != 0 || int64(len(s.obj.cells)) != n {
			e.unsup("slice to array pointer")
		}
		fr.regs[in.dst] = &Ptr{obj: s.obj, idx: e.k(0), whole: true}
	default:
		e.unsup("instruction %T", x)
	}
}

func (e *Exec) panicText(v Value) string {
	if i, ok := v.(*Iface); ok {
		if s, ok := i.v.(*Str); ok {
			return s.String()
		}
	}
	return ""
}

func (e *Exec) mkSlice(et types.Type, n, cp int, name string) *Slice {
	e.nobj++
	o := &Obj{id: e.nobj, elem: et, isArr: true, name: name}
	z := e.zero(et)
	o.cells = make([]Value, cp)
	for i := range o.cells {
		o.cells[i] = z
	}
	return &Slice{obj: o, off: e.k(0), len: e.kint(n), cap: e.kint(cp)}
}

func (e *Exec) strByte(b *Str, i *Term) Value {
	k := int(e.concretize(i))
	if b.sd != nil {
		if k >= len(b.sd.bytes) {
			e.unsup("byte of an opaque string")
		}
		return b.sd.bytes[k]
	}
	return e.c.Const(uint64(b.lit[k]), 8)
}

func (e *Exec) slice(fr *Frame, in *inst, x *ssa.Slice) Value {
	base := e.op(fr, in, 0)
	// operands: X, Low, High, Max with nils kept
	get := func(i int, v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		t := e.term(e.op(fr, in, i))
		if t.w > e.W {
			e.unsup("wide slice index")
		}
		return e.toInt(t, v.Type())
	}
	lo, hi, mx := get(1, x.Low), get(2, x.High), get(3, x.Max)
	if lo == nil {
		lo = e.k(0)
	}
	var s *Slice
	switch b := base.(type) {
	case *Slice:
		s = b
	case *Ptr:
		e.deref(b)
		if !b.whole {
			e.unsup("slice of a nested array")
		}
		n := e.kint(len(b.obj.cells))
		s = &Slice{obj: b.obj, off: e.k(0), len: n, cap: n}
	case *Str:
		n := e.strLen(b)
		if hi == nil {
			hi = n
		}
		if !e.must(e.c.ULe(hi, n)) || !e.must(e.c.ULe(lo, hi)) {
			panic(goPanic{"string slice out of range"})
		}
		if b.sd == nil {
			return &Str{lit: b.lit[e.concretize(lo):e.concretize(hi)]}
		}
		if lo.isConst() && lo.val == 0 && hi == n {
			return b
		}
		return e.strPart(b.sd, e.concretize(lo), e.concretize(hi))
	default:
		e.unsup("slice of %T", base)
	}
	if hi == nil {
		hi = s.len
	}
	cp := s.cap
	what := "slice bounds out of range in " + fr.fi.name
	if mx != nil {
		if !e.must(e.c.ULe(mx, s.cap)) {
			panic(goPanic{what})
		}
		cp = mx
	}
	if !e.must(e.c.ULe(hi, cp)) {
		panic(goPanic{what})
	}
	if !e.must(e.c.ULe(lo, hi)) {
		panic(goPanic{what})
	}
	return &Slice{obj: s.obj, off: e.nonneg(e.c.Add(s.off, lo)), len: e.nonneg(e.c.Sub(hi, lo)), cap: e.nonneg(e.c.Sub(cp, lo))}
}

// nonneg names a difference that the path makes non-negative, so that its range is known.
func (e *Exec) nonneg(t *Term) *Term {
	u := e.c.core(t)
	if u == nil || !u.isint || u.isConst() || u.lo >= 0 {
		return t
	}
	key := fmt.Sprintf("nn%d", t.id)
	if v, ok := e.kv[key].(*Term); ok {
		return v
	}
	v := e.freshRange("d", t.w, 0, u.hi)
	e.assume(e.c.Eq(t, v))
	e.kv[key] = v
	return v
}

func (e *Exec) binop(op token.Token, a, b Value, ta, tb types.Type) Value {
	if u, ok := a.(unsupVal); ok {
		e.unsup("%s", u.msg)
	}
	switch x := a.(type) {
	case *Str:
		y := b.(*Str)
		if op == token.ADD {
			if x.sd == nil && y.sd == nil {
				return &Str{lit: x.lit + y.lit}
			}
			bs := append(append([]*Term(nil), e.strBytes(x)...), e.strBytes(y)...)
			return e.strPart(&StrData{bytes: bs}, 0, uint64(len(bs)))
		}
		return e.strCmp(op, x, y)
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			return e.ptrCmp(op, x, y)
		}
	case *Iface:
		y := b.(*Iface)
		if y.typ == nil && y.sym == nil && y.v == nil {
			r := e.c.Bool(x.typ == nil && x.sym == nil && x.v == nil)
			if op == token.NEQ {
				r = e.c.Not(r)
			}
			return r
		}
		rx, ok1 := x.v.(*RType)
		ry, ok2 := y.v.(*RType)
		if ok1 && ok2 && rx.t != nil && ry.t != nil {
			r := e.c.Bool(types.Identical(rx.t, ry.t))
			if op == token.NEQ {
				r = e.c.Not(r)
			}
			return r
		}
		e.unsup("interface comparison")
	case *Slice:
		y := b.(*Slice)
		r := e.c.Bool(x.obj == nil)
		if y.obj != nil {
			r = e.c.Bool(y.obj == nil)
		}
		if op == token.NEQ {
			r = e.c.Not(r)
		}
		return r
	case *Closure:
		y, _ := b.(*Closure)
		r := e.c.Bool(x == nil && y == nil)
		if op == token.NEQ {
			r = e.c.Not(r)
		}
		return r
	case *Chan:
		y, _ := b.(*Chan)
		r := e.c.Bool(x == y)
		if op == token.NEQ {
			r = e.c.Not(r)
		}
		return r
	case *Struct, *Arr:
		if op == token.EQL || op == token.NEQ {
			r := e.deepEq(a, b)
			if op == token.NEQ {
				r = e.c.Not(r)
			}
			return r
		}
	}
	x, y := e.term(a), e.term(b)
	if isFloat(ta) {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return e.fcmp(op, x, y)
		}
		if f, ok := map[token.Token]Op{token.ADD: OFAdd, token.SUB: OFSub, token.MUL: OFMul, token.QUO: OFDiv}[op]; ok {
			e.needBV()
			return e.c.Fop(f, x.w, x, y)
		}
		e.unsup("float arithmetic")
	}
	sg := isSigned(ta)
	if op == token.SHL || op == token.SHR {
		if isSigned(tb) {
			if !e.branch(e.c.SLe(e.c.Const(0, y.w), y)) {
				panic(goPanic{"negative shift amount"})
			}
		}
		w := x.w
		var sh *Term
		if y.w <= w {
			sh = e.c.ZExt(y, w)
		} else {
			// saturate
			sh = e.c.Ite(e.c.ULt(y, e.c.Const(uint64(w), y.w)), e.c.Extract(y, 0, w), e.c.Const(uint64(w), w))
		}
		if u := e.c.core(x); op == token.SHR && !isSigned(ta) && u != nil && u.isint && u.lo < 0 && e.branch(e.c.SLe(e.c.Const(0, u.w), u)) {
			x = e.nonneg(x)
		}
		if op == token.SHL {
			return e.c.Bin(OShl, x, sh)
		}
		if sg {
			return e.c.Bin(OAShr, x, sh)
		}
		return e.c.Bin(OLShr, x, sh)
	}
	if x.w == 0 {
		switch op {
		case token.EQL:
			return e.c.Eq(x, y)
		case token.NEQ:
			return e.c.Not(e.c.Eq(x, y))
		case token.AND, token.LAND:
			return e.c.And(x, y)
		case token.OR, token.LOR:
			return e.c.Or(x, y)
		case token.XOR:
			return e.c.Not(e.c.Eq(x, y))
		}
		e.unsup("bool op %s", op)
	}
	switch op {
	case token.ADD:
		return e.c.Add(x, y)
	case token.SUB:
		return e.c.Sub(x, y)
	case token.MUL:
		return e.c.Bin(OMul, x, y)
	case token.QUO, token.REM:
		return e.divmod(op, x, y, sg)
	case token.AND:
		return e.c.Bin(OBAnd, x, y)
	case token.OR:
		return e.c.Bin(OBOr, x, y)
	case token.XOR:
		return e.c.Bin(OBXor, x, y)
	case token.AND_NOT:
		return e.c.Bin(OBAnd, x, e.c.BNot(y))
	case token.EQL:
		return e.c.Eq(x, y)
	case token.NEQ:
		return e.c.Not(e.c.Eq(x, y))
	case token.LSS:
		if sg {
			return e.c.SLt(x, y)
		}
		return e.c.ULt(x, y)
	case token.LEQ:
		if sg {
			return e.c.SLe(x, y)
		}
		return e.c.ULe(x, y)
	case token.GTR:
		if sg {
			return e.c.SLt(y, x)
		}
		return e.c.ULt(y, x)
	case token.GEQ:
		if sg {
			return e.c.SLe(y, x)
		}
		return e.c.ULe(y, x)
	}
	e.unsup("binop %s", op)
	return nil
}

// divmod: division by a constant is expressed with fresh quotient and remainder, which
// bit-blasts far better than the divider circuit.
func (e *Exec) divmod(op token.Token, x, y *Term, sg bool) Value {
	if !e.branch(e.c.Not(e.c.Eq(y, e.c.Const(0, y.w)))) {
		panic(goPanic{"integer divide by zero"})
	}
	c := e.c
	if x.isConst() && y.isConst() {
		o := OUDiv
		if sg {
			o = OSDiv
		}
		if op == token.REM {
			o++
		}
		if sg && op == token.REM {
			o = OSRem
		} else if op == token.REM {
			o = OURem
		}
		return c.Bin(o, x, y)
	}
	if sg {
		// signed: decide by sign when possible
		if e.branch(c.SLe(c.Const(0, x.w), x)) && e.branch(c.SLe(c.Const(0, y.w), y)) {
			sg = false
		}
	}
	if !sg && y.isConst() {
		if y.val&(y.val-1) == 0 {
			if op == token.QUO {
				return c.Bin(OUDiv, x, y)
			}
			return c.Bin(OURem, x, y)
		}
		key := fmt.Sprintf("div%d,%d", x.id, y.id)
		t, ok := e.kv[key].(Tuple)
		if !ok {
			lo, hi := x.iv()
			if lo < 0 {
				lo, hi = 0, int64(mask(x.w)>>1)
			}
			var q, r *Term
			if u := e.c.core(x); u != nil && u.isint && lo >= 0 && hi < 1<<61 && y.val < 1<<30 {
				q, r = e.freshRange("q", x.w, lo/int64(y.val), hi/int64(y.val)), e.freshRange("r", x.w, 0, int64(y.val)-1)
			} else {
				q, r = e.fresh("q", x.w), e.fresh("r", x.w)
			}
			if q.op == OSExt {
				e.assume(c.Eq(c.Sub(x, c.Bin(OMul, q, y)), r))
			} else {
				e.assume(c.And(c.ULe(q, c.Const(mask(x.w)/y.val, x.w)), c.ULt(r, y),
					c.ULe(c.Bin(OMul, q, y), x), c.Eq(c.Sub(x, c.Bin(OMul, q, y)), r)))
			}
			t = Tuple{q, r}
			e.kv[key] = t
		}
		if op == token.QUO {
			return t[0]
		}
		return t[1]
	}
	switch {
	case sg && op == token.QUO:
		return c.Bin(OSDiv, x, y)
	case sg:
		return c.Bin(OSRem, x, y)
	case op == token.QUO:
		return c.Bin(OUDiv, x, y)
	}
	return c.Bin(OURem, x, y)
}

func (e *Exec) deepEq(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return e.c.Eq(x, e.term(b))
	case *Str:
		return e.strCmp(token.EQL, x, b.(*Str))
	case *Ptr:
		return e.ptrCmp(token.EQL, x, b.(*Ptr)).(*Term)
	case *Struct:
		r := e.c.True
		for i := range x.f {
			r = e.c.And(r, e.deepEq(x.f[i], b.(*Struct).f[i]))
		}
		return r
	case *Arr:
		r := e.c.True
		for i := range x.e {
			r = e.c.And(r, e.deepEq(x.e[i], b.(*Arr).e[i]))
		}
		return r
	}
	e.unsup("== on %T", a)
	return nil
}

func (e *Exec) ptrCmp(op token.Token, x, y *Ptr) Value {
	var r *Term
	switch {
	case x.addr != nil && y.addr != nil:
		switch op {
		case token.EQL, token.NEQ:
			r = e.c.Eq(x.addr, y.addr)
		case token.LSS:
			return e.c.ULt(x.addr, y.addr)
		case token.LEQ:
			return e.c.ULe(x.addr, y.addr)
		case token.GTR:
			return e.c.ULt(y.addr, x.addr)
		case token.GEQ:
			return e.c.ULe(y.addr, x.addr)
		}
	case x.addr != nil && y.isNil():
		r = e.c.Eq(x.addr, e.k(0))
	case y.addr != nil && x.isNil():
		r = e.c.Eq(y.addr, e.k(0))
	case x.obj != y.obj:
		r = e.c.False
	case x.obj == nil:
		r = e.c.True
	default:
		if x.whole != y.whole || !samePath(x.path, y.path) {
			// &a[0] against &a: same address
			if len(x.path) == 0 && len(y.path) == 0 {
				r = e.c.Eq(x.idx, y.idx)
				break
			}
			r = e.c.False
			break
		}
		r = e.c.Eq(x.idx, y.idx)
		switch op {
		case token.LSS:
			return e.c.ULt(x.idx, y.idx)
		case token.LEQ:
			return e.c.ULe(x.idx, y.idx)
		case token.GTR:
			return e.c.ULt(y.idx, x.idx)
		case token.GEQ:
			return e.c.ULe(y.idx, x.idx)
		}
	}
	if r == nil {
		e.unsup("pointer comparison %s", op)
	}
	switch op {
	case token.EQL:
		return r
	case token.NEQ:
		return e.c.Not(r)
	}
	e.unsup("pointer comparison %s", op)
	return nil
}

func (e *Exec) unop(th *Thread, fr *Frame, in *inst, x *ssa.UnOp) {
	v := e.op(fr, in, 0)
	switch x.Op {
	case token.MUL:
		p, ok := e.toPtr(v).(*Ptr)
		if !ok {
			e.unsup("load")
		}
		fr.regs[in.dst] = e.load(p, x.Type())
	case token.NOT:
		fr.regs[in.dst] = e.c.Not(e.term(v))
	case token.SUB:
		if isFloat(x.X.Type()) {
			t := e.term(v)
			fr.regs[in.dst] = e.c.Bin(OBXor, t, e.c.Const(1<<(t.w-1), t.w))
			return
		}
		fr.regs[in.dst] = e.c.Neg(e.term(v))
	case token.XOR:
		fr.regs[in.dst] = e.c.BNot(e.term(v))
	case token.ARROW:
		ch, _ := v.(*Chan)
		e.recv(th, fr, ch, in.dst, x.CommaOk)
	default:
		e.unsup("unop %s", x.Op)
	}
}

// needBV gives up integer mode: what follows needs the bits of the values.
func (e *Exec) needBV() {
	if e.intMode {
		e.unsup("bits of values seen as integers")
	}
}

func (e *Exec) convert(v Value, from, to types.Type) Value {
	uf, ut := under(from), under(to)
	if isFloat(from) || isFloat(to) {
		if isFloat(from) && isFloat(to) && e.width(from) == e.width(to) {
			return v
		}
		if t, ok := v.(*Term); ok {
			e.needBV()
			w := e.width(to)
			switch {
			case isFloat(from) && isFloat(to):
				return e.c.Fop(OFCvt, w, t, nil)
			case isInt(from) && isSigned(from):
				return e.c.Fop(OFromS, w, t, nil)
			case isInt(from):
				return e.c.Fop(OFromU, w, t, nil)
			case isInt(to) && (isSigned(to) || w < 64):
				if w < 64 {
					return e.c.Extract(e.c.Fop(OFToS, 64, t, nil), 0, w)
				}
				return e.c.Fop(OFToS, w, t, nil)
			}
		}
		e.unsup("float conversion")
	}
	if isInt(from) && isInt(to) {
		if p, ok := v.(*Ptr); ok {
			return p
		}
		x := e.term(v)
		w := e.width(to)
		if w <= x.w {
			return e.c.Extract(x, 0, w)
		}
		if isSigned(from) {
			return e.c.SExt(x, w)
		}
		return e.c.ZExt(x, w)
	}
	if isPtrLike(to) && (isPtrLike(from) || isInt(from)) {
		if isInt(from) {
			return e.toPtr(v)
		}
		return v
	}
	if isPtrLike(from) && isInt(to) {
		if p := v.(*Ptr); p.addr != nil {
			return p.addr
		} else if p.isNil() {
			return e.k(0)
		}
		return v
	}
	if b, ok := ut.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := v.(*Slice); ok {
			return e.sliceToStr(s)
		}
		if s, ok := v.(*Str); ok {
			return s
		}
	}
	if s, ok := v.(*Str); ok {
		if sl, ok := ut.(*types.Slice); ok && s.sd == nil {
			r := e.mkSlice(sl.Elem(), len(s.lit), len(s.lit), "bytes")
			for i := range r.obj.cells {
				r.obj.cells[i] = e.c.Const(uint64(s.lit[i]), 8)
			}
			return r
		}
	}
	e.unsup("conversion %s to %s", uf, ut)
	return nil
}

func (e *Exec) typeAssert(fr *Frame, in *inst, x *ssa.TypeAssert) {
	i := e.op(fr, in, 0).(*Iface)
	if i.sym != nil {
		e.unsup("type switch on a symbolic type")
	}
	ok := false
	var v Value
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		ok = i.typ != nil && types.Implements(i.typ, it)
		v = i
	} else {
		ok = i.typ != nil && types.Identical(i.typ, x.AssertedType)
		v = i.v
	}
	if x.CommaOk {
		if !ok {
			v = e.zero(x.AssertedType)
		}
		fr.regs[in.dst] = Tuple{v, e.c.Bool(ok)}
		return
	}
	if !ok {
		panic(goPanic{"interface conversion"})
	}
	fr.regs[in.dst] = v
}

// callee resolves the function value and arguments of a call.
func (e *Exec) callee(fr *Frame, in *inst, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		recv, ok := e.op(fr, in, 0).(*Iface)
		if !ok {
			e.unsup("invoke on %T", e.op(fr, in, 0))
		}
		var args []Value
		for i := 1; i < len(in.ops); i++ {
			args = append(args, e.op(fr, in, i))
		}
		if recv.typ == nil && recv.v == nil {
			panic(goPanic{"nil interface method call"})
		}
		if rt, ok := recv.v.(*RType); ok {
			return &Closure{bound: boundMethod{rt, c.Method.Name()}}, args
		}
		m := e.P.prog.LookupMethod(recv.typ, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			e.unsup("method %s", c.Method.Name())
		}
		return &Closure{fn: m}, append([]Value{recv.v}, args...)
	}
	args := make([]Value, len(in.ops)-1)
	for i := range args {
		args[i] = e.op(fr, in, i+1)
	}
	return e.op(fr, in, 0), args
}

type boundMethod struct {
	rt   *RType
	name string
}

func (e *Exec) doCall(th *Thread, fr *Frame, in *inst, c *ssa.CallCommon, dst int) {
	fv, args := e.callee(fr, in, c)
	cl, ok := fv.(*Closure)
	if ok && cl != nil {
		if bm, ok := cl.bound.(boundMethod); ok {
			e.set(fr, dst, e.rtypeMethod(bm.rt, bm.name, args))
			return
		}
		if cl.bi != nil {
			e.set(fr, dst, e.builtin(th, fr, cl.bi, args, c))
			return
		}
	}
	e.call(th, fv, args, dst)
}

func (e *Exec) doGo(th *Thread, fr *Frame, in *inst, c *ssa.CallCommon) {
	fv, args := e.callee(fr, in, c)
	cl, ok := fv.(*Closure)
	if !ok || cl == nil || cl.fn == nil {
		e.unsup("go of %T", fv)
	}
	if !e.P.isHarnessFn(fr.fi.fn) {
		e.ngo++
		if e.open != nil && !e.open.dead {
			e.ogo(th, fr, in, cl, args)
			return
		}
	}
	if e.ngo > 64 {
		e.St.Cut++
		panic(pathEnd{"goroutine bound"})
	}
	th.tick()
	nt := e.newThread(cl.fn.Name())
	nt.vc = join(nt.vc, th.vc)
	e.call(nt, fv, args, -1)
	if e.sched == 0 {
		e.cur = nt // child first
	}
}

func (e *Exec) send(th *Thread, ch *Chan, v Value) {
	if e.open.on() && ch != nil {
		if ch.close {
			e.unsup("open: closed channel")
		}
		e.oitem(oItem{op: "Send", loc: fmt.Sprint("c", ch.id), cap: ch.cap})
		return
	}
	if ch == nil {
		th.block = "send on nil channel"
		return
	}
	if ch.close {
		panic(goPanic{"send on closed channel"})
	}
	th.tick()
	// waiting receiver?
	for len(ch.recvq) > 0 {
		r := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		e.deliver(r, v, th.vc)
		if ch.cap == 0 {
			th.vc = join(th.vc, r.vc)
		}
		r.tick()
		return
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, chanMsg{v, th.vc})
		return
	}
	th.sendV = v
	th.block = fmt.Sprintf("send on channel %d", ch.id)
	ch.sendq = append(ch.sendq, th)
}

func (e *Exec) deliver(r *Thread, v Value, vc []int) {
	fr := r.frames[len(r.frames)-1]
	if r.comma {
		e.set(fr, r.dst, Tuple{v, e.c.True})
	} else {
		e.set(fr, r.dst, v)
	}
	r.vc = join(r.vc, vc)
	r.block = ""
}

func (e *Exec) recv(th *Thread, fr *Frame, ch *Chan, dst int, comma bool) {
	if ch == nil {
		th.block = "receive on nil channel"
		return
	}
	th.dst, th.comma = dst, comma
	if e.open != nil && !e.open.dead {
		if e.open.started {
			e.oitem(oItem{op: "Recv", loc: fmt.Sprint("c", ch.id), cap: ch.cap})
		}
		if ch.elem == nil || comma {
			e.unsup("open: receive")
		}
		e.deliver(th, e.freshOf(ch.elem, "msg"), nil)
		return
	}
	th.tick()
	if len(ch.buf) > 0 {
		m := ch.buf[0]
		ch.buf = ch.buf[1:]
		e.deliver(th, m.v, m.vc)
		if len(ch.sendq) > 0 {
			s := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			ch.buf = append(ch.buf, chanMsg{s.sendV, s.vc})
			s.block = ""
		}
		return
	}
	if len(ch.sendq) > 0 {
		s := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		rvc := th.vc
		e.deliver(th, s.sendV, s.vc)
		s.vc = join(s.vc, rvc)
		s.block = ""
		s.tick()
		return
	}
	if ch.close {
		e.unsup("receive on a closed channel")
	}
	th.block = fmt.Sprintf("receive on channel %d", ch.id)
	ch.recvq = append(ch.recvq, th)
}

func (e *Exec) builtin(th *Thread, fr *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Slice:
			if b.Name() == "cap" {
				return x.cap
			}
			return x.len
		case *Str:
			return e.strLen(x)
		case *Arr:
			return e.kint(len(x.e))
		case *Ptr:
			return e.kint(int(under(under(c.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array).Len()))
		case *Chan:
			if x == nil {
				return e.k(0)
			}
			if b.Name() == "cap" {
				return e.kint(x.cap)
			}
			return e.kint(len(x.buf))
		}
	case "copy":
		d := args[0].(*Slice)
		s, ok := args[1].(*Slice)
		if !ok {
			e.unsup("copy from %T", args[1])
		}
		n := int(e.concretize(d.len))
		if m := int(e.concretize(s.len)); m < n {
			n = m
		}
		if n == 0 {
			return e.k(0)
		}
		if d.obj.big || s.obj.big {
			e.unsup("copy of an abstract collection")
		}
		do, so := int(e.concretize(d.off)), int(e.concretize(s.off))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = e.load(&Ptr{obj: s.obj, idx: e.kint(so + i)}, s.obj.elem)
		}
		for i := range tmp {
			e.store(&Ptr{obj: d.obj, idx: e.kint(do + i)}, tmp[i], s.obj.elem)
		}
		return e.kint(n)
	case "append":
		d := args[0].(*Slice)
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		var add []Value
		switch s := args[1].(type) {
		case *Slice:
			n := int(e.concretize(s.len))
			for i := 0; i < n; i++ {
				add = append(add, e.load(&Ptr{obj: s.obj, idx: e.kint(int(e.concretize(s.off)) + i)}, et))
			}
		case *Str:
			if s.sd != nil {
				e.unsup("append of a symbolic string")
			}
			for i := 0; i < len(s.lit); i++ {
				add = append(add, e.c.Const(uint64(s.lit[i]), 8))
			}
		}
		dl, dc := int(e.concretize(d.len)), int(e.concretize(d.cap))
		if dl+len(add) <= dc && d.obj != nil {
			do := int(e.concretize(d.off))
			for i, v := range add {
				e.store(&Ptr{obj: d.obj, idx: e.kint(do + dl + i)}, v, et)
			}
			return &Slice{obj: d.obj, off: d.off, len: e.kint(dl + len(add)), cap: d.cap}
		}
		if dl+len(add) == 0 {
			return d
		}
		n := e.mkSlice(et, dl+len(add), 2*(dl+len(add)), "append")
		for i := 0; i < dl; i++ {
			n.obj.cells[i] = e.load(&Ptr{obj: d.obj, idx: e.kint(int(e.concretize(d.off)) + i)}, et)
		}
		for i, v := range add {
			n.obj.cells[dl+i] = v
		}
		return n
	case "min", "max":
		t := c.Args[0].Type()
		if isFloat(t) {
			e.unsup("min/max of floats")
		}
		r := args[0]
		for _, a := range args[1:] {
			var lt *Term
			if s, ok := a.(*Str); ok {
				lt = e.strCmp(token.LSS, s, r.(*Str))
				if b.Name() == "max" {
					lt = e.strCmp(token.LSS, r.(*Str), s)
				}
				if e.branch(lt) {
					r = a
				}
				continue
			}
			lt = e.binop(token.LSS, a, r, t, t).(*Term)
			if b.Name() == "max" {
				lt = e.binop(token.LSS, r, a, t, t).(*Term)
			}
			r = e.c.Ite(lt, e.term(a), e.term(r))
		}
		return r
	case "close":
		ch := args[0].(*Chan)
		if ch == nil || ch.close {
			panic(goPanic{"close of nil or closed channel"})
		}
		if len(ch.recvq) > 0 {
			e.unsup("close with waiting receivers")
		}
		ch.close = true
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		if s, ok := args[0].(*Slice); ok {
			n := int(e.concretize(s.len))
			for i := 0; i < n; i++ {
				e.store(&Ptr{obj: s.obj, idx: e.kint(int(e.concretize(s.off)) + i)}, e.zero(s.obj.elem), s.obj.elem)
			}
			return nil
		}
	case "Slice": // unsafe.Slice
		p := args[0].(*Ptr)
		n := e.toInt(e.term(args[1]), c.Args[1].Type())
		if p.obj == nil {
			return &Slice{off: e.k(0), len: e.k(0), cap: e.k(0)}
		}
		idx := p.idx
		return &Slice{obj: p.obj, off: idx, len: n, cap: n}
	case "Sizeof":
		return e.k(uint64(e.P.sizes.Sizeof(c.Args[0].Type())))
	case "SliceData":
		return e.sliceData(args[0].(*Slice))
	case "String":
		p := args[0].(*Ptr)
		n := e.toInt(e.term(args[1]), c.Args[1].Type())
		return e.sliceToStr(&Slice{obj: p.obj, off: p.idx, len: n, cap: n})
	case "StringData":
		return e.strData(args[0].(*Str))
	case "recover":
		return &Iface{}
	}
	e.unsup("builtin %s(%s)", b.Name(), strings.Repeat(".", len(args)))
	return nil
}
