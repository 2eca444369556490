package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// control-flow panics of the executor
type pathEnd struct{ why string }
type unsup struct{ msg string }
type goPanic struct{ msg string }

// Event is one solver-visible step of a path: a branch, a concretisation or an assumption.
type Event struct {
	cond    *Term // nil in a donated prefix until re-executed
	side    bool
	pending bool // other side not yet explored
	assume  bool
	free    bool // open runs
	conc    bool
	cval    uint64
}

type Input struct {
	Kind  string   `json:"k"`
	Terms []*Term  `json:"-"`
	Vals  []uint64 `json:"v"`
}

type oblig struct {
	prop string
	cond *Term
	msg  string
}

type Frame struct {
	fi    *fnInfo
	regs  []Value
	env   []Value
	blk   *ssa.BasicBlock
	prev  *ssa.BasicBlock
	pc    int
	dst   int // result slot in the caller
	catch int // slot of a vCatch result in the caller, -1 none
	defs  []deferred
	visit map[int]int
	ret   Value
	onRet func(Value) Value // engine continuation
}

type deferred struct {
	fn   Value
	args []Value
}

type Thread struct {
	id     int
	name   string
	frames []*Frame
	vc     []int
	block  string // "" runnable, otherwise why blocked
	ch     *Chan
	dst    int // slot of a pending receive result in the top frame
	comma  bool
	sendV  Value
	done   bool
	pred   func() bool // blocked until pred
}

type operand struct {
	slot int
	c    Value
}

type inst struct {
	i   ssa.Instruction
	ops []operand
	dst int
}

type fnInfo struct {
	fn      *ssa.Function
	name    string
	nslot   int
	code    [][]inst
	model   func(e *Exec, fr *Frame, args []Value, dst int) bool // nil: execute the body
	repo    bool
	loop    []bool
	liveOut [][]bool
}

// Exec executes one harness symbolically, one path at a time.
type Exec struct {
	P         *Program
	c         *Ctx
	s         *Solver
	W         uint8
	job       *Job
	infos     map[*ssa.Function]*fnInfo
	events    []*Event
	pos       int
	asserting bool // first run of a donated prefix
	facts     map[*Term]bool
	ord       *order
	known     map[*Term]*Term
	vars      []*Term
	inputs    []Input
	obls      []oblig
	ths       []*Thread
	cur       *Thread
	main      *Thread
	globs     map[*ssa.Global]*Obj
	nobj      int
	nchan     int
	ngo       int
	steps     int
	stubs     map[*ssa.Function]*Closure
	tails     map[*ssa.Function]*Closure
	merge     bool
	intMode   bool
	outs      [][]Value
	lenMode   bool
	vol       map[*Obj]bool
	sched     int
	after     bool // after the call under test returned
	open      *openRun
	fnsSeen   map[string]bool
	maxVisit  int
	depth     int
	noInit    bool
	strN      int
	active    map[string]bool // properties of interest
	St        *Stats
	onViol    func(v *Viol)
	curPanic  string
	pathNote  []string
	kv        map[string]Value
	fk        map[*Term]*Term // order keys of float inputs
}

// newFloat makes an arbitrary float (bits) with an order key tied to it.
func (e *Exec) newFloat(w uint8) *Term {
	if e.intMode { // the bits as a function of the key, which the solver sees as an integer
		m := int64(mask(w) >> 1)
		k := e.freshRange("fkey", w, -m, m)
		z := e.fresh("negzero", 0)
		neg := e.c.Or(e.c.SLt(k, e.c.Const(0, w)), e.c.And(z, e.c.Eq(k, e.c.Const(0, w))))
		x := e.c.Ite(neg, e.c.Bin(OBOr, e.c.Neg(k), e.c.Const(1<<(w-1), w)), k)
		e.fk[x] = k
		return x
	}
	x := e.fresh("f", w)
	k := e.fresh("key", w)
	e.assume(e.c.Eq(k, e.fkey(x)))
	e.fk[x] = k
	return x
}

func (e *Exec) unsup(f string, a ...any) { panic(unsup{fmt.Sprintf(f, a...)}) }

// freshNum is an arbitrary number; in integer mode the solver sees it as an integer.
func (e *Exec) freshNum(label string, w uint8, signed bool) *Term {
	if !e.intMode || w < 32 {
		return e.fresh(label, w)
	}
	if signed {
		lo, hi := e.c.Const(1<<(w-1), w), e.c.Const(mask(w)>>1, w)
		return e.freshRange(label+"i", w, sx(lo.val, w), sx(hi.val, w))
	}
	v := e.c.NatVar(fmt.Sprintf("%su!%d_%d", label, len(e.vars), w), w)
	e.vars = append(e.vars, v)
	e.assume(e.c.And(e.c.mk(OULe, 0, 0, "", e.c.Const(0, w), v, nil), e.c.mk(OULe, 0, 0, "", v, e.c.Const(mask(w), w), nil)))
	return v
}

func (e *Exec) fresh(label string, w uint8) *Term {
	t := e.c.Var(fmt.Sprintf("%s!%d_%d", label, len(e.vars), w), w)
	e.vars = append(e.vars, t)
	return t
}

// freshRange is a fresh value in [lo,hi] (the caller assumes tighter bounds).
func (e *Exec) freshRange(label string, w uint8, lo, hi int64) *Term {
	if lo > hi {
		panic(pathEnd{"infeasible"})
	}
	v, x := e.c.RangeVar(fmt.Sprintf("%s!%d_%d", label, len(e.vars), w), w, lo, hi)
	e.vars = append(e.vars, v)
	if v.isint {
		e.assume(e.c.And(e.c.mk(OSLe, 0, 0, "", e.c.Const(uint64(lo), v.w), v, nil), e.c.mk(OSLe, 0, 0, "", v, e.c.Const(uint64(hi), v.w), nil)))
	}
	return x
}

func (e *Exec) k(v uint64) *Term { return e.c.Const(v, e.W) }
func (e *Exec) kint(v int) *Term { return e.c.Const(uint64(v), e.W) }
func (e *Exec) setFact(t *Term, b bool) {
	e.facts[t] = b
	e.facts[e.c.Not(t)] = !b
	if b && t.op == OEq && t.b.isConst() {
		e.known[t.a] = t.b
	}
	if b && t.op == OAnd {
		e.setFact(t.a, true)
		e.setFact(t.b, true)
	}
	if !b && t.op == OOr {
		e.setFact(t.a, false)
		e.setFact(t.b, false)
	}
}

func (e *Exec) lit(cond *Term, side bool) *Term {
	if side {
		return cond
	}
	return e.c.Not(cond)
}

// replayEvent consumes the next prefix event, if any.
func (e *Exec) replayEvent(cond *Term) (*Event, bool) {
	if e.pos >= len(e.events) {
		return nil, false
	}
	ev := e.events[e.pos]
	e.pos++
	if ev.cond == nil {
		ev.cond = cond
	} else if ev.cond != cond {
		panic(unsup{"non-deterministic re-execution"})
	}
	if ev.free {
		if e.asserting {
			e.s.Push()
			e.asserting = e.pos < len(e.events)
		}
		e.setFact(cond, ev.side)
		return ev, true
	}
	if e.asserting {
		e.s.Push()
		e.s.Assert(e.lit(cond, ev.side))
		e.ordAdd(e.ord, e.lit(cond, ev.side), true)
		if e.pos == len(e.events) {
			e.asserting = false
			if !e.refresh() {
				panic(pathEnd{"infeasible"})
			}
		}
	} else {
		e.ordAdd(e.ord, e.lit(cond, ev.side), false)
	}
	e.setFact(cond, ev.side)
	return ev, true
}

// refresh asks the solver for a model of the path condition.
func (e *Exec) refresh() bool {
	switch e.s.Check() {
	case "sat":
		e.c.SetModel(e.s.Values(e.allVars()))
		return true
	case "unsat":
		return false
	}
	e.St.Unknown++
	panic(pathEnd{"solver timeout"})
}

func (e *Exec) allVars() []*Term {
	return e.vars
}

func (e *Exec) branch(cond *Term) bool {
	b := e.branch1(cond)
	if e.open != nil && !cond.isConst() {
		e.oguard(cond, b)
	}
	return b
}

// must is branch for what holds in a run without panic, which is not of interest in open runs.
func (e *Exec) must(cond *Term) bool {
	if e.open.on() && !cond.isConst() {
		return true
	}
	return e.branch(cond)
}

func (e *Exec) branch1(cond *Term) bool {
	if cond.isConst() {
		return cond.val == 1
	}
	if b, ok := e.facts[cond]; ok {
		return b
	}
	if ev, ok := e.replayEvent(cond); ok {
		return ev.side
	}
	side := e.c.Eval(cond) != 0
	if e.open.on() { // any decision is possible, the schedule query has the conditions
		e.events = append(e.events, &Event{cond: cond, side: side, pending: true, free: true})
		e.pos++
		e.s.Push()
		e.setFact(cond, side)
		e.St.Decisions++
		return side
	}
	e.events = append(e.events, &Event{cond: cond, side: side, pending: true})
	e.pos++
	e.s.Push()
	e.s.Assert(e.lit(cond, side))
	e.ordAdd(e.ord, e.lit(cond, side), true)
	e.setFact(cond, side)
	e.St.Decisions++
	return side
}

// concretize forks over the feasible values of t.
func (e *Exec) concretize(t *Term) uint64 {
	for {
		if t.isConst() {
			return t.val
		}
		if k := e.known[t]; k != nil {
			return k.val
		}
		if u := e.c.core(t); u != nil && e.known[u] != nil {
			return uint64(sx(e.known[u].val, u.w)) & mask(t.w)
		}
		var v uint64
		if e.pos < len(e.events) {
			v = e.events[e.pos].cval
		} else {
			v = e.c.Eval(t)
		}
		cond := e.c.Eq(t, e.c.Const(v, t.w))
		if cond.isConst() {
			if cond.val == 1 {
				return v
			}
			e.unsup("concretize")
		}
		if b, ok := e.facts[cond]; ok && b {
			return v
		}
		if ev, ok := e.replayEvent(cond); ok {
			if ev.side {
				return v
			}
			continue
		}
		e.events = append(e.events, &Event{cond: cond, side: true, pending: true, conc: true, cval: v})
		e.pos++
		e.s.Push()
		e.s.Assert(cond)
		e.ordAdd(e.ord, cond, true)
		e.setFact(cond, true)
		e.St.Decisions++
		return v
	}
}

func (e *Exec) assume(cond *Term) {
	if cond.isTrue() {
		return
	}
	if b, ok := e.facts[cond]; ok && b {
		return
	}
	if e.open.on() && !cond.isFalse() {
		return
	}
	if !e.asserting && e.pos >= len(e.events) {
		e.flushObls()
	} else {
		e.obls = e.obls[:0]
	}
	if cond.isFalse() {
		panic(pathEnd{"infeasible"})
	}
	if b, ok := e.facts[cond]; ok && !b {
		panic(pathEnd{"infeasible"})
	}
	if _, ok := e.replayEvent(cond); ok {
		return
	}
	e.events = append(e.events, &Event{cond: cond, side: true, assume: true})
	e.pos++
	e.s.Push()
	e.s.Assert(cond)
	e.ordAdd(e.ord, cond, true)
	e.setFact(cond, true)
	if e.c.Eval(cond) == 0 && !e.refresh() {
		panic(pathEnd{"infeasible"})
	}
}

// oblige records that cond must hold here.
func (e *Exec) oblige(prop string, cond *Term, msg string) {
	if !e.active[prop] {
		return
	}
	e.St.Obligations++
	if cond.isTrue() {
		e.St.Trivial++
		return
	}
	if b, ok := e.facts[cond]; ok && b {
		return
	}
	e.obls = append(e.obls, oblig{prop, cond, msg})
}

// flushObls discharges the recorded obligations under the current path condition.
func (e *Exec) flushObls() {
	if len(e.obls) == 0 {
		return
	}
	obls := e.obls
	e.obls = nil
	var rest []oblig
	seen := map[string]bool{}
	for _, o := range obls {
		if e.c.Eval(o.cond) == 0 {
			if !seen[o.prop+o.msg] {
				seen[o.prop+o.msg] = true
				e.violation(o)
			}
		} else {
			rest = append(rest, o)
		}
	}
	for len(rest) > 0 {
		neg := e.c.False
		for _, o := range rest {
			neg = e.c.Or(neg, e.c.Not(o.cond))
		}
		if neg.isFalse() {
			return
		}
		e.s.Push()
		e.s.Assert(neg)
		e.ordGoal(neg, map[*Term]bool{})
		r := e.s.Check()
		if r == "sat" {
			oldm := e.c.model
			e.c.SetModel(e.s.Values(e.vars))
			var r2 []oblig
			for _, o := range rest {
				if e.c.Eval(o.cond) == 0 {
					if !seen[o.prop+o.msg] {
						seen[o.prop+o.msg] = true
						e.violation(o)
					}
				} else {
					r2 = append(r2, o)
				}
			}
			e.s.Pop(1)
			e.c.SetModel(oldm)
			if len(r2) == len(rest) {
				e.St.Unknown++
				return
			}
			rest = r2
			continue
		}
		e.s.Pop(1)
		if r != "unsat" {
			e.St.Unknown++
			e.St.note("solver timeout on an obligation: " + rest[0].msg)
		} else {
			e.St.Discharged += len(rest)
		}
		return
	}
}

// sample records a model of the finished path: it is replayed on the real code, which must
// give the same results.
func (e *Exec) sample() {
	j := e.job
	j.mu.Lock()
	j.nsamp++
	take := len(j.samples) < 8 || j.nsamp&(j.nsamp-1) == 0 && len(j.samples) < 20
	j.mu.Unlock()
	if !take {
		return
	}
	s := &Sample{Harness: j.Harness, Params: j.Params}
	for _, in := range e.inputs {
		x := Input{Kind: in.Kind, Vals: []uint64{}}
		for _, t := range in.Terms {
			x.Vals = append(x.Vals, e.c.Eval(t))
		}
		s.Inputs = append(s.Inputs, x)
	}
	for _, o := range e.outs {
		x := ""
		for _, v := range o {
			switch v := v.(type) {
			case *Term:
				x += fmt.Sprintf(" %x", e.c.Eval(v))
			case *Str:
				if v.sd == nil {
					x += fmt.Sprintf(" %d:%x", len(v.lit), v.lit)
				} else {
					x += e.evalSD(v.sd)
				}
			case *Slice:
				if v.obj == nil {
					x += " 0:"
				} else if v.obj.sd != nil {
					x += e.evalSD(v.obj.sd)
				}
			}
		}
		s.Outs = append(s.Outs, x)
	}
	j.mu.Lock()
	j.samples = append(j.samples, s)
	j.mu.Unlock()
}

func (e *Exec) evalSD(sd *StrData) string {
	n := e.c.Eval(sd.len)
	x := fmt.Sprintf(" %d:", n)
	for i := 0; i < int(n) && i < len(sd.bytes); i++ {
		x += fmt.Sprintf("%02x", e.c.Eval(sd.bytes[i]))
	}
	return x
}

// Sample is a finished path's model with the results the symbolic execution computed for it.
type Sample struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []Input        `json:"inputs"`
	Outs    []string       `json:"outs"`
}

func (e *Exec) violation(o oblig) {
	v := &Viol{Prop: o.prop, Msg: o.msg, Harness: e.job.Harness, Params: e.job.Params, job: e.job}
	for _, in := range e.inputs {
		x := Input{Kind: in.Kind}
		for _, t := range in.Terms {
			x.Vals = append(x.Vals, e.c.Eval(t))
		}
		v.Inputs = append(v.Inputs, x)
	}
	v.Notes = append(v.Notes, e.pathNote...)
	e.onViol(v)
}

// ---------- functions ----------

func (e *Exec) info(fn *ssa.Function) *fnInfo {
	if fi := e.infos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	e.infos[fn] = fi
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if pkg := o.Package(); pkg != nil {
		fi.repo = pkg == e.P.sorty || strings.HasSuffix(pkg.Pkg.Path(), "jfcg/sixb")
	} else if o.Parent() != nil {
		fi.repo = true
	}
	if m := e.P.findModel(o); m != nil {
		fi.model = m
		return fi
	}
	slots := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { slots[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nslot = n
	fv := map[ssa.Value]int{}
	for i, v := range fn.FreeVars {
		fv[v] = i
	}
	fi.loop = make([]bool, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		for _, p := range b.Preds {
			if p.Index >= b.Index || b.Dominates(p) {
				fi.loop[bi] = true
			}
		}
		var code []inst
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ii := inst{i: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ii.dst = slots[v]
			}
			for _, op := range in.Operands(nil) {
				o := operand{slot: -1}
				if *op != nil {
					if s, ok := slots[*op]; ok {
						o.slot = s
					} else if i, ok := fv[*op]; ok {
						o.slot = -2 - i
					} else {
						o.c = *op // resolved lazily: consts, functions, globals
						switch x := (*op).(type) {
						case *ssa.Const:
							o.c = e.constVal(x)
						case *ssa.Function:
							o.c = &Closure{fn: x}
						case *ssa.Builtin:
							o.c = &Closure{bi: x}
						}
					}
				}
				ii.ops = append(ii.ops, o)
			}
			code = append(code, ii)
		}
		fi.code = append(fi.code, code)
	}
	return fi
}

func (e *Exec) op(fr *Frame, in *inst, i int) Value {
	o := &in.ops[i]
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.slot < -1 {
		return fr.env[-2-o.slot]
	}
	if g, ok := o.c.(*ssa.Global); ok {
		return &Ptr{obj: e.global(g), idx: e.k(0), whole: e.global(g).isArr}
	}
	return o.c
}

func (e *Exec) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.c.Bool(constant.BoolVal(x.Value))
		case u.Info()&types.IsString != 0:
			return &Str{lit: constant.StringVal(x.Value)}
		case u.Info()&types.IsInteger != 0:
			w := e.width(t)
			if v, ok := constant.Uint64Val(constant.ToInt(x.Value)); ok {
				return e.c.Const(v, w)
			}
			v, _ := constant.Int64Val(constant.ToInt(x.Value))
			return e.c.Const(uint64(v), w)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(x.Value)
			if u.Kind() == types.Float32 {
				return e.c.Const(uint64(math.Float32bits(float32(f))), 32)
			}
			return e.c.Const(math.Float64bits(f), 64)
		}
	}
	return unsupVal{"constant " + x.String()}
}

type unsupVal struct{ msg string }

func (e *Exec) width(t types.Type) uint8 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return 0
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.Float32:
			return 32
		case types.Int64, types.Uint64, types.Float64, types.UntypedFloat:
			return 64
		case types.Int, types.Uint, types.Uintptr, types.UnsafePointer, types.UntypedInt:
			return e.W
		case types.UntypedRune:
			return 32
		}
	case *types.Pointer:
		return e.W
	}
	e.unsup("width of %s", t)
	return 0
}

func isSigned(t types.Type) bool {
	if b, ok := under(t).(*types.Basic); ok {
		return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
	}
	return false
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Exec) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &Str{}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return nilPtr()
		default:
			return e.c.Const(0, e.width(t))
		}
	case *types.Pointer:
		return nilPtr()
	case *types.Slice:
		return &Slice{off: e.k(0), len: e.k(0), cap: e.k(0)}
	case *types.Struct:
		s := &Struct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &Arr{}
		z := e.zero(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, z)
		}
		return a
	case *types.Interface:
		return &Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, e.zero(u.At(i).Type()))
		}
		return tp
	}
	e.unsup("zero of %s", t)
	return nil
}

func (e *Exec) newObj(t types.Type, name string) *Obj {
	e.nobj++
	o := &Obj{id: e.nobj, name: name}
	if a, ok := under(t).(*types.Array); ok {
		o.isArr = true
		o.elem = a.Elem()
		if a.Len() > 1<<16 {
			e.unsup("huge array %s", t)
		}
		o.cells = make([]Value, a.Len())
		z := e.zero(a.Elem())
		for i := range o.cells {
			o.cells[i] = z
		}
		return o
	}
	o.elem = t
	o.cells = []Value{e.zero(t)}
	return o
}

func (e *Exec) global(g *ssa.Global) *Obj {
	if o := e.globs[g]; o != nil {
		return o
	}
	if g.Pkg != e.P.sorty && !e.P.initPkgs[g.Pkg] {
		e.unsup("global %s of an uninitialised package", g.String())
	}
	o := e.newObj(g.Type().(*types.Pointer).Elem(), g.String())
	o.glob = g
	e.globs[g] = o
	return o
}

// ---------- memory ----------

func (e *Exec) sub(v Value, p int) Value {
	switch x := v.(type) {
	case *Struct:
		return x.f[p]
	case *Arr:
		return x.e[p]
	case *Slice:
		switch p {
		case 0:
			return e.sliceData(x)
		case 1:
			return x.len
		case 2:
			return x.cap
		}
	case *Str:
		switch p {
		case 0:
			return e.strData(x)
		case 1:
			return e.strLen(x)
		}
	}
	e.unsup("sub %T", v)
	return nil
}

func (e *Exec) sliceData(x *Slice) Value {
	if x.obj == nil {
		return nilPtr()
	}
	return &Ptr{obj: x.obj, idx: x.off}
}

func (e *Exec) withSub(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	inner := e.withSub(e.sub(v, p), path[1:], nv)
	switch x := v.(type) {
	case *Struct:
		f := append([]Value(nil), x.f...)
		f[p] = inner
		return &Struct{f}
	case *Arr:
		f := append([]Value(nil), x.e...)
		f[p] = inner
		return &Arr{f}
	case *Slice:
		n := *x
		switch p {
		case 0:
			q := inner.(*Ptr)
			n.obj = q.obj
			n.off = q.idx
			if n.off == nil {
				n.off = e.k(0)
			}
		case 1:
			n.len = inner.(*Term)
		case 2:
			n.cap = inner.(*Term)
		}
		return &n
	case *Str:
		st := &Struct{f: []Value{e.sub(x, 0), e.sub(x, 1)}}
		st.f[p] = inner
		return st
	}
	e.unsup("withSub %T", v)
	return nil
}

// adapt reinterprets v as a value of type t.
func (e *Exec) adapt(v Value, t types.Type) Value {
	if uv, ok := v.(unsupVal); ok {
		e.unsup("%s", uv.msg)
	}
	switch u := under(t).(type) {
	case *types.Slice:
		switch x := v.(type) {
		case *Slice:
			return x
		case *Struct:
			if len(x.f) == 3 {
				d, ok := e.adapt(x.f[0], types.Typ[types.UnsafePointer]).(*Ptr)
				if !ok {
					e.unsup("slice data")
				}
				s := &Slice{obj: d.obj, off: d.idx, len: x.f[1].(*Term), cap: x.f[2].(*Term)}
				if s.off == nil {
					s.off = e.k(0)
				}
				return s
			}
		}
	case *types.Struct:
		switch x := v.(type) {
		case *Struct:
			if len(x.f) == u.NumFields() {
				return x
			}
		case *Slice:
			if u.NumFields() == 3 {
				return &Struct{f: []Value{e.sub(x, 0), x.len, x.cap}}
			} else if u.NumFields() == 2 {
				return &Struct{f: []Value{e.sub(x, 0), x.len}}
			}
		case *Str:
			if u.NumFields() == 2 {
				return &Struct{f: []Value{e.sub(x, 0), e.sub(x, 1)}}
			}
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case *Str:
				return x
			case *Slice:
				return e.sliceToStr(x)
			case *Struct:
				if len(x.f) >= 2 {
					d := x.f[0].(*Ptr)
					s := &Slice{obj: d.obj, off: d.idx, len: x.f[1].(*Term), cap: x.f[1].(*Term)}
					return e.sliceToStr(s)
				}
			}
			break
		}
		if u.Kind() == types.UnsafePointer {
			return e.toPtr(v)
		}
		switch x := v.(type) {
		case *Term:
			if x.w == e.width(t) {
				return x
			}
		case *Ptr:
			if x.addr != nil && e.W == e.width(t) {
				return x.addr
			}
			if x.isNil() && e.W == e.width(t) {
				return e.k(0)
			}
			if u.Kind() == types.Uintptr {
				return x
			}
		}
	case *types.Pointer:
		return e.toPtr(v)
	case *types.Array:
		if x, ok := v.(*Arr); ok {
			return x
		}
	default:
		return v
	}
	e.unsup("reinterpret %T as %s", v, t)
	return nil
}

func (e *Exec) toPtr(v Value) Value {
	switch x := v.(type) {
	case *Ptr:
		return x
	case *Term:
		if x.isConst() && x.val == 0 {
			return nilPtr()
		}
		return &Ptr{addr: x, laundered: true}
	}
	e.unsup("pointer from %T", v)
	return nil
}

func (e *Exec) cellIndex(p *Ptr) int {
	i := int(e.concretize(p.idx))
	if i < 0 || i >= len(p.obj.cells) {
		panic(goPanic{fmt.Sprintf("invalid memory access: cell %d of %d of %s", i, len(p.obj.cells), p.obj.name)})
	}
	return i
}

func (e *Exec) deref(p *Ptr) {
	if p.obj == nil {
		if p.addr != nil {
			e.unsup("dereference of an opaque pointer")
		}
		panic(goPanic{"nil pointer dereference"})
	}
}

func (e *Exec) load(p *Ptr, t types.Type) Value {
	e.deref(p)
	o := p.obj
	if o.big {
		e.bigEv(o, p.idx, e.c.Add(p.idx, e.k(1)), false, "read")
		for _, r := range o.reads {
			if r.idx == p.idx {
				return e.adapt(r.v, t)
			}
		}
		v := e.freshOf(o.elem, "rd")
		o.reads = append(o.reads, bigRead{p.idx, v})
		return e.adapt(v, t)
	}
	if p.whole {
		if a, ok := under(t).(*types.Array); ok {
			for i := range o.cells {
				e.access(o, i, false)
			}
			if int64(len(o.cells)) != a.Len() {
				e.unsup("array reinterpretation")
			}
			return &Arr{append([]Value(nil), o.cells...)}
		}
	}
	i := 0
	if p.idx != nil {
		i = e.cellIndex(p)
	}
	if e.open != nil && isInt(t) && e.oshared(p, e.width(t)) {
		v := e.ores(e.width(t))
		e.oitem(oItem{op: "Load", loc: e.oloc(p, i), res: true, w: v.w})
		return v
	}
	e.access(o, i, false)
	if e.vol[o] {
		w := e.width(t)
		v := e.fresh("vol", w)
		if e.open != nil {
			e.ovol(v)
		}
		e.inputs = append(e.inputs, Input{Kind: "volatile", Terms: []*Term{v}})
		return v
	}
	v := o.cells[i]
	for _, q := range p.path {
		v = e.sub(v, q)
	}
	return e.adapt(v, t)
}

func (e *Exec) store(p *Ptr, v Value, t types.Type) {
	e.deref(p)
	o := p.obj
	if o.ro != "" {
		e.oblige("C02", e.c.False, o.ro)
		panic(pathEnd{"write to read-only memory"})
	}
	if o.big {
		e.bigEv(o, p.idx, e.c.Add(p.idx, e.k(1)), true, "write")
		o.reads = nil
		if e.open != nil {
			return
		}
		e.job.bigWrite = true
		e.unsup("element write in a driver")
	}
	if o.glob != nil && !e.noInit && o.glob.Pkg == e.P.sorty && !strings.HasPrefix(o.glob.Name(), "v_") && e.cur != nil && len(e.cur.frames) > 0 {
		fr := e.cur.frames[len(e.cur.frames)-1]
		if !e.P.isHarnessFn(fr.fi.fn) {
			e.oblige("C16", e.c.False, "package variable "+o.glob.Name()+" written by "+fr.fi.name)
		}
	}
	if p.whole {
		if a, ok := v.(*Arr); ok {
			for i := range o.cells {
				e.access(o, i, true)
				o.cells[i] = a.e[i]
			}
			return
		}
	}
	i := 0
	if p.idx != nil {
		i = e.cellIndex(p)
	}
	if e.open != nil && isInt(t) && e.oshared(p, e.width(t)) {
		e.oitem(oItem{op: "Store", loc: e.oloc(p, i), args: []string{e.oarg(v)}, wid: e.width(t)})
		return
	}
	if x, ok := v.(*Struct); ok && e.open.on() && e.open.objs[o] != "" {
		if u, ok := under(t).(*types.Struct); ok {
			for f := range x.f {
				if ft := u.Field(f).Type(); isInt(ft) {
					q := &Ptr{obj: o, idx: p.idx, path: append(append([]int(nil), p.path...), f)}
					e.oitem(oItem{op: "Store", loc: e.oloc(q, i), args: []string{e.oarg(x.f[f])}, wid: e.width(ft)})
				}
			}
		}
	}
	e.access(o, i, true)
	if len(p.path) == 0 {
		if o.strict {
			q, ok := v.(*Ptr)
			if !ok || !isPtrLike(t) || q.laundered {
				e.oblige("C17", e.c.False, "a pointer element is stored as a plain integer")
			}
		}
		if o.elem != nil {
			switch under(o.elem).(type) {
			case *types.Slice, *types.Struct, *types.Pointer:
				v = e.adapt(v, o.elem)
			case *types.Basic:
				if x, ok := v.(*Term); ok && !isPtrLike(o.elem) {
					if b := under(o.elem).(*types.Basic); b.Info()&types.IsString == 0 && x.w != e.width(o.elem) {
						e.unsup("store of %d bits in %s", x.w, o.elem)
					}
				} else {
					v = e.adapt(v, o.elem)
				}
			}
		}
		o.cells[i] = v
		return
	}
	o.cells[i] = e.withSub(o.cells[i], p.path, v)
}

// access records an element access for race detection.
func (e *Exec) access(o *Obj, i int, write bool) {
	if o.track && e.after {
		e.oblige("C09", e.c.False, "an element is accessed after the call returned")
	}
	if o.glob != nil || len(e.ths) < 2 || e.noInit || e.cur == nil {
		return
	}
	if o.meta == nil {
		o.meta = map[int]*cellMeta{}
	}
	m := o.meta[i]
	if m == nil {
		m = &cellMeta{rd: map[int]int{}}
		o.meta[i] = m
	}
	if m.atomic {
		return
	}
	th := e.cur
	e.St.RaceChecks++
	if m.hasW && m.wT != th.id && m.wC > clk(th.vc, m.wT) {
		e.raceAt(o, i, m.wT, write)
	}
	if write {
		for t, c := range m.rd {
			if t != th.id && c > clk(th.vc, t) {
				e.raceAt(o, i, t, write)
			}
		}
		m.hasW, m.wT, m.wC = true, th.id, clk(th.vc, th.id)
		m.rd = map[int]int{}
	} else {
		m.rd[th.id] = clk(th.vc, th.id)
	}
}

func (e *Exec) raceAt(o *Obj, i, t int, write bool) {
	if !o.track && o.name != "" && strings.Contains(o.name, "harness") {
		return
	}
	e.oblige("C11", e.c.False, fmt.Sprintf("unordered accesses to cell %d of %s by goroutines %d and %d", i, o.name, t, e.cur.id))
}

func clk(vc []int, i int) int {
	if i < len(vc) {
		return vc[i]
	}
	return 0
}

func join(a, b []int) []int {
	r := append([]int(nil), a...)
	for len(r) < len(b) {
		r = append(r, 0)
	}
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (th *Thread) tick() {
	for len(th.vc) <= th.id {
		th.vc = append(th.vc, 0)
	}
	vc := append([]int(nil), th.vc...)
	vc[th.id]++
	th.vc = vc
}

// bigEv records an access to positions [lo,hi) of an abstract collection.
func (e *Exec) bigEv(o *Obj, lo, hi *Term, write bool, what string) {
	if e.after {
		e.oblige("C09", e.c.False, "the collection is accessed after the call returned ("+what+")")
	}
	if e.open != nil {
		if e.open.live() {
			e.oitem(oItem{op: "W"})
		}
		return
	}
	th := e.cur
	for _, x := range o.evs {
		if x.tid == th.id || x.clk <= clk(th.vc, x.tid) || !(write || x.write) {
			continue
		}
		e.oblige("C11", e.c.Or(e.c.SLe(x.hi, lo), e.c.SLe(hi, x.lo), e.c.SLe(hi, lo), e.c.SLe(x.hi, x.lo)),
			fmt.Sprintf("goroutines %d (%s) and %d (%s) work on overlapping ranges", x.tid, x.what, th.id, what))
	}
	o.evs = append(o.evs, rangeEv{th.id, clk(th.vc, th.id), lo, hi, write, what})
}

// freshOf makes an arbitrary value of type t.
func (e *Exec) freshOf(t types.Type, label string) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if e.lenMode {
				return e.newLStr(e.kint(1 << 20))
			}
			return e.newStr(label)
		}
		if u.Kind() == types.UnsafePointer {
			return &Ptr{addr: e.fresh(label, e.W)}
		}
		if u.Info()&types.IsFloat != 0 {
			return e.newFloat(e.width(t))
		}
		return e.freshNum(label, e.width(t), isSigned(t))
	case *types.Pointer:
		return &Ptr{addr: e.fresh(label, e.W)}
	case *types.Slice:
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			if e.lenMode {
				return e.newLBytes(e.kint(1 << 20))
			}
			return e.newBytes(label)
		}
	}
	e.unsup("arbitrary value of %s", t)
	return nil
}

// newLStr is a string of arbitrary length up to max whose bytes are not looked at.
func (e *Exec) newLStr(max *Term) *Str {
	var l *Term
	if e.intMode {
		_, h := max.iv()
		l = e.freshRange("len", e.W, 0, h)
	} else {
		l = e.fresh("len", e.W)
		e.assume(e.c.And(e.c.SLe(e.k(0), l), e.c.SLe(l, max)))
	}
	sd := &StrData{id: e.strN, len: l}
	e.strN++
	return &Str{sd: sd}
}

func (e *Exec) newLBytes(max *Term) *Slice {
	var l *Term
	if e.intMode {
		_, h := max.iv()
		h = min(h, 1<<60)
		l = e.freshRange("len", e.W, 0, h)
	} else {
		l = e.fresh("len", e.W)
		e.assume(e.c.And(e.c.SLe(e.k(0), l), e.c.SLe(l, e.c.Sub(max, e.k(3)))))
	}
	var cp *Term
	if e.intMode {
		cp = e.c.Add(l, e.freshRange("xcap", e.W, 0, 3))
	} else {
		cp = e.c.Add(l, e.c.ZExt(e.fresh("xcap", 2), e.W))
	}
	e.nobj++
	o := &Obj{id: e.nobj, big: true, elem: types.Typ[types.Uint8], ro: "the bytes of an element are written", name: "bytes"}
	return &Slice{obj: o, off: e.k(0), len: l, cap: cp}
}

const maxStr = 2

// newStr makes a string of at most maxStr arbitrary bytes.
func (e *Exec) newStr(label string) *Str {
	l := e.fresh(label+"len", 2)
	sd := &StrData{id: e.strN, len: e.c.ZExt(l, e.W)}
	e.strN++
	pre := e.job.Params["pre"]
	if pre > 0 {
		sd.len = e.c.Add(sd.len, e.kint(pre))
	}
	cs := e.c.ULe(l, e.c.Const(maxStr, 2))
	key := l
	for i := maxStr - 1; i >= 0; i-- {
		b := e.fresh(label+"b", 8)
		sd.bytes = append([]*Term{b}, sd.bytes...)
		cs = e.c.And(cs, e.c.Or(e.c.ULt(e.c.Const(uint64(i), 2), l), e.c.Eq(b, e.c.Const(0, 8))))
		key = e.c.Concat(b, key)
	}
	for i := 0; i < pre; i++ { // all strings begin with the same bytes
		sd.bytes = append([]*Term{e.c.Const('p', 8)}, sd.bytes...)
	}
	sd.key = key
	e.assume(cs)
	return &Str{sd: sd}
}

func (e *Exec) newBytes(label string) *Slice {
	s := e.newStr(label)
	ex := e.fresh(label+"xcap", 2)
	return &Slice{obj: e.strObj(s.sd), off: e.k(0), len: s.sd.len, cap: e.c.Add(s.sd.len, e.c.ZExt(ex, e.W))}
}

func (e *Exec) strObj(sd *StrData) *Obj {
	if sd.obj == nil {
		e.nobj++
		sd.obj = &Obj{id: e.nobj, name: "string bytes", elem: types.Typ[types.Uint8], ro: "the bytes of an element are written"}
		for _, b := range sd.bytes {
			sd.obj.cells = append(sd.obj.cells, b)
		}
		sd.obj.sd = sd
	}
	return sd.obj
}

func (e *Exec) sliceToStr(s *Slice) *Str {
	if s.obj == nil {
		return &Str{}
	}
	if sd := s.obj.sd; sd != nil {
		if s.off.isConst() && s.off.val == 0 && s.len == sd.len {
			return &Str{sd: sd}
		}
		if s.len.isConst() && s.len.val == 0 {
			return &Str{}
		}
		off := e.concretize(s.off)
		return e.strPart(sd, off, off+e.concretize(s.len))
	}
	// concrete bytes
	n := int(e.concretize(s.len))
	off := int(e.concretize(s.off))
	var b []byte
	for i := 0; i < n; i++ {
		t, ok := s.obj.cells[off+i].(*Term)
		if !ok {
			e.unsup("bytes")
		}
		b = append(b, byte(e.concretize(t)))
	}
	return &Str{lit: string(b)}
}

// strPart is bytes lo to hi of a symbolic string.
func (e *Exec) strPart(sd *StrData, lo, hi uint64) *Str {
	if hi > uint64(len(sd.bytes)) {
		e.unsup("part of an opaque string")
	}
	n := &StrData{id: e.strN, len: e.kint(int(hi - lo)), bytes: sd.bytes[lo:hi], part: true}
	e.strN++
	return &Str{sd: n}
}

// strBytes gives the bytes of a string, whose length is decided.
func (e *Exec) strBytes(s *Str) (r []*Term) {
	if s.sd == nil {
		for i := 0; i < len(s.lit); i++ {
			r = append(r, e.c.Const(uint64(s.lit[i]), 8))
		}
		return
	}
	n := e.concretize(s.sd.len)
	if n > uint64(len(s.sd.bytes)) {
		e.unsup("bytes of an opaque string")
	}
	return s.sd.bytes[:n]
}

// strCmpBytes compares strings byte by byte.
func (e *Exec) strCmpBytes(a, b *Str) (lt, eq *Term) {
	x, y := e.strBytes(a), e.strBytes(b)
	n := min(len(x), len(y))
	lt, eq = e.c.Bool(len(x) < len(y)), e.c.Bool(len(x) == len(y))
	for i := n - 1; i >= 0; i-- {
		q := e.c.Eq(x[i], y[i])
		lt = e.c.Or(e.c.ULt(x[i], y[i]), e.c.And(q, lt))
		eq = e.c.And(q, eq)
	}
	return
}

func (e *Exec) strData(s *Str) Value {
	if s.sd != nil {
		return &Ptr{obj: e.strObj(s.sd), idx: e.k(0)}
	}
	if s.lit == "" {
		return nilPtr()
	}
	e.nobj++
	o := &Obj{id: e.nobj, name: "literal", elem: types.Typ[types.Uint8], ro: "a literal is written"}
	for i := 0; i < len(s.lit); i++ {
		o.cells = append(o.cells, e.c.Const(uint64(s.lit[i]), 8))
	}
	return &Ptr{obj: o, idx: e.k(0)}
}

func (e *Exec) strLen(s *Str) *Term {
	if s.sd != nil {
		return s.sd.len
	}
	return e.kint(len(s.lit))
}

func (e *Exec) strKey(s *Str) *Term {
	if s.sd != nil {
		if s.sd.key == nil {
			e.unsup("content of an opaque string")
		}
		return s.sd.key
	}
	var k uint64
	for i := 0; i < maxStr; i++ {
		k <<= 8
		if i < len(s.lit) {
			k |= uint64(s.lit[i])
		}
	}
	n := len(s.lit)
	if n > 3 {
		n = 3
	}
	return e.c.Const(k<<2|uint64(n), 8*maxStr+2)
}

func (e *Exec) strCmp(op token.Token, a, b *Str) *Term {
	if a.sd == nil && b.sd == nil {
		switch op {
		case token.EQL:
			return e.c.Bool(a.lit == b.lit)
		case token.NEQ:
			return e.c.Bool(a.lit != b.lit)
		case token.LSS:
			return e.c.Bool(a.lit < b.lit)
		case token.LEQ:
			return e.c.Bool(a.lit <= b.lit)
		case token.GTR:
			return e.c.Bool(a.lit > b.lit)
		case token.GEQ:
			return e.c.Bool(a.lit >= b.lit)
		}
	}
	if raw := func(s *Str) bool { return s.sd != nil && s.sd.part || s.sd == nil && e.job.Params["pre"] > 0 }; raw(a) || raw(b) {
		lt, eq := e.strCmpBytes(a, b)
		switch op {
		case token.EQL:
			return eq
		case token.NEQ:
			return e.c.Not(eq)
		case token.LSS:
			return lt
		case token.LEQ:
			return e.c.Or(lt, eq)
		case token.GTR:
			return e.c.Not(e.c.Or(lt, eq))
		case token.GEQ:
			return e.c.Not(lt)
		}
	}
	x, y := e.strKey(a), e.strKey(b)
	switch op {
	case token.EQL:
		return e.c.Eq(x, y)
	case token.NEQ:
		return e.c.Not(e.c.Eq(x, y))
	case token.LSS:
		return e.c.ULt(x, y)
	case token.LEQ:
		return e.c.ULe(x, y)
	case token.GTR:
		return e.c.ULt(y, x)
	case token.GEQ:
		return e.c.ULe(y, x)
	}
	e.unsup("string op %s", op)
	return nil
}

// fkey maps float bits to a signed integer ordered like the (non-NaN) floats.
func (e *Exec) fnan(x *Term) *Term {
	w := x.w
	if k := e.fk[x]; k != nil {
		inf := uint64(0x7f800000)
		if w == 64 {
			inf = 0x7ff0000000000000
		}
		return e.c.Or(e.c.SLt(e.c.Const(inf, w), k), e.c.SLt(k, e.c.Const(-inf, w)))
	}
	inf := uint64(0x7f800000)
	if w == 64 {
		inf = 0x7ff0000000000000
	}
	return e.c.ULt(e.c.Const(inf, w), e.c.Bin(OBAnd, x, e.c.Const(mask(w)>>1, w)))
}
func (e *Exec) fkey(x *Term) *Term {
	if k := e.fk[x]; k != nil {
		return k
	}
	mag := e.c.Bin(OBAnd, x, e.c.Const(mask(x.w)>>1, x.w))
	return e.c.Ite(e.c.SLt(x, e.c.Const(0, x.w)), e.c.Neg(mag), mag)
}

func (e *Exec) fcmp(op token.Token, x, y *Term) *Term {
	ok := e.c.And(e.c.Not(e.fnan(x)), e.c.Not(e.fnan(y)))
	kx, ky := e.fkey(x), e.fkey(y)
	switch op {
	case token.EQL:
		return e.c.And(ok, e.c.Eq(kx, ky))
	case token.NEQ:
		return e.c.Not(e.c.And(ok, e.c.Eq(kx, ky)))
	case token.LSS:
		return e.c.And(ok, e.c.SLt(kx, ky))
	case token.LEQ:
		return e.c.And(ok, e.c.SLe(kx, ky))
	case token.GTR:
		return e.c.And(ok, e.c.SLt(ky, kx))
	case token.GEQ:
		return e.c.And(ok, e.c.SLe(ky, kx))
	}
	e.unsup("float op %s", op)
	return nil
}

// ident gives a string that identifies a value bit for bit.
func (e *Exec) ident(v Value) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case *Str:
		if x.sd != nil {
			return fmt.Sprintf("s%d", x.sd.id)
		}
		return fmt.Sprintf("%q", x.lit)
	case *Slice:
		if x.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("b%d,%d,%d,%d", x.obj.id, x.off.id, x.len.id, x.cap.id)
	case *Ptr:
		if x.addr != nil {
			return fmt.Sprintf("p%d", x.addr.id)
		}
		if x.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("o%d,%d,%v", x.obj.id, x.idx.id, x.path)
	case *Struct:
		s := "{"
		for _, f := range x.f {
			s += e.ident(f) + ";"
		}
		return s + "}"
	}
	e.unsup("ident %T", v)
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
