package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Open execution of one goroutine: synchronization operations (atomic operations, channel
// operations, go statements, shared counters) are recorded and answer anything; the rest is
// executed as usual. All paths of a goroutine form a tree, its skeleton (see bmc.go).

type oItem struct {
	op   string // W, Load, Store, Add, Swap, And, Or, CAS, Send, Recv, Close, Spawn, End, Cut
	loc  string
	args []string
	w    uint8 // width of the result
	res  bool
	cap  int
	n    int // Spawn: 1 + ordinal of its target in this process
	wid  uint8
}

type openRun struct {
	chain   []chainLink // go statements that lead to the goroutine
	at      int
	cur     *gNode
	gs      []string
	gterms  map[*Term]bool
	bname   map[*Term]string
	objs    map[*Obj]string
	nvol    int
	started bool
	max     int
	dead    bool
}

func (o *openRun) live() bool { return o != nil && o.started && !o.dead }

// on: also on the way to the goroutine
func (o *openRun) on() bool { return o != nil && !o.dead }

type chainLink struct {
	site string
	pos  int // decisions before the go statement
}

// canonical text of t; ok if it only has results and shared reads
func (e *Exec) otext(t *Term) (string, bool) {
	o := e.open
	ok := true
	var f func(t *Term) string
	f = func(t *Term) string {
		if t.isConst() {
			if t.w == 0 {
				return fmt.Sprint(t.val == 1)
			}
			return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
		}
		if t.op == OVar {
			if n := o.bname[t]; n != "" {
				return "‹" + n + "›"
			}
			ok = false
			return "?"
		}
		switch t.op {
		case OZExt:
			return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, f(t.a))
		case OSExt:
			return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, f(t.a))
		case OExtract:
			return fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, f(t.a))
		}
		n := opName[t.op]
		if n == "" || strings.HasPrefix(n, "fp.") {
			ok = false
			return "?"
		}
		s := "(" + n
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				s += " " + f(x)
			}
		}
		return s + ")"
	}
	return f(t), ok
}

// oguard records a decision.
func (e *Exec) oguard(cond *Term, side bool) {
	o := e.open
	if !o.live() {
		return
	}
	s, ok := e.otext(e.lit(cond, side))
	if ok {
		o.gs = append(o.gs, s)
	}
}

// oitem records what a goroutine does next. Paths that do the same from then on are one.
func (e *Exec) oitem(it oItem) {
	o := e.open
	if !o.started {
		return
	}
	if it.op == "W" && o.cur.it.op == "W" {
		// a loop that only works
		if _, own := e.onode(fmt.Sprintf("w%p", o.cur)+strings.Join(o.gs, ";"), oItem{op: "w"}); !own {
			o.dead = true
			panic(pathEnd{"open: known"})
		}
		return
	}
	gs := o.gs
	o.gs = nil
	if o.cur.lvl-o.cur.st >= o.max && it.op != "End" && it.op != "Cut" {
		it = oItem{op: "Cut"}
	}
	n, own := e.onode("", it)
	o.cur.edge(normGs(gs), n)
	o.cur = n
	if it.op != "W" {
		o.nvol = 0
	}
	if it.op == "Cut" || it.op == "End" {
		o.dead = true
		panic(pathEnd{"open: " + it.op})
	}
	if !own {
		o.dead = true
		panic(pathEnd{"open: known"})
	}
}

func (n *gNode) edge(gs []string, to *gNode) {
	for _, x := range n.out {
		if x.to == to && strings.Join(x.gs, ";") == strings.Join(gs, ";") {
			return
		}
	}
	n.out = append(n.out, gEdge{gs, to})
}

// onode finds the node of an operation in the present state; own: this path was the first.
func (e *Exec) onode(pre string, it oItem) (n *gNode, own bool) {
	o, j := e.open, e.job
	lvl := o.cur.lvl // operations on the way, work not counted
	if strings.ToLower(it.op) != "w" {
		lvl++
	}
	key := fmt.Sprint(pre, lvl, o.nvol, o.cur.st, it.key())
	if it.op != "End" && it.op != "Cut" {
		key += e.ostate()
	}
	var b strings.Builder
	for _, ev := range e.events[:e.pos] {
		fmt.Fprint(&b, ev.side, ev.cval, " ")
	}
	sig := b.String()
	n = j.onodes[key]
	if n == nil {
		n = &gNode{it: it, lvl: lvl, owner: sig, st: o.cur.st}
		if it.op == "Store" {
			n.st++
		}
		if it.op == "Spawn" {
			for _, ev := range e.events[:e.pos] {
				x := *ev
				x.cond, x.pending = nil, false
				n.pre = append(n.pre, x)
			}
		}
		j.onodes[key] = n
	}
	return n, n.owner == sig
}

// ostate describes where a goroutine is, apart from the sizes of ranges.
func (e *Exec) ostate() string {
	var b strings.Builder
	var f func(v Value, d int)
	f = func(v Value, d int) {
		switch x := v.(type) {
		case nil:
			b.WriteString("_")
		case *Term:
			if s, ok := e.otext(x); ok {
				b.WriteString(s)
			} else {
				b.WriteString("?")
			}
		case *Ptr:
			switch {
			case x.isNil():
				b.WriteString("nil")
			case x.obj != nil && e.open.objs[x.obj] != "":
				b.WriteString(e.open.objs[x.obj])
			case x.obj != nil && x.obj.glob != nil:
				b.WriteString(x.obj.glob.Name())
			case x.obj != nil && !x.obj.big && len(x.obj.cells) < 8 && d < 3:
				for _, c := range x.obj.cells {
					f(c, d+1)
				}
			default:
				b.WriteString("p")
			}
		case *Chan:
			if x == nil {
				b.WriteString("nil")
			} else {
				fmt.Fprint(&b, "c", x.id)
			}
		case *Closure:
			if x != nil && x.fn != nil {
				b.WriteString(x.fn.Name())
			}
		case *Struct:
			for _, c := range x.f {
				f(c, d+1)
			}
		case Tuple:
			for _, c := range x {
				f(c, d+1)
			}
		default:
			b.WriteString("v")
		}
		b.WriteString(" ")
	}
	for _, fr := range e.cur.frames {
		fmt.Fprintf(&b, "|%s %d %d: ", fr.fi.name, fr.blk.Index, fr.pc)
		for i, l := range e.live(fr) {
			if l {
				f(fr.regs[i], 0)
			}
		}
	}
	return b.String()
}

// ocall bounds recursion.
func (e *Exec) ocall(th *Thread, fn *ssa.Function) {
	if fn.Pkg != e.P.sorty || e.P.isHarnessFn(fn) {
		return
	}
	k := 0
	for _, fr := range th.frames {
		if fr.fi.fn == fn {
			k++
		}
	}
	if k >= 2 {
		e.oitem(oItem{op: "Cut"})
	}
}

// oarg gives the text of an operand: a canonical term, or a local unknown.
func (e *Exec) oarg(v Value) string {
	t := e.term(v)
	if s, ok := e.otext(t); ok {
		return s
	}
	return fmt.Sprintf("‹l%d_%d›", e.open.cur.lvl, t.w)
}

// ores makes the result of the operation that is recorded next.
func (e *Exec) ores(w uint8) *Term {
	t := e.fresh("open", w)
	e.open.bname[t] = fmt.Sprintf("r%d_%d", e.open.cur.lvl, w)
	return t
}

func (e *Exec) ovol(t *Term) {
	if o := e.open; o.on() {
		o.nvol++
		o.bname[t] = fmt.Sprintf("m%d.%d_%d", o.cur.lvl, o.nvol, t.w)
	}
}

// oloc names a shared cell.
func (e *Exec) oloc(p *Ptr, i int) string {
	o := e.open
	n := o.objs[p.obj]
	if n == "" {
		n = fmt.Sprintf("x%d", p.obj.id)
		if p.obj.glob != nil {
			n = p.obj.glob.Name()
		}
	}
	return fmt.Sprintf("%s.%d%v", n, i, p.path)
}

// oshared tells whether accesses to a cell are recorded.
func (e *Exec) oshared(p *Ptr, w uint8) bool {
	return w > 0 && e.open.on() && e.open.objs[p.obj] != ""
}

func (e *Exec) oalloc(o *Obj, a *ssa.Alloc) {
	if e.open == nil || e.open.dead || !a.Heap || o.isArr || e.P.isHarnessFn(a.Parent()) {
		return
	}
	if a.Parent().Pkg != e.P.sorty {
		return
	}
	e.open.objs[o] = fmt.Sprintf("o%d", len(e.open.objs))
}

// ogo handles a go statement in an open run.
func (e *Exec) ogo(th *Thread, fr *Frame, in *inst, cl *Closure, args []Value) {
	o := e.open
	n := 0
	fn := fr.fi.fn
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if g, ok := i.(*ssa.Go); ok {
				n++
				if g == in.i {
					goto found
				}
			}
		}
	}
found:
	site := fmt.Sprintf("%s@%s#%d", cl.fn.Name(), fn.Name(), n)
	if o.at < len(o.chain) && o.chain[o.at] == (chainLink{site, e.pos}) {
		o.at++
		nt := e.newThread(cl.fn.Name())
		e.call(nt, cl, args, -1)
		th.done = true
		th.frames = nil
		e.ths = []*Thread{nt}
		e.main, e.cur = nt, nt
		if o.at == len(o.chain) {
			e.oroot()
		}
		return
	}
	if o.started {
		e.oitem(oItem{op: "Spawn", loc: site})
	}
}

// oroot starts recording.
func (e *Exec) oroot() {
	o, j := e.open, e.job
	o.started = true
	o.gs, o.nvol = nil, 0
	o.bname = map[*Term]string{}
	if j.root == nil {
		j.root, j.onodes = &gNode{}, map[string]*gNode{}
	}
	o.cur = j.root
}

// ofinish ends a goroutine's path.
func (e *Exec) ofinish(why string) {
	o := e.open
	if !o.live() {
		return
	}
	it := oItem{op: "Cut"}
	switch {
	case why == "done":
		it.op = "End"
	case strings.HasPrefix(why, "panic"), why == "infeasible", why == "solver timeout":
		return
	}
	n, _ := e.onode("", it)
	o.cur.edge(normGs(o.gs), n)
	o.dead = true
}

type gNode struct {
	it    oItem
	out   []gEdge
	lvl   int
	owner string
	st    int     // stores on the way: they do not count
	pre   []Event // the decisions on the way to a go statement
}

type gEdge struct {
	gs []string
	to *gNode
}

func normGs(gs []string) (g []string) {
	s := append([]string(nil), gs...)
	sort.Strings(s)
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			g = append(g, x)
		}
	}
	return
}

func (it *oItem) key() string {
	return it.op + "|" + it.loc + "|" + strings.Join(it.args, ",") + "|" + fmt.Sprint(it.res, it.w, it.cap)
}

func (n *gNode) walk(seen map[*gNode]bool, f func(n *gNode)) {
	for _, c := range n.out {
		if !seen[c.to] {
			seen[c.to] = true
			f(c.to)
			c.to.walk(seen, f)
		}
	}
}

// live tells which registers of a frame are still needed.
func (e *Exec) live(fr *Frame) []bool {
	fi := fr.fi
	if fi.liveOut == nil {
		n := len(fi.code)
		fi.liveOut = make([][]bool, n)
		in := make([][]bool, n)
		for b := range fi.code {
			fi.liveOut[b], in[b] = make([]bool, fi.nslot), make([]bool, fi.nslot)
		}
		for again := true; again; {
			again = false
			for b := n - 1; b >= 0; b-- {
				out := fi.liveOut[b]
				set := func(s int) {
					if s >= 0 && !out[s] {
						out[s], again = true, true
					}
				}
				for _, to := range fi.fn.Blocks[b].Succs {
					for s, l := range in[to.Index] {
						if l {
							set(s)
						}
					}
					for _, x := range fi.code[to.Index] {
						if _, ok := x.i.(*ssa.Phi); !ok {
							break
						}
						for i, p := range to.Preds {
							if p.Index == b {
								set(x.ops[i].slot)
							}
						}
					}
				}
				l := fi.liveAt(b, 0)
				for s := range l {
					if l[s] && !in[b][s] {
						in[b][s], again = true, true
					}
				}
			}
		}
	}
	return fi.liveAt(fr.blk.Index, fr.pc)
}

func (fi *fnInfo) liveAt(b, pc int) []bool {
	l := append([]bool(nil), fi.liveOut[b]...)
	code := fi.code[b]
	for i := len(code) - 1; i >= pc; i-- {
		x := code[i]
		if x.dst >= 0 {
			l[x.dst] = false
		}
		if _, ok := x.i.(*ssa.Phi); ok {
			continue
		}
		for _, o := range x.ops {
			if o.slot >= 0 {
				l[o.slot] = true
			}
		}
	}
	return l
}
