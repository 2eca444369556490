package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Bounded model checking of the goroutines of a call over symbolic schedules: which goroutine
// takes the next step is a variable of the solver, as are all values the goroutines read.

type bNode struct {
	it   oItem // without conditions
	out  []bEdge
	lvl  int
	id   int
	sym  string
	text string
	work bool
}

type bEdge struct {
	gs []string
	to *bNode
}

type template struct {
	site  string
	root  *bNode // a pseudo node
	nodes []*bNode
	npath int
	pool  int
}

// skeleton of a call: template 0 is the caller
type skeleton struct {
	ts    []*template
	text  string
	names []string // element types it stands for
	cut   int
}

// share makes a small graph: equal parts are one.
func (n *gNode) share(done map[*gNode]*bNode, memo map[string]*bNode, ren func(string) string) *bNode {
	if b := done[n]; b != nil {
		return b
	}
	b := &bNode{it: n.it, lvl: n.lvl}
	if b.it.op == "Spawn" {
		b.it.loc = ren(b.it.loc)
	}
	var es []string
	seen := map[string]bool{}
	for _, c := range n.out {
		to := c.to.share(done, memo, ren)
		if to == nil {
			continue
		}
		x := fmt.Sprint(c.gs, "->", to.text)
		if !seen[x] {
			seen[x] = true
			b.out = append(b.out, bEdge{c.gs, to})
			es = append(es, x)
		}
	}
	if len(es) == 0 && !b.final() {
		return nil // leads nowhere
	}
	sort.Strings(es)
	k := fmt.Sprint(b.lvl, b.it.key(), es)
	h := sha256.Sum256([]byte(k))
	b.text = fmt.Sprintf("%x", h[:12])
	if m := memo[b.text]; m != nil {
		done[n] = m
		return m
	}
	b.id = len(memo)
	b.sym = fmt.Sprint("n", b.id)
	memo[b.text] = b
	done[n] = b
	return b
}

func (b *bNode) collect(seen map[*bNode]bool, l *[]*bNode) {
	for _, e := range b.out {
		if !seen[e.to] {
			seen[e.to] = true
			*l = append(*l, e.to)
			e.to.collect(seen, l)
		}
	}
}

// skeletons extracts what the goroutines of a call do, for every element type.
func skeletons(r *report, specs []spec, end time.Time) map[string]*skeleton {
	type work struct {
		s  spec
		sk *skeleton
	}
	res := map[string]*skeleton{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, s := range specs {
		P := progs[s.key]
		if P == nil || P.sorty.Func(s.h) == nil {
			r.notes = append(r.notes, "no harness "+s.h+" for this tree")
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			sk := &skeleton{names: []string{strings.TrimPrefix(s.h, "v_bmc_")}}
			type goroutine struct {
				chain []chainLink
				pre   []Event
			}
			todo := []goroutine{{chain: []chainLink{}}}
			byChain := map[string]*template{}
			trees := map[string]*gNode{}
			var order []string
			bad := ""
			for len(todo) > 0 && bad == "" {
				g := todo[0]
				todo = todo[1:]
				key := "main"
				if len(g.chain) > 0 {
					key = g.chain[len(g.chain)-1].site
				}
				if byChain[key] != nil {
					continue
				}
				j := &Job{Harness: s.h, Params: s.par, P: P, chain: g.chain, pre: g.pre}
				RunJobs([]*Job{j}, map[string]bool{}, 1, end, os.Getenv("VDEBUG") != "")
				mu.Lock()
				r.jobs = append(r.jobs, j)
				r.st.merge(j.st)
				mu.Unlock()
				if j.root == nil {
					bad = "no path of " + key
					break
				}
				for u := range j.st.Unsup {
					bad = u
				}
				byChain[key] = &template{site: key}
				trees[key] = j.root
				order = append(order, key)
				j.root.walk(map[*gNode]bool{}, func(n *gNode) {
					if n.it.op == "Spawn" {
						todo = append(todo, goroutine{append(append([]chainLink(nil), g.chain...), chainLink{n.it.loc, len(n.pre)}), n.pre})
					}
				})
				if len(order) > 8 {
					bad = "too many kinds of goroutines"
				}
			}
			if bad != "" {
				mu.Lock()
				r.notes = append(r.notes, "schedules of "+s.h+" are not encoded: "+bad)
				mu.Unlock()
				return
			}
			// equal goroutines are one kind
			canon := map[string]string{}
			num := map[string]int{}
			for round := 0; round < 3; round++ {
				texts := map[string]string{}
				var ts []string
				for _, k := range order {
					t := ""
					if b := trees[k].share(map[*gNode]*bNode{}, map[string]*bNode{}, func(x string) string { return canon[x] }); b != nil {
						t = b.text
					}
					if k == "main" {
						t = "main:" + t
					}
					texts[k] = t
				}
				num = map[string]int{}
				for _, k := range order {
					if _, ok := num[texts[k]]; !ok {
						num[texts[k]] = len(ts)
						ts = append(ts, texts[k])
					}
				}
				for _, k := range order {
					canon[k] = fmt.Sprint("t", num[texts[k]])
				}
				sk.text = strings.Join(ts, "\n")
			}
			done := map[string]bool{}
			for _, k := range order {
				if done[canon[k]] {
					continue
				}
				done[canon[k]] = true
				t := byChain[k]
				t.root = trees[k].share(map[*gNode]*bNode{}, map[string]*bNode{}, func(x string) string { return canon[x] })
				if t.root == nil {
					t.root = &bNode{}
				}
				t.site = canon[k]
				sk.ts = append(sk.ts, t)
			}
			unread := map[string]bool{}
			for _, t := range sk.ts {
				t.root.collect(map[*bNode]bool{}, &t.nodes)
			}
			for pass := 0; pass < 2; pass++ {
				for _, t := range sk.ts {
					for _, n := range t.nodes {
						if n.it.op == "Store" && pass == 0 {
							unread[n.it.loc] = true
						} else if n.it.op != "Store" {
							delete(unread, n.it.loc)
						}
					}
				}
			}
			for _, t := range sk.ts {
				t.collapse(unread)
			}
			mu.Lock()
			defer mu.Unlock()
			if o := res[sk.text]; o != nil {
				o.names = append(o.names, sk.names...)
				sort.Strings(o.names)
			} else {
				res[sk.text] = sk
			}
		}()
	}
	wg.Wait()
	return res
}

// collapse makes work a mark of the operation that follows it: a goroutine that waits for its
// turn to do an operation with this mark may still be working.
func (t *template) collapse(unread map[string]bool) {
	type key struct {
		n *bNode
		w bool
	}
	memo := map[key]*bNode{}
	var conv func(n *bNode, w bool) *bNode
	var outs func(n *bNode, gs []string, w bool, to *[]bEdge)
	outs = func(n *bNode, gs []string, w bool, to *[]bEdge) {
		for _, e := range n.out {
			g := normGs(append(append([]string(nil), gs...), e.gs...))
			if e.to.it.op == "W" {
				outs(e.to, g, true, to)
			} else if e.to.it.op == "Store" && unread[e.to.it.loc] {
				outs(e.to, g, w, to)
			} else {
				*to = append(*to, bEdge{g, conv(e.to, w)})
			}
		}
	}
	conv = func(n *bNode, w bool) *bNode {
		if c := memo[key{n, w}]; c != nil {
			return c
		}
		c := &bNode{it: n.it, lvl: n.lvl, work: w}
		memo[key{n, w}] = c
		var l []bEdge
		outs(n, nil, false, &l)
		seen := map[string]bool{}
		for _, e := range l {
			if x := fmt.Sprintf("%v%p", e.gs, e.to); !seen[x] {
				seen[x] = true
				c.out = append(c.out, e)
			}
		}
		return c
	}
	t.root = conv(t.root, false)
	t.nodes = nil
	t.root.collect(map[*bNode]bool{}, &t.nodes)
	for i, n := range append([]*bNode{t.root}, t.nodes...) {
		n.id, n.sym = i, fmt.Sprint("n", i)
	}
}

type bmcSlot struct {
	t  *template
	id int
}

type bmc struct {
	sk    *skeleton
	K     int
	slots []bmcSlot
	b     bytes.Buffer
	locs  map[string]uint8
	decl  map[string]bool
	nw    uint8 // 64-bit counters have so many bits
}

func (m *bmc) p(f string, a ...any) { fmt.Fprintf(&m.b, f+"\n", a...) }

func or(xs []string) string {
	switch len(xs) {
	case 0:
		return "false"
	case 1:
		return xs[0]
	}
	return "(or " + strings.Join(xs, " ") + ")"
}
func and(xs []string) string {
	switch len(xs) {
	case 0:
		return "true"
	case 1:
		return xs[0]
	}
	return "(and " + strings.Join(xs, " ") + ")"
}

// inst gives the text of a term for a goroutine; its variables are declared.
func (m *bmc) inst(s int, x string) string {
	var o strings.Builder
	for {
		i := strings.Index(x, "‹")
		if i < 0 {
			o.WriteString(x)
			return o.String()
		}
		j := strings.Index(x, "›")
		o.WriteString(x[:i])
		n := x[i+len("‹") : j]
		o.WriteString(m.reg(s, n))
		x = x[j+len("›"):]
	}
}

func (m *bmc) reg(s int, n string) string {
	v := fmt.Sprintf("|s%d.%s|", s, n)
	if !m.decl[v] {
		m.decl[v] = true
		var w int
		fmt.Sscan(n[strings.LastIndex(n, "_")+1:], &w)
		so := "Bool"
		if w > 0 {
			so = fmt.Sprintf("(_ BitVec %d)", m.width(uint8(w)))
		}
		m.p("(declare-const %s %s)", v, so)
	}
	return v
}

func newBMC(sk *skeleton, K int, pool func(t *template) int) *bmc {
	m := &bmc{sk: sk, K: K, locs: map[string]uint8{}, decl: map[string]bool{}, nw: 6}
	for i, t := range sk.ts {
		t.pool = 1
		if i > 0 {
			t.pool = pool(t)
		}
		for k := 0; k < t.pool; k++ {
			m.slots = append(m.slots, bmcSlot{t, len(m.slots)})
		}
		for _, n := range append([]*bNode{t.root}, t.nodes...) {
			switch n.it.op {
			case "", "Spawn", "Send", "Recv", "End", "Cut":
			default:
				m.locs[n.it.loc] = n.it.wid
				if n.it.wid == 0 {
					m.locs[n.it.loc] = n.it.w
				}
			}
			for _, a := range n.it.args {
				m.narrow(a)
			}
			for _, e := range n.out {
				for _, g := range e.gs {
					m.narrow(g)
				}
			}
		}
	}
	m.build()
	return m
}

// narrow tells whether small counters will do for an expression.
func (m *bmc) narrow(x string) {
	for _, o := range []string{"extract", "extend", "shl", "shr", "bvmul", "div", "rem", "neg"} {
		if strings.Contains(x, o) {
			m.nw = 64
		}
	}
	for _, f := range strings.Split(x, "(_ bv")[1:] {
		var v uint64
		fmt.Sscan(f, &v)
		if v >= 1<<(m.nw-2) && v < ^uint64(0)-1<<(m.nw-2) {
			m.nw = 64
		}
	}
}

func (m *bmc) width(w uint8) uint8 {
	if w == 64 {
		return m.nw
	}
	return w
}

// txt instantiates an expression for a goroutine.
func (m *bmc) txt(s int, x string) string {
	x = m.inst(s, x)
	if m.nw == 64 {
		return x
	}
	ps := strings.Split(x, "(_ bv")
	for i, f := range ps[1:] {
		var v uint64
		var w uint8
		fmt.Sscanf(f, "%d %d)", &v, &w)
		if w == 64 {
			_, rest, _ := strings.Cut(f, ")")
			ps[i+1] = fmt.Sprintf("%d %d)%s", v&(1<<m.nw-1), m.nw, rest)
		}
	}
	return strings.Join(ps, "(_ bv")
}

func pc(k, s int, n *bNode) string { return fmt.Sprintf("|p%d.%d.%s|", k, s, n.sym) }
func sel(k, s int) string          { return fmt.Sprintf("|e%d.%d|", k, s) }

// chosen edge of a goroutine (rigid: a node is executed at most once)
func ch(s int, from *bNode, i int) string { return fmt.Sprintf("|c%d.%s.%d|", s, from.sym, i) }

func (n *bNode) sync() bool  { return n.it.op == "Send" || n.it.op == "Recv" }
func (n *bNode) final() bool { return n.it.op == "End" || n.it.op == "Cut" }

func (m *bmc) build() {
	m.p("(set-option :produce-models true)")
	m.p("(set-logic QF_FD)")
	for _, s := range m.slots {
		for _, n := range append([]*bNode{s.t.root}, s.t.nodes...) {
			var l []string
			for i := range n.out {
				m.p("(declare-const %s Bool)", ch(s.id, n, i))
				l = append(l, ch(s.id, n, i))
			}
			if len(l) > 0 {
				m.p("(assert %s)", or(l))
				if len(l) > 1 {
					m.p("(assert ((_ at-most 1) %s))", strings.Join(l, " "))
				}
			}
		}
	}
	chans := map[string]int{} // capacities
	for _, t := range m.sk.ts {
		for _, n := range t.nodes {
			if n.sync() {
				chans[n.it.loc] = n.it.cap
			}
		}
	}
	var cl, ll []string
	for c := range chans {
		cl = append(cl, c)
	}
	for l := range m.locs {
		ll = append(ll, l)
	}
	sort.Strings(cl)
	sort.Strings(ll)
	for _, s := range m.slots {
		for _, n := range s.t.nodes {
			v := "false"
			if s.id == 0 {
				var l []string
				for i, e := range s.t.root.out {
					if e.to == n {
						l = append(l, ch(0, s.t.root, i))
					}
				}
				v = or(l)
			}
			m.p("(define-fun %s () Bool %s)", pc(0, s.id, n), v)
		}
		m.p("(define-fun |a0.%d| () Bool %v)", s.id, s.id == 0)
	}
	for _, l := range ll {
		w := m.width(m.locs[l])
		m.p("(define-fun |g0.%s| () (_ BitVec %d) (_ bv0 %d))", l, w, w)
	}
	for _, c := range cl {
		m.p("(define-fun |b0.%s| () (_ BitVec 4) (_ bv0 4))", c)
	}
	// at(k, s, f): goroutine s is at an operation with f
	at := func(k int, s bmcSlot, f func(n *bNode) bool) string {
		var l []string
		for _, n := range s.t.nodes {
			if f(n) {
				l = append(l, pc(k, s.id, n))
			}
		}
		return or(l)
	}
	for k := 0; k <= m.K; k++ {
		// who can go on
		var any []string
		for _, s := range m.slots {
			can := []string{at(k, s, func(n *bNode) bool { return !n.final() && !n.sync() && n.it.op != "Spawn" })}
			for _, t := range m.sk.ts[1:] {
				x := at(k, s, func(n *bNode) bool { return n.it.op == "Spawn" && n.it.loc == t.site })
				if x == "false" {
					continue
				}
				any = append(any, x) // with or without a place for it
				var fr []string
				for _, s2 := range m.slots {
					if s2.t == t {
						fr = append(fr, fmt.Sprintf("(not |a%d.%d|)", k, s2.id))
					}
				}
				can = append(can, "(and "+x+" "+or(fr)+")")
			}
			for _, c := range cl {
				snd := at(k, s, func(n *bNode) bool { return n.it.op == "Send" && n.it.loc == c })
				rcv := at(k, s, func(n *bNode) bool { return n.it.op == "Recv" && n.it.loc == c })
				m.p("(define-fun |snd%d.%d.%s| () Bool %s)", k, s.id, c, snd)
				m.p("(define-fun |rcv%d.%d.%s| () Bool %s)", k, s.id, c, rcv)
				if n := chans[c]; n > 0 {
					can = append(can, fmt.Sprintf("(and %s (bvult |b%d.%s| (_ bv%d 4)))", snd, k, c, n), fmt.Sprintf("(and %s (bvult (_ bv0 4) |b%d.%s|))", rcv, k, c))
				}
			}
			m.p("(define-fun |can%d.%d| () Bool %s)", k, s.id, or(can))
			any = append(any, fmt.Sprintf("|can%d.%d|", k, s.id), at(k, s, func(n *bNode) bool { return n.it.op == "Cut" }))
		}
		type pair struct{ a, b int }
		var pairs []pair
		for _, s := range m.slots {
			for _, s2 := range m.slots {
				if s.id == s2.id {
					continue
				}
				var l []string
				for _, c := range cl {
					if chans[c] == 0 {
						l = append(l, fmt.Sprintf("(and |snd%d.%d.%s| |rcv%d.%d.%s|)", k, s.id, c, k, s2.id, c))
					}
				}
				if len(l) > 0 {
					m.p("(define-fun |pair%d.%d.%d| () Bool %s)", k, s.id, s2.id, or(l))
					any = append(any, fmt.Sprintf("|pair%d.%d.%d|", k, s.id, s2.id))
					pairs = append(pairs, pair{s.id, s2.id})
				}
			}
		}
		m.p("(define-fun |en%d| () Bool %s)", k, or(any))
		if k == m.K {
			break
		}
		// the step: one goroutine, or two that meet at a channel
		var all []string
		in := map[int][]string{}
		for _, s := range m.slots {
			v := fmt.Sprintf("|o%d.%d|", k, s.id)
			m.p("(declare-const %s Bool)", v)
			m.p("(assert (=> %s |can%d.%d|))", v, k, s.id)
			all = append(all, v)
			in[s.id] = append(in[s.id], v)
		}
		for _, q := range pairs {
			v := fmt.Sprintf("|r%d.%d.%d|", k, q.a, q.b)
			m.p("(declare-const %s Bool)", v)
			m.p("(assert (=> %s |pair%d.%d.%d|))", v, k, q.a, q.b)
			all = append(all, v)
			in[q.a] = append(in[q.a], v)
			in[q.b] = append(in[q.b], v)
		}
		m.p("(assert ((_ at-most 1) %s))", strings.Join(all, " "))
		m.p("(define-fun |act%d| () Bool %s)", k, or(all))
		if k > 0 {
			m.p("(assert (=> |act%d| |act%d|))", k, k-1)
		}
		for _, s := range m.slots {
			m.p("(define-fun %s () Bool %s)", sel(k, s.id), or(in[s.id]))
		}
		// shared cells
		for _, l := range ll {
			g := fmt.Sprintf("|g%d.%s|", k, l)
			nx := g
			m.p("(declare-const |g%d.%s| (_ BitVec %d))", k+1, l, m.width(m.locs[l]))
			for _, s := range m.slots {
				for _, n := range s.t.nodes {
					if n.it.loc != l || n.sync() || n.it.op == "Spawn" {
						continue
					}
					x := "(and " + sel(k, s.id) + " " + pc(k, s.id, n) + ")"
					var as []string
					for _, a := range n.it.args {
						as = append(as, m.txt(s.id, a))
					}
					r := ""
					if n.it.res {
						r = m.reg(s.id, fmt.Sprintf("r%d_%d", n.lvl-1, n.it.w))
					}
					switch n.it.op {
					case "Load":
						m.p("(assert (=> %s (= %s %s)))", x, r, g)
					case "Store":
						nx = fmt.Sprintf("(ite %s %s %s)", x, as[0], nx)
					case "Add":
						m.p("(assert (=> %s (= %s |g%d.%s|)))", x, r, k+1, l)
						nx = fmt.Sprintf("(ite %s (bvadd %s %s) %s)", x, g, as[0], nx)
					case "And", "Or":
						m.p("(assert (=> %s (= %s %s)))", x, r, g)
						nx = fmt.Sprintf("(ite %s (bv%s %s %s) %s)", x, strings.ToLower(n.it.op), g, as[0], nx)
					case "Swap":
						m.p("(assert (=> %s (= %s %s)))", x, r, g)
						nx = fmt.Sprintf("(ite %s %s %s)", x, as[0], nx)
					case "CAS":
						m.p("(assert (=> %s (= %s (= %s %s))))", x, r, g, as[0])
						nx = fmt.Sprintf("(ite (and %s (= %s %s)) %s %s)", x, g, as[0], as[1], nx)
					}
				}
			}
			m.p("(assert (= |g%d.%s| %s))", k+1, l, nx)
		}
		for _, c := range cl {
			b := fmt.Sprintf("|b%d.%s|", k, c)
			if chans[c] == 0 {
				m.p("(define-fun |b%d.%s| () (_ BitVec 4) %s)", k+1, c, b)
				continue
			}
			var i, o []string
			for _, s := range m.slots {
				i = append(i, fmt.Sprintf("(and %s |snd%d.%d.%s|)", sel(k, s.id), k, s.id, c))
				o = append(o, fmt.Sprintf("(and %s |rcv%d.%d.%s|)", sel(k, s.id), k, s.id, c))
			}
			m.p("(define-fun |b%d.%s| () (_ BitVec 4) (ite %s (bvadd %s (_ bv1 4)) (ite %s (bvsub %s (_ bv1 4)) %s)))", k+1, c, or(i), b, or(o), b, b)
		}
		// goroutines start in order of their places
		started := map[int]string{}
		for ti, t := range m.sk.ts[1:] {
			var sp []string
			for _, s := range m.slots {
				x := at(k, s, func(n *bNode) bool { return n.it.op == "Spawn" && n.it.loc == t.site })
				if x != "false" {
					sp = append(sp, "(and "+sel(k, s.id)+" "+x+")")
				}
			}
			m.p("(define-fun |sp%d.%d| () Bool %s)", k, ti, or(sp))
			prev := "true"
			for _, s := range m.slots {
				if s.t == t {
					started[s.id] = fmt.Sprintf("(and |sp%d.%d| %s (not |a%d.%d|))", k, ti, prev, k, s.id)
					prev = fmt.Sprintf("|a%d.%d|", k, s.id)
				}
			}
		}
		for _, s := range m.slots {
			st := started[s.id]
			if st == "" {
				st = "false"
			}
			m.p("(define-fun |st%d.%d| () Bool %s)", k, s.id, st)
			m.p("(define-fun |a%d.%d| () Bool (or |a%d.%d| |st%d.%d|))", k+1, s.id, k, s.id, k, s.id)
			to := map[*bNode][]string{}
			for i, e := range s.t.root.out {
				to[e.to] = append(to[e.to], fmt.Sprintf("(and |st%d.%d| %s)", k, s.id, ch(s.id, s.t.root, i)))
			}
			for _, n := range s.t.nodes {
				if n.final() {
					continue
				}
				for i, e := range n.out {
					to[e.to] = append(to[e.to], "(and "+pc(k, s.id, n)+" "+sel(k, s.id)+" "+ch(s.id, n, i)+")")
				}
			}
			for _, n := range s.t.nodes {
				keep := pc(k, s.id, n)
				if !n.final() {
					keep = "(and " + keep + " (not " + sel(k, s.id) + "))"
				}
				m.p("(declare-const %s Bool)", pc(k+1, s.id, n))
				m.p("(assert (= %s %s))", pc(k+1, s.id, n), or(append(to[n], keep)))
			}
		}
		// of steps that do not matter to each other, the earlier goroutine goes first; the
		// questions are about the last state, which is the same
		if k > 0 {
			for _, s := range m.slots {
				for _, s2 := range m.slots[:s.id] {
					// s moved at k-1, s2 < s at k, each alone
					var same []string
					for _, l := range ll {
						on := func(kk int, q bmcSlot) string {
							return at(kk, q, func(n *bNode) bool {
								return n.it.loc == l && !n.sync() && n.it.op != "Spawn" && !n.final()
							})
						}
						same = append(same, "(and "+on(k-1, s)+" "+on(k, s2)+")")
					}
					for _, c := range cl {
						if chans[c] > 0 {
							same = append(same, fmt.Sprintf("(and (or |snd%d.%d.%s| |rcv%d.%d.%s|) (or |snd%d.%d.%s| |rcv%d.%d.%s|))", k-1, s.id, c, k-1, s.id, c, k, s2.id, c, k, s2.id, c))
						}
					}
					sp := func(kk int, q bmcSlot) string {
						return at(kk, q, func(n *bNode) bool { return n.it.op == "Spawn" })
					}
					same = append(same, "(and "+sp(k-1, s)+" "+sp(k, s2)+")") // the order of places
					same = append(same, fmt.Sprintf("|st%d.%d|", k-1, s2.id))
					m.p("(assert (=> (and |o%d.%d| |o%d.%d|) %s))", k-1, s.id, k, s2.id, or(same))
				}
			}
		}
	}
	// conditions of chosen edges, once their source was executed
	for _, s := range m.slots {
		for _, n := range append([]*bNode{s.t.root}, s.t.nodes...) {
			reach := fmt.Sprintf("|a%d.%d|", m.K, s.id)
			if n != s.t.root {
				var l []string
				for k := 0; k < m.K && !n.final(); k++ {
					l = append(l, "(and "+sel(k, s.id)+" "+pc(k, s.id, n)+")")
				}
				reach = or(l)
			}
			for i, e := range n.out {
				if len(e.gs) > 0 {
					var g []string
					for _, x := range e.gs {
						g = append(g, m.txt(s.id, x))
					}
					m.p("(assert (=> (and %s %s) %s))", reach, ch(s.id, n, i), and(g))
				}
			}
		}
	}
}

func (m *bmc) mainEnd() string {
	var l []string
	for _, n := range m.sk.ts[0].nodes {
		if n.it.op == "End" {
			l = append(l, pc(m.K, 0, n))
		}
	}
	return or(l)
}

// deadlock: nothing can go on, but somebody is blocked
func (m *bmc) deadlock() string {
	var bl []string
	for _, s := range m.slots {
		for _, n := range s.t.nodes {
			if !n.final() {
				bl = append(bl, pc(m.K, s.id, n))
			}
		}
	}
	return fmt.Sprintf("(and (not |en%d|) %s)", m.K, or(bl))
}

func (m *bmc) working(s bmcSlot) string {
	var w []string
	for _, n := range s.t.nodes {
		if n.work {
			w = append(w, pc(m.K, s.id, n))
		}
	}
	return or(w)
}

// late: work after the call returned
func (m *bmc) late() string {
	var w []string
	for _, s := range m.slots[1:] {
		w = append(w, m.working(s))
	}
	return "(and " + m.mainEnd() + " " + or(w) + ")"
}

// crowd: more goroutines work at once than MaxGor (constant, 2 or more) allows
func (m *bmc) crowd() string {
	var q []string
	for mg := 2; mg < len(m.slots); mg++ {
		var l []string
		for v := range m.decl {
			if i := strings.Index(v, ".m"); i > 0 {
				var w uint8
				fmt.Sscan(strings.TrimSuffix(v[strings.LastIndex(v, "_")+1:], "|"), &w)
				l = append(l, fmt.Sprintf("(= %s (_ bv%d %d))", v, mg, m.width(w)))
			}
		}
		sort.Strings(l)
		var w []string
		for _, s := range m.slots {
			w = append(w, m.working(s))
		}
		q = append(q, fmt.Sprintf("(and %s (not ((_ at-most %d) %s)))", and(l), mg, strings.Join(w, " ")))
	}
	return or(q)
}

// possible: a whole run that uses goroutines (to see that the encoding is not empty)
func (m *bmc) possible() string {
	var l []string
	for _, s := range m.slots[1:] {
		var e []string
		for _, n := range s.t.nodes {
			if n.it.op == "End" {
				e = append(e, pc(m.K, s.id, n))
			}
		}
		l = append(l, fmt.Sprintf("(or (not |a%d.%d|) %s)", m.K, s.id, or(e)))
	}
	return fmt.Sprintf("(and %s %s |a%d.%d|)", m.mainEnd(), and(l), m.K, m.slots[len(m.slots)-1].id)
}

type bmcAns struct {
	ans   string
	sec   float64
	trace []string
}

func (m *bmc) solve(q string, limit time.Duration) bmcAns {
	t0 := time.Now()
	f, err := os.CreateTemp(scratch(), "bmc*.smt2")
	if err != nil {
		panic(err)
	}
	f.Write(m.b.Bytes())
	fmt.Fprintf(f, "(assert %s)\n(check-sat)\n(get-model)\n", q)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	out, _ := exec.CommandContext(ctx, z3bin, f.Name()).Output()
	if os.Getenv("VDEBUG") == "" {
		os.Remove(f.Name())
	}
	a := bmcAns{sec: time.Since(t0).Seconds(), ans: "unknown"}
	s := string(out)
	if i := strings.Index(s, "\n"); i >= 0 && (s[:i] == "sat" || s[:i] == "unsat") {
		a.ans = s[:i]
	} else if len(s) > 0 && ctx.Err() == nil {
		a.ans = "unknown: " + s[:min(len(s), 200)]
	}
	if a.ans == "sat" {
		on := map[string]bool{}
		fs := strings.Split(s, "(define-fun ")
		for _, x := range fs[1:] {
			h := strings.Fields(x)
			if len(h) >= 4 && h[2] == "Bool" && strings.HasPrefix(h[3], "true") {
				on[strings.Trim(h[0], "|")] = true
			}
		}
		for k := 0; k < m.K; k++ {
			var st []string
			for _, sl := range m.slots {
				moved := on[fmt.Sprintf("o%d.%d", k, sl.id)]
				for _, o := range m.slots {
					moved = moved || on[fmt.Sprintf("r%d.%d.%d", k, sl.id, o.id)] || on[fmt.Sprintf("r%d.%d.%d", k, o.id, sl.id)]
				}
				for _, n := range sl.t.nodes {
					if moved && (k == 0 || on[strings.Trim(pc(k, sl.id, n), "|")]) {
						st = append(st, fmt.Sprintf("goroutine %d: %s %s %v", sl.id, n.it.op, n.it.loc, n.it.args))
						if k == 0 {
							break
						}
					}
				}
			}
			if len(st) > 0 {
				a.trace = append(a.trace, strings.Join(st, " <-> "))
			}
		}
	}
	return a
}

var bmcMsgs = map[string]string{
	"deadlock": "C09 a goroutine is blocked forever",
	"late":     "C09 a goroutine works on the collection after the call returned",
	"crowd":    "C10 more than MaxGor goroutines work at once",
}

// runBMC decides the schedule questions of a property.
func runBMC(r *report, specs []spec, kinds []string, K, pool int) {
	t0 := time.Now()
	limit := 150 * time.Second
	if r.tier == "thorough" {
		limit = 30 * time.Minute
	}
	sks := skeletons(r, specs, t0.Add(limit))
	var rep []map[string]any
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for _, key := range sortedKeys2s(sks) {
		sk := sks[key]
		if os.Getenv("VDEBUG") != "" {
			sk.dump()
		}
		m := newBMC(sk, K, func(t *template) int {
			for _, n := range t.nodes {
				if n.it.op == "Spawn" || n.it.op == "Add" || n.it.op == "CAS" || n.it.op == "Store" {
					return pool
				}
			}
			return 2
		})
		size := map[string]int{}
		for _, t := range sk.ts {
			size[t.site] = len(t.nodes)
		}
		for _, q := range append([]string{"possible"}, kinds...) {
			text := map[string]func() string{"deadlock": m.deadlock, "late": m.late, "crowd": m.crowd, "possible": m.possible}[q]()
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				a := m.solve(text, limit)
				<-sem
				mu.Lock()
				defer mu.Unlock()
				rep = append(rep, map[string]any{"question": q, "element_types": sk.names, "goroutine_kinds_and_nodes": size, "goroutines": len(m.slots), "steps": K,
					"answer": a.ans, "seconds": a.sec, "schedule": a.trace})
				if q == "possible" {
					if a.ans != "sat" {
						r.notes = append(r.notes, fmt.Sprintf("VACUOUS: no complete run with all goroutines within %d steps for %v (%s)", K, sk.names, a.ans))
					}
					return
				}
				r.st.Queries++
				r.st.SolverTime += time.Duration(a.sec * float64(time.Second))
				switch a.ans {
				case "sat":
					r.st.Sat++
					for _, n := range sk.names {
						p, msg, _ := strings.Cut(bmcMsgs[q], " ")
						r.extraViol = append(r.extraViol, &Viol{Prop: p, Msg: msg, Harness: "v_bmc_" + n, Notes: a.trace})
					}
				case "unsat":
					r.st.Unsat++
					r.st.Discharged++
					r.st.Obligations++
				default:
					r.st.Unknown++
					r.st.Incomplete = true
					r.notes = append(r.notes, fmt.Sprintf("schedules of %v: %s: %s", sk.names, q, a.ans))
				}
			}()
		}
	}
	wg.Wait()
	r.extra["schedule_model_checking"] = rep
}

func sortedKeys2s(m map[string]*skeleton) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func (sk *skeleton) dump() {
	for _, t := range sk.ts {
		fmt.Fprintln(os.Stderr, "==", t.site, sk.names)
		for _, n := range append([]*bNode{t.root}, t.nodes...) {
			fmt.Fprintln(os.Stderr, " ", n.sym, n.lvl, n.it.op, n.it.loc, n.it.args, pick(n.work, "WORK", ""))
			for _, e := range n.out {
				fmt.Fprintln(os.Stderr, "      ->", e.to.sym, e.gs)
			}
		}
	}
}
