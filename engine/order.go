package main

// Order closure. Comparison literals on the path are closed under transitivity; every derived
// comparison is handed to the solver as a valid lemma (an instance of transitivity or totality
// of <= on bit-vectors). The lemmas change no verdict, they spare the solver from rediscovering
// transitivity bit by bit.

type ordDom struct {
	op  Op // OSLe or OULe
	w   uint8
	idx map[*Term]int
	ts  []*Term
	rel [][]uint8 // 0 none, 1 <=, 2 <
}

type ordKey struct {
	signed bool
	w      uint8
}

type order struct {
	doms map[ordKey]*ordDom
	bad  bool // contradiction found
}

const ordMax = 80

func newOrder() *order { return &order{doms: map[ordKey]*ordDom{}} }

func (d *ordDom) node(t *Term) int {
	if i, ok := d.idx[t]; ok {
		return i
	}
	if len(d.ts) >= ordMax {
		return -1
	}
	i := len(d.ts)
	d.idx[t] = i
	d.ts = append(d.ts, t)
	for k := range d.rel {
		d.rel[k] = append(d.rel[k], 0)
	}
	d.rel = append(d.rel, make([]uint8, i+1))
	d.rel[i][i] = 1
	return i
}

func (e *Exec) ordTerm(d *ordDom, r uint8, x, y *Term) *Term {
	if d.op == OSLe {
		if r == 2 {
			return e.c.SLt(x, y)
		}
		return e.c.SLe(x, y)
	}
	if r == 2 {
		return e.c.ULt(x, y)
	}
	return e.c.ULe(x, y)
}

// ordAdd adds a true literal to the closure, emitting lemmas when emit is set.
func (e *Exec) ordAdd(o *order, t *Term, emit bool) {
	switch t.op {
	case OAnd:
		e.ordAdd(o, t.a, emit)
		e.ordAdd(o, t.b, emit)
	case ONot:
		if t.a.op == OOr {
			e.ordAdd(o, e.c.Not(t.a.a), emit)
			e.ordAdd(o, e.c.Not(t.a.b), emit)
		}
	case OULt, OULe, OSLt, OSLe:
		if t.a.num() || t.b.num() {
			return
		}
		k := ordKey{t.op == OSLt || t.op == OSLe, t.a.w}
		d := o.doms[k]
		if d == nil {
			d = &ordDom{op: OULe, w: k.w, idx: map[*Term]int{}}
			if k.signed {
				d.op = OSLe
			}
			o.doms[k] = d
		}
		r := uint8(1)
		if t.op == OULt || t.op == OSLt {
			r = 2
		}
		e.ordEdge(o, d, t.a, t.b, r, emit)
	case OEq:
		if t.a.w == 0 || t.a.num() || t.b.num() {
			return
		}
		for _, s := range []bool{false, true} {
			d := o.doms[ordKey{s, t.a.w}]
			if d == nil {
				continue
			}
			_, ok1 := d.idx[t.a]
			_, ok2 := d.idx[t.b]
			if !ok1 || !ok2 {
				continue
			}
			if emit {
				e.s.Assert(e.c.Or(e.c.Not(t), e.ordTerm(d, 1, t.a, t.b)))
				e.s.Assert(e.c.Or(e.c.Not(t), e.ordTerm(d, 1, t.b, t.a)))
			}
			e.ordEdge(o, d, t.a, t.b, 1, emit)
			e.ordEdge(o, d, t.b, t.a, 1, emit)
		}
	}
}

func (e *Exec) ordEdge(o *order, d *ordDom, x, y *Term, r uint8, emit bool) {
	i, j := d.node(x), d.node(y)
	if i < 0 || j < 0 {
		return
	}
	if d.rel[i][j] >= r {
		return
	}
	lemma := func(p, q, c *Term) {
		if emit {
			e.s.Assert(e.c.Or(e.c.Not(p), e.c.Not(q), c))
		}
	}
	set := func(a, b int, r uint8) {
		d.rel[a][b] = r
		if r == 2 && emit { // a<b gives a<=b
			e.s.Assert(e.c.Or(e.c.Not(e.ordTerm(d, 2, d.ts[a], d.ts[b])), e.ordTerm(d, 1, d.ts[a], d.ts[b])))
		}
		if r == 2 && (a == b || d.rel[b][a] > 0) {
			o.bad = true
		}
	}
	set(i, j, r)
	n := len(d.ts)
	for a := 0; a < n; a++ {
		ra := d.rel[a][i]
		if ra == 0 {
			continue
		}
		// a -> j
		raj := max(ra, r)
		if a != i && d.rel[a][j] < raj {
			lemma(e.ordTerm(d, ra, d.ts[a], d.ts[i]), e.ordTerm(d, r, d.ts[i], d.ts[j]), e.ordTerm(d, raj, d.ts[a], d.ts[j]))
			set(a, j, raj)
		}
		for b := 0; b < n; b++ {
			rb := d.rel[j][b]
			if rb == 0 || b == j {
				continue
			}
			rab := max(raj, rb)
			if d.rel[a][b] < rab {
				lemma(e.ordTerm(d, d.rel[a][j], d.ts[a], d.ts[j]), e.ordTerm(d, rb, d.ts[j], d.ts[b]), e.ordTerm(d, rab, d.ts[a], d.ts[b]))
				if a == b && rab == 1 {
					continue
				}
				set(a, b, rab)
			}
		}
	}
}

// ordGoal gives the solver the totality instances an obligation needs.
func (e *Exec) ordGoal(t *Term, seen map[*Term]bool) {
	if t == nil || seen[t] || len(seen) > 400 {
		return
	}
	seen[t] = true
	switch t.op {
	case OAnd, OOr, ONot:
		e.ordGoal(t.a, seen)
		e.ordGoal(t.b, seen)
	case OULt, OULe:
		if t.a.num() || t.b.num() {
			return
		}
		e.s.Assert(e.c.Or(e.c.ULe(t.a, t.b), e.c.ULe(t.b, t.a)))
	case OSLt, OSLe:
		if t.a.num() || t.b.num() {
			return
		}
		e.s.Assert(e.c.Or(e.c.SLe(t.a, t.b), e.c.SLe(t.b, t.a)))
	}
}

func (t *Term) num() bool { return t.isint || t.isnat }
