package main

import (
	"fmt"
	"math/bits"
)

// Narrowing: word-size arithmetic on values with small known ranges (lengths, offsets, indices)
// is carried out on as many bits as the ranges need and sign-extended. Every rewrite is an exact
// equivalence: the interval of a result is computed from the intervals of its operands, and a
// result is narrowed only when its interval fits.

func sbits(lo, hi int64) uint8 {
	f := func(x int64) int {
		if x < 0 {
			x = ^x
		}
		return bits.Len64(uint64(x)) + 1
	}
	return uint8(max(f(lo), f(hi)))
}

// RangeVar is a fresh variable of width w whose values are in [lo,hi].
func (c *Ctx) RangeVar(name string, w uint8, lo, hi int64) (v, x *Term) {
	k := sbits(lo, hi)
	if k >= w {
		v = c.Var(name, w)
		if min := sx(1<<(w-1), w); lo <= min+1 && hi == int64(mask(w)>>1) {
			v.lo, v.isint = lo, true
		}
		return v, v
	}
	v = c.Var(fmt.Sprintf("%s_%d_%d", name, lo, hi), k)
	v.lo, v.hi, v.isint = lo, hi, true
	return v, c.SExt(v, w)
}

// NatVar is an arbitrary unsigned value that the solver may see as an integer.
func (c *Ctx) NatVar(name string, w uint8) *Term {
	v := c.Var(name, w)
	v.isnat = true
	return v
}

// iv is the signed interval of t.
func (t *Term) iv() (lo, hi int64) {
	if t.op == OConst {
		v := sx(t.val, t.w)
		return v, v
	}
	return t.lo, t.hi
}

// mulIv is the interval of a product; false when it leaves 62 bits.
func mulIv(l1, h1, l2, h2 int64) (lo, hi int64, ok bool) {
	for i, p := range [4][2]int64{{l1, l2}, {l1, h2}, {h1, l2}, {h1, h2}} {
		a, b := p[0], p[1]
		if a == -1<<63 || b == -1<<63 {
			return 0, 0, false
		}
		x, y := a, b
		if x < 0 {
			x = -x
		}
		if y < 0 {
			y = -y
		}
		if hw, lw := bits.Mul64(uint64(x), uint64(y)); hw != 0 || lw >= 1<<62 {
			return 0, 0, false
		}
		v := a * b
		if i == 0 {
			lo, hi = v, v
		}
		lo, hi = min(lo, v), max(hi, v)
	}
	return lo, hi, true
}

// setIv computes the interval of a new term.
func (t *Term) setIv() {
	if t.w == 0 {
		return
	}
	t.lo, t.hi = sx(1<<(t.w-1), t.w), int64(mask(t.w)>>1)
	fits := func(lo, hi int64) {
		if lo >= t.lo && hi <= t.hi && lo <= hi {
			t.lo, t.hi = lo, hi
		}
	}
	const big = 1 << 61
	small := func(x int64) bool { return -big < x && x < big }
	switch t.op {
	case OSExt:
		fits(t.a.iv())
	case OZExt:
		lo, hi := t.a.iv()
		if lo >= 0 {
			fits(lo, hi)
		} else {
			fits(0, int64(mask(t.a.w)))
		}
	case OIte:
		l1, h1 := t.b.iv()
		l2, h2 := t.c.iv()
		fits(min(l1, l2), max(h1, h2))
	case OAdd, OSub:
		l1, h1 := t.a.iv()
		l2, h2 := t.b.iv()
		if small(l1) && small(h1) && small(l2) && small(h2) {
			if t.op == OAdd {
				fits(l1+l2, h1+h2)
			} else {
				fits(l1-h2, h1-l2)
			}
		}
	case OMul:
		l1, h1 := t.a.iv()
		l2, h2 := t.b.iv()
		if lo, hi, ok := mulIv(l1, h1, l2, h2); ok {
			fits(lo, hi)
		}
	case OShl:
		l, h := t.a.iv()
		if t.b.isConst() && t.b.val < 60 {
			if lo, hi, ok := mulIv(l, h, 1<<t.b.val, 1<<t.b.val); ok {
				fits(lo, hi)
			}
		}
	case OLShr:
		l, h := t.a.iv()
		if t.b.isConst() && l >= 0 && t.b.val < 64 {
			fits(l>>t.b.val, h>>t.b.val)
		}
	case OAShr:
		l, h := t.a.iv()
		if t.b.isConst() && t.b.val < 64 {
			fits(l>>t.b.val, h>>t.b.val)
		}
	case OBAnd:
		_, h1 := t.a.iv()
		l1, _ := t.a.iv()
		l2, h2 := t.b.iv()
		switch {
		case l1 >= 0 && l2 >= 0:
			fits(0, min(h1, h2))
		case l1 >= 0:
			fits(0, h1)
		case l2 >= 0:
			fits(0, h2)
		}
	case OBOr, OBXor:
		l1, h1 := t.a.iv()
		l2, h2 := t.b.iv()
		if l1 >= 0 && l2 >= 0 {
			fits(0, int64(mask(uint8(bits.Len64(uint64(h1|h2))))))
		}
	case ONeg:
		l, h := t.a.iv()
		if small(l) && small(h) {
			fits(-h, -l)
		}
	}
}

// setInt decides whether the solver may see t as an integer.
func (t *Term) setInt() {
	in := func(x *Term) bool { return x.op == OConst && x.w > 0 || x.isint }
	exact := func() bool { // no wrap-around: the natural interval fits
		l1, h1 := t.a.iv()
		l2, h2 := t.b.iv()
		var lo, hi int64
		const big = 1 << 62
		for _, x := range [4]int64{l1, h1, l2, h2} {
			if x <= -big || x >= big {
				return false
			}
		}
		switch t.op {
		case OAdd:
			lo, hi = l1+l2, h1+h2
		case OSub:
			lo, hi = l1-h2, h1-l2
		}
		return lo >= sx(1<<(t.w-1), t.w) && hi <= int64(mask(t.w)>>1)
	}
	switch t.op {
	case OSMean:
		t.isint = in(t.a) && in(t.b)
	case OUMean:
		nat := func(x *Term) bool { return x.op == OConst || x.isnat }
		t.isnat = nat(t.a) && nat(t.b)
	case OAdd, OSub:
		t.isint = in(t.a) && in(t.b) && exact()
	case OMul:
		if t.b.isConst() && t.a.isint {
			l, h := t.a.iv()
			v := sx(t.b.val, t.w)
			lo, hi, ok := mulIv(l, h, v, v)
			t.isint = ok && lo >= sx(1<<(t.w-1), t.w) && hi <= int64(mask(t.w)>>1)
		}
	case OShl:
		if t.b.isConst() && t.a.isint && t.b.val < 60 {
			l, h := t.a.iv()
			lo, hi, ok := mulIv(l, h, 1<<t.b.val, 1<<t.b.val)
			t.isint = ok && lo >= sx(1<<(t.w-1), t.w) && hi <= int64(mask(t.w)>>1)
		}
	case OAShr:
		t.isint = t.b.isConst() && t.a.isint && t.b.val < 62
	case OBAnd:
		if t.b.isConst() && t.a.isint {
			m := t.b.val
			t.isint = m&(m+1) == 0 && t.a.lo >= 0
		}
	case OSExt:
		t.isint = t.a.isint
	case OIte:
		t.isint = in(t.b) && in(t.c) && (t.b.isint || t.c.isint)
	}
}

// core is the narrow form of t: a term u with SExt(u) = t, nil when there is none.
func (c *Ctx) core(t *Term) *Term {
	switch t.op {
	case OConst:
		v := sx(t.val, t.w)
		return c.Const(uint64(v), sbits(v, v))
	case OSExt:
		return t.a
	case OZExt:
		if lo, _ := t.a.iv(); lo >= 0 {
			return t.a
		}
		if t.a.w+1 < t.w {
			return c.ZExt(t.a, t.a.w+1)
		}
	}
	return nil
}

// narrowBin narrows a word-size operation; nil when it cannot.
func (c *Ctx) narrowBin(op Op, x, y *Term) *Term {
	w := x.w
	if w < 32 || x.isConst() && y.isConst() {
		return nil
	}
	a, b := c.core(x), c.core(y)
	if a == nil || b == nil || a.w >= w || b.w >= w {
		if a != nil && y.isConst() && a.lo >= 0 && a.w < w && a.op != OConst { // beyond the range of x
			switch op {
			case OULt, OULe:
				return c.True
			}
		}
		return nil
	}
	m := max(a.w, b.w)
	switch op {
	case OEq, OULt, OULe, OSLt, OSLe:
		a, b = c.SExt(a, m), c.SExt(b, m)
		l1, h1 := a.iv()
		l2, h2 := b.iv()
		sop := op
		if l1 >= 0 && l2 >= 0 { // one form for signed and unsigned
			switch op {
			case OULt:
				sop = OSLt
			case OULe:
				sop = OSLe
			}
		}
		switch sop {
		case OEq:
			if h1 < l2 || h2 < l1 {
				return c.False
			}
			return c.Eq(a, b)
		case OSLt:
			if h1 < l2 {
				return c.True
			} else if l1 >= h2 {
				return c.False
			}
		case OSLe:
			if h1 <= l2 {
				return c.True
			} else if l1 > h2 {
				return c.False
			}
		}
		return c.Bin(sop, a, b)
	case OBAnd, OBOr, OBXor:
		return c.SExt(c.Bin(op, c.SExt(a, m), c.SExt(b, m)), w)
	case OAdd, OSub, OMul:
		t := Term{op: op, w: w, a: x, b: y}
		t.setIv()
		k := max(sbits(t.lo, t.hi), m)
		if k >= w {
			return nil
		}
		return c.SExt(c.Bin(op, c.SExt(a, k), c.SExt(b, k)), w)
	case OShl:
		if !y.isConst() || y.val > 60 {
			return nil
		}
		t := Term{op: op, w: w, a: x, b: y}
		t.setIv()
		k := max(sbits(t.lo, t.hi), a.w)
		if k >= w {
			return nil
		}
		return c.SExt(c.Bin(OShl, c.SExt(a, k), c.Const(y.val, k)), w)
	case OLShr, OAShr:
		if !y.isConst() || y.val >= uint64(w) {
			return nil
		}
		if lo, _ := a.iv(); lo < 0 && op == OLShr {
			return nil
		} else if y.val >= uint64(a.w)-1 {
			if lo >= 0 {
				return c.Const(0, w)
			}
			return nil
		} else {
			r := c.Bin(OAShr, a, c.Const(y.val, a.w))
			return c.SExt(r, w)
		}
	}
	return nil
}
