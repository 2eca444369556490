package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Op is a term constructor. Terms are quantifier-free bit-vector / boolean formulas.
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUDiv
	OURem
	OSDiv
	OSRem
	OULt
	OULe
	OSLt
	OSLe
	OZExt
	OSExt
	OExtract
	OConcat
	OSMean // floor of the average, signed
	OUMean // unsigned
	OFAdd  // floating point on IEEE bits; NaN results have one bit pattern
	OFSub
	OFMul
	OFDiv
	OFCvt // to another width
	OFromS
	OFromU
	OFToS // truncation
)

var opName = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor",
	"bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvult", "bvule", "bvslt", "bvsle",
	"zext", "sext", "extract", "concat", "smean", "umean", "fp.add", "fp.sub", "fp.mul", "fp.div", "fp.cvt", "fp.fromS", "fp.fromU", "fp.toS"}

// Term is hash-consed within one Ctx. w == 0 means boolean.
type Term struct {
	id      int
	op      Op
	w       uint8
	val     uint64 // const value; extract: lo
	name    string
	a, b, c *Term
	emitted int   // solver generation in which it was defined
	lo, hi  int64 // signed interval
	isnat   bool  // an exact natural: unsigned values, never wrapping
	isint   bool  // an exact integer: leaves are range variables, no operation wraps
	emitI   int   // solver generation in which its integer form was defined
	ever    int   // model version of eval memo
	eval    uint64
}

type tkey struct {
	op      Op
	w       uint8
	val     uint64
	name    string
	a, b, c *Term
}

// Ctx owns the terms of one worker.
type Ctx struct {
	tab   map[tkey]*Term
	n     int
	True  *Term
	False *Term
	ver   int // model version
	model map[*Term]uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, ver: 1, model: map[*Term]uint64{}}
	c.False = c.mk(OConst, 0, 0, "", nil, nil, nil)
	c.True = c.mk(OConst, 0, 1, "", nil, nil, nil)
	return c
}

func (c *Ctx) mk(op Op, w uint8, val uint64, name string, x, y, z *Term) *Term {
	k := tkey{op, w, val, name, x, y, z}
	if t := c.tab[k]; t != nil {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: op, w: w, val: val, name: name, a: x, b: y, c: z}
	t.setIv()
	t.setInt()
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (c *Ctx) Const(v uint64, w uint8) *Term { return c.mk(OConst, w, v&mask(w), "", nil, nil, nil) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, w uint8) *Term { return c.mk(OVar, w, 0, name, nil, nil, nil) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func (c *Ctx) Not(x *Term) *Term {
	if x.op == OConst {
		return c.Bool(x.val == 0)
	}
	switch x.op {
	case ONot:
		return x.a
	case OULt:
		return c.mk(OULe, 0, 0, "", x.b, x.a, nil)
	case OULe:
		return c.mk(OULt, 0, 0, "", x.b, x.a, nil)
	case OSLt:
		return c.mk(OSLe, 0, 0, "", x.b, x.a, nil)
	case OSLe:
		return c.mk(OSLt, 0, 0, "", x.b, x.a, nil)
	}
	return c.mk(ONot, 0, 0, "", x, nil, nil)
}

func (c *Ctx) And(xs ...*Term) *Term {
	r := c.True
	for _, x := range xs {
		r = c.and2(r, x)
	}
	return r
}
func (c *Ctx) and2(x, y *Term) *Term {
	if x.isFalse() || y.isFalse() {
		return c.False
	}
	if x.isTrue() {
		return y
	}
	if y.isTrue() || x == y {
		return x
	}
	if c.Not(x) == y {
		return c.False
	}
	return c.mk(OAnd, 0, 0, "", x, y, nil)
}
func (c *Ctx) Or(xs ...*Term) *Term {
	r := c.False
	for _, x := range xs {
		r = c.or2(r, x)
	}
	return r
}
func (c *Ctx) or2(x, y *Term) *Term {
	if x.isTrue() || y.isTrue() {
		return c.True
	}
	if x.isFalse() {
		return y
	}
	if y.isFalse() || x == y {
		return x
	}
	if c.Not(x) == y {
		return c.True
	}
	return c.mk(OOr, 0, 0, "", x, y, nil)
}

func (c *Ctx) Eq(x, y *Term) *Term {
	if x == y {
		return c.True
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.val == y.val)
	}
	if r := c.narrowBin(OEq, x, y); r != nil {
		return r
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.w == 0 {
			if y.val == 1 {
				return x
			}
			return c.Not(x)
		}
		if x.op == OIte && x.b.isConst() && x.c.isConst() {
			switch {
			case x.b.val == y.val && x.c.val == y.val:
				return c.True
			case x.b.val == y.val:
				return x.a
			case x.c.val == y.val:
				return c.Not(x.a)
			default:
				return c.False
			}
		}
		if x.op == OZExt {
			if y.val > mask(x.a.w) {
				return c.False
			}
			return c.Eq(x.a, c.Const(y.val, x.a.w))
		}
		if x.op == OAdd && x.b.isConst() {
			return c.Eq(x.a, c.Const(y.val-x.b.val, x.w))
		}
	} else if x.op == OAdd && y.op == OAdd && x.b == y.b {
		return c.Eq(x.a, y.a)
	} else if x.op == OAdd && x.b.isConst() && x.a == y || y.op == OAdd && y.b.isConst() && y.a == x {
		return c.False // x+const (non-zero) = x
	}
	if x.id > y.id && !y.isConst() {
		x, y = y, x
	}
	return c.mk(OEq, 0, 0, "", x, y, nil)
}

func (c *Ctx) Ite(g, x, y *Term) *Term {
	if g.isTrue() {
		return x
	}
	if g.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.w != y.w {
		panic("Ite width")
	}
	if x.w == 0 {
		if x.isTrue() && y.isFalse() {
			return g
		}
		if x.isFalse() && y.isTrue() {
			return c.Not(g)
		}
		if x.isConst() || y.isConst() {
			return c.Or(c.And(g, x), c.And(c.Not(g), y))
		}
	}
	if g.op == ONot {
		return c.Ite(g.a, y, x)
	}
	if x.w >= 32 && !(x.isConst() && y.isConst()) {
		if a, b := c.core(x), c.core(y); a != nil && b != nil && a.w < x.w && b.w < x.w {
			m := max(a.w, b.w)
			return c.SExt(c.Ite(g, c.SExt(a, m), c.SExt(b, m)), x.w)
		}
	}
	return c.mk(OIte, x.w, 0, "", g, x, y)
}

func evalOp(op Op, w uint8, x, y uint64, val uint64, aw, bw uint8) uint64 {
	m := mask(w)
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OBNot:
		return ^x & m
	case ONeg:
		return -x & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OULt:
		return b2(x < y)
	case OULe:
		return b2(x <= y)
	case OSLt:
		return b2(sx(x, aw) < sx(y, aw))
	case OSLe:
		return b2(sx(x, aw) <= sx(y, aw))
	case OZExt:
		return x
	case OSExt:
		return uint64(sx(x, aw)) & m
	case OExtract:
		return x >> val & m
	case OConcat:
		return (x<<bw | y) & m
	case OEq:
		return b2(x == y)
	case OSMean:
		a, b := sx(x, w), sx(y, w)
		return uint64(a&b+(a^b)>>1) & m
	case OUMean:
		return (x&y + (x^y)>>1) & m
	case OFAdd, OFSub, OFMul, OFDiv:
		if w == 32 {
			a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
			return fbits(float64(map[Op]func() float32{OFAdd: func() float32 { return a + b }, OFSub: func() float32 { return a - b },
				OFMul: func() float32 { return a * b }, OFDiv: func() float32 { return a / b }}[op]()), 32)
		}
		a, b := math.Float64frombits(x), math.Float64frombits(y)
		switch op {
		case OFAdd:
			a += b
		case OFSub:
			a -= b
		case OFMul:
			a *= b
		default:
			a /= b
		}
		return fbits(a, 64)
	case OFCvt:
		return fbits(fval(x, aw), w)
	case OFromS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(x, aw))))
		}
		return fbits(float64(sx(x, aw)), w)
	case OFromU:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return fbits(float64(x), w)
	case OFToS:
		f := fval(x, aw)
		if lim := math.Ldexp(1, int(w)-1); !(f > -lim-1 && f < lim) {
			return 1 << (w - 1)
		}
		return uint64(int64(f)) & m
	}
	panic("evalOp")
}

func fval(x uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(x)))
	}
	return math.Float64frombits(x)
}

func fbits(f float64, w uint8) uint64 {
	if w == 32 {
		if f != f {
			return 0x7fc00000
		}
		return uint64(math.Float32bits(float32(f)))
	}
	if f != f {
		return 0x7ff8000000000000
	}
	return math.Float64bits(f)
}

// Fop builds a floating-point operation.
func (c *Ctx) Fop(op Op, w uint8, x, y *Term) *Term {
	if x.isConst() && (y == nil || y.isConst()) {
		var v uint64
		if y != nil {
			v = y.val
		}
		return c.Const(evalOp(op, w, x.val, v, 0, x.w, w), w)
	}
	return c.mk(op, w, 0, "", x, y, nil)
}

// Bin builds a binary bit-vector operation (result width w, 0 for predicates).
func (c *Ctx) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Bin %s width %d %d", opName[op], x.w, y.w))
	}
	w := x.w
	rw := w
	if op >= OULt && op <= OSLe {
		rw = 0
	}
	if x.isConst() && y.isConst() {
		v := evalOp(op, w, x.val, y.val, 0, w, w)
		if rw == 0 {
			return c.Bool(v != 0)
		}
		return c.Const(v, w)
	}
	if r := c.narrowBin(op, x, y); r != nil {
		return r
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor, OSMean, OUMean:
		if x.isConst() || (!y.isConst() && x.id > y.id) {
			x, y = y, x
		}
	}
	switch op {
	case OAdd:
		if y.isConst() {
			if y.val == 0 {
				return x
			}
			if x.op == OAdd && x.b.isConst() {
				return c.Bin(OAdd, x.a, c.Const(x.b.val+y.val, w))
			}
		}
		if x.op == OSub && x.b == y { // (a-y)+y
			return x.a
		}
		if y.op == OSub && y.b == x {
			return y.a
		}
	case OSub:
		if x == y {
			return c.Const(0, w)
		}
		if y.isConst() {
			return c.Bin(OAdd, x, c.Const(-y.val, w))
		}
		if x.op == OAdd {
			if x.a == y {
				return x.b
			}
			if x.b == y {
				return x.a
			}
		}
	case OMul:
		if y.isConst() {
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
			if y.val&(y.val-1) == 0 {
				return c.Bin(OShl, x, c.Const(uint64(bits.TrailingZeros64(y.val)), w))
			}
		}
	case OBAnd:
		if x == y {
			return x
		}
		if y.isConst() {
			if y.val == 0 {
				return y
			}
			if y.val == mask(w) {
				return x
			}
		}
	case OBOr:
		if x == y {
			return x
		}
		if y.isConst() {
			if y.val == 0 {
				return x
			}
			if y.val == mask(w) {
				return y
			}
		}
	case OBXor:
		if x == y {
			return c.Const(0, w)
		}
		if y.isConst() && y.val == 0 {
			return x
		}
		// (a^b)^b = a : keeps xor swaps readable
		if x.op == OBXor {
			if x.a == y {
				return x.b
			}
			if x.b == y {
				return x.a
			}
		}
		if y.op == OBXor {
			if y.a == x {
				return y.b
			}
			if y.b == x {
				return y.a
			}
		}
	case OShl, OLShr, OAShr:
		if y.isConst() {
			if y.val == 0 {
				return x
			}
			if y.val >= uint64(w) && op != OAShr {
				return c.Const(0, w)
			}
			if op == OLShr && x.op == OLShr && x.b.isConst() {
				return c.Bin(OLShr, x.a, c.Const(x.b.val+y.val, w))
			}
		}
	case OUDiv:
		if y.isConst() && y.val != 0 && y.val&(y.val-1) == 0 {
			return c.Bin(OLShr, x, c.Const(uint64(bits.TrailingZeros64(y.val)), w))
		}
	case OURem:
		if y.isConst() && y.val != 0 && y.val&(y.val-1) == 0 {
			return c.Bin(OBAnd, x, c.Const(y.val-1, w))
		}
	case OULt:
		if x == y {
			return c.False
		}
		if y.isConst() && y.val == 0 || x.isConst() && x.val == mask(w) {
			return c.False
		}
		if x.op == OZExt && y.isConst() && y.val > mask(x.a.w) {
			return c.True
		}
	case OULe:
		if x == y {
			return c.True
		}
		if x.isConst() && x.val == 0 || y.isConst() && y.val == mask(w) {
			return c.True
		}
		if x.op == OZExt && y.isConst() && y.val >= mask(x.a.w) {
			return c.True
		}
	case OSLt:
		if x == y {
			return c.False
		}
		if x.op == OSExt && y.op == OSExt && x.a.w == y.a.w {
			return c.Bin(OSLt, x.a, y.a)
		}
		if x.op == OZExt && y.isConst() {
			v := sx(y.val, w)
			if v > int64(mask(x.a.w)) {
				return c.True
			} else if v <= 0 {
				return c.False
			}
		}
	case OSLe:
		if x == y {
			return c.True
		}
		if x.op == OSExt && y.op == OSExt && x.a.w == y.a.w {
			return c.Bin(OSLe, x.a, y.a)
		}
		if x.isConst() && sx(x.val, w) <= 0 && y.op == OZExt {
			return c.True
		}
	}
	return c.mk(op, rw, 0, "", x, y, nil)
}

func (c *Ctx) BNot(x *Term) *Term {
	if x.isConst() {
		return c.Const(^x.val, x.w)
	}
	return c.mk(OBNot, x.w, 0, "", x, nil, nil)
}
func (c *Ctx) Neg(x *Term) *Term {
	if x.isConst() {
		return c.Const(-x.val, x.w)
	}
	return c.mk(ONeg, x.w, 0, "", x, nil, nil)
}
func (c *Ctx) ZExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return c.Const(x.val, w)
	}
	if x.op == OZExt {
		x = x.a
	}
	if lo, _ := x.iv(); lo >= 0 {
		return c.SExt(x, w)
	}
	return c.mk(OZExt, w, 0, "", x, nil, nil)
}
func (c *Ctx) SExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return c.Const(uint64(sx(x.val, x.w)), w)
	}
	if x.op == OSExt {
		x = x.a
	} else if x.op == OZExt {
		return c.ZExt(x.a, w)
	}
	return c.mk(OSExt, w, 0, "", x, nil, nil)
}
func (c *Ctx) Extract(x *Term, lo, w uint8) *Term {
	if lo == 0 && x.w == w {
		return x
	}
	if x.isConst() {
		return c.Const(x.val>>lo, w)
	}
	if lo == 0 && x.w <= 64 && (x.op == OAdd || x.op == OSub) && w <= 32 && x.a.w == x.w && x.w < 32 {
		// low bits of a sum
		return c.Bin(x.op, c.Extract(x.a, 0, w), c.Extract(x.b, 0, w))
	}
	if (x.op == OZExt || x.op == OSExt) && lo+w <= x.a.w {
		return c.Extract(x.a, lo, w)
	}
	if x.op == OZExt && lo == 0 && w > x.a.w {
		return c.ZExt(x.a, w)
	}
	if x.op == OSExt && lo == 0 && w > x.a.w {
		return c.SExt(x.a, w)
	}
	return c.mk(OExtract, w, uint64(lo), "", x, nil, nil)
}
func (c *Ctx) Concat(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return c.Const(x.val<<y.w|y.val, x.w+y.w)
	}
	return c.mk(OConcat, x.w+y.w, 0, "", x, y, nil)
}
func (c *Ctx) ULt(x, y *Term) *Term { return c.Bin(OULt, x, y) }
func (c *Ctx) ULe(x, y *Term) *Term { return c.Bin(OULe, x, y) }
func (c *Ctx) SLt(x, y *Term) *Term { return c.Bin(OSLt, x, y) }
func (c *Ctx) SLe(x, y *Term) *Term { return c.Bin(OSLe, x, y) }
func (c *Ctx) Add(x, y *Term) *Term { return c.Bin(OAdd, x, y) }
func (c *Ctx) Sub(x, y *Term) *Term { return c.Bin(OSub, x, y) }

// Eval evaluates t under the current model (unassigned variables are 0).
func (c *Ctx) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.ever == c.ver {
		return t.eval
	}
	var v uint64
	switch t.op {
	case OVar:
		v = c.model[t]
	case ONot:
		v = 1 - c.Eval(t.a)
	case OAnd:
		v = c.Eval(t.a) & c.Eval(t.b)
	case OOr:
		v = c.Eval(t.a) | c.Eval(t.b)
	case OIte:
		if c.Eval(t.a) != 0 {
			v = c.Eval(t.b)
		} else {
			v = c.Eval(t.c)
		}
	case OBNot, ONeg, OZExt, OSExt, OExtract, OFCvt, OFromS, OFromU, OFToS:
		v = evalOp(t.op, t.w, c.Eval(t.a), 0, t.val, t.a.w, 0)
	default:
		v = evalOp(t.op, t.w, c.Eval(t.a), c.Eval(t.b), t.val, t.a.w, t.b.w)
	}
	t.ever, t.eval = c.ver, v
	return v
}

func (c *Ctx) SetModel(m map[*Term]uint64) {
	c.ver++
	c.model = m
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprint(sx(t.val, t.w))
	case OVar:
		return t.name
	}
	var sb strings.Builder
	sb.WriteString("(" + opName[t.op])
	if t.op == OExtract {
		fmt.Fprintf(&sb, "[%d+%d]", t.val, t.w)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.String())
		}
	}
	sb.WriteString(")")
	return sb.String()
}
