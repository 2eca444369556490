package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental SMT process (z3 -in) with push/pop.
type Solver struct {
	bin     []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	gen     int // generation, so that terms emitted to a dead process are re-emitted
	depth   int
	buf     strings.Builder
	defs    int
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	MaxTime time.Duration
	logf    *os.File
	timeout int // ms per query
}

var genCounter int

type smtErr struct{ msg string }

func NewSolver(timeoutMs int) *Solver {
	s := &Solver{timeout: timeoutMs}
	s.start()
	return s
}

var z3bin = "z3"

func (s *Solver) start() {
	s.bin = []string{z3bin, "-in", "-smt2"}
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	inp, err := s.cmd.StdinPipe()
	if err != nil {
		panic(smtErr{err.Error()})
	}
	outp, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(smtErr{err.Error()})
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(smtErr{err.Error()})
	}
	s.inc = inp
	s.in = bufio.NewWriterSize(inp, 1<<16)
	s.out = bufio.NewReaderSize(outp, 1<<16)
	s.mu()
	s.depth = 0
	s.defs = 0
	s.buf.Reset()
	s.put("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.put(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	if s.logf == nil && os.Getenv("VSMTLOG") != "" {
		s.logf, _ = os.Create(os.Getenv("VSMTLOG") + fmt.Sprint(s.gen))
	}
}

var genLock = make(chan struct{}, 1)

func (s *Solver) mu() {
	genLock <- struct{}{}
	genCounter++
	s.gen = genCounter
	<-genLock
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Reset drops everything asserted and defined.
func (s *Solver) Reset() {
	if s.defs > 200000 {
		s.Close()
		s.start()
		return
	}
	if s.depth > 0 {
		s.Pop(s.depth)
	}
}

func (s *Solver) put(x string) { s.buf.WriteString(x) }

func (s *Solver) flush() {
	if s.logf != nil {
		s.logf.WriteString(s.buf.String())
	}
	if _, err := s.in.WriteString(s.buf.String()); err != nil {
		panic(smtErr{err.Error()})
	}
	s.buf.Reset()
	if err := s.in.Flush(); err != nil {
		panic(smtErr{err.Error()})
	}
}

func (s *Solver) Push() { s.put("(push 1)\n"); s.depth++ }
func (s *Solver) Pop(n int) {
	if n > 0 {
		s.put("(pop " + strconv.Itoa(n) + ")\n")
		s.depth -= n
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OVar:
		if !t.isint && !t.isnat {
			return "|" + t.name + "|"
		}
	}
	return "t" + strconv.Itoa(t.id)
}

// define emits the definitions t needs.
func (s *Solver) define(t *Term) {
	if t.emitted == s.gen || t.op == OConst {
		return
	}
	t.emitted = s.gen
	if t.isint || t.isnat {
		s.defineI(t)
		s.defs++
		s.put(fmt.Sprintf("(define-fun t%d () %s ((_ int2bv %d) %s))\n", t.id, sortOf(t.w), t.w, s.refI(t)))
		return
	}
	if (t.op == OEq || t.op == OULe || t.op == OULt) && (t.a.isnat || t.b.isnat) && (t.a.isnat || t.a.isConst()) && (t.b.isnat || t.b.isConst()) {
		s.defineI(t.a)
		s.defineI(t.b)
		s.defs++
		o := map[Op]string{OEq: "=", OULe: "<=", OULt: "<"}[t.op]
		s.put(fmt.Sprintf("(define-fun t%d () Bool (%s %s %s))\n", t.id, o, s.refN(t.a), s.refN(t.b)))
		return
	}
	if (t.op == OEq || t.op == OSLe || t.op == OSLt || t.op == OULe || t.op == OULt) && (t.a.isint || t.b.isint) && (t.a.isint || t.a.isConst()) && (t.b.isint || t.b.isConst()) {
		s.defineI(t.a)
		s.defineI(t.b)
		s.defs++
		if t.op == OULe || t.op == OULt { // unsigned order of sign-extended values
			o := map[Op]string{OULe: "<=", OULt: "<"}[t.op]
			a, b := s.refI(t.a), s.refI(t.b)
			s.put(fmt.Sprintf("(define-fun t%d () Bool (ite (< %s 0) (and (< %s 0) (%s %s %s)) (or (< %s 0) (%s %s %s))))\n", t.id, a, b, o, a, b, b, o, a, b))
			return
		}
		o := map[Op]string{OEq: "=", OSLe: "<=", OSLt: "<"}[t.op]
		s.put(fmt.Sprintf("(define-fun t%d () Bool (%s %s %s))\n", t.id, o, s.refI(t.a), s.refI(t.b)))
		return
	}
	if t.op == OVar {
		s.put("(declare-const |" + t.name + "| " + sortOf(t.w) + ")\n")
		s.defs++
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}
	s.defs++
	var e string
	switch t.op {
	case OZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, s.ref(t.a))
	case OSMean, OUMean:
		sh := "bvashr"
		if t.op == OUMean {
			sh = "bvlshr"
		}
		a, b := s.ref(t.a), s.ref(t.b)
		e = fmt.Sprintf("(bvadd (bvand %s %s) (%s (bvxor %s %s) (_ bv1 %d)))", a, b, sh, a, b, t.w)
	case OFAdd, OFSub, OFMul, OFDiv, OFCvt, OFromS, OFromU:
		srt := map[uint8]string{32: "8 24", 64: "11 53"}
		fp := func(x *Term) string { return "((_ to_fp " + srt[x.w] + ") " + s.ref(x) + ")" }
		var r string
		switch t.op {
		case OFCvt:
			r = "((_ to_fp " + srt[t.w] + ") RNE " + fp(t.a) + ")"
		case OFromS:
			r = "((_ to_fp " + srt[t.w] + ") RNE " + s.ref(t.a) + ")"
		case OFromU:
			r = "((_ to_fp_unsigned " + srt[t.w] + ") RNE " + s.ref(t.a) + ")"
		default:
			r = "(" + opName[t.op] + " RNE " + fp(t.a) + " " + fp(t.b) + ")"
		}
		e = fmt.Sprintf("(let ((r %s)) (ite (fp.isNaN r) (_ bv%d %d) (fp.to_ieee_bv r)))", r, map[uint8]uint64{32: 0x7fc00000, 64: 0x7ff8000000000000}[t.w], t.w)
	case OFToS:
		srt := map[uint8]string{32: "8 24", 64: "11 53"}[t.a.w]
		x := "((_ to_fp " + srt + ") " + s.ref(t.a) + ")"
		lim := fmt.Sprintf("((_ to_fp %s) RNE (_ bv%d %d))", srt, uint64(1)<<(t.w-1), t.w) // -2^(w-1)
		e = fmt.Sprintf("(let ((x %s)) (ite (and (fp.lt x (fp.neg %s)) (fp.geq x %s)) ((_ fp.to_sbv %d) RTZ x) (_ bv%d %d)))", x, lim, lim, t.w, uint64(1)<<(t.w-1), t.w)
	default:
		e = "(" + opName[t.op] + " " + s.ref(t.a)
		if t.b != nil {
			e += " " + s.ref(t.b)
		}
		if t.c != nil {
			e += " " + s.ref(t.c)
		}
		e += ")"
	}
	s.put("(define-fun t" + strconv.Itoa(t.id) + " () " + sortOf(t.w) + " " + e + ")\n")
}

func (s *Solver) refI(t *Term) string {
	switch t.op {
	case OConst:
		v := sx(t.val, t.w)
		if v < 0 {
			return fmt.Sprintf("(- %d)", uint64(-v))
		}
		return strconv.FormatInt(v, 10)
	case OVar:
		return "|" + t.name + "|"
	}
	return "i" + strconv.Itoa(t.id)
}

// refN is refI for unsigned values.
func (s *Solver) refN(t *Term) string {
	if t.op == OConst {
		return strconv.FormatUint(t.val, 10)
	}
	return s.refI(t)
}

// defineI emits the integer form of t.
func (s *Solver) defineI(t *Term) {
	if t.emitI == s.gen || t.op == OConst {
		return
	}
	t.emitI = s.gen
	s.defs++
	if t.op == OVar {
		s.put("(declare-const |" + t.name + "| Int)\n")
		return
	}
	var e string
	if t.op == OIte {
		s.define(t.a)
		s.defineI(t.b)
		s.defineI(t.c)
		e = "(ite " + s.ref(t.a) + " " + s.refI(t.b) + " " + s.refI(t.c) + ")"
	} else {
		s.defineI(t.a)
		if t.b != nil {
			s.defineI(t.b)
		}
		a := s.refI(t.a)
		switch t.op {
		case OSMean:
			e = "(div (+ " + a + " " + s.refI(t.b) + ") 2)"
		case OUMean:
			e = "(div (+ " + s.refN(t.a) + " " + s.refN(t.b) + ") 2)"
		case OSExt:
			e = a
		case OAdd:
			e = "(+ " + a + " " + s.refI(t.b) + ")"
		case OSub:
			e = "(- " + a + " " + s.refI(t.b) + ")"
		case OMul:
			e = "(* " + a + " " + s.refI(t.b) + ")"
		case OShl:
			e = fmt.Sprintf("(* %s %d)", a, int64(1)<<t.b.val)
		case OAShr:
			e = fmt.Sprintf("(div %s %d)", a, int64(1)<<t.b.val)
		case OBAnd:
			e = fmt.Sprintf("(mod %s %d)", a, t.b.val+1)
		default:
			panic("defineI")
		}
	}
	s.put("(define-fun i" + strconv.Itoa(t.id) + " () Int " + e + ")\n")
}

func (s *Solver) Assert(t *Term) {
	s.define(t)
	s.put("(assert " + s.ref(t) + ")\n")
}

// Check returns "sat", "unsat" or "unknown".
func (s *Solver) Check() string {
	t0 := time.Now()
	s.put("(check-sat)\n")
	s.flush()
	r := s.line()
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	s.Queries++
	switch r {
	case "sat":
		s.NSat++
	case "unsat":
		s.NUnsat++
	default:
		s.NUnk++
		if r != "unknown" && r != "timeout" {
			panic(smtErr{"solver said: " + r})
		}
		r = "unknown"
	}
	return r
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(smtErr{"solver died: " + err.Error()})
	}
	return strings.TrimSpace(l)
}

// Values reads the model values of vars (those known to the solver).
func (s *Solver) Values(vars []*Term) map[*Term]uint64 {
	m := map[*Term]uint64{}
	var q []*Term
	for _, v := range vars {
		if v.emitted == s.gen || v.emitI == s.gen {
			q = append(q, v)
		}
	}
	if len(q) == 0 {
		return m
	}
	s.put("(get-value (")
	for _, v := range q {
		s.put("|" + v.name + "| ")
	}
	s.put("))\n")
	s.flush()
	// read balanced parens
	depth, n := 0, 0
	inBar := false
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic(smtErr{"solver died: " + err.Error()})
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			n++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		panic(smtErr{txt})
	}
	i := 0
	for _, v := range q {
		name := "|" + v.name + "|"
		k := strings.Index(txt[i:], "("+name+" ")
		if k < 0 {
			k = strings.Index(txt[i:], "("+strings.Trim(name, "|")+" ")
			if k < 0 {
				panic(smtErr{"bad model " + txt})
			}
			name = strings.Trim(name, "|")
		}
		i += k + len(name) + 2
		e := strings.IndexByte(txt[i:], ')')
		val := txt[i : i+e]
		if v.isint || v.isnat {
			neg := strings.HasPrefix(val, "(-")
			n, err := strconv.ParseUint(strings.TrimLeft(val, "(- "), 10, 64)
			if err != nil {
				panic(smtErr{"bad integer " + val})
			}
			if neg {
				n = -n
			}
			m[v] = n & mask(v.w)
			i += e
			continue
		}
		i += e
		switch {
		case val == "true":
			m[v] = 1
		case val == "false":
			m[v] = 0
		case strings.HasPrefix(val, "#x"):
			u, err := strconv.ParseUint(val[2:], 16, 64)
			if err != nil {
				panic(smtErr{val})
			}
			m[v] = u
		case strings.HasPrefix(val, "#b"):
			u, err := strconv.ParseUint(val[2:], 2, 64)
			if err != nil {
				panic(smtErr{val})
			}
			m[v] = u
		default:
			panic(smtErr{"bad value " + val})
		}
	}
	return m
}
