package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one harness with concrete parameters; the engine explores all of its paths.
type Job struct {
	Harness string
	Params  map[string]int
	P       *Program
	Steps   int    // step limit per path
	Replay  string // how counterexamples are confirmed: "native" or "public"
	Family  string
	Bound   string // human-readable bound
	MaxPath int    // stop after so many paths (reported as incomplete)

	bigWrite bool
	mu       sync.Mutex
	viols    []*Viol
	samples  []*Sample
	nsamp    int
	stop     bool
	retry    bool // integer mode does not suffice
	unk      int
	chain    []chainLink // open runs: the goroutine (see open.go)
	pre      []Event
	root     *gNode
	onodes   map[string]*gNode
	st       *Stats
	open     int
}

func (j *Job) maxSteps() int {
	if j.Steps > 0 {
		return j.Steps
	}
	return 400000
}

func (j *Job) Name() string {
	s := j.Harness
	var ks []string
	for k := range j.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%d", k, j.Params[k])
	}
	if j.P != nil && j.P.tags != "" {
		s += " tags=" + j.P.tags
	}
	if j.P != nil && j.P.goarch != "amd64" {
		s += " goarch=" + j.P.goarch
	}
	return s
}

// Viol is a counterexample candidate: concrete values for every symbolic input.
type Viol struct {
	Prop      string         `json:"property"`
	Msg       string         `json:"message"`
	Harness   string         `json:"harness"`
	Params    map[string]int `json:"params"`
	Inputs    []Input        `json:"inputs"`
	Notes     []string       `json:"notes,omitempty"`
	Tags      string         `json:"tags,omitempty"`
	Goarch    string         `json:"goarch,omitempty"`
	Confirmed string         `json:"confirmed,omitempty"`
	job       *Job
	rank      int
}

type Stats struct {
	mu          sync.Mutex
	Paths       int
	Decisions   int
	Steps       int
	Obligations int
	Trivial     int
	Discharged  int
	Queries     int
	Sat         int
	Unsat       int
	Unknown     int
	Infeasible  int
	Cut         int
	RaceChecks  int
	SolverTime  time.Duration
	MaxQuery    time.Duration
	Unsup       map[string]int
	Notes       map[string]int
	Fns         map[string]int
	Stubs       map[string]int
	Reach       map[string]int
	Panics      map[string]int
	Incomplete  bool
	Wall        time.Duration
}

func NewStats() *Stats {
	return &Stats{Unsup: map[string]int{}, Notes: map[string]int{}, Fns: map[string]int{}, Stubs: map[string]int{},
		Reach: map[string]int{}, Panics: map[string]int{}}
}
func (s *Stats) note(x string)  { s.Notes[x]++ }
func (s *Stats) fn(x string)    { s.Fns[x]++ }
func (s *Stats) stub(x string)  { s.Stubs[x]++ }
func (s *Stats) reach(x string) { s.Reach[x]++ }

func (s *Stats) merge(o *Stats) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Paths += o.Paths
	s.Decisions += o.Decisions
	s.Steps += o.Steps
	s.Obligations += o.Obligations
	s.Trivial += o.Trivial
	s.Discharged += o.Discharged
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Infeasible += o.Infeasible
	s.Cut += o.Cut
	s.RaceChecks += o.RaceChecks
	s.SolverTime += o.SolverTime
	if o.MaxQuery > s.MaxQuery {
		s.MaxQuery = o.MaxQuery
	}
	s.Incomplete = s.Incomplete || o.Incomplete
	for _, p := range [][2]map[string]int{{s.Unsup, o.Unsup}, {s.Notes, o.Notes}, {s.Fns, o.Fns}, {s.Stubs, o.Stubs}, {s.Reach, o.Reach}, {s.Panics, o.Panics}} {
		for k, v := range p[1] {
			p[0][k] += v
		}
	}
}

type task struct {
	job    *Job
	prefix []Event
}

// Pool explores jobs on several workers; busy workers hand open branches to idle ones.
type Pool struct {
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []task
	idle     int
	workers  int
	active   map[string]bool
	deadline time.Time
	total    *Stats
	verbose  bool
	closed   bool
}

func RunJobs(jobs []*Job, active map[string]bool, workers int, deadline time.Time, verbose bool) *Stats {
	p := &Pool{workers: workers, active: active, deadline: deadline, total: NewStats(), verbose: verbose}
	p.cond = sync.NewCond(&p.mu)
	for _, j := range jobs {
		j.st = NewStats()
		j.open = 1
		p.queue = append(p.queue, task{j, j.pre})
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); p.worker() }()
	}
	wg.Wait()
	return p.total
}

func (p *Pool) worker() {
	for {
		p.mu.Lock()
		p.idle++
		for len(p.queue) == 0 {
			if p.idle == p.workers || p.closed {
				p.closed = true
				p.cond.Broadcast()
				p.mu.Unlock()
				return
			}
			p.cond.Wait()
		}
		t := p.queue[0]
		p.queue = p.queue[1:]
		p.idle--
		p.mu.Unlock()
		p.explore(t)
	}
}

func (p *Pool) wantWork() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.idle > 0 && len(p.queue) < p.idle
}

func (p *Pool) push(t task) {
	p.mu.Lock()
	t.job.mu.Lock()
	t.job.open++
	t.job.mu.Unlock()
	p.queue = append(p.queue, t)
	p.cond.Signal()
	p.mu.Unlock()
}

func (p *Pool) explore(t task) {
	j := t.job
	st := NewStats()
	t0 := time.Now()
	e := &Exec{P: j.P, c: NewCtx(), W: j.P.W, job: j, infos: map[*ssa.Function]*fnInfo{}, active: p.active, St: st}
	ints := j.Params["ints"] == 1
	e.s = NewSolver(pick(ints, 5000, 20000))
	e.onViol = func(v *Viol) {
		v.Tags, v.Goarch = j.P.tags, j.P.goarch
		j.mu.Lock()
		n := 0
		for _, w := range j.viols {
			if w.Prop == v.Prop {
				n++
			}
		}
		if n < 4 {
			j.viols = append(j.viols, v)
		}
		if n >= 3 {
			j.stop = true
		}
		j.mu.Unlock()
	}
	defer func() {
		if r := recover(); r != nil {
			st.note(fmt.Sprint("engine failure: ", r))
			st.Incomplete = true
			if os.Getenv("VDEBUG") != "" {
				fmt.Fprintln(os.Stderr, r)
				debug.PrintStack()
			}
		}
		st.Queries, st.Sat, st.Unsat = e.s.Queries, e.s.NSat, e.s.NUnsat
		st.SolverTime, st.MaxQuery = e.s.Time, e.s.MaxTime
		st.Wall = time.Since(t0)
		e.s.Close()
		j.st.merge(st)
		p.total.merge(st)
		j.mu.Lock()
		j.st.Wall += st.Wall
		j.open--
		done := j.open == 0
		j.mu.Unlock()
		if done && p.verbose {
			fmt.Printf("  %-50s %s\n", j.Name(), j.st.line())
		}
	}()
	for i := range t.prefix {
		ev := t.prefix[i]
		e.events = append(e.events, &ev)
	}
	e.asserting = len(t.prefix) > 0
	for {
		if j.stop {
			return
		}
		if time.Now().After(p.deadline) {
			st.Incomplete = true
			st.note("time budget")
			return
		}
		unk, uns := st.Unknown, len(st.Unsup)
		e.runPath()
		if ints && (st.Unknown > unk || len(st.Unsup) > uns) { // see RunJobs
			j.mu.Lock()
			j.unk += st.Unknown - unk
			j.retry = true
			j.stop = j.stop || j.unk > 1 || len(st.Unsup) > 0
			j.mu.Unlock()
			st.Incomplete = true
			if j.stop {
				return
			}
		}
		if j.MaxPath > 0 && j.st.Paths+st.Paths >= j.MaxPath {
			st.Incomplete = true
			st.note("path budget")
			return
		}
		if len(st.Unsup) > 20 {
			st.Incomplete = true
			return
		}
		if j.chain == nil && p.wantWork() {
			for i, ev := range e.events {
				if ev.pending {
					var pre []Event
					for k := 0; k <= i; k++ {
						x := *e.events[k]
						x.cond, x.pending = nil, false
						if k == i {
							x.side = !x.side
						}
						pre = append(pre, x)
					}
					ev.pending = false
					p.push(task{j, pre})
					break
				}
			}
		}
		if !e.backtrack() {
			return
		}
	}
}

// backtrack moves to the next unexplored feasible branch.
func (e *Exec) backtrack() bool {
	e.asserting = false
	for len(e.events) > 0 {
		n := len(e.events)
		ev := e.events[n-1]
		if n <= e.s.depth {
			e.s.Pop(e.s.depth - n + 1)
		}
		if !ev.pending {
			e.events = e.events[:n-1]
			continue
		}
		ev.side, ev.pending = !ev.side, false
		e.s.Push()
		if ev.free {
			return true
		}
		e.s.Assert(e.lit(ev.cond, ev.side))
		o := newOrder()
		for _, x := range e.events[:n-1] {
			e.ordAdd(o, e.lit(x.cond, x.side), false)
		}
		e.ordAdd(o, e.lit(ev.cond, ev.side), true)
		switch e.s.Check() {
		case "sat":
			e.c.SetModel(e.s.Values(e.vars))
			return true
		case "unsat":
			e.St.Infeasible++
		default:
			e.St.Unknown++
			e.St.note("solver timeout on a branch")
		}
		e.s.Pop(1)
		e.events = e.events[:n-1]
	}
	return false
}

func (e *Exec) runPath() {
	e.pos, e.steps, e.nobj, e.nchan, e.ngo, e.strN = 0, 0, 0, 0, 0, 0
	e.facts = map[*Term]bool{}
	e.ord = newOrder()
	e.known = map[*Term]*Term{}
	e.vars, e.inputs, e.obls = e.vars[:0:0], nil, nil
	e.ths, e.cur = nil, nil
	e.globs = map[*ssa.Global]*Obj{}
	e.stubs = map[*ssa.Function]*Closure{}
	e.tails, e.merge, e.intMode, e.lenMode = nil, false, false, false
	e.vol = map[*Obj]bool{}
	e.kv = map[string]Value{}
	e.fk = map[*Term]*Term{}
	e.sched, e.after, e.maxVisit = 0, false, 0
	e.pathNote, e.outs, e.open = nil, nil, nil
	defer func() {
		why := "done"
		e.St.Paths++
		e.St.Steps += e.steps
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				why = x.why
				e.St.Panics[x.why]++
				if x.why != "infeasible" && x.why != "solver timeout" {
					e.flushObls()
				}
				if x.why == "infeasible" {
					e.St.Paths--
				}
			case unsup:
				why = "infeasible"
				e.St.Unsup[x.msg]++
				e.St.Incomplete = true
				e.obls = nil
			case smtErr:
				e.St.note("solver failure: " + x.msg)
				e.St.Incomplete = true
				panic(r)
			default:
				panic(r)
			}
			// events beyond pos belong to an aborted replay
			if e.pos < len(e.events) && !e.asserting {
				// path ended before its prefix was consumed: cannot happen for a deterministic run
				e.St.note("short replay")
			}
		}
		if e.open.live() {
			e.ofinish(why)
		}
	}()
	if os.Getenv("VTRACE") != "" {
		fmt.Fprintln(os.Stderr, "path", e.St.Paths, "events", len(e.events))
	}
	h := e.P.sorty.Func(e.job.Harness)
	if h == nil {
		e.unsup("no harness %s", e.job.Harness)
	}
	e.noInit = true
	th := e.newThread("init")
	e.main, e.cur = th, th
	e.call(th, &Closure{fn: e.P.sorty.Func("init")}, nil, -1)
	e.runAll()
	e.noInit = false
	e.steps = 0
	e.ths = nil
	th = e.newThread("main")
	e.main, e.cur = th, th
	e.call(th, &Closure{fn: h}, nil, -1)
	e.runAll()
	e.flushObls()
	if e.main.done {
		e.sample()
	}
}

func (s *Stats) line() string {
	x := fmt.Sprintf("paths=%d dec=%d obl=%d/%d q=%d(%.1fs) unk=%d cut=%d wall=%.1fs", s.Paths, s.Decisions, s.Obligations, s.Trivial,
		s.Queries, s.SolverTime.Seconds(), s.Unknown, s.Cut, s.Wall.Seconds())
	if s.Incomplete {
		x += " INCOMPLETE"
	}
	for k, v := range s.Unsup {
		x += fmt.Sprintf(" unsup[%s]=%d", k, v)
	}
	for k, v := range s.Notes {
		x += fmt.Sprintf(" note[%s]=%d", k, v)
	}
	for k, v := range s.Panics {
		x += fmt.Sprintf(" end[%s]=%d", k, v)
	}
	for k, v := range s.Reach {
		x += fmt.Sprintf(" reach[%s]=%d", k, v)
	}
	return x
}
