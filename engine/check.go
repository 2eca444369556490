package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// prog names a build of /repo: GOARCH and build tags.
type progKey struct{ goarch, tags string }

var (
	p64   = progKey{"amd64", ""}
	p64t  = progKey{"amd64", "tuneparam"}
	p32   = progKey{"386", ""}
	progs = map[progKey]*Program{}
)

type spec struct {
	key   progKey
	h     string
	par   map[string]int
	bound string
	max   int
}

// Report of one check.
type report struct {
	prop, tier string
	seed       int
	t0         time.Time
	jobs       []*Job
	st         *Stats
	confirmed  []*Viol
	known      []string
	unconf     []*Viol
	notes      []string
	validated  int
	mismatch   []string
	samples    []any
	extra      map[string]any
	loadErr    []string
	extraViol  []*Viol
}

func verifDir() string {
	d, err := os.Executable()
	if err != nil {
		return "/verif"
	}
	return filepath.Dir(filepath.Dir(d))
}

func runCheck(prop, tier string) int {
	r := &report{prop: prop, tier: tier, t0: time.Now(), extra: map[string]any{}, st: NewStats()}
	r.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	ps := props[prop]
	if ps == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	specs := ps.jobs(tier == "thorough")
	keys := map[progKey]bool{}
	for _, s := range specs {
		keys[s.key] = true
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for k := range keys {
		wg.Add(1)
		go func() {
			defer wg.Done()
			P, err := LoadProgram(allHarness(k.tags), k.goarch, k.tags)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				r.loadErr = append(r.loadErr, fmt.Sprintf("%s %s: %v", k.goarch, k.tags, err))
				return
			}
			progs[k] = P
			for f, why := range P.Dropped {
				r.notes = append(r.notes, fmt.Sprintf("harness %s does not apply to this tree (%s): %s", f, k.tags, why))
			}
		}()
	}
	wg.Wait()
	for _, s := range specs {
		if P := progs[s.key]; P != nil {
			if P.sorty.Func(s.h) == nil {
				r.notes = append(r.notes, "no harness "+s.h+" for this tree")
				continue
			}
			r.jobs = append(r.jobs, &Job{Harness: s.h, Params: s.par, P: P, Bound: s.bound, MaxPath: s.max})
		}
	}
	budget := 200 * time.Second
	if tier == "thorough" {
		budget = 40 * time.Minute
	}
	if len(r.jobs) > 0 {
		end := time.Now().Add(budget)
		run := func(js []*Job) {
			RunJobs(js, map[string]bool{prop: true}, runtime.NumCPU(), end, os.Getenv("VDEBUG") != "")
		}
		run(r.jobs)
		r.fallback(run)
	}
	if ps.extra != nil && len(r.loadErr) == 0 {
		ps.extra(r)
	}
	r.confirmAll(ps)
	r.validate()
	return r.finish(ps)
}

// fallback repeats jobs that integer mode cannot do, on bit-vectors and smaller sizes.
func (r *report) fallback(run func([]*Job)) {
	var keep, again []*Job
	seen := map[string]bool{}
	for _, j := range r.jobs {
		if !j.retry || len(j.viols) > 0 {
			keep = append(keep, j)
			continue
		}
		p := map[string]int{}
		for k, v := range j.Params {
			p[k] = v
		}
		p["ints"] = 0
		if _, ok := p["s"]; !ok && p["two"] == 0 && !strings.Contains(j.Harness, "iss") {
			p["n"] = min(p["n"], 5)
		}
		q := &Job{Harness: j.Harness, Params: p, P: j.P, Bound: j.Bound}
		if k := fmt.Sprint(q.Name(), j.P.goarch, j.P.tags); !seen[k] {
			seen[k] = true
			again = append(again, q)
		}
		r.notes = append(r.notes, fmt.Sprintf("%s needs the bits of the values (%v %v): repeated as %s", j.Name(), sortedKeys2(j.st.Unsup), sortedKeys2(j.st.Notes), q.Name()))
	}
	if len(again) > 0 {
		run(again)
	}
	r.jobs = append(keep, again...)
	for _, j := range r.jobs {
		r.st.merge(j.st)
	}
}

func sortedKeys2(m map[string]int) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

// merge equal counterexamples, the most varied first
func (r *report) candidates() []*Viol {
	seen := map[string]int{}
	var out []*Viol
	var all []*Viol
	for _, j := range r.jobs {
		for i, v := range j.viols {
			v.rank = i
			all = append(all, v)
		}
	}
	all = append(all, r.extraViol...)
	sort.SliceStable(all, func(i, k int) bool { return all[i].rank < all[k].rank })
	for _, v := range all {
		k := v.Prop + v.Msg + v.Harness
		if seen[k]++; seen[k] > 2 {
			continue
		}
		out = append(out, v)
	}
	return out
}

func (r *report) confirmAll(ps *propSpec) {
	c := r.candidates()
	if len(c) == 0 {
		return
	}
	limit := time.Now().Add(240 * time.Second)
	// the cheapest first: natively, in the harness that found it
	var rest []*Viol
	for _, v := range c {
		if v.job == nil {
			rest = append(rest, v)
			continue
		}
		nat := r.native(v)
		if nat != "" && nativeSuffices(v) {
			v.Confirmed = nat
			r.confirmed = append(r.confirmed, v)
		} else {
			if nat != "" {
				v.Notes = append(v.Notes, "in isolation: "+nat)
			}
			rest = append(rest, v)
		}
		if len(r.confirmed) >= 2 {
			return
		}
	}
	if len(r.confirmed) > 0 {
		return
	}
	r.confirmPublic(rest, ps, limit)
}

// nativeSuffices tells whether a harness only makes calls that a user can make.
func nativeSuffices(v *Viol) bool {
	for _, p := range []string{"v_pub_", "v_iss_", "v_lpub", "v_liss", "v_search", "v_mm", "v_disp", "v_nan_", "v_own_"} {
		if strings.HasPrefix(v.Harness, p) {
			return true
		}
	}
	return false
}

// native replays a counterexample in its harness; it returns what was observed, or "".
func (r *report) native(v *Viol) string {
	res, to, err := runNative(v.job.P, []*Viol{v}, 1, 20*time.Second)
	if err != nil {
		v.Notes = append(v.Notes, "native build: "+err.Error())
		return ""
	}
	n := res[0]
	for _, f := range n.Fails {
		p, m := splitTag(f)
		for _, q := range p {
			if q == v.Prop {
				return "real code: " + m
			}
		}
	}
	if n.Panic != "" && (v.Prop == "C14" || strings.HasPrefix(v.Msg, "panic")) {
		return "real code panics: " + n.Panic
	}
	if to && (v.Prop == "C14" || v.Prop == "C09" || v.Prop == "C08") {
		return "real code does not return"
	}
	if n.Stop != "" {
		v.Notes = append(v.Notes, "native replay: "+n.Stop)
	}
	return ""
}

// validate replays models of explored paths on the real code: same results, nothing fails.
func (r *report) validate() {
	by := map[*Program][]*Sample{}
	for _, j := range r.jobs {
		for _, s := range j.samples {
			if len(by[j.P]) < 600 {
				by[j.P] = append(by[j.P], s)
			}
		}
		if len(j.samples) > 0 && len(r.samples) < 4 {
			r.samples = append(r.samples, j.samples[len(j.samples)-1])
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for P, ss := range by {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res, to, err := runNative(P, ss, len(ss), 90*time.Second)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				r.notes = append(r.notes, "native build of the harness: "+err.Error())
				return
			}
			if to {
				r.notes = append(r.notes, "native replay of path models timed out")
			}
			for i, n := range res {
				if !n.Ran || n.Stop != "" {
					continue
				}
				same := n.Done && n.Panic == "" && len(n.Outs) == len(ss[i].Outs)
				for k := range n.Outs {
					same = same && k < len(ss[i].Outs) && n.Outs[k] == ss[i].Outs[k]
				}
				if same {
					r.validated++
				} else if len(r.confirmed) == 0 {
					b, _ := json.Marshal(ss[i])
					m := fmt.Sprintf("%s: symbolic %v, real %v panic=%q %s", ss[i].Harness, ss[i].Outs, n.Outs, n.Panic, b)
					if len(r.mismatch) < 5 {
						r.mismatch = append(r.mismatch, m)
					}
				}
			}
		}()
	}
	wg.Wait()
}

type knownFinding struct{ match, what string }

// knownFindings reads the genuine defects that are on record for a property.
func knownFindings(prop string) (l []knownFinding) {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	for _, x := range strings.Split(string(b), "\n") {
		x, ok := strings.CutPrefix(x, "known: property="+prop+" match=")
		if m, w, ok2 := strings.Cut(x, " "); ok && ok2 {
			l = append(l, knownFinding{m, w})
		}
	}
	return
}

func (r *report) finish(ps *propSpec) int {
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	code := 0
	kf := knownFindings(r.prop)
	hit := map[string]bool{}
	for i, v := range r.confirmed {
		listed := false
		for _, k := range kf {
			if strings.Contains(v.Harness+" "+v.Msg+" "+v.Confirmed, k.match) {
				listed, hit[k.what] = true, true
			}
		}
		if listed {
			continue
		}
		f := filepath.Join(dir, fmt.Sprintf("%s-violation%d.json", r.prop, i+1))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("%s: %s\n  %s\n", v.Harness, v.Msg, v.Confirmed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, f)
		code = 1
	}
	for w := range hit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, w)
	}
	for _, v := range r.unconf {
		b, _ := json.Marshal(v)
		x := string(b)
		if len(x) > 1500 {
			x = x[:1500]
		}
		fmt.Printf("UNCONFIRMED (not reported as a violation): %s\n", x)
	}
	st := r.st
	fns := map[string]int{}
	for k, v := range st.Fns {
		fns[k] = v
	}
	var bounds []string
	var jobs []map[string]any
	for _, j := range r.jobs {
		if j.Bound != "" {
			bounds = append(bounds, j.Harness+": "+j.Bound)
		}
		jobs = append(jobs, map[string]any{"job": j.Name(), "paths": j.st.Paths, "decisions": j.st.Decisions, "obligations": j.st.Obligations,
			"trivial": j.st.Trivial, "discharged": j.st.Discharged, "queries": j.st.Queries, "unknown": j.st.Unknown, "cut_at_loop_bound": j.st.Cut,
			"complete": !j.st.Incomplete && j.st.Unknown == 0, "reached_end": j.st.Reach["end"], "solver_s": j.st.SolverTime.Seconds(), "unsupported": j.st.Unsup})
		if j.st.Reach["end"] == 0 && len(j.viols) == 0 && !j.stop && j.chain == nil {
			r.notes = append(r.notes, "VACUOUS: no path of "+j.Name()+" reaches its end")
		}
	}
	if len(r.samples) == 0 {
		r.samples = append(r.samples, map[string]any{"note": "no path model to show"})
	}
	cov := map[string]any{
		"states":                           st.Paths,
		"transitions":                      st.Decisions,
		"traces_validated_against_impl":    r.validated,
		"samples":                          r.samples,
		"functions_encoded":                fns,
		"contracts_used":                   st.Stubs,
		"bounds":                           bounds,
		"jobs":                             jobs,
		"obligations":                      st.Obligations,
		"obligations_syntactically_true":   st.Trivial,
		"obligations_discharged_by_solver": st.Discharged,
		"queries":                          st.Queries,
		"queries_sat":                      st.Sat,
		"queries_unsat":                    st.Unsat,
		"solver_unknown":                   st.Unknown,
		"solver_s":                         st.SolverTime.Seconds(),
		"slowest_query_s":                  st.MaxQuery.Seconds(),
		"solver":                           "z3 " + z3bin,
		"paths_cut_at_loop_bound":          st.Cut,
		"ordered_access_checks":            st.RaceChecks,
		"outcomes":                         st.Panics,
		"unsupported":                      st.Unsup,
		"engine_notes":                     st.Notes,
		"complete_within_bounds":           !st.Incomplete && st.Unknown == 0 && len(r.loadErr) == 0,
		"explanation":                      "states: feasible symbolic paths explored; transitions: branch decisions settled; traces_validated_against_impl: models of explored paths replayed on the compiled code with the same results",
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if len(r.mismatch) > 0 {
		cov["ENCODING_MISMATCH"] = r.mismatch
		fmt.Println("ENCODING MISMATCH (symbolic and real results differ):", r.mismatch[0])
	}
	if len(r.loadErr) > 0 {
		cov["load_errors"] = r.loadErr
		fmt.Println("LOAD ERROR", r.loadErr)
	}
	sort.Strings(r.notes)
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
		for i, n := range r.notes {
			if i == 8 {
				fmt.Println("note:", len(r.notes)-i, "more in the evidence file")
				break
			}
			fmt.Println("note:", n)
		}
	}
	var un []map[string]any
	for _, v := range r.unconf {
		un = append(un, map[string]any{"harness": v.Harness, "message": v.Msg, "notes": v.Notes})
	}
	if un != nil {
		cov["unconfirmed_counterexamples"] = un
	}
	ev := map[string]any{"property": r.prop, "tier": r.tier, "seed": r.seed, "level": ps.level, "coverage": cov,
		"assumptions": ps.assume, "wall_s": time.Since(r.t0).Seconds(), "violations": len(r.confirmed)}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if err := os.WriteFile(filepath.Join(dir, r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d jobs, %d paths, %d obligations (%d by the solver), %d queries, solver %.1fs, %d unknown, %d cut, validated %d, %.1fs\n", r.prop, r.tier, len(r.jobs),
		st.Paths, st.Obligations, st.Discharged, st.Queries, st.SolverTime.Seconds(), st.Unknown, st.Cut, r.validated, time.Since(r.t0).Seconds())
	if st.Incomplete {
		fmt.Println("INCOMPLETE:", st.Unsup, st.Notes)
	}
	return code
}

// ---- confirmation through the public API ----

// typeOf gives the element type a harness is about, for the confirmation program.
func typeOf(h string) string {
	i := strings.LastIndex(h, "_")
	t := h[i+1:]
	if t == "lsw" {
		return t
	}
	for _, x := range sliceTypes {
		if x.T == t {
			return t
		}
	}
	if strings.HasPrefix(h, "v_l") {
		return "lsw"
	}
	if strings.HasPrefix(h, "v_search") {
		return "search"
	}
	return ""
}

func palette(v *Viol) (nums []uint64, strs []string) {
	seen := map[uint64]bool{}
	for _, in := range v.Inputs {
		switch in.Kind {
		case "u64", "u32", "word", "lstr", "lbytes", "u8":
			if len(in.Vals) > 0 && !seen[in.Vals[0]] {
				seen[in.Vals[0]] = true
				nums = append(nums, in.Vals[0])
			}
		case "str", "bytes":
			o := 1
			if in.Kind == "bytes" {
				o = 2
			}
			var b []byte
			for i := 0; len(in.Vals) > 0 && i < int(in.Vals[0]) && o+i < len(in.Vals); i++ {
				b = append(b, byte(in.Vals[o+i]))
			}
			strs = append(strs, string(b))
		}
	}
	return
}

type fzRun struct {
	spec  map[string]any
	tags  string
	race  bool
	instr bool
	limit time.Duration
}

func (r *report) confirmPublic(vs []*Viol, ps *propSpec, limit time.Time) {
	if len(vs) == 0 {
		return
	}
	// one campaign over the types the counterexamples are about
	types := map[string]bool{}
	var nums []uint64
	var strs []string
	for _, v := range vs {
		if t := typeOf(v.Harness); t != "" {
			types[t] = true
		}
		a, b := palette(v)
		if len(nums) < 40 {
			nums = append(nums, a...)
		}
		if len(strs) < 40 {
			strs = append(strs, b...)
		}
	}
	ts := sortedKeys(types)
	sec := 25.0
	if r.tier == "thorough" {
		sec = 60
	}
	var runs []fzRun
	n := runtime.NumCPU()
	for i := 0; i < n; i++ {
		s := map[string]any{"prop": r.prop, "types": ts, "nums": nums, "strs": strs, "seed": r.seed*1000 + i*1000000 + 1, "seconds": sec, "tune": i%4 != 3}
		if i%4 == 1 {
			s["strs"], s["nums"] = nil, nil
		}
		if r.prop == "C16" {
			s["live"], s["multi"] = i%2 == 0, true
		}
		if r.prop == "C09" || r.prop == "C11" {
			s["big"] = true
		}
		x := fzRun{spec: s, limit: time.Duration(sec)*time.Second + 30*time.Second}
		if i%4 != 3 {
			x.tags = "tuneparam"
		}
		if r.prop == "C11" || r.prop == "C16" && i%4 == 2 {
			x.race = true
			s["live"] = false
		}
		runs = append(runs, x)
	}
	if ps.runs != nil {
		runs = ps.runs(r, runs)
	}
	got := runFuzz(r.prop, runs, ps.instrument)
	if got == "" {
		r.unconf = append(r.unconf, vs...)
		return
	}
	v := vs[0]
	v.Confirmed = "through the public API: " + got
	r.confirmed = append(r.confirmed, v)
}

var fzBinMu sync.Mutex
var fzBins = map[string]string{}

func confirmFiles(tags string) map[string]string {
	t := "off"
	if tags == "tuneparam" {
		t = "on"
	}
	rd := func(n string) string {
		b, err := confirmFS.ReadFile("confirm/" + n + ".go.txt")
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	return map[string]string{"zz_fz_test.go": rd("fuzz_test"), "zz_fztune_test.go": rd("tune_" + t + "_test")}
}

func fzBin(tags string, race bool, instr func(map[string]string) error, useInstr bool) (string, error) {
	fzBinMu.Lock()
	defer fzBinMu.Unlock()
	k := fmt.Sprint(tags, race, useInstr)
	if b, ok := fzBins[k]; ok {
		return b, nil
	}
	files := confirmFiles(tags)
	if useInstr && instr != nil {
		if err := instr(files); err != nil {
			return "", err
		}
	}
	b, err := buildTest(files, tags, "amd64", race)
	if err == nil {
		fzBins[k] = b
	}
	return b, err
}

// runFuzz runs the confirmation programs; it returns what one observed against prop, or "".
func runFuzz(prop string, runs []fzRun, instr func(map[string]string) error) string {
	var mu sync.Mutex
	got := ""
	var wg sync.WaitGroup
	for _, x := range runs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bin, err := fzBin(x.tags, x.race, instr, x.instr)
			if err != nil {
				fmt.Println("confirmation build:", err)
				return
			}
			mu.Lock()
			stop := got != ""
			mu.Unlock()
			if stop {
				return
			}
			env := []string{"FZSPEC=" + writeJSON(x.spec)}
			if x.race {
				env = append(env, "GORACE=halt_on_error=1 exitcode=66")
			}
			out, _ := runTest(bin, "TestVFuzz", x.limit, env...)
			res := ""
			sc := bufio.NewScanner(strings.NewReader(out))
			sc.Buffer(make([]byte, 1<<20), 1<<24)
			for sc.Scan() {
				l := sc.Text()
				if p, m, ok := strings.Cut(strings.TrimPrefix(l, "FZFAIL "), " "); ok && strings.HasPrefix(l, "FZFAIL ") && p == prop {
					res = m
				}
			}
			if x.race && prop == "C11" || x.race && prop == "C16" {
				if i := strings.Index(out, "WARNING: DATA RACE"); i >= 0 {
					res = "race detector: " + strings.ReplaceAll(out[i:min(len(out), i+1500)], "\n", " | ")
				}
			}
			if i := strings.Index(out, "fatal error:"); i >= 0 && res == "" && (prop == "C14" || prop == "C09" || prop == "C13") {
				l := out[i:min(len(out), i+200)]
				if strings.Contains(l, "deadlock") == (prop == "C09") {
					res = strings.ReplaceAll(l, "\n", " | ")
				}
			}
			if res != "" {
				b, _ := json.Marshal(x.spec)
				mu.Lock()
				got = res + " [" + x.tags + " " + string(b) + "]"
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return got
}
