package main

import (
	"fmt"
	"os"
)

type propSpec struct {
	level      string
	assume     []string
	outside    []string
	jobs       func(thorough bool) []spec
	extra      func(r *report)
	runs       func(r *report, d []fzRun) []fzRun
	instrument func(files map[string]string) error
}

type kv = map[string]int

func pick[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

func isBV(t typeInfo) bool { return t.T == "S" || t.T == "B" }

// types of a group: "C01" (by value, not float), "C03" (float), "C04" (by length), or all
func typesOf(ord ...string) (r []typeInfo) {
	for _, t := range sliceTypes {
		if len(ord) == 0 {
			r = append(r, t)
		}
		for _, o := range ord {
			if t.Ord == o {
				r = append(r, t)
			}
		}
	}
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type joblist []spec

func (l *joblist) add(k progKey, h string, p kv) { *l = append(*l, spec{k, h, p, "", 0}) }

func cat(ls ...[]spec) (r []spec) {
	seen := map[string]bool{}
	for _, l := range ls {
		for _, s := range l {
			j := Job{Harness: s.h, Params: s.par}
			k := s.key.goarch + s.key.tags + j.Name()
			if !seen[k] {
				seen[k] = true
				r = append(r, s)
			}
		}
	}
	return
}

func perType(ts []typeInfo, f func(l *joblist, t typeInfo, ints int)) []spec {
	var l joblist
	for _, t := range ts {
		f(&l, t, b2i(!isBV(t)))
	}
	return l
}

// whole calls on small slices: every path, default thresholds
func pubJobs(ts []typeInfo, th bool, n0, n1 int) []spec {
	return perType(ts, func(l *joblist, t typeInfo, ints int) {
		for n := n0; n <= n1; n++ {
			l.add(p64, "v_pub_"+t.T, kv{"n": n, "ints": ints})
		}
	})
}

// one partitioning step
func partJobs(ts []typeInfo, th bool) []spec {
	return perType(ts, func(l *joblist, t typeInfo, ints int) {
		for _, n := range pick(th, []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, []int{2, 3, 4, 8, 9}) {
			l.add(p64, "v_p1_"+t.T, kv{"n": n, "ints": ints})
		}
	})
}

func pconJobs(ts []typeInfo, th bool) []spec {
	return perType(ts, func(l *joblist, t typeInfo, ints int) {
		for _, n := range pick(th, []int{8, 9, 10, 11, 12}, []int{8, 9}) {
			for s := 0; s < 2; s++ {
				if s == 0 || th {
					l.add(p64, "v_pc_"+t.T, kv{"n": n, "ints": ints, "sched": s})
				}
			}
		}
	})
}

// the drivers on symbolic lengths, what they call as contracts
func driverJobs(ts []typeInfo, th bool) []spec {
	return perType(ts, func(l *joblist, t typeInfo, ints int) {
		l.add(p64, "v_short_"+t.T, kv{"samp": 0})
		for sv := 0; sv < 2; sv++ {
			l.add(p64, "v_long_"+t.T, kv{"samp": 0, "max": 100000000, "sv": sv, "sched": 0})
		}
		for live := 0; live < 2; live++ {
			l.add(p64, "v_sort_"+t.T, kv{"samp": 0, "max": 100000, "live": live, "visit": pick(th, 4, 2), "sched": 0})
		}
		if th {
			l.add(p64, "v_long_"+t.T, kv{"samp": 0, "max": 100000000, "sv": 1, "sched": 1})
			l.add(p64, "v_sort_"+t.T, kv{"samp": 0, "max": 100000, "live": 1, "visit": 3, "sched": 1})
		}
	})
}

// the values that short samples (long's are pivot's, see v_mmpiv)
func sampJobs(ts []typeInfo, th bool) []spec {
	return perType(ts, func(l *joblist, t typeInfo, ints int) {
		l.add(p64, "v_short_"+t.T, kv{"samp": 1})
	})
}

// whole calls with small thresholds: every internal path
func e2eJobs(ts []typeInfo, th bool) []spec {
	return perType(ts, func(l *joblist, t typeInfo, ints int) {
		ins, rec := 3, 11
		if t.FC || t.Float {
			ins, rec = 2, 4
		}
		l.add(p64t, "v_e2e_"+t.T, kv{"n": pick(th, 7, 6), "ins": ins, "rec": rec, "gor": 1, "sched": 0, "two": 0, "ints": ints})
		if rec == 4 {
			rec = 5
		}
		l.add(p64t, "v_e2e_"+t.T, kv{"n": 12, "ins": ins, "rec": rec, "gor": 3, "sched": 0, "two": 1, "ints": ints})
	})
}

// ... with goroutines
func e2eConJobs(ts []typeInfo, th bool) []spec {
	return perType(ts, func(l *joblist, t typeInfo, ints int) {
		ins, rec, n := 3, 11, 26
		if t.FC || t.Float {
			ins, rec, n = 2, 5, 16
		}
		for s := 0; s < 2; s++ {
			l.add(p64t, "v_e2e_"+t.T, kv{"n": n, "ins": ins, "rec": rec, "gor": 3, "sched": s, "two": pick(th, 9, 6), "ints": ints})
			if th {
				l.add(p64t, "v_e2e_"+t.T, kv{"n": 2 * n, "ins": ins, "rec": rec, "gor": 4, "sched": s, "two": 8, "ints": ints})
			}
		}
	})
}

func sortJobs(ts []typeInfo, th bool) []spec {
	var l joblist
	l.add(p64, "v_mean", kv{})
	return cat(l, pubJobs(ts, th, 0, pick(th, 7, 6)), partJobs(ts, th), pconJobs(ts, th), driverJobs(ts, th), e2eJobs(ts, th), e2eConJobs(ts, th))
}

// floats with NaNs
func nanJobs(th bool) (l joblist) {
	for _, t := range typesOf("C03") {
		for opt := -1; opt <= 1; opt++ {
			for n := 0; n <= pick(th, 6, 5); n++ {
				l.add(p64, "v_nan_"+t.T, kv{"n": n, "opt": opt, "ints": 1})
			}
			if opt != 0 {
				l.add(p64, "v_nanpre_"+t.T, kv{"n": pick(th, 13, 11), "opt": opt, "ints": 1})
			}
		}
	}
	return
}

func issJobs(th bool) (l joblist) {
	for _, t := range typesOf() {
		for _, n := range pick(th, []int{0, 1, 2, 3, 5, 8, 13, 21, 34, 64}, []int{0, 1, 2, 3, 6, 17}) {
			l.add(p64, "v_iss_"+t.T, kv{"n": n, "ints": b2i(!isBV(t))})
			if t.Float {
				for opt := -1; opt <= 1; opt++ {
					l.add(p64, "v_nan_iss_"+t.T, kv{"n": min(n, pick(th, 21, 12)), "opt": opt, "ints": 1})
				}
			}
		}
	}
	return
}

// Sort(n, lesswap)
func lswJobs(th bool) (l joblist) {
	l.add(p64, "v_mean", kv{})
	l.add(p64, "v_lneg", kv{"ints": 0})
	for n := 0; n <= pick(th, 7, 6); n++ {
		l.add(p64, "v_lpub", kv{"n": n, "ints": 1})
	}
	for _, n := range pick(th, []int{5, 6, 7, 8, 9, 10, 11, 12}, []int{5, 6, 9}) {
		for pv := 2; pv <= n-1; pv++ {
			if th || pv == n/2+1 || pv == n-1 && n < 8 {
				l.add(p64, "v_lp1", kv{"n": n, "pv": pv, "ints": 1})
			}
		}
	}
	for _, n := range pick(th, []int{8, 9, 10, 11, 12, 13}, []int{9, 10}) {
		for d := -b2i(th); d <= b2i(th); d++ {
			l.add(p64, "v_lpc", kv{"n": n, "pv": n/2 + d, "sched": 0, "ints": 1})
			if th {
				l.add(p64, "v_lpc", kv{"n": n, "pv": n/2 + d, "sched": 1, "ints": 1})
			}
		}
	}
	l.add(p64, "v_lpivot", kv{"n": 12, "s": 5, "ints": 1})
	if th {
		l.add(p64, "v_lpivot", kv{"n": 17, "s": 7, "ints": 1})
		l.add(p64, "v_lpivot", kv{"n": 31, "s": 5, "ints": 1})
	}
	l.add(p64, "v_lshortpre", kv{"n": 31, "ints": 1})
	l.add(p64, "v_lshortpre", kv{"n": 32, "ints": 1})
	return
}

func ldrvJobs(th bool) (l joblist) {
	l.add(p64, "v_lshort", kv{"o": 0})
	if th {
		l.add(p64, "v_lshort", kv{"o": 1000})
	}
	for sv := 0; sv < 2; sv++ {
		for _, o := range []int{0, 1000} {
			l.add(p64, "v_llong", kv{"o": o, "sv": sv, "max": 100000, "sched": 0})
		}
	}
	for live := 0; live < 2; live++ {
		l.add(p64, "v_lsort", kv{"max": 100000, "live": live, "visit": pick(th, 4, 2), "sched": 0})
	}
	return
}

func le2eJobs(th bool) (l joblist) {
	l.add(p64t, "v_le2e", kv{"n": 7, "ins": 5, "rec": 9, "gor": 1, "sched": 0, "two": 0, "ints": 1})
	if th {
		l.add(p64t, "v_le2e", kv{"n": 8, "ins": 6, "rec": 13, "gor": 1, "sched": 0, "two": 0, "ints": 1})
		l.add(p64t, "v_le2e", kv{"n": 14, "ins": 5, "rec": 9, "gor": 1, "sched": 0, "two": 1, "ints": 1})
	}
	l.add(p64t, "v_le2e", kv{"n": 12, "ins": 5, "rec": 9, "gor": 1, "sched": 0, "two": 1, "ints": 1})
	for s := 0; s < 2; s++ {
		l.add(p64t, "v_le2e", kv{"n": 20, "ins": 5, "rec": 9, "gor": 3, "sched": s, "two": 8, "ints": 1})
		l.add(p64t, "v_le2e", kv{"n": 22, "ins": 5, "rec": 9, "gor": 3, "sched": s, "two": pick(th, 12, 9), "ints": 1})
		if th {
			l.add(p64t, "v_le2e", kv{"n": 44, "ins": 5, "rec": 9, "gor": 4, "sched": s, "two": 8, "ints": 1})
		}
	}
	return
}

func lissJobs(th bool) (l joblist) {
	l.add(p64, "v_lneg", kv{"ints": 0})
	for _, n := range pick(th, []int{0, 1, 2, 3, 5, 8, 13, 21, 34, 64}, []int{0, 1, 2, 3, 6, 17}) {
		l.add(p64, "v_liss", kv{"n": n, "ints": 1})
	}
	return
}

func searchJobs(th bool) (l joblist) {
	a := func(big, lo, hi, at, w, frac int) {
		l.add(p64, "v_search", kv{"big": big, "nlo": lo, "nhi": hi, "at": at, "w": w, "frac": frac, "ints": 0})
	}
	l.add(p64, "v_mean", kv{})
	a(0, 0, 20, 0, 100, 0)
	for n := 0; n < pick(th, 520, 70); n++ { // all predicates
		a(0, n, n, 0, 1000, 0)
	}
	for _, n := range pick(th, []int{999, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537},
		[]int{100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2047, 4096}) {
		a(0, n, n, 0, 100000, 0)
	}
	a(1, 0, 0, 0, 6, 0)
	// windows of predicates for large n: around the least and the largest index, and n*f/64
	for k := 16; k < 64; k++ {
		for d := -1; d <= 1; d++ {
			if k == 63 && d >= 0 || !th && k%8 > 0 && k < 61 {
				continue
			}
			n := int(uint64(1)<<k + uint64(d))
			w := pick(th, 200, 20)
			a(0, n, n, 0, w, 0)
			a(0, n, n, 2, w, 0)
			for f := 1; f < 64; f += pick(th, 3, 21) {
				a(0, n, n, 1, w, f)
			}
		}
	}
	for d := 0; d < 3; d++ {
		for f := 0; f < 64; f += pick(th, 3, 13) {
			a(1, d, d, 1+b2i(f == 0), pick(th, 200, 30), f)
		}
	}
	if th {
		a(0, 21, 40, 0, 100, 0)
		a(1, 0, 3, 2, 8, 0)
		a(1, 3, 3, 1, 8, 17)
	}
	return
}

var dispNames = []string{"int", "int32", "int64", "uint", "uint32", "uint64", "uptr", "tint", "ti4", "ti8", "tu", "tu4", "tu8", "tup", "tsi",
	"f4", "f8", "tf4", "tf8", "str", "tstr", "byt", "tbyt", "len0", "len1", "len2", "len3", "len4", "len5", "len6", "len7", "len8", "len9", "uptr2", "node", "tnode"}

func dispJobs(th bool, names ...string) (l joblist) {
	for _, k := range []progKey{p64, p32} {
		if len(names) == 0 {
			for f := 0; f < 4; f++ {
				l.add(k, "v_disp_kinds", kv{"f": f})
			}
			l.add(k, "v_disp_rej", kv{"n": 3})
			names = dispNames
		}
		for _, d := range names {
			for _, n := range pick(th, []int{2, 3, 4}, []int{3}) {
				l.add(k, "v_disp_"+d, kv{"n": n})
			}
		}
	}
	return
}

func mmsJobs(th bool) (l joblist) {
	for n := 2; n <= pick(th, 24, 16); n++ {
		l.add(p64, "v_mms", kv{"n": n, "ints": 1})
		l.add(p32, "v_mms", kv{"n": n, "ints": 1})
	}
	l.add(p64, "v_mm4", kv{})
	l.add(p64, "v_mmlsw", kv{"n": 31})
	l.add(p64, "v_mmlsw", kv{"n": 77})
	if th {
		for n := 31; n < 80; n++ {
			l.add(p64, "v_mmlsw", kv{"n": n})
		}
	}
	for _, n := range pick(th, []int{10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 29, 40}, []int{10, 13, 16, 19, 23}) {
		for _, s := range []int{3, 5} {
			l.add(p64, "v_mmlpiv", kv{"n": n, "s": s, "lo": 5})
		}
		if n >= 14 {
			l.add(p64, "v_mmlpiv", kv{"n": n, "s": 7, "lo": 0})
		}
	}
	l = append(l, perType(typesOf(), func(l *joblist, t typeInfo, ints int) {
		for _, n := range pick(th, []int{8, 10, 12, 14, 17, 19, 23}, []int{10, 15, 19}) {
			s := 4
			if isBV(t) || t.Float {
				s = 3
			}
			l.add(p64, "v_mmpiv_"+t.T, kv{"n": n, "s": s, "ints": ints})
			if th && n >= 12 {
				l.add(p64, "v_mmpiv_"+t.T, kv{"n": n, "s": s + 2 - b2i(isBV(t) && n < 14), "ints": ints})
			}
		}
	})...)
	return
}

// schedule questions (see bmc.go)
func bmcExtra(kinds ...string) func(r *report) {
	return func(r *report) {
		th := r.tier == "thorough"
		ln, K, pool := pick(th, 7, 6), pick(th, 26, 22), pick(th, 3, 2)
		if x := os.Getenv("VBMC"); x != "" {
			fmt.Sscan(x, &ln, &K, &pool)
		}
		var l joblist
		for _, t := range typesOf() {
			l.add(p64, "v_bmc_"+t.T, kv{"max": 100000, "visit": 12, "len": ln})
		}
		l.add(p64, "v_bmc_lsw", kv{"max": 100000, "visit": 12, "len": ln})
		runBMC(r, l, kinds, K, pool)
	}
}

var props = map[string]*propSpec{
	"XBMC": {level: "model_checking", extra: bmcExtra("deadlock", "late", "crowd"), jobs: func(th bool) []spec {
		return pubJobs(typesOf("C01")[:1], th, 2, 2)
	}},
	"C01": {level: "model_checking", jobs: func(th bool) []spec {
		return cat(sortJobs(typesOf("C01"), th), dispJobs(th, "int", "uint", "uptr", "str", "byt", "uptr2", "node"))
	}},
	"C02": {level: "model_checking", jobs: func(th bool) []spec {
		return cat(sortJobs(typesOf(), th), nanJobs(th), lswJobs(th), le2eJobs(th), issJobs(false))
	}},
	"C03": {level: "model_checking", jobs: func(th bool) []spec {
		return cat(nanJobs(th), sortJobs(typesOf("C03"), th), dispJobs(th, "f4", "f8", "tf4", "tf8"))
	}},
	"C04": {level: "model_checking", jobs: func(th bool) []spec {
		return cat(sortJobs(typesOf("C04"), th), dispJobs(th, "len0", "len1", "len2", "len3", "len4", "len5", "len6", "len7", "len8", "len9"))
	}},
	"C05": {level: "model_checking", jobs: func(th bool) []spec { return cat(lswJobs(th), ldrvJobs(th), le2eJobs(th)) }},
	"C06": {level: "model_checking", jobs: func(th bool) []spec {
		return cat(lswJobs(th), ldrvJobs(th), le2eJobs(th), lissJobs(th), searchJobs(th))
	}},
	"C07": {level: "model_checking", jobs: func(th bool) []spec { return cat(issJobs(th), lissJobs(th), dispJobs(th)) }},
	"C08": {level: "model_checking", jobs: func(th bool) []spec { return searchJobs(th) }},
	"C09": {level: "model_checking", extra: bmcExtra("deadlock", "late"), jobs: func(th bool) []spec {
		return cat(driverJobs(typesOf(), th), ldrvJobs(th), pconJobs(typesOf(), th), e2eConJobs(typesOf(), th), le2eJobs(th))
	}},
	"C10": {level: "model_checking", extra: bmcExtra("crowd"), jobs: func(th bool) []spec {
		return cat(driverJobs(typesOf(), th), ldrvJobs(th), pconJobs(typesOf(), th), lswJobs(th))
	}},
	"C11": {level: "model_checking", jobs: func(th bool) []spec {
		return cat(driverJobs(typesOf(), th), ldrvJobs(th), pconJobs(typesOf(), th), e2eConJobs(typesOf(), th), lswJobs(th), le2eJobs(th))
	}},
	"C12": {level: "model_checking", jobs: func(th bool) []spec { return dispJobs(th) }},
	"C13": {level: "model_checking", jobs: func(th bool) []spec { return cat(driverJobs(typesOf(), th), ldrvJobs(th)) }},
	"C14": {level: "model_checking", jobs: func(th bool) []spec {
		return cat(sortJobs(typesOf(), th), sampJobs(typesOf(), th), nanJobs(th), issJobs(false), lswJobs(th), ldrvJobs(th), le2eJobs(th), lissJobs(false), searchJobs(false), mmsJobs(false))
	}},
	"C15": {level: "model_checking", jobs: func(th bool) []spec { return mmsJobs(th) }},
	"C16": {level: "model_checking", jobs: func(th bool) []spec {
		return cat(driverJobs(typesOf(), th), ldrvJobs(th), e2eConJobs(typesOf(), th), nanJobs(false), issJobs(false), lissJobs(false), pubJobs(typesOf(), false, 0, 4), searchJobs(false), le2eJobs(false))
	}},
	"C17": {level: "model_checking", jobs: func(th bool) []spec { return dispJobs(th, "uptr2", "node", "tnode") }},
}
