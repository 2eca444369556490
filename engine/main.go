package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if f := os.Getenv("VPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) > 1 && os.Args[1] == "run" {
		debugRun(os.Args[2:])
		return
	}
	if len(os.Args) > 3 && os.Args[1] == "check" {
		c := runCheck(os.Args[2], os.Args[3])
		cleanup()
		pprof.StopCPUProfile()
		os.Exit(c)
	}
	fmt.Println("usage: vengine check ID quick|thorough | vengine run ...")
	os.Exit(2)
}

// run [family] harness k=v ... : one harness, all properties active
func debugRun(args []string) {
	goarch, tags := "amd64", ""
	params := map[string]int{}
	active := map[string]bool{}
	for i := 1; i <= 17; i++ {
		active[fmt.Sprintf("C%02d", i)] = true
	}
	workers := 8
	var hs []string
	for _, a := range args {
		kv := strings.SplitN(a, "=", 2)
		if len(kv) == 1 {
			hs = append(hs, a)
			continue
		}
		switch kv[0] {
		case "goarch":
			goarch = kv[1]
		case "tags":
			tags = kv[1]
		case "workers":
			workers, _ = strconv.Atoi(kv[1])
		case "z3":
			z3bin = kv[1]
		default:
			params[kv[0]], _ = strconv.Atoi(kv[1])
		}
	}
	t0 := time.Now()
	P, err := LoadProgram(allHarness(tags), goarch, tags)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0), "dropped", P.Dropped)
	var jobs []*Job
	for _, h := range hs {
		jobs = append(jobs, &Job{Harness: h, Params: params, P: P})
	}
	t0 = time.Now()
	st := RunJobs(jobs, active, workers, time.Now().Add(20*time.Minute), true)
	fmt.Println(time.Since(t0), st.line())
	for _, j := range jobs {
		for _, v := range j.viols {
			fmt.Println("VIOL", v.Prop, v.Msg, v.Inputs)
		}
	}
}

func allHarness(tags string) map[string]string {
	files := map[string]string{"zz_v_intr.go": readTmpl("intr"), "zz_v_ghost.go": readTmpl("ghost")}
	for _, t := range sliceTypes {
		files["zz_v_type_"+t.T+".go"] = t.expand(readTmpl("type"))
		fs := []string{"pub", "iss", "part", "drv", "piv", "bmc"}
		if strings.Contains(tags, "tuneparam") {
			fs = append(fs, "e2e")
		}
		if t.Float {
			fs = append(fs, "nan", "nanpre")
		}
		for _, f := range fs {
			files["zz_v_"+f+"_"+t.T+".go"] = t.expand(readTmpl(f))
		}
	}
	fs := []string{"lsw", "lpart", "ldrv", "search", "disp", "mms", "mm4", "lpiv", "lbmc"}
	if strings.Contains(tags, "tuneparam") {
		fs = append(fs, "le2e")
	}
	for _, f := range fs {
		files["zz_v_"+f+".go"] = readTmpl(f)
	}
	return files
}
