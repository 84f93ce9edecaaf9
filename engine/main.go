package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"
)

var harnessRoot = "/verif/harness"
var repoRoot = "/repo"

func main() {
	if len(os.Args) < 2 {
		fatal("usage: engine run|check ...")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2]))
	case "replay":
		os.Exit(runReplay(os.Args[2]))
	case "run":
		area, fn := os.Args[2], os.Args[3]
		t0 := time.Now()
		p := loadProgram(repoRoot, harnessRoot, area)
		fmt.Fprintf(os.Stderr, "load %v\n", time.Since(t0))
		sf := p.pkgs[zz+"/"+area].Func(fn)
		if sf == nil {
			fatal("no harness %s", fn)
		}
		cfg := &runCfg{workers: runtime.NumCPU(), maxSteps: 2000000, maxDepth: 2000, timeout: 60 * time.Second, solver: "z3", solverMs: 5000, seed: 1, samples: 50}
		if v := os.Getenv("VERIF_TIMEOUT"); v != "" {
			cfg.timeout, _ = time.ParseDuration(v)
		}
		if os.Getenv("VERIF_W") != "" {
			fmt.Sscan(os.Getenv("VERIF_W"), &cfg.workers)
		}
		params := map[string]int{}
		for _, a := range os.Args[4:] {
			kv := strings.SplitN(a, "=", 2)
			var n int
			fmt.Sscan(kv[1], &n)
			params[kv[0]] = n
		}
		cache := &queryCache{m: map[string]*cacheEnt{}}
		res := explore(p, p.fnOf(sf), area+"."+fn, cfg, params, cache, func(v *Violation) int {
			fmt.Printf("CAND %s %q vec=%v\n   at %s\n   obs=%v\n", v.Kind, v.Msg, v.Vector, v.Detail, v.Obs)
			return candDrop
		})
		fmt.Printf("paths=%d done=%d assume=%d panic=%d stepsout=%d unknown=%d steps=%d asserts=%d/%d timeout=%v wall=%v\n", res.Paths, res.PathsDone, res.PathsAssume, res.PathsPanic, res.StepsOut, res.Unknown, res.Steps, res.Asserts, res.AssertsSym, res.TimedOut, res.Wall)
		fmt.Printf("solver q=%d tables=%d hits=%d sat=%d unsat=%d time=%v funcs=%d\n", res.Solver.queries, res.Solver.tables, res.Solver.cacheHits, res.Solver.sat, res.Solver.unsat, time.Duration(res.Solver.nanos), len(res.Funcs))
		fmt.Printf("covers=%v cuts=%v\n", res.Covers, res.Cuts)
		n := 0
		for k, v := range res.Unsupported {
			fmt.Printf("UNSUPPORTED %d %s\n", v, k)
			n++
			if n > 20 {
				break
			}
		}
	}
}
