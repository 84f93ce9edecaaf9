package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// HarnessCfg is one harness of a property. Each entry of a ladder is a set of
// bounds; entries are run in order while the time budget lasts.
type HarnessCfg struct {
	Area     string           `json:"area"`
	Func     string           `json:"func"`
	Quick    []map[string]int `json:"quick"`
	Thorough []map[string]int `json:"thorough"`
	Budget   int              `json:"budget"`          // quick seconds
	TBudget  int              `json:"thorough_budget"` // thorough seconds
	Steps    int64            `json:"steps"`
	Depth    int              `json:"depth"`
	Bound    string           `json:"bound"` // what the parameters mean
}

type PropCfg struct {
	Harnesses []HarnessCfg `json:"harnesses"`
	Outside   string       `json:"outside"`
	Assume    []string     `json:"assumptions"`
}

// Known findings: see known_findings.jsonl.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`   // exact assertion or panic message
	Site     string `json:"site"`  // substring of the failing call site
	Input    string `json:"input"` // exact observed input (first observation), optional
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

func loadKnown(root string) []Known {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		var k Known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			fatal("known_findings.jsonl: %v", err)
		}
		out = append(out, k)
	}
	return out
}

func (k *Known) matches(prop string, v *Violation) bool {
	if k.Status != "known" || k.Property != prop || k.Harness != v.Harness {
		return false
	}
	if k.Msg != "" && k.Msg != v.Msg {
		return false
	}
	if k.Site != "" && !strings.Contains(v.Detail, k.Site) {
		return false
	}
	if k.Input != "" && (len(v.Obs) == 0 || v.Obs[0] != k.Input) {
		return false
	}
	return k.Msg != "" || k.Site != "" || k.Input != ""
}

func verifRoot() string {
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "checks.json")); err == nil {
			return d
		}
	}
	wd, _ := os.Getwd()
	if _, err := os.Stat(filepath.Join(wd, "checks.json")); err == nil {
		return wd
	}
	return "/verif"
}

func runCheck(prop string) int {
	t0 := time.Now()
	root := verifRoot()
	harnessRoot = filepath.Join(root, "harness")
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
	b, err := os.ReadFile(filepath.Join(root, "checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	var all map[string]*PropCfg
	if err := json.Unmarshal(b, &all); err != nil {
		fatal("checks.json: %v", err)
	}
	pc := all[prop]
	if pc == nil {
		fatal("no check for %s", prop)
	}
	known := loadKnown(root)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)

	scratch, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fatal("%v", err)
	}
	cleanup := func() { os.RemoveAll(scratch) }
	defer cleanup()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sig
		cleanup()
		os.Exit(4)
	}()

	progs := map[string]*Program{}
	nats := map[string]*Native{}
	caches := map[string]*queryCache{}
	defer func() {
		for _, n := range nats {
			<-n.done
			n.mu.Lock()
			n.kill()
			n.mu.Unlock()
		}
	}()

	var vios []*Violation
	knownHit := map[string]*Violation{}
	type hrep struct {
		Harness     string           `json:"harness"`
		Bound       string           `json:"bound"`
		Params      map[string]int   `json:"params"`
		Complete    bool             `json:"complete"`
		Paths       int64            `json:"paths"`
		PathsDone   int64            `json:"paths_completed"`
		PathsAssume int64            `json:"paths_outside_assumptions"`
		Panics      int64            `json:"paths_panicking"`
		Asserts     int64            `json:"assertions_evaluated"`
		AssertsSym  int64            `json:"assertions_sent_to_solver"`
		StepLimit   int64            `json:"paths_hitting_step_limit"`
		Unknown     int64            `json:"solver_unknown"`
		Unsupported map[string]int64 `json:"unsupported_paths"`
		Covers      map[string]int64 `json:"reached"`
		Cuts        map[string]int64 `json:"cut_points"`
		Steps       int64            `json:"instructions"`
		Queries     int64            `json:"solver_queries"`
		Tables      int64            `json:"byte_domain_decisions"`
		XChecks     int64            `json:"byte_domain_decisions_confirmed_by_solver"`
		CacheHits   int64            `json:"solver_cache_hits"`
		SolverS     float64          `json:"solver_s"`
		WallS       float64          `json:"wall_s"`
		Validated   int64            `json:"traces_validated"`
		Mismatch    int64            `json:"trace_mismatches"`
		Unrep       int              `json:"unreproduced_candidates"`
	}
	var reps []hrep
	funcs := map[string]int64{}
	var samples []any
	var states, trans, validated, mismatches int64
	var queries, tables, hits, unknowns, solverNanos, asserts, assertsSym, unsup, stepOut int64
	complete := true
	var unrep []*Violation

	for hi := range pc.Harnesses {
		h := &pc.Harnesses[hi]
		ladder, budget := h.Quick, h.Budget
		if tier == "thorough" {
			if len(h.Thorough) > 0 {
				ladder = h.Thorough
			}
			budget = h.TBudget
			if budget == 0 {
				budget = h.Budget * 8
			}
		}
		if budget == 0 {
			budget = 30
		}
		if len(ladder) == 0 {
			ladder = []map[string]int{{}}
		}
		p := progs[h.Area]
		if p == nil {
			p = loadProgram(repoRoot, harnessRoot, h.Area)
			progs[h.Area] = p
			nats[h.Area] = startNative(p, h.Area, scratch)
			caches[h.Area] = &queryCache{m: map[string]*cacheEnt{}}
		}
		nat := nats[h.Area]
		sf := p.pkgs[zz+"/"+h.Area].Func(h.Func)
		if sf == nil {
			fatal("no harness %s.%s", h.Area, h.Func)
		}
		hdead := time.Now().Add(time.Duration(budget) * time.Second)
		for _, params := range ladder {
			left := time.Until(hdead)
			if left < time.Second {
				reps = append(reps, hrep{Harness: h.Area + "." + h.Func, Bound: h.Bound, Params: params, Complete: false})
				complete = false
				continue
			}
			cfg := &runCfg{workers: workers(), maxSteps: 3000000, maxDepth: 3000, timeout: left, solver: solverBin(), solverMs: 5000, seed: seed, samples: 24}
			if h.Steps > 0 {
				cfg.maxSteps = h.Steps
			}
			if h.Depth > 0 {
				cfg.maxDepth = h.Depth
			}
			res := explore(p, p.fnOf(sf), h.Area+"."+h.Func, cfg, params, caches[h.Area], func(v *Violation) int {
				v.Params = params
				if !nat.confirm(v, h.Func, params) {
					return candDrop
				}
				for ki := range known {
					if known[ki].matches(prop, v) {
						v.Known = known[ki].What
						return candKnown
					}
				}
				return candStop
			})
			var nv, nm int64
			for _, s := range res.Samples {
				r, err := nat.run(h.Func, s.Vector, params, 20*time.Second)
				if err != nil {
					fatal("replay: %v", err)
				}
				ok := (s.End == "done" && r.End == "done" || s.End == "panic" && strings.HasPrefix(r.End, "panic")) && sameObs(s.Obs, r.Obs)
				if ok {
					nv++
				} else {
					nm++
					fmt.Fprintf(os.Stderr, "verif: trace mismatch in %s.%s vec=%v\n engine %s %v\n native %s %v\n", h.Area, h.Func, s.Vector, s.End, s.Obs, r.End, r.Obs)
				}
				if len(samples) < 12 && (len(samples) < 4 || nv%7 == 0) {
					samples = append(samples, map[string]any{"harness": h.Area + "." + h.Func, "params": params, "vector": s.Vector, "end": s.End, "observed": trimObs(s.Obs)})
				}
			}
			validated += nv
			mismatches += nm
			states += res.Paths
			trans += res.Forks + res.Solver.tables + res.Solver.queries + res.Solver.cacheHits
			queries += res.Solver.queries
			tables += res.Solver.tables
			hits += res.Solver.cacheHits
			unknowns += res.Unknown
			solverNanos += res.Solver.nanos
			asserts += res.Asserts
			assertsSym += res.AssertsSym
			stepOut += res.StepsOut
			for f, n := range res.Funcs {
				funcs[f] += n
			}
			for _, n := range res.Unsupported {
				unsup += n
			}
			comp := !res.TimedOut && len(res.Unsupported) == 0 && res.Unknown == 0 && res.StepsOut == 0
			if !comp {
				complete = false
			}
			for _, v := range res.Violations {
				if v.Known != "" {
					knownHit[v.Known] = v
				} else {
					vios = append(vios, v)
				}
			}
			unrep = append(unrep, res.Unreproduced...)
			reps = append(reps, hrep{Harness: h.Area + "." + h.Func, Bound: h.Bound, Params: params, Complete: comp, Paths: res.Paths, PathsDone: res.PathsDone,
				PathsAssume: res.PathsAssume, Panics: res.PathsPanic, Asserts: res.Asserts, AssertsSym: res.AssertsSym, StepLimit: res.StepsOut,
				Unknown: res.Unknown, Unsupported: res.Unsupported, Covers: res.Covers, Cuts: res.Cuts, Steps: res.Steps, Queries: res.Solver.queries,
				Tables: res.Solver.tables, XChecks: res.Solver.xchecks, CacheHits: res.Solver.cacheHits, SolverS: float64(res.Solver.nanos) / 1e9, WallS: res.Wall.Seconds(), Validated: nv, Mismatch: nm, Unrep: len(res.Unreproduced)})
			if os.Getenv("VERIF_V") != "" {
				fmt.Fprintf(os.Stderr, "%s.%s %v paths=%d done=%d assume=%d panics=%d complete=%v unsup=%v steps=%d unknown=%d q=%d tab=%d wall=%.1f valid=%d mism=%d unrep=%d vio=%d covers=%v\n", h.Area, h.Func, params, res.Paths, res.PathsDone, res.PathsAssume, res.PathsPanic, comp, res.Unsupported, res.StepsOut, res.Unknown, res.Solver.queries, res.Solver.tables, res.Wall.Seconds(), nv, nm, len(res.Unreproduced), len(res.Violations), res.Covers)
			}
			if len(vios) > 0 {
				break
			}
		}
		if len(vios) > 0 {
			break
		}
	}

	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        states,
			"transitions":                   trans,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"explanation":                   "states: symbolic paths of the real code explored to an end within the bounds; transitions: feasibility decisions taken on those paths; traces_validated_against_impl: sampled paths whose concrete witness was run natively and observed identically",
			"functions_encoded":             fl,
			"functions_encoded_count":       len(fl),
			"harnesses":                     reps,
			"solver":                        solverBin(),
			"solver_queries":                queries,
			"byte_domain_decisions":         tables,
			"solver_cache_hits":             hits,
			"solver_time_s":                 float64(solverNanos) / 1e9,
			"solver_unknown":                unknowns,
			"assertions_evaluated":          asserts,
			"assertions_sent_to_solver":     assertsSym,
			"unsupported_paths":             unsup,
			"paths_hitting_step_limit":      stepOut,
			"trace_mismatches":              mismatches,
			"unreproduced_candidates":       len(unrep),
			"outside_bounds":                pc.Outside,
			"exhaustive":                    complete,
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(vios),
	}
	if len(pc.Assume) > 0 {
		ev["assumptions"] = pc.Assume
	}
	evDir := filepath.Join(root, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	eb, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(eb, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	for _, v := range unrep {
		fmt.Fprintf(os.Stderr, "verif: candidate not reproduced natively (not reported): %s %s %q vec=%v native=%s at %s\n", v.Harness, v.Kind, v.Msg, v.Vector, v.Native, v.Detail)
	}
	var kl []string
	for w := range knownHit {
		kl = append(kl, w)
	}
	sort.Strings(kl)
	for _, w := range kl {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, w)
	}
	if len(vios) > 0 {
		for _, v := range vios {
			rb, _ := json.MarshalIndent(v, "", " ")
			sum := sha256.Sum256(rb)
			path := filepath.Join(evDir, "replay", prop+"-"+hex.EncodeToString(sum[:6])+".json")
			os.WriteFile(path, append(rb, '\n'), 0o644)
			fmt.Printf("violated: %s: %s %s\n  at %s\n  observed: %s\n  native: %s %s\n", v.Harness, v.Kind, v.Msg, v.Detail, strings.Join(trimObs(v.Obs), " "), v.Native, strings.Join(trimObs(v.NativeObs), " "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
		return 1
	}
	fmt.Printf("held: property=%s paths=%d validated=%d complete=%v wall=%.1fs\n", prop, states, validated, complete, time.Since(t0).Seconds())
	return 0
}

func workers() int {
	n := runtime.NumCPU()
	if s := os.Getenv("VERIF_W"); s != "" {
		fmt.Sscan(s, &n)
	}
	return n
}

func solverBin() string {
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		return s
	}
	return "z3"
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func trimObs(o []string) []string {
	if len(o) > 12 {
		o = o[:12]
	}
	r := make([]string, len(o))
	for i, s := range o {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		r[i] = s
	}
	return r
}

// runReplay re-runs a stored counterexample natively.
func runReplay(path string) int {
	root := verifRoot()
	harnessRoot = filepath.Join(root, "harness")
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	parts := strings.SplitN(v.Harness, ".", 2)
	p := loadProgram(repoRoot, harnessRoot, parts[0])
	scratch, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(scratch)
	nat := startNative(p, parts[0], scratch)
	ok := nat.confirm(&v, parts[1], v.Params)
	fmt.Printf("reproduced=%v native=%s obs=%v\n", ok, v.Native, v.NativeObs)
	nat.mu.Lock()
	nat.kill()
	nat.mu.Unlock()
	if ok {
		return 1
	}
	return 0
}

var _ = atomic.AddInt64
