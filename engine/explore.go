package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Job struct {
	prefix []Dec
	model  []uint64
}

type Violation struct {
	Harness   string         `json:"harness"`
	Kind      string         `json:"kind"` // assert | panic | frozen | steps
	Msg       string         `json:"msg"`
	Vector    []uint64       `json:"vector"`
	Obs       []string       `json:"obs,omitempty"`
	Detail    string         `json:"detail,omitempty"`
	MapOrder  bool           `json:"map_order,omitempty"`
	Native    string         `json:"native,omitempty"`
	NativeObs []string       `json:"native_obs,omitempty"`
	Params    map[string]int `json:"params,omitempty"`
	Known     string         `json:"known,omitempty"`
}

type PathSample struct {
	Vector []uint64
	Obs    []string
	End    string // "done" | "panic: ..." | ...
}

type HarnessResult struct {
	Name         string
	Paths        int64
	PathsDone    int64
	PathsAssume  int64
	PathsPanic   int64
	Unsupported  map[string]int64
	StepsOut     int64
	Unknown      int64
	Steps        int64
	Forks        int64
	Asserts      int64
	AssertsSym   int64
	Covers       map[string]int64
	Violations   []*Violation
	Samples      []*PathSample
	Funcs        map[string]int64
	TimedOut     bool
	Wall         time.Duration
	Solver       SolverStats
	Unreproduced []*Violation
	Cuts         map[string]int64
	MaxVars      int
}

type Explorer struct {
	p         *Program
	entry     *Func
	cfg       *runCfg
	mu        sync.Mutex
	cond      *sync.Cond
	jobs      []*Job
	idle      int32
	njobs     int32
	active    int
	closed    bool
	res       *HarnessResult
	vioSeen   map[string]int
	deadline  time.Time
	stop      int32
	trackAll  bool
	forkStats map[string]int64
	fmu       sync.Mutex
	onCand    func(*Violation) int
	rng       *rand.Rand
	params    map[string]int
	pathCap   int64
}

type runCfg struct {
	workers  int
	maxSteps int64
	maxDepth int
	timeout  time.Duration
	solver   string
	solverMs int
	seed     int64
	noMerge  bool
	samples  int
	verbose  bool
}

func (ex *Explorer) noteUnknown(m *Machine) {
	ex.mu.Lock()
	ex.res.Unknown++
	ex.mu.Unlock()
}

func (ex *Explorer) noteFork(m *Machine) {
	w := m.where()
	ex.fmu.Lock()
	ex.forkStats[w]++
	ex.fmu.Unlock()
}

func (ex *Explorer) cut(name string) {
	ex.mu.Lock()
	ex.res.Cuts[name]++
	ex.mu.Unlock()
}

func (ex *Explorer) maybeDonate(m *Machine) {
	if atomic.LoadInt32(&ex.idle) == 0 || atomic.LoadInt32(&ex.njobs) > 0 {
		return
	}
	if len(m.pend) == 0 {
		return
	}
	p := m.pend[0]
	m.pend = m.pend[1:]
	pre := make([]Dec, p.traceLen+1)
	copy(pre, m.trace[:p.traceLen])
	pre[p.traceLen] = p.alt
	ex.mu.Lock()
	ex.jobs = append(ex.jobs, &Job{prefix: pre, model: p.model})
	atomic.StoreInt32(&ex.njobs, int32(len(ex.jobs)))
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) take() *Job {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	atomic.AddInt32(&ex.idle, 1)
	ex.active--
	for len(ex.jobs) == 0 && ex.active > 0 && !ex.closed {
		ex.cond.Wait()
	}
	if len(ex.jobs) == 0 || ex.closed {
		ex.closed = true
		ex.cond.Broadcast()
		return nil
	}
	j := ex.jobs[0]
	ex.jobs = ex.jobs[1:]
	atomic.StoreInt32(&ex.njobs, int32(len(ex.jobs)))
	atomic.AddInt32(&ex.idle, -1)
	ex.active++
	return j
}

func (m *Machine) vector() []uint64 {
	v := make([]uint64, m.nvars)
	for i := range v {
		if i < len(m.model) {
			v[i] = m.model[i] & maskB(m.varW[i])
		}
	}
	return v
}

// outcomes of examining a candidate
const (
	candDrop = iota
	candKnown
	candStop
)

func (ex *Explorer) violation(m *Machine, kind, msg string) {
	v := &Violation{Harness: ex.res.Name, Kind: kind, Msg: msg, Vector: m.vector(), Detail: m.where(), Obs: m.obsStrings(), MapOrder: m.mapOrderUsed, Params: ex.params}
	ex.candidate(v, kind+":"+msg)
}

func (ex *Explorer) candidate(v *Violation, key string) {
	ex.mu.Lock()
	n := ex.vioSeen[key]
	ex.mu.Unlock()
	if n >= 30 || atomic.LoadInt32(&ex.stop) != 0 || ex.onCand == nil {
		return
	}
	r := ex.onCand(v)
	ex.mu.Lock()
	defer ex.mu.Unlock()
	switch r {
	case candDrop:
		ex.vioSeen[key]++
		if len(ex.res.Unreproduced) < 20 {
			ex.res.Unreproduced = append(ex.res.Unreproduced, v)
		}
	case candKnown:
		if ex.vioSeen["known:"+v.Known]++; ex.vioSeen["known:"+v.Known] > 4000 {
			ex.vioSeen[key] = 30
		}
		if ex.vioSeen["known:"+v.Known] == 1 {
			ex.res.Violations = append(ex.res.Violations, v)
		}
	case candStop:
		ex.res.Violations = append(ex.res.Violations, v)
		ex.closed = true
		atomic.StoreInt32(&ex.stop, 1)
		ex.cond.Broadcast()
	}
}

func (ex *Explorer) uncaught(m *Machine, p *Panic) {
	msg := p.rt
	if msg == "" {
		msg = m.panicText(p.val)
	}
	atomic.AddInt64(&ex.res.PathsPanic, 1)
	v := &Violation{Harness: ex.res.Name, Kind: "panic", Msg: msg, Vector: m.vector(), Detail: p.stack, Obs: m.obsStrings(), MapOrder: m.mapOrderUsed, Params: ex.params}
	ex.candidate(v, "panic:"+firstFrames(p.stack))
}

func firstFrames(s string) string {
	parts := strings.Split(s, " < ")
	if len(parts) > 2 {
		parts = parts[:2]
	}
	return strings.Join(parts, " < ")
}

func (m *Machine) panicText(v Value) string {
	if ifc, ok := v.o.(*Iface); ok {
		if ifc.t.kind == KString {
			return "panic: " + m.valText(ifc.v, ifc.t)
		}
		if ifc.t.kind == KPtr || ifc.t.kind == KStruct {
			if a, ok := ifc.v.o.(*Agg); ok && len(a.e) > 0 {
				switch a.e[0].o.(type) {
				case string, *SymStr:
					return "panic: " + ifc.t.str + " " + m.valText(a.e[0], m.strT)
				}
			}
		}
		return "panic: value of type " + ifc.t.str
	}
	return "panic"
}

// runJob explores everything below the job's prefix.
func (m *Machine) runJob(ex *Explorer, j *Job, rootUndo int) {
	m.rollback(rootUndo)
	m.pc = m.pc[:0]
	m.truncKnown(0)
	m.fixed = varset{}
	m.pend = nil
	m.trace = m.trace[:0]
	m.prefix = j.prefix
	m.pi = 0
	m.setModel(j.model)
	m.decs = m.decs[:0]
	m.queue = nil
	m.qi = 0
	m.nvars = 0
	m.varW = m.varW[:0]
	m.steps = 0
	m.obsV = m.obsV[:0]
	m.depth = 0
	m.mapOrder = 0
	m.done = false
	m.top = nil
	m.job = j
	m.pushCall(ex.entry, nil, nil, noReg)
	for {
		before := m.steps
		if time.Now().After(ex.deadline) {
			ex.timeUp()
		}
		end := m.runPath(ex)
		atomic.AddInt64(&ex.res.Steps, m.steps-before)
		if end == "stop" || atomic.LoadInt32(&ex.stop) != 0 {
			m.pend = nil
			return
		}
		np := atomic.AddInt64(&ex.res.Paths, 1)
		if m.nvars > ex.res.MaxVars {
			ex.mu.Lock()
			if m.nvars > ex.res.MaxVars {
				ex.res.MaxVars = m.nvars
			}
			ex.mu.Unlock()
		}
		if end == "done" {
			atomic.AddInt64(&ex.res.PathsDone, 1)
		}
		if end == "done" || strings.HasPrefix(end, "panic") {
			ex.sample(m, end, np)
		}
		if len(m.pend) == 0 {
			return
		}
		p := m.pend[len(m.pend)-1]
		m.pend = m.pend[:len(m.pend)-1]
		m.resume(p)
		m.prefix = nil
		m.pi = 0
	}
}

func (ex *Explorer) sample(m *Machine, end string, np int64) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	n := len(ex.res.Samples)
	if n < ex.cfg.samples {
		ex.res.Samples = append(ex.res.Samples, &PathSample{Vector: m.vector(), Obs: m.obsStrings(), End: end})
		return
	}
	if n == 0 {
		return
	}
	k := ex.rng.Int63n(np)
	if int(k) < n {
		ex.res.Samples[k] = &PathSample{Vector: m.vector(), Obs: m.obsStrings(), End: end}
	}
}

func (m *Machine) runPath(ex *Explorer) (end string) {
	defer func() {
		if r := recover(); r != nil {
			if ab, ok := r.(engineAbort); ok {
				switch ab.kind {
				case abAssume:
					atomic.AddInt64(&ex.res.PathsAssume, 1)
					end = "assume"
				case abUnsupported:
					ex.mu.Lock()
					if len(ex.res.Unsupported) < 200 {
						ex.res.Unsupported[ab.msg]++
					} else {
						ex.res.Unsupported["(more)"]++
					}
					ex.mu.Unlock()
					end = "unsupported"
				case abSteps:
					atomic.AddInt64(&ex.res.StepsOut, 1)
					ex.violation(m, "steps", ab.msg)
					end = "steps"
				case abStop:
					end = "stop"
				case abExit:
					end = "done"
				default:
					end = "unknown"
				}
				return
			}
			fmt.Fprintf(os.Stderr, "ENGINE PANIC: %v\nat %s\n%s\n", r, m.where(), debug.Stack())
			ex.mu.Lock()
			ex.res.Unsupported[fmt.Sprintf("engine panic: %v at %s", r, m.where())]++
			ex.mu.Unlock()
			end = "unsupported"
		}
	}()
	m.panicked = false
	m.run()
	if m.panicked {
		return "panic"
	}
	return "done"
}

func newMachine(p *Program, cfg *runCfg) *Machine {
	m := &Machine{p: p, tb: newTB(), known: map[*Term]bool{}, memo: map[*Term]uint64{},
		maxSteps: cfg.maxSteps, maxDepth: cfg.maxDepth, hits: map[*Func]int64{}, epoch: 1,
		rtypes: map[*TypeInfo]*Agg{}, tables: map[*Term]*[4]uint64{}, noMerge: cfg.noMerge}
	m.rtErrT = p.rtErrT
	m.strT = p.strT
	return m
}

// explore runs one harness function to completion or deadline.
func explore(p *Program, entry *Func, name string, cfg *runCfg, params map[string]int, cache *queryCache, onCand func(*Violation) int) *HarnessResult {
	res := &HarnessResult{Name: name, Unsupported: map[string]int64{}, Covers: map[string]int64{}, Funcs: map[string]int64{}, Cuts: map[string]int64{}}
	ex := &Explorer{p: p, entry: entry, cfg: cfg, res: res, vioSeen: map[string]int{}, onCand: onCand, rng: rand.New(rand.NewSource(cfg.seed)), params: params}
	ex.cond = sync.NewCond(&ex.mu)
	if os.Getenv("VERIF_FORKS") != "" {
		ex.forkStats = map[string]int64{}
	}
	t0 := time.Now()
	ex.deadline = t0.Add(cfg.timeout)
	ex.jobs = []*Job{{}}
	ex.njobs = 1
	ex.active = cfg.workers
	var wg sync.WaitGroup
	for w := 0; w < cfg.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			m := newMachine(p, cfg)
			m.wid = w
			m.ex = ex
			m.solver = &Solver{bin: cfg.solver, timeout: cfg.solverMs, stats: &res.Solver, cache: cache, dump: solverDump, dumpMu: &solverDumpMu}
			defer m.solver.stop()
			if err := m.runInits(entry); err != "" {
				ex.mu.Lock()
				res.Unsupported["init: "+err]++
				ex.active--
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			clear(m.hits)
			rootUndo := len(m.undo)
			for {
				j := ex.take()
				if j == nil {
					break
				}
				if atomic.LoadInt32(&ex.stop) != 0 {
					continue
				}
				m.runJob(ex, j, rootUndo)
			}
			ex.mu.Lock()
			for f, n := range m.hits {
				if f.inRepo {
					res.Funcs[f.name] += n
				}
			}
			ex.mu.Unlock()
		}(w)
	}
	wg.Wait()
	res.Wall = time.Since(t0)
	if atomic.LoadInt32(&ex.stop) == 2 {
		res.TimedOut = true
	}
	if ex.forkStats != nil {
		type kv struct {
			k string
			v int64
		}
		var l []kv
		for k, v := range ex.forkStats {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i, e := range l {
			if i > 25 {
				break
			}
			fmt.Fprintf(os.Stderr, "FORK %8d %s\n", e.v, e.k)
		}
	}
	return res
}

// tick checks global limits.
func (m *Machine) tick() {
	ex := m.ex
	if atomic.LoadInt32(&ex.stop) != 0 {
		panic(engineAbort{abStop, ""})
	}
	if time.Now().After(ex.deadline) {
		ex.timeUp()
		panic(engineAbort{abStop, ""})
	}
}

func (ex *Explorer) timeUp() {
	atomic.StoreInt32(&ex.stop, 2)
	ex.mu.Lock()
	ex.closed = true
	ex.cond.Broadcast()
	ex.mu.Unlock()
}
