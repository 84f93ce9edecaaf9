package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type satRes uint8

const (
	resUnknown satRes = iota
	resSat
	resUnsat
)

type cacheEnt struct {
	res   satRes
	model []uint64 // canonical order
}

// queryCache is shared by all workers (keys are canonical SMT text).
type queryCache struct {
	mu sync.RWMutex
	m  map[string]*cacheEnt
}

type SolverStats struct {
	queries   int64 // queries decided by the SMT solver process
	cacheHits int64
	unknown   int64
	nanos     int64
	sat       int64
	unsat     int64
	errs      int64
	xchecks   int64 // byte-domain decisions confirmed by the SMT solver
	tables    int64 // single-byte queries decided by exact truth table
}

// noPresolve sends every query, including single-byte ones, to the SMT solver.
var noPresolve = os.Getenv("VERIF_NOPRESOLVE") != ""

// truth returns the exact 256-entry truth table of a term over one byte variable.
func (m *Machine) truth(c *Term, vi int) *[4]uint64 {
	if t := m.tables[c]; t != nil {
		return t
	}
	t := &[4]uint64{}
	w := m.tb.vars[vi].w
	n := 2
	if w > 0 {
		n = 1 << w
	}
	model := make([]uint64, vi+1)
	memo := map[*Term]uint64{}
	for v := 0; v < n; v++ {
		model[vi] = uint64(v)
		clear(memo)
		if m.tb.Eval(c, model, memo) != 0 {
			t[v>>6] |= 1 << (v & 63)
		}
	}
	m.tables[c] = t
	return t
}

// Solver drives one SMT solver process over a pipe.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	w       *bufio.Writer
	out     *bufio.Reader
	bin     string
	timeout int // ms
	stats   *SolverStats
	cache   *queryCache
	n       int
	dump    io.Writer // optional log of queries with verdicts, for cross-checking
	dumpMu  *sync.Mutex
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--tlimit-per=" + strconv.Itoa(s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatal("solver start: %v", err)
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.w, "(set-option :produce-models true)\n")
	if !strings.Contains(s.bin, "cvc5") {
		fmt.Fprintf(s.w, "(set-option :timeout %d)\n", s.timeout)
	}
	fmt.Fprintf(s.w, "(set-logic QF_BV)\n")
	s.n = 0
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if c == '(' {
			depth++
		}
		if depth > 0 {
			sb.WriteByte(c)
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// ask decides the satisfiability of the given canonical query text over nv variables.
func (s *Solver) ask(text string, nv int) *cacheEnt {
	s.cache.mu.RLock()
	e := s.cache.m[text]
	s.cache.mu.RUnlock()
	if e != nil {
		atomic.AddInt64(&s.stats.cacheHits, 1)
		return e
	}
	if s.cmd == nil || s.n > 20000 {
		s.stop()
		s.start()
	}
	s.n++
	t0 := time.Now()
	e = s.askRaw(text, nv)
	dt := time.Since(t0)
	if dt > time.Second && os.Getenv("VERIF_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "SLOW %v res=%d\n%s\n", dt, e.res, text)
	}
	atomic.AddInt64(&s.stats.nanos, int64(dt))
	atomic.AddInt64(&s.stats.queries, 1)
	switch e.res {
	case resSat:
		atomic.AddInt64(&s.stats.sat, 1)
	case resUnsat:
		atomic.AddInt64(&s.stats.unsat, 1)
	default:
		atomic.AddInt64(&s.stats.unknown, 1)
	}
	if s.dump != nil {
		s.dumpMu.Lock()
		fmt.Fprintf(s.dump, "%s(verdict %d)\n;;;;\n", text, e.res)
		s.dumpMu.Unlock()
	}
	s.cache.mu.Lock()
	s.cache.m[text] = e
	s.cache.mu.Unlock()
	return e
}

func (s *Solver) askRaw(text string, nv int) *cacheEnt {
	s.w.WriteString("(push 1)\n")
	s.w.WriteString(text)
	s.w.WriteString("(check-sat)\n")
	s.w.Flush()
	l, err := s.readLine()
	if err != nil || strings.HasPrefix(l, "(error") {
		atomic.AddInt64(&s.stats.errs, 1)
		fmt.Fprintf(os.Stderr, "solver error: %v %s\n", err, l)
		s.stop()
		return &cacheEnt{res: resUnknown}
	}
	e := &cacheEnt{}
	switch l {
	case "sat":
		e.res = resSat
		e.model = make([]uint64, nv)
		if nv > 0 {
			s.w.WriteString("(get-value (")
			for i := 0; i < nv; i++ {
				s.w.WriteString(" v" + strconv.Itoa(i))
			}
			s.w.WriteString("))\n")
			s.w.Flush()
			sx, err := s.readSexp()
			if err != nil || strings.HasPrefix(sx, "(error") {
				atomic.AddInt64(&s.stats.errs, 1)
				s.stop()
				return &cacheEnt{res: resUnknown}
			}
			parseModel(sx, e.model)
		}
	case "unsat":
		e.res = resUnsat
	default:
		e.res = resUnknown
	}
	s.w.WriteString("(pop 1)\n")
	return e
}

func parseModel(sx string, model []uint64) {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(sx))
	for i := 0; i < len(toks); i++ {
		if toks[i][0] == 'v' && i+1 < len(toks) {
			idx, err := strconv.Atoi(toks[i][1:])
			if err != nil || idx >= len(model) {
				continue
			}
			v := toks[i+1]
			switch {
			case v == "true":
				model[idx] = 1
			case v == "false":
				model[idx] = 0
			case strings.HasPrefix(v, "#x"):
				model[idx], _ = strconv.ParseUint(v[2:], 16, 64)
			case strings.HasPrefix(v, "#b"):
				model[idx], _ = strconv.ParseUint(v[2:], 2, 64)
			case v == "(":
				// (_ bvN w)
				if i+3 < len(toks) && strings.HasPrefix(toks[i+3], "bv") {
					model[idx], _ = strconv.ParseUint(toks[i+3][2:], 10, 64)
				}
			}
		}
	}
}

// check decides satisfiability of pc-slice ∧ extra; on sat returns a full
// model derived from base (variables outside the slice keep base values).
func (m *Machine) check(extra *Term, base []uint64) (satRes, []uint64) {
	if extra.isConst() {
		if extra.k == 0 {
			return resUnsat, nil
		}
		return resSat, base
	}
	vs := extra.vars
	used := m.sliceBuf[:0]
	n := len(m.pc)
	if cap(m.sliceMark) < n {
		m.sliceMark = make([]bool, n*2+64)
	}
	mark := m.sliceMark[:n]
	for i := range mark {
		mark[i] = false
	}
	if !noPresolve {
		m.domStamp++
		if vs.single() < 0 && m.satisfied(m.tb.Not(extra)) {
			atomic.AddInt64(&m.solver.stats.tables, 1)
			m.xcnt++
			if m.xcnt%xcheckEvery == 0 {
				m.crossCheck(append(append([]*Term{}, m.pc...), extra), false)
			}
			return resUnsat, nil
		}
		for i, c := range m.pc {
			if c.vars.single() < 0 && m.satisfied(c) {
				mark[i] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i, c := range m.pc {
			if !mark[i] && c.vars.intersects(&vs) {
				mark[i] = true
				old := vs
				vs.or(&c.vars)
				if vs != old {
					changed = true
				}
			}
		}
	}
	for i, c := range m.pc {
		if mark[i] && c.vars.intersects(&vs) && !(m.domStamp > 0 && c.vars.single() < 0 && m.satisfied(c)) {
			used = append(used, c)
		}
	}
	used = append(used, extra)
	m.sliceBuf = used
	if !noPresolve {
		if vi := vs.single(); vi >= 0 && m.tb.vars[vi].w <= 8 {
			atomic.AddInt64(&m.solver.stats.tables, 1)
			dom := [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
			for _, c := range used {
				t := m.truth(c, vi)
				for k := range dom {
					dom[k] &= t[k]
				}
			}
			m.xcnt++
			if m.xcnt%xcheckEvery == 0 {
				m.crossCheck(used, dom != [4]uint64{})
			}
			if dom == [4]uint64{} {
				return resUnsat, nil
			}
			nm := make([]uint64, maxInt(len(base), len(m.tb.vars)))
			copy(nm, base)
			for k := 0; k < 256; k++ {
				v := (k + 'a') & 255
				if dom[v>>6]>>(v&63)&1 != 0 {
					nm[vi] = uint64(v)
					break
				}
			}
			return resSat, nm
		}
	}
	if m.ex != nil {
		m.tick()
	}
	text, order := m.tb.smtText(used)
	e := m.solver.ask(text, len(order))
	if e.res != resSat {
		return e.res, nil
	}
	nm := make([]uint64, maxInt(len(base), len(m.tb.vars)))
	copy(nm, base)
	for i, vi := range order {
		nm[vi] = e.model[i]
	}
	return resSat, nm
}

// xcheckEvery: one in this many byte-domain decisions is also put to the SMT
// solver; a disagreement is an internal error.
const xcheckEvery = 499

func (m *Machine) crossCheck(used []*Term, sat bool) {
	text, order := m.tb.smtText(used)
	e := m.solver.ask(text, len(order))
	if e.res == resUnknown {
		return
	}
	atomic.AddInt64(&m.solver.stats.xchecks, 1)
	if (e.res == resSat) != sat {
		fatal("byte-domain decision contradicts the SMT solver:\n%s", text)
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// domain returns the exact value set of byte variable vi under the
// single-variable path constraints.
func (m *Machine) domain(vi int) *[4]uint64 {
	for len(m.domC) <= vi {
		m.domC = append(m.domC, domEnt{})
	}
	e := &m.domC[vi]
	if e.stamp == m.domStamp {
		return &e.dom
	}
	e.stamp = m.domStamp
	e.dom = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	if vi >= len(m.varW) || m.varW[vi] > 8 {
		return &e.dom
	}
	for _, c := range m.pc {
		if c.vars.single() == vi {
			t := m.truth(c, vi)
			for k := range e.dom {
				e.dom[k] &= t[k]
			}
		}
	}
	return &e.dom
}

type domEnt struct {
	stamp int64
	dom   [4]uint64
}

// satisfied reports whether a disjunction is already implied by the domain of
// one of its byte-variable disjuncts.
func (m *Machine) satisfied(c *Term) bool {
	switch c.op {
	case OBOr:
		return m.satisfied(c.a) || m.satisfied(c.b)
	case OBAnd:
		return m.satisfied(c.a) && m.satisfied(c.b)
	case OBNot:
		if c.a.op == OBAnd {
			return m.satisfied(m.tb.Not(c.a.a)) || m.satisfied(m.tb.Not(c.a.b))
		}
		if c.a.op == OBOr {
			return m.satisfied(m.tb.Not(c.a.a)) && m.satisfied(m.tb.Not(c.a.b))
		}
	}
	vi := c.vars.single()
	if vi < 0 || vi >= len(m.varW) || m.varW[vi] > 8 {
		return false
	}
	d := m.domain(vi)
	t := m.truth(c, vi)
	for k := range d {
		if d[k]&^t[k] != 0 {
			return false
		}
	}
	return true
}
