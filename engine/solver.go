package main

// SMT solver processes (pipe), query slicing and caching.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type satResult int8

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	bin      string
	args     []string
	timeoutM int
	curM     int // the time limit in force
	nq       int
}

type solverStats struct {
	queries, sat, unsat, unknown, cacheHits, errors, second int64
	ns                                                      int64
	maxNs                                                   int64
}

var sstats solverStats

func newSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeoutM: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatalf("solver pipe: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatalf("solver pipe: %v", err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		fatalf("starting solver %s: %v", s.bin, err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeoutM)
	s.nq = 0
	s.curM = s.timeoutM
}

func (s *Solver) restart() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func (s *Solver) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// slowMs: while developing, keep queries slower than this.
var slowMs, _ = strconv.ParseInt(os.Getenv("XTV_SLOW"), 10, 64)

// check decides the conjunction of cs; returns a model for its variables when sat. Queries with wide divisions or
// products that z3 does not settle quickly go to cvc5, which translates them to integer arithmetic.
func (s *Solver) check(cs []*Term) (satResult, Model) {
	text, vars := smtQuery(cs)
	t0 := time.Now()
	defer func() {
		d := int64(time.Since(t0))
		atomic.AddInt64(&sstats.ns, d)
		if slowMs > 0 && d > slowMs*1e6 {
			os.WriteFile(fmt.Sprintf("/tmp/slow/%d_%06d.smt2", atomic.LoadInt64(&sstats.queries), d/1e6), []byte(text), 0o644)
		}
		for {
			o := atomic.LoadInt64(&sstats.maxNs)
			if d <= o || atomic.CompareAndSwapInt64(&sstats.maxNs, o, d) {
				break
			}
		}
	}()
	atomic.AddInt64(&sstats.queries, 1)
	quick := s.timeoutM
	if strings.Contains(text, "bvsdiv") || strings.Contains(text, "bvudiv") || strings.Contains(text, "bvurem") || strings.Contains(text, "bvsrem") || strings.Contains(text, "bvmul") {
		quick = min(quick, 2000)
	}
	r, m := s.ask(text, vars, cs, quick)
	if r == resUnknown {
		if r, m = s.askInt(text, vars, cs); r == resUnknown && quick < s.timeoutM {
			r, m = s.ask(text, vars, cs, s.timeoutM)
		}
	}
	switch r {
	case resSat:
		atomic.AddInt64(&sstats.sat, 1)
	case resUnsat:
		atomic.AddInt64(&sstats.unsat, 1)
	default:
		atomic.AddInt64(&sstats.unknown, 1)
	}
	return r, m
}

// holds checks a model against the terms: a solver/printer mismatch must not pass silently.
func holds(cs []*Term, m Model) bool {
	for _, c := range cs {
		if evalTerm(c, m) == 0 {
			atomic.AddInt64(&sstats.errors, 1)
			logf("model does not satisfy query (printer/evaluator mismatch): %v", c)
			return false
		}
	}
	return true
}

func getValue(vars []*Term) string {
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(varName(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	return sb.String()
}

// askInt runs the second solver on a query.
func (s *Solver) askInt(text string, vars []*Term, cs []*Term) (satResult, Model) {
	in := "(set-logic QF_BV)\n" + text + "(check-sat)\n"
	if len(vars) > 0 {
		in += getValue(vars)
	}
	for _, mode := range []string{"--solve-bv-as-int=sum", "--bv-solver=bitblast"} {
		c := exec.Command("cvc5", "--produce-models", mode, fmt.Sprintf("--tlimit=%d", s.timeoutM))
		c.Stdin = strings.NewReader(in)
		out, _ := c.Output()
		res, rest, _ := strings.Cut(string(out), "\n")
		switch strings.TrimSpace(res) {
		case "unsat":
			atomic.AddInt64(&sstats.second, 1)
			return resUnsat, nil
		case "sat":
			m := Model{}
			parseModel(rest, m)
			if holds(cs, m) {
				atomic.AddInt64(&sstats.second, 1)
				return resSat, m
			}
		}
	}
	return resUnknown, nil
}

// ask runs the incremental solver on a query.
func (s *Solver) ask(text string, vars []*Term, cs []*Term, timeoutM int) (satResult, Model) {
	s.nq++
	if s.nq > 20000 {
		s.restart()
	}
	var sb strings.Builder
	if timeoutM != s.curM {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeoutM)
		s.curM = timeoutM
	}
	sb.WriteString("(push 1)\n")
	sb.WriteString(text)
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.restart()
		atomic.AddInt64(&sstats.errors, 1)
		return resUnknown, nil
	}
	line, err := s.readLine()
	if err != nil || strings.HasPrefix(line, "(error") {
		atomic.AddInt64(&sstats.errors, 1)
		logf("solver error: %v %s", err, line)
		s.restart()
		return resUnknown, nil
	}
	switch line {
	case "unsat":
		io.WriteString(s.in, "(pop 1)\n")
		return resUnsat, nil
	case "sat":
		m := Model{}
		if len(vars) > 0 {
			io.WriteString(s.in, getValue(vars)+"(pop 1)\n")
			txt, err := s.readSexp()
			if err != nil || strings.HasPrefix(txt, "(error") {
				atomic.AddInt64(&sstats.errors, 1)
				s.restart()
				return resUnknown, nil
			}
			parseModel(txt, m)
		} else {
			io.WriteString(s.in, "(pop 1)\n")
		}
		if !holds(cs, m) {
			return resUnknown, nil
		}
		return resSat, m
	}
	s.restart()
	return resUnknown, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return l, err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

func parseModel(txt string, m Model) {
	// ((v0_8 #x41) (v1_0 true) ...)
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); {
		if !strings.HasPrefix(f[i], "v") {
			i++
			continue
		}
		name := f[i][1:]
		k := strings.IndexByte(name, '_')
		idx, err := strconv.Atoi(name[:k])
		if err != nil {
			i++
			continue
		}
		val := f[i+1]
		var x uint64
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			x, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			x, _ = strconv.ParseUint(val[2:], 2, 64)
		case val == "_":
			// (_ bvN w)
			x, _ = strconv.ParseUint(strings.TrimPrefix(f[i+2], "bv"), 10, 64)
		}
		m[int32(idx)] = x
		i += 2
	}
}

// Global query cache: key = sorted term ids of the slice.
type cacheEnt struct {
	res satResult
	m   Model
}

const nCache = 64

var qcache [nCache]struct {
	mu sync.Mutex
	m  map[string]cacheEnt
}

func init() {
	for i := range qcache {
		qcache[i].m = map[string]cacheEnt{}
	}
}

func cacheKey(cs []*Term) (string, int) {
	ids := make([]uint32, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	buf := make([]byte, 0, len(ids)*4)
	h := uint32(2166136261)
	var last uint32
	for _, id := range ids {
		if id == last {
			continue
		}
		last = id
		buf = append(buf, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
		h = (h ^ id) * 16777619
	}
	return string(buf), int(h>>8) % nCache
}

func (s *Solver) checkCached(cs []*Term) (satResult, Model) {
	for _, c := range cs {
		if c == tFalse {
			return resUnsat, nil
		}
	}
	key, sh := cacheKey(cs)
	q := &qcache[sh]
	q.mu.Lock()
	e, ok := q.m[key]
	q.mu.Unlock()
	if ok {
		atomic.AddInt64(&sstats.cacheHits, 1)
		return e.res, e.m
	}
	r, m := s.check(cs)
	q.mu.Lock()
	q.m[key] = cacheEnt{r, m}
	q.mu.Unlock()
	return r, m
}
