package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const repoModule = "github.com/google/xtoproto"

var verbose = os.Getenv("XTV_VERBOSE") != ""

func logf(f string, a ...any) { fmt.Fprintf(os.Stderr, "[xtv] "+f+"\n", a...) }
func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "[xtv] FATAL "+f+"\n", a...)
	os.Exit(3)
}

type item struct {
	prefix []int32
	model  Model
}

type Cex struct {
	Harness string   `json:"harness"`
	Kind    string   `json:"kind"` // assert, panic, known, hang
	ID      string   `json:"id"`
	Msg     string   `json:"msg"`
	In      []uint64 `json:"in"`
}

type valSample struct {
	in  []uint64
	obs []string
}

type Engine struct {
	prog     *ssa.Program
	harness  *Harness
	params   map[string]int
	entry    *CFn
	maxSteps int64
	maxDepth int
	maxConc  int
	nworkers int
	deadline time.Time
	seed     int64

	mu       sync.Mutex
	cond     *sync.Cond
	stack    []*item
	active   int
	stopping bool

	paths      map[string]int64 // by status
	reasons    map[string]int64
	reached    map[string]int64
	asserts    int64
	assertQ    int64
	cexs       map[string][]Cex
	unkTerms   int64
	samples    []valSample
	nsamp      int64
	incModels  []valSample // models of inconclusive paths, for native fallback
	forks      int64
	merges     int64
	instr      int64
	fnHits     map[*CFn]int64
	notes      map[string]bool
	maxPaths   int64
	done       int64
	pendingEnd int
	exampleOK  []string
	stopOnCex  bool
	sampleCap  int
	rng        *rand.Rand
	rtErr      *RT
	maxPC      int
}

func (e *Engine) rtErrType() *RT {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.rtErr == nil {
		p := e.prog.ImportedPackage("runtime")
		e.rtErr = rtOf(p.Pkg.Scope().Lookup("errorString").Type())
	}
	return e.rtErr
}

func (e *Engine) noteOnce(s string) {
	e.mu.Lock()
	if !e.notes[s] {
		e.notes[s] = true
		logf("note: %s", s)
	}
	e.mu.Unlock()
}

func (e *Engine) addUnknown(w *worker, t *Term) { atomic.AddInt64(&e.unkTerms, 1) }

func (e *Engine) push(it *item) {
	e.mu.Lock()
	e.stack = append(e.stack, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) pop(w *worker) *item {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopping {
			return nil
		}
		if time.Now().After(e.deadline) || (e.maxPaths > 0 && e.done >= e.maxPaths) {
			e.stopping = true
			e.pendingEnd = len(e.stack)
			e.cond.Broadcast()
			return nil
		}
		if n := len(e.stack); n > 0 {
			k := n - 1
			// half of the workers pick at random so that a run cut short by its budget is not confined to one corner
			if w.id%2 == 1 && n > 8 {
				k = w.rng.Intn(n)
			}
			it := e.stack[k]
			e.stack[k] = e.stack[n-1]
			e.stack[n-1] = nil
			e.stack = e.stack[:n-1]
			e.active++
			return it
		}
		if e.active == 0 {
			e.stopping = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func newEngine(prog *ssa.Program, h *Harness, params map[string]int, budget time.Duration, seed int64, nworkers int) *Engine {
	e := &Engine{prog: prog, harness: h, params: params, maxSteps: 2_000_000, maxDepth: 2000, maxConc: 300, nworkers: nworkers,
		deadline: time.Now().Add(budget), seed: seed, paths: map[string]int64{}, reasons: map[string]int64{}, reached: map[string]int64{},
		cexs: map[string][]Cex{}, fnHits: map[*CFn]int64{}, notes: map[string]bool{}, sampleCap: 400, rng: rand.New(rand.NewSource(seed)), stopOnCex: true}
	e.cond = sync.NewCond(&e.mu)
	if h.MaxSteps > 0 {
		e.maxSteps = h.MaxSteps
	}
	if h.MaxConc > 0 {
		e.maxConc = h.MaxConc
	}
	return e
}

func (e *Engine) run(entry *ssa.Function) {
	e.entry = cfnOf(entry)
	e.stack = []*item{{model: Model{}}}
	var wg sync.WaitGroup
	// a ticker wakes waiting workers so that the deadline is noticed
	tick := time.NewTicker(200 * time.Millisecond)
	stopTick := make(chan bool)
	go func() {
		for {
			select {
			case <-tick.C:
				e.cond.Broadcast()
			case <-stopTick:
				return
			}
		}
	}()
	for i := 0; i < e.nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &worker{id: i, eng: e, rng: rand.New(rand.NewSource(e.seed + int64(i)*7919)), globals: map[*ssa.Global]*V{}, inited: map[*ssa.Package]bool{}, fnHits: map[*CFn]int64{}}
			w.solver = newSolver(solverBin, e.harness.queryTimeout())
			defer w.solver.close()
			for {
				it := e.pop(w)
				if it == nil {
					break
				}
				w.runPath(it)
				e.mu.Lock()
				e.active--
				e.done++
				e.mu.Unlock()
				e.cond.Broadcast()
			}
			e.mu.Lock()
			e.forks += w.forks
			e.merges += w.merges
			e.instr += w.instr
			for f, n := range w.fnHits {
				e.fnHits[f] += n
			}
			e.mu.Unlock()
		}(i)
	}
	wg.Wait()
	close(stopTick)
	tick.Stop()
}

func (w *worker) runPath(it *item) {
	w.prefix = append([]int32(nil), it.prefix...)
	w.pos = 0
	w.taken = w.taken[:0]
	w.pc = w.pc[:0]
	w.pcIDs = map[uint32]bool{}
	w.known = map[uint32]uint64{}
	if w.pureFail == nil {
		w.pureFail = map[*cblock]int{}
	}
	clear(w.pureFail)
	w.model = it.model
	w.nvars = 0
	w.varW = w.varW[:0]
	w.draws = w.draws[:0]
	w.obsv = w.obsv[:0]
	w.reached = map[string]bool{}
	w.steps, w.depth, w.pure, w.calls = 0, 0, 0, 0
	w.stackFn = w.stackFn[:0]
	w.mapPerm = false
	w.nat = map[string]any{}
	w.sched = nil
	w.initing = 0
	status, msg := "ok", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					status, msg = x.status, x.msg
				case targetPanic:
					status = "panic"
					msg = w.panicText(x)
				case mergeFail:
					status, msg = "internal", "mergeFail escaped"
				default:
					status = "internal"
					msg = fmt.Sprintf("engine panic: %v%s", r, w.where())
					if verbose {
						panic(r)
					}
				}
			}
		}()
		w.initGenerated()
		w.runMain(w.eng.entry)
	}()
	w.killCoros()
	w.finish(status, msg)
	w.rollback()
}

func (w *worker) panicText(x targetPanic) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic" + x.where
		}
	}()
	return "panic: " + w.showV(x.v) + x.where
}

// showV renders a value for messages (concrete parts only).
func (w *worker) showV(v V) string {
	switch x := v.p.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case *Iface:
		if x.t.T.Underlying() == types.Typ[types.String] || isString(x.t.T) {
			if s, ok := concreteStr(x.v); ok {
				return s
			}
		}
		if hasMethod(x.t, "Error") {
			savedPure := w.pure
			defer func() { w.pure = savedPure }()
			r := w.callMethod(x, "Error")
			b := strBytes(r)
			out := make([]byte, len(b))
			for i := range b {
				if t, ok := b[i].p.(*Term); ok {
					out[i] = byte(evalTerm(t, w.model))
				} else {
					out[i] = byte(b[i].n)
				}
			}
			return string(out)
		}
		return x.t.String()
	case string:
		return x
	}
	return fmt.Sprintf("%T", v.p)
}

func (w *worker) evalV(v V) uint64 {
	if t, ok := v.p.(*Term); ok {
		return evalTerm(t, w.model)
	}
	return v.n
}

func (w *worker) inputs(m Model) []uint64 {
	out := make([]uint64, len(w.draws))
	for i, d := range w.draws {
		if t, ok := d.v.p.(*Term); ok {
			x := evalTerm(t, m)
			if t.w > 0 {
				x = uint64(sext(x, t.w))
			}
			if d.kind == "u" {
				x = evalTerm(t, m)
			}
			out[i] = x
		} else {
			out[i] = d.v.n
		}
	}
	return out
}

func (w *worker) evalStr(v V) string {
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		out[i] = byte(w.evalV(b[i]))
	}
	return string(out)
}

func (w *worker) obsText() []string {
	var out []string
	for _, o := range w.obsv {
		if o.w == 255 {
			out = append(out, fmt.Sprintf("%s=%q", o.label, w.evalStr(o.v)))
		} else {
			x := w.evalV(o.v)
			if o.w > 0 {
				x = uint64(sext(x, o.w))
			}
			out = append(out, fmt.Sprintf("%s=%d", o.label, int64(x)))
		}
	}
	return out
}

func (w *worker) finish(status, msg string) {
	e := w.eng
	if w.pos < len(w.prefix) && status != "infeasible" {
		status, msg = "internal", "replay ended before its prefix did ("+status+")"
	}
	switch status {
	case "ok", "panic":
		for _, t := range w.pc {
			if evalTerm(t, w.model) == 0 {
				status, msg = "internal", "the path model does not satisfy the path condition ("+status+" "+msg+")"
				break
			}
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(w.pc) > e.maxPC {
		e.maxPC = len(w.pc)
	}
	e.paths[status]++
	switch status {
	case "ok":
		e.asserts += int64(w.asserts)
		for l := range w.reached {
			e.reached[l]++
		}
		e.nsamp++
		if len(e.samples) < e.sampleCap {
			e.samples = append(e.samples, valSample{w.inputs(w.model), w.obsText()})
		} else if k := e.rng.Int63n(e.nsamp); k < int64(e.sampleCap) {
			e.samples[k] = valSample{w.inputs(w.model), w.obsText()}
		}
	case "infeasible", "violation":
		for l := range w.reached {
			e.reached[l]++
		}
	case "panic":
		id := "no-panic"
		key := msg
		if k := strings.IndexByte(key, '\n'); k > 0 {
			key = key[:k]
		}
		e.addCexLocked(Cex{e.harness.Name(), "panic", id, msg, w.inputs(w.model)}, "panic "+panicKey(msg))
	default:
		if len(msg) > 300 {
			msg = msg[:300]
		}
		e.reasons[status+": "+msg]++
		if len(e.incModels) < 200 {
			e.incModels = append(e.incModels, valSample{in: w.inputs(w.model)})
		}
	}
	w.asserts = 0
}

func panicKey(msg string) string {
	if k := strings.Index(msg, " < "); k >= 0 {
		rest := msg[k+3:]
		if j := strings.Index(rest, " < "); j >= 0 {
			rest = rest[:j]
		}
		return rest
	}
	return "?"
}

func (e *Engine) addCexLocked(c Cex, key string) {
	l := e.cexs[key]
	if len(l) < 12 {
		e.cexs[key] = append(l, c)
	} else if k := e.rng.Intn(200); k < 12 {
		l[k] = c
	}
	if e.stopOnCex && c.Kind != "known" {
		tot := 0
		for k, l := range e.cexs {
			if !strings.HasPrefix(k, "known") {
				tot += len(l)
			}
		}
		if tot >= 24 && !e.stopping {
			e.stopping = true
			e.pendingEnd = len(e.stack)
			e.cond.Broadcast()
		}
	}
}

func (e *Engine) complete() bool {
	if e.pendingEnd > 0 || e.unkTerms > 0 {
		return false
	}
	for st, n := range e.paths {
		switch st {
		case "ok", "infeasible", "violation", "panic":
		default:
			if n > 0 {
				return false
			}
		}
	}
	return true
}

func (e *Engine) summary() string {
	var ks []string
	for k, n := range e.paths {
		ks = append(ks, fmt.Sprintf("%s:%d", k, n))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}
