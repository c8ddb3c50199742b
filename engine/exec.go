package main

// Symbolic execution of compiled functions.

import (
	"fmt"
	"go/types"
	"math/bits"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	w         *worker
	fn        *CFn
	r         []V
	defers    []deferred
	caller    *frame
	panicking bool
	panicV    any
	result    V
	next      int
	done      bool
}

type deferred struct {
	f    V
	args []V
}

// targetPanic is a panic of the program under test.
type targetPanic struct {
	v     V // interface value
	where string
}

// pathEnd aborts the current path.
type pathEnd struct {
	status string // ok, infeasible, unsupported, steps, unknown, violation
	msg    string
}

type mergeFail struct{}

type jent struct {
	addr *V
	old  V
	undo func()
}

type draw struct {
	kind string
	v    V
	w    uint8
}

type obs struct {
	label string
	v     V
	w     uint8 // 255 = string
}

type worker struct {
	id      int
	eng     *Engine
	solver  *Solver
	rng     *rand.Rand
	globals map[*ssa.Global]*V
	inited  map[*ssa.Package]bool
	initing int
	nat     map[string]any // per-path native state (reset per path)

	journal []jent
	pure    int

	// path state
	prefix   []int32
	pos      int
	taken    []int32
	pc       []*Term
	pcIDs    map[uint32]bool
	known    map[uint32]uint64
	model    Model
	nvars    int
	varW     []uint8
	draws    []draw
	obsv     []obs
	reached  map[string]bool
	steps    int64
	calls    int64
	depth    int
	stackFn  []string
	asserts  int
	pureFail map[*cblock]int

	mapPerm bool
	sched   *sched
	curG    int
	clockLo *Term
	// counters
	forks  int64
	merges int64
	instr  int64
	fnHits map[*CFn]int64
}

func (w *worker) unsupported(f string, a ...any) {
	if w.pure > 0 {
		panic(mergeFail{})
	}
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...)})
}

func (w *worker) rtPanic(msg string) {
	if w.pure > 0 {
		panic(mergeFail{})
	}
	panic(targetPanic{v: V{p: &Iface{w.eng.rtErrType(), vStr(msg)}}, where: w.where()})
}

func (w *worker) where() string {
	n := len(w.stackFn)
	lo := n - 8
	if lo < 0 {
		lo = 0
	}
	out := ""
	for i := n - 1; i >= lo; i-- {
		out += " < " + w.stackFn[i]
	}
	return out
}

// ---- memory ----

func (w *worker) setCell(c *V, v V) {
	if w.pure > 0 {
		panic(mergeFail{})
	}
	if w.initing == 0 {
		w.journal = append(w.journal, jent{addr: c, old: *c})
	}
	*c = v
}

func (w *worker) undoable(f func()) {
	if w.pure > 0 {
		panic(mergeFail{})
	}
	if w.initing == 0 {
		w.journal = append(w.journal, jent{undo: f})
	}
}

func (w *worker) rollback() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		j := &w.journal[i]
		if j.undo != nil {
			j.undo()
		} else {
			*j.addr = j.old
		}
	}
	clear(w.journal)
	w.journal = w.journal[:0]
}

type SymPtr struct {
	arr []V
	idx *Term
	w   uint8
}

func allScalar(a []V) bool {
	for i := range a {
		if a[i].p != nil {
			if _, ok := a[i].p.(*Term); !ok {
				return false
			}
		}
	}
	return true
}

// tableRead builds an ITE over the elements.
func tableRead(arr []V, idx *Term, ew uint8) *Term {
	n := len(arr)
	if n == 0 {
		return tConst(0, ew)
	}
	// binary split on the index, merging equal neighbours
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return arr[lo].term(ew)
		}
		same := true
		f := arr[lo].term(ew)
		for i := lo + 1; i < hi; i++ {
			if arr[i].term(ew) != f {
				same = false
				break
			}
		}
		if same {
			return f
		}
		mid := (lo + hi) / 2
		return tIte(tUlt(idx, tConst(uint64(mid), idx.w)), rec(lo, mid), rec(mid, hi))
	}
	if idx.w < 16 && n > 1<<idx.w {
		n = 1 << idx.w
	}
	if n > 4 {
		conc := true
		for i := 0; i < n && conc; i++ {
			conc = arr[i].p == nil
		}
		if conc {
			keys, vals := make([]uint64, n), make([]uint64, n)
			for i := range keys {
				keys[i], vals[i] = uint64(i), arr[i].n&mask(ew)
			}
			return constTable(keys, vals, idx, ew)
		}
	}
	return rec(0, n)
}

// constTable gives the value for index k of a table with sorted keys, assuming that k is one of the keys.
func constTable(keys, vals []uint64, k *Term, ew uint8) *Term {
	n := len(keys)
	// a full table whose values depend only on some of the index bits (low or high ones)
	if n >= 4 && n&(n-1) == 0 && keys[0] == 0 && keys[n-1] == uint64(n-1) {
		bits := 0
		for 1<<bits < n {
			bits++
		}
		dep := 0
		for b := 0; b < bits; b++ {
			for i := 0; i < n; i++ {
				if vals[i] != vals[i^(1<<b)] {
					dep |= 1 << b
					break
				}
			}
		}
		lo := 0
		for lo < bits && dep>>lo&1 == 0 {
			lo++
		}
		hi := bits
		for hi > lo && dep>>(hi-1)&1 == 0 {
			hi--
		}
		if dep == 0 {
			return tConst(vals[0], ew)
		}
		if hi-lo < bits {
			m := 1 << (hi - lo)
			k2, v2 := make([]uint64, m), make([]uint64, m)
			for i := range k2 {
				k2[i], v2[i] = uint64(i), vals[i<<lo]
			}
			return constTable2(k2, v2, tZExt(tExtract(k, uint8(lo), uint8(hi-lo)), k.w), ew)
		}
	}
	return constTable2(keys, vals, k, ew)
}

func constTable2(keys, vals []uint64, k *Term, ew uint8) *Term {
	type run struct {
		key   uint64
		c     uint64
		slope bool
	}
	m := mask(ew)
	var rs []run
	for i := 0; i < len(keys); {
		j := i
		for j+1 < len(keys) && vals[j+1] == vals[i] {
			j++
		}
		r := run{keys[i], vals[i], false}
		if ew != 0 && j == i {
			l := i
			for l+1 < len(keys) && vals[l+1]-keys[l+1]&m == vals[i]-keys[i]&m && (vals[l+1]-vals[i])&m == (keys[l+1]-keys[i])&m {
				l++
			}
			if l > i+1 {
				r, j = run{keys[i], (vals[i] - keys[i]) & m, true}, l
			}
		}
		rs = append(rs, r)
		i = j + 1
	}
	var kx *Term
	var rec func(a, b int) *Term
	rec = func(a, b int) *Term {
		if b-a == 1 {
			if !rs[a].slope {
				return tConst(rs[a].c, ew)
			}
			if kx == nil {
				if k.w >= ew {
					kx = tTrunc(k, ew)
				} else {
					kx = tZExt(k, ew)
				}
			}
			return tAdd(kx, tConst(rs[a].c, ew))
		}
		mid := (a + b) / 2
		return tIte(tUlt(k, tConst(rs[mid].key, k.w)), rec(a, mid), rec(mid, b))
	}
	return rec(0, len(rs))
}

func (w *worker) load(p V) V {
	switch c := p.p.(type) {
	case *V:
		return copyV(*c)
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		return vTerm(tableRead(c.arr, c.idx, c.w))
	}
	w.unsupported("load through %T", p.p)
	return V{}
}

func (w *worker) store(p, v V) {
	switch c := p.p.(type) {
	case *V:
		w.storeCell(c, v)
		return
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		for i := range c.arr {
			if uint64(i) > mask(c.idx.w) {
				break
			}
			old := c.arr[i].term(c.w)
			nw := tIte(tEq(c.idx, tConst(uint64(i), c.idx.w)), v.term(c.w), old)
			if nw != old {
				w.setCell(&c.arr[i], vTerm(nw))
			}
		}
		return
	}
	w.unsupported("store through %T", p.p)
}

func (w *worker) storeCell(c *V, v V) {
	if na, ok := v.p.(*Agg); ok {
		if oa, ok := c.p.(*Agg); ok && len(oa.f) == len(na.f) {
			if oa == na {
				return
			}
			for i := range na.f {
				w.storeCell(&oa.f[i], na.f[i])
			}
			return
		}
		w.setCell(c, copyV(v))
		return
	}
	w.setCell(c, v)
}

func (w *worker) global(g *ssa.Global) *V {
	if c, ok := w.globals[g]; ok {
		return c
	}
	if g.Pkg != nil && !w.inited[g.Pkg] {
		w.runInit(g.Pkg)
		if c, ok := w.globals[g]; ok {
			return c
		}
	}
	c := new(V)
	*c = zero(g.Type().(*types.Pointer).Elem())
	w.globals[g] = c
	return c
}

// initOS sets the error variables of package os, whose init is not run.
func (w *worker) initOS(p *ssa.Package) {
	src := p.Prog.ImportedPackage("internal/oserror")
	if src == nil {
		return
	}
	for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
		g, _ := p.Members[n].(*ssa.Global)
		s, _ := src.Members[n].(*ssa.Global)
		if g != nil && s != nil {
			c := new(V)
			*c = *w.global(s)
			w.globals[g] = c
		}
	}
}

func (w *worker) runInit(p *ssa.Package) {
	w.inited[p] = true
	if noInit[p.Pkg.Path()] {
		if p.Pkg.Path() == "os" {
			w.initOS(p)
		}
		return
	}
	p.Build()
	f := p.Func("init")
	if f == nil {
		return
	}
	savedPure, savedSteps := w.pure, w.steps
	w.pure = 0
	w.initing++
	savedStack := w.stackFn
	defer func() {
		w.initing--
		w.pure = savedPure
		w.steps = savedSteps
		w.stackFn = savedStack
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				w.eng.noteOnce("init of " + p.Pkg.Path() + ": " + x.status + " " + x.msg)
				panic(pathEnd{"unsupported", "package init " + p.Pkg.Path() + ": " + x.msg})
			case targetPanic:
				w.eng.noteOnce("init of " + p.Pkg.Path() + " panicked: " + w.showV(x.v) + x.where)
				panic(pathEnd{"unsupported", "package init " + p.Pkg.Path() + " panicked"})
			}
			panic(r)
		}
	}()
	w.callCFn(cfnOf(f), nil, nil, nil)
}

// ---- calls ----

func (w *worker) callV(f V, args []V, caller *frame) V {
	switch c := f.p.(type) {
	case *Closure:
		return w.callCFn(c.fn, args, c.env, caller)
	case *boundRecv:
		args[0] = c.recv
		return w.callCFn(c.fn, args, nil, caller)
	case *NativeFn:
		return c.f(w, args)
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	case *ssa.Builtin:
		bf := builtinFn(c.Name(), nil, nil)
		if bf == nil {
			w.unsupported("builtin value %s", c.Name())
		}
		fr := &frame{w: w, caller: caller}
		return bf(fr, args)
	}
	w.unsupported("call of %T", f.p)
	return V{}
}

func (w *worker) callCFn(c *CFn, args, env []V, caller *frame) (ret V) {
	if c.intr != nil {
		return c.intr(w, args)
	}
	if c.pre != nil {
		args = c.pre(w, args)
	}
	// package initialisers: each package's init runs lazily, once, on first use of one of its globals.
	if c.fn.Synthetic == "package initializer" && w.initing > 0 && caller != nil {
		return V{}
	}
	if w.initing > 0 && strings.HasPrefix(c.fn.Name(), "init#") && skipInitFn(c.fn) {
		return V{}
	}
	c.ensure()
	if !c.compiled {
		w.unsupported("function %s: %s", c.name, c.badCode)
	}
	w.depth++
	if w.depth > w.eng.maxDepth {
		w.depth = 0
		panic(pathEnd{"depth", "call depth limit at " + c.name})
	}
	w.calls++
	if c.inRepo {
		w.fnHits[c]++
	}
	w.stackFn = append(w.stackFn, c.name)
	fr := &frame{w: w, fn: c, r: make([]V, c.nregs), caller: caller}
	copy(fr.r, args)
	copy(fr.r[c.fvBase:], env)
	if len(args) != c.nparams {
		panic(fmt.Sprintf("call of %s with %d args, want %d", c.name, len(args), c.nparams))
	}
	if c.hasDefer {
		w.runDeferFrame(fr)
	} else {
		w.run(fr, 0)
	}
	w.depth--
	w.stackFn = w.stackFn[:len(w.stackFn)-1]
	return fr.result
}

func (w *worker) runDeferFrame(fr *frame) {
	depth, stk := w.depth, len(w.stackFn)
	func() {
		defer func() {
			if fr.done {
				return
			}
			r := recover()
			switch r.(type) {
			case targetPanic:
			default:
				if r == nil {
					return
				}
				panic(r)
			}
			w.depth = depth
			w.stackFn = w.stackFn[:stk]
			fr.panicking = true
			fr.panicV = r
			w.runDefers(fr)
			if fr.panicking {
				panic(fr.panicV)
			}
		}()
		w.run(fr, 0)
	}()
	if fr.done {
		return
	}
	// recovered
	if fr.fn.recover >= 0 {
		w.run(fr, fr.fn.recover)
	} else {
		fr.result = zeroResults(fr.fn)
	}
}

func zeroResults(c *CFn) V {
	rs := c.fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return V{}
	case 1:
		return zero(rs.At(0).Type())
	}
	t := make(Tuple, rs.Len())
	for i := range t {
		t[i] = zero(rs.At(i).Type())
	}
	return V{p: t}
}

func (w *worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			depth, stk := w.depth, len(w.stackFn)
			defer func() {
				if ok {
					return
				}
				r := recover()
				if _, is := r.(targetPanic); is {
					w.depth = depth
					w.stackFn = w.stackFn[:stk]
					fr.panicking = true
					fr.panicV = r
					return
				}
				panic(r)
			}()
			w.callV(d.f, d.args, fr)
			ok = true
		}()
	}
}

const noPhi = -2

func (w *worker) run(fr *frame, start int) {
	c := fr.fn
	cur, prev := start, -1
	var tmp [8]V
	for {
		b := c.blocks[cur]
		if prev != noPhi && len(b.phis) > 0 {
			e := -1
			for i, p := range b.preds {
				if p == prev {
					e = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.r[b.phis[0].dst] = b.phis[0].edges[e].val(fr)
			} else {
				t := tmp[:0]
				for i := range b.phis {
					t = append(t, b.phis[i].edges[e].val(fr))
				}
				for i := range b.phis {
					fr.r[b.phis[i].dst] = t[i]
				}
			}
		}
		w.steps++
		w.instr += int64(len(b.body)) + 1
		if w.steps > w.eng.maxSteps && w.initing == 0 {
			panic(pathEnd{"steps", "step limit in " + c.name + w.where()})
		}
		for _, f := range b.body {
			f(fr)
		}
		switch b.term {
		case tkJump:
			prev, cur = cur, b.succ[0]
		case tkIf:
			cv := b.cond.val(fr)
			t, ok := cv.p.(*Term)
			if !ok {
				if cv.n != 0 {
					prev, cur = cur, b.succ[0]
				} else {
					prev, cur = cur, b.succ[1]
				}
				continue
			}
			if x, ok := w.known[t.id]; ok {
				if x != 0 {
					prev, cur = cur, b.succ[0]
				} else {
					prev, cur = cur, b.succ[1]
				}
				continue
			}
			nx, ret := w.symIf(fr, b, t)
			if ret {
				fr.done = true
				return
			}
			prev, cur = noPhi, nx
		case tkRet:
			fr.result = retVal(fr, b)
			fr.done = true
			return
		case tkPanic:
			v := b.cond.val(fr)
			if w.pure > 0 {
				panic(mergeFail{})
			}
			if v.p == nil {
				w.rtPanic("panic called with nil argument")
			}
			panic(targetPanic{v: v, where: w.where()})
		}
	}
}

func retVal(fr *frame, b *cblock) V {
	switch len(b.results) {
	case 0:
		return V{}
	case 1:
		return b.results[0].val(fr)
	}
	t := make(Tuple, len(b.results))
	for i := range t {
		t[i] = b.results[i].val(fr)
	}
	return V{p: t}
}

// ---- merging of pure regions ----

type gedge struct {
	pred int
	g    *Term
}

type exitChoice struct {
	target int // block, or -1 for return
	g      *Term
	phis   []V
	ret    V
}

// pureOrder: topological order of the pure region reachable from b.
func (w *worker) pureOrder(c *CFn, b *cblock) []int {
	state := map[int]int{}
	var post []int
	var dfs func(i int) bool
	n := 0
	dfs = func(i int) bool {
		cb := c.blocks[i]
		// a block dominating b would overwrite registers that are live in other exits
		if i == b.idx || !cb.pureOK || cb.ssaBlk.Dominates(b.ssaBlk) || w.pureFail[cb] > 8 {
			return false
		}
		switch state[i] {
		case 1:
			return false // back edge
		case 2:
			return true
		}
		n++
		if n > 80 {
			return false
		}
		state[i] = 1
		if cb.nsucc >= 1 {
			dfs(cb.succ[0])
		}
		if cb.nsucc == 2 {
			dfs(cb.succ[1])
		}
		state[i] = 2
		post = append(post, i)
		return true
	}
	dfs(b.succ[0])
	dfs(b.succ[1])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (w *worker) symIf(fr *frame, b *cblock, cond *Term) (next int, ret bool) {
	c := fr.fn
	order := w.pureOrder(c, b)
	pos := map[int]int{}
	for i, x := range order {
		pos[x] = i
	}
	in := map[int][]gedge{} // incoming edges into region blocks not yet processed
	exits := map[int][]gedge{}
	var exitOrder []int
	var rets []exitChoice
	at := -1 // index in order currently processed
	addEdge := func(from, to int, g *Term) {
		if g == tFalse {
			return
		}
		if p, ok := pos[to]; ok && p > at {
			in[to] = append(in[to], gedge{from, g})
			return
		}
		if _, ok := exits[to]; !ok {
			exitOrder = append(exitOrder, to)
		}
		exits[to] = append(exits[to], gedge{from, g})
	}
	addEdge(b.idx, b.succ[0], cond)
	addEdge(b.idx, b.succ[1], tNot(cond))
	for i, x := range order {
		edges := in[x]
		if len(edges) == 0 {
			continue
		}
		at = i
		cb := c.blocks[x]
		asExit := func() {
			at = len(order) // force exits
			for _, e := range edges {
				addEdge(e.pred, x, e.g)
			}
		}
		vals, ok := w.mergePhis(fr, cb, edges)
		if !ok {
			asExit()
			continue
		}
		g := tFalse
		for _, e := range edges {
			g = tOr(g, e.g)
		}
		for j := range cb.phis {
			fr.r[cb.phis[j].dst] = vals[j]
		}
		if len(cb.body) > 0 && !w.tryPure(fr, cb) {
			w.pureFail[cb]++ // per path: the shape of regions must be a function of the path
			asExit()
			continue
		}
		switch cb.term {
		case tkJump:
			addEdge(x, cb.succ[0], g)
		case tkIf:
			cv := cb.cond.val(fr)
			if t, ok := cv.p.(*Term); ok {
				addEdge(x, cb.succ[0], tAnd(g, t))
				addEdge(x, cb.succ[1], tAnd(g, tNot(t)))
			} else if cv.n != 0 {
				addEdge(x, cb.succ[0], g)
			} else {
				addEdge(x, cb.succ[1], g)
			}
		case tkRet:
			rets = append(rets, exitChoice{target: -1, g: g, ret: retVal(fr, cb)})
		}
	}
	var choices []exitChoice
	for _, x := range exitOrder {
		edges := exits[x]
		cb := c.blocks[x]
		vals, ok := w.mergePhis(fr, cb, edges)
		if ok {
			g := tFalse
			for _, e := range edges {
				g = tOr(g, e.g)
			}
			choices = append(choices, exitChoice{target: x, g: g, phis: vals})
			continue
		}
		for _, e := range edges {
			vals, _ := w.mergePhis(fr, cb, []gedge{e})
			choices = append(choices, exitChoice{target: x, g: e.g, phis: vals})
		}
	}
	if len(rets) > 0 {
		rs := c.fn.Signature.Results()
		var merged []exitChoice
		for _, r := range rets {
			done := false
			for k := range merged {
				if v, ok := mergeResults(rs, r.g, r.ret, merged[k].ret); ok {
					merged[k].ret = v
					merged[k].g = tOr(merged[k].g, r.g)
					done = true
					break
				}
			}
			if !done {
				merged = append(merged, r)
			}
		}
		choices = append(choices, merged...)
	}
	k := 0
	if len(choices) > 1 {
		gs := make([]*Term, len(choices))
		for i := range choices {
			gs[i] = choices[i].g
		}
		k = w.fork(gs)
	}
	if len(order) > 0 {
		w.merges++
	}
	ch := choices[k]
	if ch.target < 0 {
		fr.result = ch.ret
		return 0, true
	}
	cb := c.blocks[ch.target]
	for j := range cb.phis {
		fr.r[cb.phis[j].dst] = ch.phis[j]
	}
	return ch.target, false
}

func (w *worker) tryPure(fr *frame, cb *cblock) (ok bool) {
	w.pure++
	depth, stk := w.depth, len(w.stackFn)
	defer func() {
		w.pure--
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeFail, targetPanic:
				w.depth = depth
				w.stackFn = w.stackFn[:stk]
				ok = false
			default:
				panic(r)
			}
		}
	}()
	for _, f := range cb.body {
		f(fr)
	}
	return true
}

func (w *worker) mergePhis(fr *frame, cb *cblock, edges []gedge) ([]V, bool) {
	if len(cb.phis) == 0 {
		return nil, true
	}
	out := make([]V, len(cb.phis))
	for j := range cb.phis {
		ph := &cb.phis[j]
		t := cb.ssaBlk.Instrs[j].(*ssa.Phi).Type()
		var acc V
		for i, e := range edges {
			ei := -1
			for q, p := range cb.preds {
				if p == e.pred {
					ei = q
					break
				}
			}
			v := ph.edges[ei].val(fr)
			if i == 0 {
				acc = v
				continue
			}
			m, ok := mergeV(t, e.g, v, acc)
			if !ok {
				return nil, false
			}
			acc = m
		}
		out[j] = acc
	}
	return out, true
}

func mergeResults(rs *types.Tuple, g *Term, a, b V) (V, bool) {
	switch rs.Len() {
	case 0:
		return V{}, true
	case 1:
		return mergeV(rs.At(0).Type(), g, a, b)
	}
	x, y := a.p.(Tuple), b.p.(Tuple)
	out := make(Tuple, rs.Len())
	for i := range out {
		v, ok := mergeV(rs.At(i).Type(), g, x[i], y[i])
		if !ok {
			return V{}, false
		}
		out[i] = v
	}
	return V{p: out}, true
}

func sameV(a, b V) bool {
	switch x := a.p.(type) {
	case nil:
		return b.p == nil && a.n == b.n
	case *Term:
		y, ok := b.p.(*Term)
		return ok && x == y
	case string:
		y, ok := b.p.(string)
		return ok && x == y
	case []V:
		y, ok := b.p.([]V)
		if !ok || len(x) != len(y) || cap(x) != cap(y) {
			return false
		}
		if cap(x) == 0 {
			return true
		}
		return &x[:1][0] == &y[:1][0]
	case *SStr:
		y, ok := b.p.(*SStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.b {
			if !sameV(x.b[i], y.b[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.p.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameV(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && x.t == y.t && sameV(x.v, y.v)
	case *Agg:
		y, ok := b.p.(*Agg)
		return ok && x == y
	case *Closure:
		y, ok := b.p.(*Closure)
		return ok && x == y || ok && x.fn == y.fn && len(x.env) == 0 && len(y.env) == 0
	case *boundRecv, *NativeFn, *Map, *V, *RT, *SymPtr, *Chan:
		return a.p == b.p
	}
	if isComparable(a.p) && isComparable(b.p) {
		return a.p == b.p
	}
	return false
}

func isComparable(x any) bool {
	switch x.(type) {
	case []V, Tuple:
		return false
	}
	return true
}

// mergeV gives ite(g, a, b) for a type where expressible.
func mergeV(t types.Type, g *Term, a, b V) (V, bool) {
	if sameV(a, b) {
		return a, true
	}
	if isScalarT(t) {
		w := widthOf(t)
		_, ok1 := a.p.(*Term)
		_, ok2 := b.p.(*Term)
		if (a.p != nil && !ok1) || (b.p != nil && !ok2) {
			return V{}, false
		}
		return vTerm(tIte(g, a.term(w), b.term(w))), true
	}
	if isString(t) {
		n := strLen(a)
		if n != strLen(b) || n > 64 {
			return V{}, false
		}
		out := make([]V, n)
		for i := range out {
			out[i] = vTerm(tIte(g, strAt(a, i).term(8), strAt(b, i).term(8)))
		}
		return mkStr(out), true
	}
	if tt, ok := t.(*types.Tuple); ok {
		x, y := a.p.(Tuple), b.p.(Tuple)
		out := make(Tuple, len(x))
		for i := range out {
			v, ok := mergeV(tt.At(i).Type(), g, x[i], y[i])
			if !ok {
				return V{}, false
			}
			out[i] = v
		}
		return V{p: out}, true
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		x, ok1 := a.p.(*Agg)
		y, ok2 := b.p.(*Agg)
		if !ok1 || !ok2 {
			return V{}, false
		}
		o := &Agg{f: make([]V, len(x.f))}
		for i := range o.f {
			v, ok := mergeV(st.Field(i).Type(), g, x.f[i], y.f[i])
			if !ok {
				return V{}, false
			}
			o.f[i] = v
		}
		return V{p: o}, true
	}
	return V{}, false
}

// ---- decisions ----

func (w *worker) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OAnd {
		w.addPC(t.a)
		w.addPC(t.b)
		return
	}
	if t.op == ONot && t.a.op == OOr {
		w.addPC(tNot(t.a.a))
		w.addPC(tNot(t.a.b))
		return
	}
	if w.pcIDs[t.id] {
		return
	}
	w.pcIDs[t.id] = true
	w.pc = append(w.pc, t)
	w.known[t.id] = 1
	if t.op == ONot {
		w.known[t.a.id] = 0
	} else {
		w.known[tNot(t).id] = 0
	}
	if t.op == OEq && t.b.isConst() {
		w.known[t.a.id] = t.b.c
	}
}

// slice gives the constraints of pc transitively sharing variables with t.
func (w *worker) slice(t *Term) []*Term {
	out := []*Term{t}
	if len(t.vars) == 0 {
		return out
	}
	in := make(map[int32]bool, 16)
	for _, v := range t.vars {
		in[v] = true
	}
	used := make([]bool, len(w.pc))
	for changed := true; changed; {
		changed = false
		for i, c := range w.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range c.vars {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// feasible decides pc && t; gives a full model when sat.
func (w *worker) feasible(t *Term) (satResult, Model) {
	if t == tFalse {
		return resUnsat, nil
	}
	if x, ok := w.known[t.id]; ok && x == 0 && t.w == 0 {
		return resUnsat, nil
	}
	cs := w.slice(t)
	r, m := w.solver.checkCached(cs)
	if r != resSat {
		return r, nil
	}
	nm := make(Model, len(w.model)+len(m))
	for k, v := range w.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return resSat, nm
}

// fork picks one of several exhaustive, mutually exclusive alternatives; the others become pending paths.
func (w *worker) fork(conds []*Term) int {
	if w.pure > 0 {
		panic(mergeFail{})
	}
	if w.initing > 0 {
		panic(pathEnd{"unsupported", "symbolic branch during package initialisation"})
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.taken = append(w.taken, d)
		k := int(d >> 1)
		if d&1 != 0 {
			w.addPC(conds[k])
		}
		w.learn(conds, k)
		return k
	}
	pick := -1
	type alt struct {
		k int
		m Model
	}
	var alts []alt
	unk := false
	for i, c := range conds {
		if pick < 0 && evalTerm(c, w.model) != 0 {
			pick = i
			continue
		}
		r, m := w.feasible(c)
		switch r {
		case resSat:
			alts = append(alts, alt{i, m})
		case resUnknown:
			unk = true
			w.eng.addUnknown(w, c)
		}
	}
	if pick < 0 {
		// the model satisfies none: alternatives were not exhaustive under the model (cannot happen for a valid encoding)
		panic(pathEnd{"internal", "no alternative satisfied by the model in" + w.where()})
	}
	flag := int32(0)
	if unk {
		flag = 1
	}
	if len(alts) > 0 {
		flag = 1
		w.forks++
		for _, a := range alts {
			p := make([]int32, len(w.taken)+1)
			copy(p, w.taken)
			p[len(w.taken)] = int32(a.k)<<1 | 1
			w.eng.push(&item{prefix: p, model: a.m})
		}
	}
	d := int32(pick)<<1 | flag
	w.prefix = append(w.prefix, d)
	w.pos++
	w.taken = append(w.taken, d)
	if flag != 0 {
		w.addPC(conds[pick])
	}
	w.learn(conds, pick)
	return pick
}

// learn records conditions decided on this path so that asking again needs no query.
func (w *worker) learn(conds []*Term, pick int) {
	w.known[conds[pick].id] = 1
	for i, c := range conds {
		if i != pick {
			w.known[c.id] = 0
		}
	}
}

// choose forks over n alternatives without any constraint.
func (w *worker) choose(n int) int {
	if w.pure > 0 {
		panic(mergeFail{})
	}
	if n <= 1 {
		return 0
	}
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.taken = append(w.taken, d)
		return int(d >> 1)
	}
	for i := n - 1; i >= 1; i-- {
		p := make([]int32, len(w.taken)+1)
		copy(p, w.taken)
		p[len(w.taken)] = int32(i) << 1
		m := make(Model, len(w.model))
		for k, v := range w.model {
			m[k] = v
		}
		w.eng.push(&item{prefix: p, model: m})
	}
	w.forks++
	w.prefix = append(w.prefix, 0)
	w.pos++
	w.taken = append(w.taken, 0)
	return 0
}

func (w *worker) branch(t *Term) bool {
	if t.op == OConst {
		return t.c != 0
	}
	if x, ok := w.known[t.id]; ok {
		return x != 0
	}
	return w.fork([]*Term{t, tNot(t)}) == 0
}

func (w *worker) branchV(v V) bool {
	if t, ok := v.p.(*Term); ok {
		return w.branch(t)
	}
	return v.n != 0
}

func (w *worker) uniqueVal(t *Term) (uint64, bool) {
	if t.op == OConst {
		return t.c, true
	}
	x, ok := w.known[t.id]
	return x, ok
}

// concretize enumerates the feasible values of t, one path each.
func (w *worker) concretize(t *Term) uint64 {
	if x, ok := w.uniqueVal(t); ok {
		return x
	}
	if w.pure > 0 {
		panic(mergeFail{})
	}
	for n := 0; ; n++ {
		if n > w.eng.maxConc {
			w.unsupported("more than %d values when concretising in %s", n, w.where())
		}
		var v uint64
		// on replay the candidate value must be the one used originally: record it as a decision
		if w.pos < len(w.prefix) {
			v = uint64(uint32(w.prefix[w.pos])) | uint64(uint32(w.prefix[w.pos+1]))<<32
			w.taken = append(w.taken, w.prefix[w.pos], w.prefix[w.pos+1])
			w.pos += 2
		} else {
			v = evalTerm(t, w.model)
			w.prefix = append(w.prefix, int32(uint32(v)), int32(uint32(v>>32)))
			w.taken = append(w.taken, int32(uint32(v)), int32(uint32(v>>32)))
			w.pos += 2
		}
		if w.branch(tEq(t, tConst(v, t.w))) {
			w.known[t.id] = v
			return v
		}
	}
}

func (w *worker) concInt(v V) int {
	if t, ok := v.p.(*Term); ok {
		return int(sext(w.concretize(t), t.w))
	}
	return int(v.n)
}

// limitSliceIdx forks off the out-of-range values of a symbolic slice bound so that only 0..n are enumerated one by one.
func (w *worker) limitSliceIdx(v V, n int) {
	if t, ok := v.p.(*Term); ok {
		if _, ok := w.uniqueVal(t); ok {
			return
		}
		if t.w < 64 {
			return
		}
		if !w.branch(tUle(t, tConst(uint64(n), t.w))) {
			w.rtPanic("slice bounds out of range [symbolic]")
		}
	}
}

func (w *worker) boundsCheck(t *Term, iw uint8, signed bool, n int) {
	var c *Term
	if iw < 63 && uint64(n) > mask(iw) && !signed {
		return
	}
	if signed && iw < 63 && uint64(n) > mask(iw)>>1 {
		c = tSle(tConst(0, iw), t)
	} else {
		c = tUlt(t, tConst(uint64(n), iw))
	}
	if !w.branch(c) {
		w.rtPanic("index out of range [symbolic]")
	}
}

func (w *worker) strIndex(s, iv V, iw uint8, is bool) V {
	n := strLen(s)
	if t, ok := iv.p.(*Term); ok {
		w.boundsCheck(t, iw, is, n)
		if x, ok := w.uniqueVal(t); ok {
			return strAt(s, int(x))
		}
		return vTerm(tableRead(strBytes(s), t, 8))
	}
	i := int64(iv.n)
	if is {
		i = sext(iv.n, iw)
	}
	if i < 0 || i >= int64(n) {
		w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return strAt(s, int(i))
}

func (w *worker) readIndex(arr []V, iv V, iw uint8, is bool, ew uint8) V {
	if t, ok := iv.p.(*Term); ok {
		w.boundsCheck(t, iw, is, len(arr))
		if ew != 255 && allScalar(arr) {
			return vTerm(tableRead(arr, t, ew))
		}
		return arr[w.concretize(t)]
	}
	i := int64(iv.n)
	if is {
		i = sext(iv.n, iw)
	}
	if i < 0 || i >= int64(len(arr)) {
		w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(arr)))
	}
	return arr[i]
}

func (w *worker) assume(t *Term) {
	if t == tTrue {
		return
	}
	if w.pure > 0 {
		panic(mergeFail{})
	}
	if x, ok := w.known[t.id]; ok && x != 0 {
		return
	}
	if w.pos < len(w.prefix) {
		w.addPC(t)
		return
	}
	if evalTerm(t, w.model) == 0 {
		r, m := w.feasible(t)
		switch r {
		case resUnsat:
			panic(pathEnd{"infeasible", ""})
		case resUnknown:
			w.eng.addUnknown(w, t)
			panic(pathEnd{"unknown", "assume"})
		}
		w.model = m
	}
	w.addPC(t)
}

// newVar makes a fresh symbolic scalar.
func (w *worker) newVar(width uint8) *Term {
	i := w.nvars
	w.nvars++
	w.varW = append(w.varW, width)
	t := tVar(i, width)
	return t
}

// boundedVar makes a fresh variable with the values 0..hi.
func (w *worker) boundedVar(hi uint64) *Term {
	n := uint8(bits.Len64(hi))
	i := w.nvars
	w.nvars++
	w.varW = append(w.varW, n)
	t := tVarMax(i, n, hi)
	w.assume(rangeOf(t))
	return t
}

// ---- runes ----

func in8(b *Term, lo, hi uint64) *Term {
	return tAnd(tUle(tConst(lo, 8), b), tUle(b, tConst(hi, 8)))
}

// runeCases gives the conditions under which b starts with a valid encoding of 1, 2, 3, 4 bytes.
func runeCases(b []V) [4]*Term {
	n := len(b)
	b0 := b[0].term(8)
	var c1, c2, c3, c4 *Term
	c1 = tUlt(b0, tConst(0x80, 8))
	c2, c3, c4 = tFalse, tFalse, tFalse
	if n >= 2 {
		b1 := b[1].term(8)
		c2 = tAnd(in8(b0, 0xC2, 0xDF), in8(b1, 0x80, 0xBF))
		if n >= 3 {
			b2 := b[2].term(8)
			s1 := tOr(tAnd(tEq(b0, tConst(0xE0, 8)), in8(b1, 0xA0, 0xBF)),
				tOr(tAnd(tEq(b0, tConst(0xED, 8)), in8(b1, 0x80, 0x9F)),
					tAnd(tAnd(in8(b0, 0xE1, 0xEF), tNot(tEq(b0, tConst(0xED, 8)))), in8(b1, 0x80, 0xBF))))
			c3 = tAnd(s1, in8(b2, 0x80, 0xBF))
			if n >= 4 {
				b3 := b[3].term(8)
				s1 := tOr(tAnd(tEq(b0, tConst(0xF0, 8)), in8(b1, 0x90, 0xBF)),
					tOr(tAnd(tEq(b0, tConst(0xF4, 8)), in8(b1, 0x80, 0x8F)),
						tAnd(in8(b0, 0xF1, 0xF3), in8(b1, 0x80, 0xBF))))
				c4 = tAnd(s1, tAnd(in8(b2, 0x80, 0xBF), in8(b3, 0x80, 0xBF)))
			}
		}
	}
	return [4]*Term{c1, c2, c3, c4}
}

// decodeRune decodes the first rune of b (1..4 bytes available), as utf8.DecodeRune.
func (w *worker) decodeRune(b []V) (V, int) {
	n := len(b)
	conc := true
	for i := range b {
		if b[i].p != nil {
			conc = false
		}
	}
	if conc {
		bs := make([]byte, n)
		for i := range b {
			bs[i] = byte(b[i].n)
		}
		r, sz := utf8.DecodeRune(bs)
		return V{n: uint64(uint32(r))}, sz
	}
	cs := runeCases(b)
	b0, c1, c2, c3, c4 := b[0].term(8), cs[0], cs[1], cs[2], cs[3]
	bad := tNot(tOr(tOr(c1, c2), tOr(c3, c4)))
	z := func(i int, m uint64) *Term { return tZExt(tBAnd(b[i].term(8), tConst(m, 8)), 32) }
	sh := func(t *Term, k uint64) *Term { return tShl(t, tConst(k, 32)) }
	switch w.fork([]*Term{c1, c2, c3, c4, bad}) {
	case 0:
		return vTerm(tZExt(b0, 32)), 1
	case 1:
		return vTerm(tBOr(sh(z(0, 0x1F), 6), z(1, 0x3F))), 2
	case 2:
		return vTerm(tBOr(tBOr(sh(z(0, 0x0F), 12), sh(z(1, 0x3F), 6)), z(2, 0x3F))), 3
	case 3:
		return vTerm(tBOr(tBOr(sh(z(0, 0x07), 18), sh(z(1, 0x3F), 12)), tBOr(sh(z(2, 0x3F), 6), z(3, 0x3F)))), 4
	}
	return V{n: utf8.RuneError}, 1
}

// encodeRune encodes a rune (32-bit) as UTF-8.
func (w *worker) encodeRune(r V) []V {
	t, ok := r.p.(*Term)
	if !ok {
		s := string(rune(int32(r.n)))
		out := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = V{n: uint64(s[i])}
		}
		return out
	}
	c := func(x uint64) *Term { return tConst(x, 32) }
	k1 := tUlt(t, c(0x80))
	k2 := tAnd(tNot(k1), tUlt(t, c(0x800)))
	sur := tAnd(tUle(c(0xD800), t), tUlt(t, c(0xE000)))
	k3 := tAnd(tAnd(tUle(c(0x800), t), tUlt(t, c(0x10000))), tNot(sur))
	k4 := tAnd(tUle(c(0x10000), t), tUlt(t, c(0x110000)))
	bad := tOr(sur, tUle(c(0x110000), t))
	by := func(shift uint64, m, or uint64) V {
		x := tTrunc(tLshr(t, c(shift)), 8)
		return vTerm(tBOr(tBAnd(x, tConst(m, 8)), tConst(or, 8)))
	}
	switch w.fork([]*Term{k1, k2, k3, k4, bad}) {
	case 0:
		return []V{vTerm(tTrunc(t, 8))}
	case 1:
		return []V{by(6, 0x1F, 0xC0), by(0, 0x3F, 0x80)}
	case 2:
		return []V{by(12, 0x0F, 0xE0), by(6, 0x3F, 0x80), by(0, 0x3F, 0x80)}
	case 3:
		return []V{by(18, 0x07, 0xF0), by(12, 0x3F, 0x80), by(6, 0x3F, 0x80), by(0, 0x3F, 0x80)}
	}
	return []V{{n: 0xEF}, {n: 0xBF}, {n: 0xBD}}
}

// ---- maps ----

func (w *worker) mapFind(m *Map, key V, kt types.Type) *mapEnt {
	var sb strings.Builder
	conc := canonKey(key, kt, &sb)
	if conc {
		if e, ok := m.idx[sb.String()]; ok && !e.del {
			if m.nsym == 0 {
				return e
			}
		} else if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.del {
			continue
		}
		if conc && !e.sym {
			if e.ck == sb.String() {
				return e
			}
			continue
		}
		if w.branch(w.eq(kt, e.k, key)) {
			return e
		}
	}
	return nil
}

func (w *worker) mapGet(mv, key V, kt, vt types.Type) (V, bool) {
	m, ok := mv.p.(*Map)
	if !ok {
		if mv.p == nil {
			return V{}, false
		}
		w.unsupported("map lookup in %T", mv.p)
	}
	if m.nsym == 0 && m.count > 3 {
		if v, found, ok := w.mapTable(m, key, kt, vt); ok {
			return v, found
		}
	}
	e := w.mapFind(m, key, kt)
	if e == nil {
		return V{}, false
	}
	return e.v, true
}

// mapTable reads a map with concrete keys and mergeable values at a symbolic key as a decision tree, forking only on presence.
func (w *worker) mapTable(m *Map, key V, kt, vt types.Type) (V, bool, bool) {
	isStr := isString(kt)
	if isStr {
		if _, c := concreteStr(key); c {
			return V{}, false, false
		}
	} else if _, sym := key.p.(*Term); !sym || !isScalarT(kt) {
		return V{}, false, false
	}
	if !isScalarT(vt) && !isString(vt) {
		return V{}, false, false
	}
	type kv struct {
		k []byte
		n uint64
		v V
	}
	var es []kv
	for _, e := range m.live() {
		x := kv{v: e.v, n: e.k.n}
		if isStr {
			s, _ := concreteStr(e.k)
			if len(s) != strLen(key) {
				continue
			}
			x.k = []byte(s)
		}
		es = append(es, x)
	}
	if len(es) == 0 {
		return V{}, false, true
	}
	if isString(vt) {
		for i := range es {
			if strLen(es[i].v) != strLen(es[0].v) {
				return V{}, false, false
			}
		}
	}
	sort.Slice(es, func(i, j int) bool {
		if isStr {
			return string(es[i].k) < string(es[j].k)
		}
		return es[i].n < es[j].n
	})
	// runs of positions over which a key digit is constant
	type run struct {
		val    uint64
		lo, hi int
	}
	digit := func(e kv, d int) uint64 {
		if isStr {
			return uint64(e.k[d])
		}
		return e.n
	}
	width := uint8(8)
	nd := strLenIf(key, isStr)
	if !isStr {
		width = widthOf(kt)
	}
	kterm := func(d int) *Term {
		if isStr {
			return strAt(key, d).term(8)
		}
		return key.term(width)
	}
	if v, ok := sepTable(len(es), nd, isStr, func(i, d int) uint64 { return digit(es[i], d) }, func(i int) V { return es[i].v }, kterm, vt); ok {
		pres := tTrue
		for d := 0; d < nd; d++ {
			var ds []uint64
			for _, e := range es {
				ds = append(ds, digit(e, d))
			}
			pres = tAnd(pres, inSorted(kterm(d), ds))
		}
		if w.branch(pres) {
			return v, true, true
		}
		return V{}, false, true
	}
	var tree func(lo, hi, d int) (present *Term, v V)
	tree = func(lo, hi, d int) (*Term, V) {
		if d == nd {
			return tTrue, es[lo].v
		}
		var rs []run
		for i := lo; i < hi; i++ {
			x := digit(es[i], d)
			if n := len(rs); n > 0 && rs[n-1].val == x {
				rs[n-1].hi = i + 1
			} else {
				rs = append(rs, run{x, i, i + 1})
			}
		}
		ps := make([]*Term, len(rs))
		vs := make([]V, len(rs))
		for i, r := range rs {
			ps[i], vs[i] = tree(r.lo, r.hi, d+1)
		}
		k := kterm(d)
		// presence: contiguous digits with the same sub-condition form one range
		pres := tFalse
		for i := 0; i < len(rs); {
			j := i
			for j+1 < len(rs) && rs[j+1].val == rs[j].val+1 && ps[j+1] == ps[i] {
				j++
			}
			c := tAnd(tUle(tConst(rs[i].val, width), k), tUle(k, tConst(rs[j].val, width)))
			if i == j {
				c = tEq(k, tConst(rs[i].val, width))
			}
			pres = tOr(pres, tAnd(c, ps[i]))
			i = j + 1
		}
		var pick func(a, b int) V
		pick = func(a, b int) V {
			if b-a == 1 {
				return vs[a]
			}
			mid := (a + b) / 2
			v, ok := mergeV(vt, tUlt(k, tConst(rs[mid].val, width)), pick(a, mid), pick(mid, b))
			if !ok {
				panic(pathEnd{"unsupported", "map table"})
			}
			return v
		}
		return pres, pick(0, len(rs))
	}
	pres, v := tree(0, len(es), 0)
	if w.branch(pres) {
		return v, true, true
	}
	return V{}, false, true
}

// inSorted: k is one of the values.
func inSorted(k *Term, ds []uint64) *Term {
	sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
	r := tFalse
	for i := 0; i < len(ds); {
		j := i
		for j+1 < len(ds) && ds[j+1] <= ds[j]+1 {
			j++
		}
		c := tAnd(tUle(tConst(ds[i], k.w), k), tUle(k, tConst(ds[j], k.w)))
		if ds[i] == 0 {
			c = tUle(k, tConst(ds[j], k.w))
		}
		if ds[i] == ds[j] {
			c = tEq(k, tConst(ds[i], k.w))
		}
		r = tOr(r, c)
		i = j + 1
	}
	return r
}

// sepTable handles tables whose keys are a full product of digit sets and whose (concrete) values are a sum of functions of the digits.
func sepTable(n, nd int, isStr bool, digit func(i, d int) uint64, val func(i int) V, kterm func(d int) *Term, vt types.Type) (V, bool) {
	if nd == 0 {
		return V{}, false
	}
	comps := 1
	ew := uint8(8)
	if isString(vt) {
		if n > 0 {
			comps = strLen(val(0))
		}
		for i := 0; i < n; i++ {
			if _, ok := concreteStr(val(i)); !ok {
				return V{}, false
			}
		}
	} else {
		ew = widthOf(vt)
		for i := 0; i < n; i++ {
			if val(i).p != nil {
				return V{}, false
			}
		}
	}
	sets := make([][]uint64, nd)
	prod := 1
	for d := range sets {
		seen := map[uint64]bool{}
		for i := 0; i < n; i++ {
			if x := digit(i, d); !seen[x] {
				seen[x] = true
				sets[d] = append(sets[d], x)
			}
		}
		s := sets[d]
		sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
		prod *= len(s)
	}
	if prod != n {
		return V{}, false
	}
	get := func(i, c int) uint64 {
		v := val(i)
		if isString(vt) {
			return strAt(v, c).n
		}
		return v.n & mask(ew)
	}
	out := make([]V, comps)
	for c := range out {
		// f_d(x) = value with digit d = x and the other digits as in entry 0, minus value of entry 0
		base := get(0, c)
		fs := make([]map[uint64]uint64, nd)
		for d := range fs {
			fs[d] = map[uint64]uint64{}
		}
		for i := 0; i < n; i++ {
			diff := -1
			cnt := 0
			for d := 0; d < nd; d++ {
				if digit(i, d) != digit(0, d) {
					diff = d
					cnt++
				}
			}
			if cnt == 1 {
				fs[diff][digit(i, diff)] = (get(i, c) - base) & mask(ew)
			}
		}
		for i := 0; i < n; i++ {
			s := base
			for d := 0; d < nd; d++ {
				s += fs[d][digit(i, d)]
			}
			if s&mask(ew) != get(i, c) {
				return V{}, false
			}
		}
		if nd > 1 && ew == 0 {
			return V{}, false
		}
		var t *Term
		for d := 0; d < nd; d++ {
			vals := make([]uint64, len(sets[d]))
			for i, x := range sets[d] {
				vals[i] = fs[d][x]
				if d == 0 {
					vals[i] = (vals[i] + base) & mask(ew)
				}
			}
			x := constTable(sets[d], vals, kterm(d), ew)
			if t == nil {
				t = x
			} else {
				t = tAdd(t, x)
			}
		}
		out[c] = vTerm(t)
	}
	if isString(vt) {
		return mkStr(out), true
	}
	return out[0], true
}

func strLenIf(v V, ok bool) int {
	if ok {
		return strLen(v)
	}
	return 1
}

func (w *worker) mapSet(mv, key, v V, kt types.Type) {
	if w.pure > 0 {
		panic(mergeFail{})
	}
	m, ok := mv.p.(*Map)
	if !ok {
		if mv.p == nil {
			panic(targetPanic{v: V{p: &Iface{w.eng.rtErrType(), vStr("assignment to entry in nil map")}}, where: w.where()})
		}
		w.unsupported("map update in %T", mv.p)
	}
	v = copyV(v)
	if e := w.mapFind(m, key, kt); e != nil {
		old := e.v
		w.undoable(func() { e.v = old })
		e.v = v
		return
	}
	var sb strings.Builder
	e := &mapEnt{k: copyV(key), v: v}
	if canonKey(key, kt, &sb) {
		e.ck = sb.String()
		m.idx[e.ck] = e
	} else {
		e.sym = true
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.count++
	w.undoable(func() {
		m.ents = m.ents[:len(m.ents)-1]
		m.count--
		if e.sym {
			m.nsym--
		} else {
			delete(m.idx, e.ck)
		}
	})
}

func (w *worker) mapDelete(mv, key V, kt types.Type) {
	m, ok := mv.p.(*Map)
	if !ok {
		return
	}
	e := w.mapFind(m, key, kt)
	if e == nil {
		return
	}
	e.del = true
	m.count--
	if e.sym {
		m.nsym--
	} else {
		delete(m.idx, e.ck)
	}
	w.undoable(func() {
		e.del = false
		m.count++
		if e.sym {
			m.nsym++
		} else {
			m.idx[e.ck] = e
		}
	})
}

// mapOrder gives the iteration order: insertion order, or (nd.MapOrder) any permutation for small maps.
func (w *worker) mapOrder(m *Map) []*mapEnt {
	l := m.live()
	if !w.mapPerm || len(l) < 2 {
		return l
	}
	if len(l) > 4 {
		// rotations and reversal only
		k := w.choose(len(l) * 2)
		out := make([]*mapEnt, 0, len(l))
		for i := range l {
			j := (i + k/2) % len(l)
			if k%2 == 1 {
				j = (len(l) - 1 - i + k/2) % len(l)
			}
			out = append(out, l[j])
		}
		return out
	}
	out := make([]*mapEnt, 0, len(l))
	rest := append([]*mapEnt(nil), l...)
	for len(rest) > 0 {
		k := w.choose(len(rest))
		out = append(out, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return out
}

// ---- equality ----

func (w *worker) eqMixed(a V, at types.Type, b V, bt types.Type) *Term {
	ai, bi := isIface(at), isIface(bt)
	if ai && !bi {
		b = V{p: &Iface{rtOf(bt), b}}
		return w.eq(at, a, b)
	}
	if bi && !ai {
		a = V{p: &Iface{rtOf(at), a}}
		return w.eq(bt, a, b)
	}
	return w.eq(at, a, b)
}

func (w *worker) eq(t types.Type, a, b V) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return strEqTerm(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			return tBool(f64(a) == f64(b))
		}
		if ww := widthOf(t); ww != 255 && isScalarT(t) {
			if a.p == nil && b.p == nil {
				return tBool(a.n == b.n)
			}
			return tEq(a.term(ww), b.term(ww))
		}
		return tBool(sameV(a, b))
	case *types.Interface:
		if a.p == nil || b.p == nil {
			return tBool(a.p == nil && b.p == nil)
		}
		x, ok1 := a.p.(*Iface)
		y, ok2 := b.p.(*Iface)
		if !ok1 || !ok2 {
			w.unsupported("interface compare of %T and %T", a.p, b.p)
		}
		if x.t != y.t {
			return tFalse
		}
		if !types.Comparable(x.t.T) {
			w.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return w.eq(x.t.T, x.v, y.v)
	case *types.Struct:
		x, ok1 := a.p.(*Agg)
		y, ok2 := b.p.(*Agg)
		if !ok1 || !ok2 {
			w.unsupported("compare of opaque struct")
		}
		r := tTrue
		for i := len(x.f) - 1; i >= 0; i-- {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = tAnd(w.eq(u.Field(i).Type(), x.f[i], y.f[i]), r)
		}
		return r
	case *types.Array:
		x, y := a.p.(*Agg), b.p.(*Agg)
		r := tTrue
		for i := len(x.f) - 1; i >= 0; i-- {
			r = tAnd(w.eq(u.Elem(), x.f[i], y.f[i]), r)
		}
		return r
	case *types.Slice, *types.Map, *types.Signature:
		return tBool(a.p == nil && b.p == nil)
	}
	if sp, ok := a.p.(*SymPtr); ok {
		_ = sp
		w.unsupported("compare of symbolic pointer")
	}
	return tBool(sameV(a, b))
}

// ---- method lookup ----

func (w *worker) findMethod(rt *RT, m *types.Func) *CFn {
	key := m.Id()
	rt.mu.Lock()
	f := rt.methods[key]
	rt.mu.Unlock()
	if f == nil {
		f = w.eng.prog.LookupMethod(rt.T, m.Pkg(), m.Name())
		if f == nil {
			w.unsupported("method %s not found on %s", m.Name(), rt)
		}
		rt.mu.Lock()
		rt.methods[key] = f
		rt.mu.Unlock()
	}
	return cfnOf(f)
}

func (w *worker) implements(rt, it *RT) bool {
	iface := it.T.Underlying().(*types.Interface)
	return types.Implements(rt.T, iface)
}

// methodByName finds an exported method by name, or nil.
func (w *worker) methodByName(rt *RT, name string) *CFn {
	f := w.eng.prog.LookupMethod(rt.T, nil, name)
	if f == nil {
		return nil
	}
	return cfnOf(f)
}

// hasMethod tells whether the type has the method (checked without building wrappers).
func hasMethod(rt *RT, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(rt.T, false, nil, name)
	f, ok := o.(*types.Func)
	if !ok {
		return false
	}
	_ = f
	ms := types.NewMethodSet(rt.T)
	return ms.Lookup(nil, name) != nil
}

func (w *worker) callMethod(i *Iface, name string, args ...V) V {
	f := w.methodByName(i.t, name)
	if f == nil {
		w.unsupported("no method %s on %s", name, i.t)
	}
	return w.callCFn(f, append([]V{i.v}, args...), nil, nil)
}
