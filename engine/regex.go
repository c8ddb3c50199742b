package main

// Model of package regexp: the same compiled program (regexp/syntax), run over symbolic text.  Whether a suffix matches is a
// formula over the text (dynamic programming over program states and positions); which of several matches is taken (leftmost
// first) is decided by forking in the priority order of Go's backtracker.

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strconv"
	"sync"
	"unicode"
)

type reNative struct {
	expr string
	re   *regexp.Regexp
	prog *syntax.Prog
	rng  [][]rune // per instruction: ranges
}

var reCache sync.Map

func reCompile(expr string) (*reNative, error) {
	if r, ok := reCache.Load(expr); ok {
		return r.(*reNative), nil
	}
	re, err := regexp.Compile(expr)
	if err != nil {
		return nil, err
	}
	s, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(s.Simplify())
	if err != nil {
		return nil, err
	}
	r := &reNative{expr: expr, re: re, prog: prog, rng: make([][]rune, len(prog.Inst))}
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) == 1 {
				r0 := in.Rune[0]
				out := []rune{r0, r0}
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {
						out = append(out, r1, r1)
					}
				}
				r.rng[i] = out
			} else {
				r.rng[i] = in.Rune
			}
		case syntax.InstRuneAny:
			r.rng[i] = []rune{0, unicode.MaxRune}
		case syntax.InstRuneAnyNotNL:
			r.rng[i] = []rune{0, '\n' - 1, '\n' + 1, unicode.MaxRune}
		}
	}
	x, _ := reCache.LoadOrStore(expr, r)
	return x.(*reNative), nil
}

// reRun is one matching problem.
type reRun struct {
	w     *worker
	re    *reNative
	n     int
	runes []V   // rune starting at byte i (valid at boundaries)
	width []int // 0 if i is not a boundary
	s     V
	m     map[[2]int]*Term
	cl    map[[2]int][]reLeaf
}

type reLeaf struct {
	pc   int
	caps []int // capture slots set on the way
}

func (w *worker) newReRun(re *reNative, s V) *reRun {
	n := strLen(s)
	r := &reRun{w: w, re: re, n: n, s: s, runes: make([]V, n), width: make([]int, n+1), m: map[[2]int]*Term{}, cl: map[[2]int][]reLeaf{}}
	for i := 0; i < n; {
		c, sz := w.decodeRune(strBytesAt(s, i, 4))
		r.runes[i], r.width[i] = c, sz
		i += sz
	}
	return r
}

func classTerm(v V, rng []rune) *Term {
	t, ok := v.p.(*Term)
	if !ok {
		x := rune(v.n)
		for j := 0; j+1 < len(rng); j += 2 {
			if rng[j] <= x && x <= rng[j+1] {
				return tTrue
			}
		}
		return tFalse
	}
	mx := maxU(t)
	r := tFalse
	for j := 0; j+1 < len(rng); j += 2 {
		lo, hi := uint64(rng[j]), uint64(rng[j+1])
		if lo > mx {
			continue
		}
		var c *Term
		switch {
		case lo == hi:
			c = tEq(t, tConst(lo, t.w))
		case lo == 0 && hi >= mx:
			return tTrue
		case lo == 0:
			c = tUle(t, tConst(hi, t.w))
		case hi >= mx:
			c = tUle(tConst(lo, t.w), t)
		default:
			c = tAnd(tUle(tConst(lo, t.w), t), tUle(t, tConst(hi, t.w)))
		}
		r = tOr(r, c)
	}
	return r
}

// closure lists the consuming (or match) instructions reachable from pc at position i without consuming, in priority order.
func (r *reRun) closure(pc, i int) []reLeaf {
	k := [2]int{pc, i}
	if l, ok := r.cl[k]; ok {
		return l
	}
	var out []reLeaf
	seen := map[int]bool{}
	var walk func(pc int, caps []int)
	walk = func(pc int, caps []int) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &r.re.prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(int(in.Out), caps)
			walk(int(in.Arg), caps)
		case syntax.InstCapture:
			walk(int(in.Out), append(caps[:len(caps):len(caps)], int(in.Arg)))
		case syntax.InstNop:
			walk(int(in.Out), caps)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			if e&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				r.w.unsupported("regular expression with a line or word assertion")
			}
			if e&syntax.EmptyBeginText != 0 && i != 0 || e&syntax.EmptyEndText != 0 && i != r.n {
				return
			}
			walk(int(in.Out), caps)
		default:
			out = append(out, reLeaf{pc, caps})
		}
	}
	walk(pc, nil)
	r.cl[k] = out
	return out
}

// leaf: the term for "a match exists that continues with instruction pc at position i".
func (r *reRun) leaf(pc, i int) *Term {
	in := &r.re.prog.Inst[pc]
	if in.Op == syntax.InstMatch {
		return tTrue
	}
	if i >= r.n {
		return tFalse
	}
	c := classTerm(r.runes[i], r.re.rng[pc])
	if c == tFalse {
		return c
	}
	return tAnd(c, r.can(int(in.Out), i+r.width[i]))
}

func (r *reRun) can(pc, i int) *Term {
	k := [2]int{pc, i}
	if t, ok := r.m[k]; ok {
		return t
	}
	t := tFalse
	for _, l := range r.closure(pc, i) {
		t = tOr(t, r.leaf(l.pc, i))
		if t == tTrue {
			break
		}
	}
	r.m[k] = t
	return t
}

func (r *reRun) anyMatch(pos int) *Term {
	t := tFalse
	for i := pos; i <= r.n; {
		t = tOr(t, r.can(r.re.prog.Start, i))
		if t == tTrue || i == r.n {
			break
		}
		i += r.width[i]
	}
	return t
}

// find gives the capture slots of the leftmost-first match starting at or after pos, or nil.
func (r *reRun) find(pos int) []int {
	for i := pos; i <= r.n; {
		if r.w.branch(r.can(r.re.prog.Start, i)) {
			caps := make([]int, r.re.prog.NumCap)
			for j := range caps {
				caps[j] = -1
			}
			if len(caps) < 2 {
				caps = []int{-1, -1}
			}
			caps[0] = i
			pc, at := r.re.prog.Start, i
			for {
				ls := r.closure(pc, at)
				var pick *reLeaf
				for j := range ls {
					if r.w.branch(r.leaf(ls[j].pc, at)) {
						pick = &ls[j]
						break
					}
				}
				if pick == nil {
					panic(pathEnd{"internal", "regexp: no continuation"})
				}
				for _, c := range pick.caps {
					if c < len(caps) {
						caps[c] = at
					}
				}
				if r.re.prog.Inst[pick.pc].Op == syntax.InstMatch {
					caps[1] = at
					return caps
				}
				pc = int(r.re.prog.Inst[pick.pc].Out)
				at += r.width[at]
			}
		}
		if i == r.n {
			break
		}
		i += r.width[i]
	}
	return nil
}

func (r *reRun) sub(caps []int, k int) V {
	if caps[2*k] < 0 {
		return V{}
	}
	return strSlice(r.s, caps[2*k], caps[2*k+1])
}

func (r *reRun) all(n int, f func(caps []int)) {
	if n < 0 {
		n = r.n + 1
	}
	prevEnd := -1
	for pos, i := 0, 0; i < n && pos <= r.n; {
		m := r.find(pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prevEnd {
				accept = false
			}
			if pos < r.n {
				pos += r.width[pos]
			} else {
				pos = r.n + 1
			}
		} else {
			pos = m[1]
		}
		prevEnd = m[1]
		if accept {
			f(m)
			i++
		}
	}
}

func (r *reRun) replaceAll(f func(caps []int) V) V {
	last := 0
	var buf []V
	found := false
	b := strBytes(r.s)
	for pos := 0; pos <= r.n; {
		a := r.find(pos)
		if a == nil {
			break
		}
		found = true
		buf = append(buf, b[last:a[0]]...)
		if a[1] > last || a[0] == 0 {
			buf = append(buf, strBytes(f(a))...)
		}
		last = a[1]
		wd := 0
		if pos < r.n {
			wd = r.width[pos]
		}
		switch {
		case pos+wd > a[1]:
			pos += wd
		case pos+1 > a[1]:
			pos++
		default:
			pos = a[1]
		}
	}
	if !found {
		return r.s
	}
	buf = append(buf, b[last:]...)
	return mkStr(buf)
}

func init() {
	get := func(w *worker, v V) *reNative {
		c, ok := v.p.(*V)
		if !ok {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return c.p.(*reNative)
	}
	mkRe := func(r *reNative) V { c := new(V); c.p = r; return V{p: c} }
	sl := func(v V) []V { s, _ := v.p.([]V); return s }
	bstr := func(v V) V { return mkStr(append([]V(nil), sl(v)...)) }
	ints := func(a []int) V {
		if a == nil {
			return V{}
		}
		o := make([]V, len(a))
		for i := range a {
			o[i] = vInt(a[i])
		}
		return V{p: o}
	}
	concExpr := func(w *worker, v V) string {
		e, ok := concreteStr(v)
		if !ok {
			b := strBytes(v)
			out := make([]byte, len(b))
			for i := range b {
				out[i] = byte(w.concInt(b[i]))
			}
			e = string(out)
		}
		return e
	}
	reg("regexp.MustCompile", func(w *worker, a []V) V {
		e := concExpr(w, a[0])
		r, err := reCompile(e)
		if err != nil {
			panic(targetPanic{v: V{p: &Iface{rtOf(types.Typ[types.String]), vStr(fmt.Sprintf("regexp: Compile(%s): %v", quoteRe(e), err))}}})
		}
		return mkRe(r)
	})
	reg("regexp.Compile", func(w *worker, a []V) V {
		r, err := reCompile(concExpr(w, a[0]))
		if err != nil {
			return tup(V{}, w.mkError(vStr(err.Error())))
		}
		return tup(mkRe(r), V{})
	})
	reg("regexp.QuoteMeta", func(w *worker, a []V) V { return vStr(regexp.QuoteMeta(concExpr(w, a[0]))) })
	reg("(*regexp.Regexp).String", func(w *worker, a []V) V { return vStr(get(w, a[0]).expr) })
	reg("(*regexp.Regexp).NumSubexp", func(w *worker, a []V) V { return vInt(get(w, a[0]).re.NumSubexp()) })
	reg("(*regexp.Regexp).SubexpIndex", func(w *worker, a []V) V { return vInt(get(w, a[0]).re.SubexpIndex(mustStr(w, a[1]))) })
	reg("(*regexp.Regexp).SubexpNames", func(w *worker, a []V) V {
		var o []V
		for _, s := range get(w, a[0]).re.SubexpNames() {
			o = append(o, vStr(s))
		}
		return V{p: o}
	})
	match := func(w *worker, re *reNative, s V) V {
		if c, ok := concreteStr(s); ok {
			return vBool(re.re.MatchString(c))
		}
		return vTerm(w.newReRun(re, s).anyMatch(0))
	}
	reg("(*regexp.Regexp).MatchString", func(w *worker, a []V) V { return match(w, get(w, a[0]), a[1]) })
	reg("(*regexp.Regexp).Match", func(w *worker, a []V) V { return match(w, get(w, a[0]), bstr(a[1])) })
	reg("regexp.MatchString", func(w *worker, a []V) V {
		r, err := reCompile(concExpr(w, a[0]))
		if err != nil {
			return tup(V{}, w.mkError(vStr(err.Error())))
		}
		return tup(match(w, r, a[1]), V{})
	})
	find := func(w *worker, re *reNative, s V) (*reRun, []int) {
		r := &reRun{w: w, re: re, n: strLen(s), s: s}
		if c, ok := concreteStr(s); ok {
			return r, re.re.FindStringSubmatchIndex(c)
		}
		w.needImpure()
		r = w.newReRun(re, s)
		return r, r.find(0)
	}
	subs := func(r *reRun, m []int) V {
		if m == nil {
			return V{}
		}
		o := make([]V, len(m)/2)
		for k := range o {
			o[k] = r.sub(m, k)
		}
		return V{p: o}
	}
	reg("(*regexp.Regexp).FindString", func(w *worker, a []V) V {
		r, m := find(w, get(w, a[0]), a[1])
		if m == nil {
			return V{}
		}
		return r.sub(m, 0)
	})
	reg("(*regexp.Regexp).FindStringIndex", func(w *worker, a []V) V {
		_, m := find(w, get(w, a[0]), a[1])
		if m == nil {
			return V{}
		}
		return ints(m[:2])
	})
	reg("(*regexp.Regexp).FindStringSubmatch", func(w *worker, a []V) V {
		r, m := find(w, get(w, a[0]), a[1])
		return subs(r, m)
	})
	reg("(*regexp.Regexp).FindStringSubmatchIndex", func(w *worker, a []V) V {
		_, m := find(w, get(w, a[0]), a[1])
		return ints(m)
	})
	all := func(w *worker, re *reNative, s V, n V, f func(r *reRun, m []int) V) V {
		r := &reRun{w: w, re: re, n: strLen(s), s: s}
		var out []V
		if c, ok := concreteStr(s); ok {
			for _, m := range re.re.FindAllStringSubmatchIndex(c, int(int64(n.n))) {
				out = append(out, f(r, m))
			}
		} else {
			w.needImpure()
			r = w.newReRun(re, s)
			r.all(w.concInt(n), func(m []int) { out = append(out, f(r, m)) })
		}
		if out == nil {
			return V{}
		}
		return V{p: out}
	}
	reg("(*regexp.Regexp).FindAllString", func(w *worker, a []V) V {
		return all(w, get(w, a[0]), a[1], a[2], func(r *reRun, m []int) V { return r.sub(m, 0) })
	})
	reg("(*regexp.Regexp).FindAllStringSubmatch", func(w *worker, a []V) V {
		return all(w, get(w, a[0]), a[1], a[2], subs)
	})
	reg("(*regexp.Regexp).FindAllStringIndex", func(w *worker, a []V) V {
		return all(w, get(w, a[0]), a[1], a[2], func(r *reRun, m []int) V { return ints(m[:2]) })
	})
	reg("(*regexp.Regexp).FindAllStringSubmatchIndex", func(w *worker, a []V) V {
		return all(w, get(w, a[0]), a[1], a[2], func(r *reRun, m []int) V { return ints(m) })
	})
	// The replacement function may itself fork or panic, so concrete text goes the same way as symbolic text.
	reg("(*regexp.Regexp).ReplaceAllStringFunc", func(w *worker, a []V) V {
		w.needImpure()
		r := w.newReRun(get(w, a[0]), a[1])
		return r.replaceAll(func(m []int) V { return w.callV(a[2], []V{r.sub(m, 0)}, nil) })
	})
	repl := func(literal bool) Intrinsic {
		return func(w *worker, a []V) V {
			re := get(w, a[0])
			c, ok1 := concreteStr(a[1])
			t, ok2 := concreteStr(a[2])
			if ok1 && ok2 {
				if literal {
					return vStr(re.re.ReplaceAllLiteralString(c, t))
				}
				return vStr(re.re.ReplaceAllString(c, t))
			}
			if !literal {
				if !ok2 {
					w.unsupported("symbolic regexp replacement template")
				}
				for i := range t {
					if t[i] == '$' {
						w.unsupported("regexp replacement template with $")
					}
				}
			}
			w.needImpure()
			return w.newReRun(re, a[1]).replaceAll(func(m []int) V { return a[2] })
		}
	}
	reg("(*regexp.Regexp).ReplaceAllString", repl(false))
	reg("(*regexp.Regexp).ReplaceAllLiteralString", repl(true))
}

func quoteRe(s string) string {
	if strconv.CanBackquote(s) {
		return "`" + s + "`"
	}
	return strconv.Quote(s)
}
