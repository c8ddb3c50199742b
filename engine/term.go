package main

// Hash-consed SMT terms (QF_BV) with constant folding and light simplification.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OZExt
	OSExt
	OExtract // c = lo ; width = w
	OConcat
)

// Term: w==0 means Bool.
type Term struct {
	id      uint32
	op      Op
	w       uint8
	c       uint64
	a, b, d *Term
	vars    []int32 // sorted variable set
	size    int32   // saturating DAG-ish size estimate (tree size capped)
	lo, hi  uint64  // bounds of the unsigned value (bit vectors)
}

type tkey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d *Term
}

const nShards = 256

type tshard struct {
	mu sync.Mutex
	m  map[tkey]*Term
}

var tshards [nShards]tshard
var termCount uint32

func init() {
	for i := range tshards {
		tshards[i].m = map[tkey]*Term{}
	}
	tTrue = mk(OConst, 0, 1, nil, nil, nil)
	tFalse = mk(OConst, 0, 0, nil, nil, nil)
}

var tTrue, tFalse *Term

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext(x uint64, w uint8) int64 {
	if w >= 64 {
		return int64(x)
	}
	s := 64 - uint(w)
	return int64(x<<s) >> s
}

func mergeVars(xs ...*Term) []int32 {
	var best []int32
	for _, t := range xs {
		if t != nil && len(t.vars) > len(best) {
			best = t.vars
		}
	}
	// check whether best covers all
	ok := true
	for _, t := range xs {
		if t == nil || len(t.vars) == 0 {
			continue
		}
		if &t.vars[0] == &best[0] && len(t.vars) == len(best) {
			continue
		}
		if !subset(t.vars, best) {
			ok = false
			break
		}
	}
	if ok {
		return best
	}
	var out []int32
	for _, t := range xs {
		if t != nil {
			out = append(out, t.vars...)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	j := 0
	for i, v := range out {
		if i == 0 || v != out[j-1] {
			out[j] = v
			j++
		}
	}
	return out[:j:j]
}

func subset(a, b []int32) bool {
	i := 0
	for _, x := range a {
		for i < len(b) && b[i] < x {
			i++
		}
		if i >= len(b) || b[i] != x {
			return false
		}
	}
	return true
}

// keepBoolTerms puts the two boolean constants back after the table was cleared, so that pointers to them stay valid.
func keepBoolTerms() {
	for _, t := range []*Term{tTrue, tFalse} {
		h := hashKey(t.op, t.w, t.c, nil, nil, nil)
		tshards[(h>>40)%nShards].m[tkey{t.op, t.w, t.c, nil, nil, nil}] = t
	}
}

func hashKey(op Op, w uint8, c uint64, a, b, d *Term) uint64 {
	h := uint64(op)*0x9E3779B97F4A7C15 ^ uint64(w)<<56 ^ c*0xBF58476D1CE4E5B9
	if a != nil {
		h ^= uint64(a.id) * 0x94D049BB133111EB
	}
	if b != nil {
		h = h*31 + uint64(b.id)*0xD6E8FEB86659FD93
	}
	if d != nil {
		h = h*31 + uint64(d.id)*0xA0761D6478BD642F
	}
	return h
}

func mk(op Op, w uint8, c uint64, a, b, d *Term) *Term {
	k := tkey{op, w, c, a, b, d}
	h := hashKey(op, w, c, a, b, d)
	s := &tshards[(h>>40)%nShards]
	s.mu.Lock()
	t := s.m[k]
	if t == nil {
		t = &Term{id: atomic.AddUint32(&termCount, 1), op: op, w: w, c: c, a: a, b: b, d: d}
		if op == OVar {
			t.vars = []int32{int32(uint32(c))}
			t.size = 1
		} else if a != nil {
			t.vars = mergeVars(a, b, d)
			sz := int64(1 + a.size)
			if b != nil {
				sz += int64(b.size)
			}
			if d != nil {
				sz += int64(d.size)
			}
			if sz > 1<<30 {
				sz = 1 << 30
			}
			t.size = int32(sz)
		} else {
			t.size = 1
		}
		if w > 0 {
			t.lo, t.hi = bounds(t)
		}
		s.m[k] = t
	}
	s.mu.Unlock()
	return t
}

func tConst(x uint64, w uint8) *Term { return mk(OConst, w, x&mask(w), nil, nil, nil) }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// tVar: variable index idx with width w. The width is part of the identity.
func tVar(idx int, w uint8) *Term { return mk(OVar, w, uint64(idx), nil, nil, nil) }

// The upper bounds of variables, numbered from 1.
var (
	limMu  sync.Mutex
	limits = []uint64{0}
	limIdx = map[uint64]uint64{}
)

// tVarMax: a variable with values 0..hi only; the caller adds rangeOf to the path condition.
func tVarMax(idx int, w uint8, hi uint64) *Term {
	if hi == mask(w) {
		return tVar(idx, w)
	}
	limMu.Lock()
	k, ok := limIdx[hi]
	if !ok {
		k = uint64(len(limits))
		limits = append(limits, hi)
		limIdx[hi] = k
	}
	limMu.Unlock()
	return mk(OVar, w, uint64(idx)|k<<32, nil, nil, nil)
}

// rangeOf is the constraint that comes with a variable of tVarMax, not simplified by the range.
func rangeOf(v *Term) *Term {
	if v.c>>32 == 0 {
		return tTrue
	}
	return mk(ONot, 0, 0, mk(OUlt, 0, 0, tConst(v.hi, v.w), v, nil), nil, nil)
}

// bounds computes the range of a term from those of its parts.
func bounds(t *Term) (lo, hi uint64) {
	m := mask(t.w)
	a, b := t.a, t.b
	switch t.op {
	case OConst:
		return t.c, t.c
	case OVar:
		if k := t.c >> 32; k != 0 {
			limMu.Lock()
			defer limMu.Unlock()
			return 0, limits[k]
		}
	case OIte:
		return min(t.b.lo, t.d.lo), max(t.b.hi, t.d.hi)
	case OZExt:
		return a.lo, a.hi
	case OSExt:
		if a.hi <= mask(a.w)>>1 {
			return a.lo, a.hi
		}
		if a.lo > mask(a.w)>>1 {
			return uint64(sext(a.lo, a.w)) & m, uint64(sext(a.hi, a.w)) & m
		}
	case OAdd:
		l, c1 := bits.Add64(a.lo, b.lo, 0)
		h, c2 := bits.Add64(a.hi, b.hi, 0)
		if t.w < 64 {
			c1, c2 = l>>t.w, h>>t.w
		}
		if c1 == c2 {
			return l & m, h & m
		}
	case OSub:
		l, c1 := bits.Sub64(a.lo, b.hi, 0)
		h, c2 := bits.Sub64(a.hi, b.lo, 0)
		if c1 == c2 {
			return l & m, h & m
		}
	case ONeg:
		if a.lo > 0 {
			return -a.hi & m, -a.lo & m
		}
	case OBNot:
		return ^a.hi & m, ^a.lo & m
	case OMul:
		h1, l := bits.Mul64(a.hi, b.hi)
		if h1 == 0 && l <= m {
			return a.lo * b.lo, l
		}
	case OUdiv:
		if b.lo > 0 {
			return a.lo / b.hi, a.hi / b.lo
		}
	case OUrem:
		if b.isConst() && b.c > 0 {
			if a.lo/b.c == a.hi/b.c {
				return a.lo % b.c, a.hi % b.c
			}
			return 0, b.c - 1
		}
	case OBAnd:
		return 0, min(a.hi, b.hi)
	case OBOr, OBXor:
		n := bits.Len64(a.hi | b.hi)
		h := mask(uint8(n))
		if n == 0 {
			h = 0
		}
		if t.op == OBOr {
			return max(a.lo, b.lo), h
		}
		return 0, h
	case OShl:
		if b.isConst() && b.c < uint64(t.w) && a.hi <= m>>b.c {
			return a.lo << b.c, a.hi << b.c
		}
	case OLshr:
		if b.isConst() && b.c < 64 {
			return a.lo >> b.c, a.hi >> b.c
		}
		return 0, a.hi
	case OAshr:
		if a.hi <= m>>1 {
			if b.isConst() && b.c < 64 {
				return a.lo >> b.c, a.hi >> b.c
			}
			return 0, a.hi
		}
	case OExtract:
		l, h := a.lo>>t.c, a.hi>>t.c
		if t.w >= 64 || l>>t.w == h>>t.w {
			return l & m, h & m
		}
	case OConcat:
		return a.lo<<b.w | b.lo, a.hi<<b.w | b.hi
	}
	return 0, m
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) String() string {
	if t.size > 400 {
		return fmt.Sprintf("<term %d size %d>", t.id, t.size)
	}
	return t.smt(nil)
}

func tNot(a *Term) *Term {
	switch a.op {
	case OConst:
		return tBool(a.c == 0)
	case ONot:
		return a.a
	}
	return mk(ONot, 0, 0, a, nil, nil)
}

func tAnd(a, b *Term) *Term {
	if a.op == OConst {
		if a.c == 0 {
			return tFalse
		}
		return b
	}
	if b.op == OConst {
		if b.c == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return tFalse
	}
	// x==k1 && x==k2
	if a.op == OEq && b.op == OEq && a.a == b.a && a.b.isConst() && b.b.isConst() && a.b != b.b {
		return tFalse
	}
	// absorption (a && (a && c)), (a && (a||c))
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return b
	}
	// a && (!a || c) -> a && c
	if b.op == OOr {
		na := tNot(a)
		if b.a == na {
			return tAnd(a, b.b)
		}
		if b.b == na {
			return tAnd(a, b.a)
		}
	}
	if a.op == OOr {
		nb := tNot(b)
		if a.a == nb {
			return tAnd(a.b, b)
		}
		if a.b == nb {
			return tAnd(a.a, b)
		}
	}
	return mk(OAnd, 0, 0, a, b, nil)
}

func tOr(a, b *Term) *Term {
	if a.op == OConst {
		if a.c != 0 {
			return tTrue
		}
		return b
	}
	if b.op == OConst {
		if b.c != 0 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return tTrue
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return b
	}
	// a || (!a && c) -> a || c
	if b.op == OAnd {
		na := tNot(a)
		if b.a == na {
			return tOr(a, b.b)
		}
		if b.b == na {
			return tOr(a, b.a)
		}
	}
	if a.op == OAnd {
		nb := tNot(b)
		if a.a == nb {
			return tOr(a.b, b)
		}
		if a.b == nb {
			return tOr(a.a, b)
		}
	}
	return mk(OOr, 0, 0, a, b, nil)
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("tEq width %d vs %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tBool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.c != 0 {
				return a
			}
			return tNot(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mk(OEq, 0, 0, a, b, nil)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tFalse
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if b.c&^mask(a.a.w) != 0 {
				return tFalse
			}
			return tEq(a.a, tConst(b.c, a.a.w))
		case OSExt:
			lo := b.c & mask(a.a.w)
			if uint64(sext(lo, a.a.w))&mask(a.w) != b.c {
				return tFalse
			}
			return tEq(a.a, tConst(lo, a.a.w))
		case OIte:
			if a.b.isConst() && a.d.isConst() {
				if a.b.c == b.c && a.d.c == b.c {
					return tTrue
				}
				if a.b.c == b.c {
					return a.a
				}
				if a.d.c == b.c {
					return tNot(a.a)
				}
				return tFalse
			}
			if a.b.isConst() {
				if a.b.c == b.c {
					return tOr(a.a, tEq(a.d, b))
				}
				return tAnd(tNot(a.a), tEq(a.d, b))
			}
			if a.d.isConst() {
				if a.d.c == b.c {
					return tOr(tNot(a.a), tEq(a.b, b))
				}
				return tAnd(a.a, tEq(a.b, b))
			}
		case OAdd:
			if a.b.isConst() {
				return tEq(a.a, tConst(b.c-a.b.c, a.w))
			}
		case OBXor:
			if a.b.isConst() {
				return tEq(a.a, tConst(b.c^a.b.c, a.w))
			}
		case OConcat:
			lw := a.b.w
			return tAnd(tEq(a.a, tConst(b.c>>lw, a.a.w)), tEq(a.b, tConst(b.c, lw)))
		}
		return mk(OEq, 0, 0, a, b, nil)
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return tEq(a.a, b.a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, 0, 0, a, b, nil)
}

func tIte(c, a, b *Term) *Term {
	if c.isConst() {
		if c.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return tIte(c.a, b, a)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.c != 0 {
				return tOr(c, b)
			}
			return tAnd(tNot(c), b)
		}
		if b.isConst() {
			if b.c != 0 {
				return tOr(tNot(c), a)
			}
			return tAnd(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.d
	}
	if a == b {
		return a
	}
	// ite(c1, x, ite(c2, x, y)) -> ite(c1||c2, x, y)
	if b.op == OIte && b.b == a {
		return tIte(tOr(c, b.a), a, b.d)
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return tZExt(tIte(c, a.a, b.a), a.w)
	}
	return mk(OIte, a.w, 0, c, a, b)
}

func tUlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.hi < b.lo {
		return tTrue
	}
	if a.lo >= b.hi {
		return tFalse
	}
	if b.isConst() && a.op == OAdd && a.b.isConst() {
		if k := a.b.c; noWrap(a) {
			if b.c <= k {
				return tFalse
			}
			return tUlt(a.a, tConst(b.c-k, a.w))
		} else if k := -k & mask(a.w); a.a.lo >= k && b.c <= mask(a.w)-k { // it always does
			return tUlt(a.a, tConst(b.c+k, a.w))
		}
	}
	if a.isConst() && b.op == OAdd && b.b.isConst() {
		if k := b.b.c; noWrap(b) {
			if a.c < k {
				return tTrue
			}
			return tUlt(tConst(a.c-k, a.w), b.a)
		} else if k := -k & mask(a.w); b.a.lo >= k && a.c <= mask(a.w)-k {
			return tUlt(tConst(a.c+k, a.w), b.a)
		}
	}
	if b.op == OUdiv && b.a == a && b.b.lo > 0 {
		return tFalse
	}
	if a.op == OAdd && b.op == OAdd && a.b.isConst() && a.b == b.b && noWrap(a) && noWrap(b) {
		return tUlt(a.a, b.a)
	}
	if m := strip(b); m.op == OMul && m.b.isConst() && m.b.c != 0 {
		if q := strip(m.a); q.op == OUdiv && strip(q.a) == strip(a) && q.b.isConst() && q.b.c == m.b.c && q.hi <= mask(m.w)/m.b.c {
			return tFalse // y < (y/c)*c
		}
	}
	if b.isConst() {
		if b.c == 0 {
			return tFalse
		}
		if b.c == 1 {
			return tEq(a, tConst(0, a.w))
		}
		if a.op == OZExt {
			if b.c > mask(a.a.w) {
				return tTrue
			}
			return tUlt(a.a, tConst(b.c, a.a.w))
		}
		if a.op == OIte && a.b.isConst() && a.d.isConst() {
			return tIte(a.a, tBool(a.b.c < b.c), tBool(a.d.c < b.c))
		}
	}
	if a.isConst() {
		if a.c == mask(a.w) {
			return tFalse
		}
		if b.op == OZExt {
			if a.c >= mask(b.a.w) {
				return tFalse
			}
			return tUlt(tConst(a.c, b.a.w), b.a)
		}
		if b.op == OIte && b.b.isConst() && b.d.isConst() {
			return tIte(b.a, tBool(a.c < b.b.c), tBool(a.c < b.d.c))
		}
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return tUlt(a.a, b.a)
	}
	return mk(OUlt, 0, 0, a, b, nil)
}

// noWrap: the sum with a constant does not wrap.
func noWrap(a *Term) bool { return a.a.hi <= mask(a.w)-a.b.c }

func tUle(a, b *Term) *Term { return tNot(tUlt(b, a)) }

// maxU is an upper bound of an unsigned term.
func maxU(a *Term) uint64 { return a.hi }

// nonNeg: known non-negative as signed.
func nonNeg(a *Term) bool { return a.hi <= mask(a.w)>>1 }

// isNeg: known negative as signed.
func isNeg(a *Term) bool { return a.lo > mask(a.w)>>1 }

func tSlt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return tBool(sext(a.c, a.w) < sext(b.c, b.w))
	}
	an, bn := nonNeg(a), nonNeg(b)
	if an && bn {
		return tUlt(a, b)
	}
	if an && isNeg(b) {
		return tFalse
	}
	if bn && isNeg(a) {
		return tTrue
	}
	if isNeg(a) && isNeg(b) {
		return tUlt(a, b)
	}
	if a.op == OSExt && b.isConst() {
		lo := tConst(b.c, a.a.w)
		if uint64(sext(lo.c, lo.w))&mask(b.w) == b.c {
			return tSlt(a.a, lo)
		}
		return tBool(sext(b.c, b.w) > 0)
	}
	if b.op == OSExt && a.isConst() {
		lo := tConst(a.c, b.a.w)
		if uint64(sext(lo.c, lo.w))&mask(a.w) == a.c {
			return tSlt(lo, b.a)
		}
		return tBool(sext(a.c, a.w) < 0)
	}
	if b.isConst() && a.op == OIte && a.b.isConst() && a.d.isConst() {
		return tIte(a.a, tSlt(a.b, b), tSlt(a.d, b))
	}
	if a.isConst() && b.op == OIte && b.b.isConst() && b.d.isConst() {
		return tIte(b.a, tSlt(a, b.b), tSlt(a, b.d))
	}
	return mk(OSlt, 0, 0, a, b, nil)
}
func tSle(a, b *Term) *Term { return tNot(tSlt(b, a)) }

func tAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tConst(a.c+b.c, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return tAdd(a.a, tConst(a.b.c+b.c, a.w))
		}
		if a.op == OIte && a.b.isConst() && a.d.isConst() {
			return tIte(a.a, tAdd(a.b, b), tAdd(a.d, b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if !b.isConst() {
		// constants go outside
		if a.op == OAdd && a.b.isConst() {
			return tAdd(tAdd(a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isConst() {
			return tAdd(tAdd(a, b.a), b.b)
		}
	}
	if y := whole(a, b); y != nil {
		return tResize(y, a.w)
	}
	if y := whole(b, a); y != nil {
		return tResize(y, a.w)
	}
	return mk(OAdd, a.w, 0, a, b, nil)
}

// tResize extends or cuts.
func tResize(a *Term, w uint8) *Term {
	if a.w <= w {
		return tZExt(a, w)
	}
	return tExtract(a, 0, w)
}

func tSub(a, b *Term) *Term {
	if a == b {
		return tConst(0, a.w)
	}
	if b.isConst() {
		return tAdd(a, tConst(-b.c, a.w))
	}
	if a.isConst() && a.c == 0 {
		return tNeg(b)
	}
	// x - (x/c)*c
	if b.op == OMul && b.b.isConst() && b.b.c != 0 && (b.a.op == OUdiv || b.a.op == OSdiv) && b.a.a == a && b.a.b == b.b {
		return tDivRem(b.a.op-OUdiv+OUrem, a, b.b)
	}
	// (x+c) - x
	if a.op == OAdd && a.b.isConst() && a.a == b {
		return a.b
	}
	return mk(OSub, a.w, 0, a, b, nil)
}
func tNeg(a *Term) *Term {
	if a.isConst() {
		return tConst(-a.c, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	return mk(ONeg, a.w, 0, a, nil, nil)
}
func tMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tConst(a.c*b.c, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
		if b.c&(b.c-1) == 0 {
			return tShl(a, tConst(uint64(bits.TrailingZeros64(b.c)), a.w))
		}
		if a.op == OAdd && a.b.isConst() {
			return tAdd(tMul(a.a, b), tConst(a.b.c*b.c, a.w))
		}
	}
	return mk(OMul, a.w, 0, a, b, nil)
}
func tDivRem(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.c != 0 {
		switch op {
		case OUdiv:
			return tConst(a.c/b.c, a.w)
		case OUrem:
			return tConst(a.c%b.c, a.w)
		case OSdiv, OSrem:
			x, y := sext(a.c, a.w), sext(b.c, b.w)
			if y == -1 {
				if op == OSdiv {
					return tConst(uint64(-x), a.w)
				}
				return tConst(0, a.w)
			}
			if op == OSdiv {
				return tConst(uint64(x/y), a.w)
			}
			return tConst(uint64(x%y), a.w)
		}
	}
	if !b.isConst() || b.c == 0 {
		return mk(op, a.w, 0, a, b, nil)
	}
	if op == OSdiv || op == OSrem {
		switch {
		case nonNeg(a) && nonNeg(b):
			return tDivRem(op-OSdiv+OUdiv, a, b)
		case isNeg(a) && nonNeg(b):
			return tNeg(tDivRem(op-OSdiv+OUdiv, tNeg(a), b))
		}
		return mk(op, a.w, 0, a, b, nil)
	}
	if op == OUdiv && b.c == 1 {
		return a
	}
	q0, q1 := a.lo/b.c, a.hi/b.c
	if q0 == q1 {
		if op == OUdiv {
			return tConst(q0, a.w)
		}
		return tSub(a, tConst(q0*b.c, a.w))
	}
	if b.c&(b.c-1) == 0 {
		if op == OUdiv {
			return tLshr(a, tConst(uint64(bits.TrailingZeros64(b.c)), a.w))
		}
		return tBAnd(a, tConst(b.c-1, a.w))
	}
	if q1 == q0+1 {
		c := tUlt(a, tConst(q1*b.c, a.w))
		if op == OUdiv {
			return tIte(c, tConst(q0, a.w), tConst(q1, a.w))
		}
		return tIte(c, tSub(a, tConst(q0*b.c, a.w)), tSub(a, tConst(q1*b.c, a.w)))
	}
	// Divide in as few bits as the range takes.
	if n := uint8(bits.Len64(max(a.hi-q0*b.c, b.c))); n < a.w {
		r := tExtract(tSub(a, tConst(q0*b.c, a.w)), 0, n)
		x := tZExt(mk(op, n, 0, r, tConst(b.c, n), nil), a.w)
		if op == OUdiv {
			return tAdd(x, tConst(q0, a.w))
		}
		return x
	}
	return mk(op, a.w, 0, a, b, nil)
}

// strip removes changes of width that keep the value.
func strip(a *Term) *Term {
	for a.op == OZExt || a.op == OExtract && a.c == 0 && a.a.hi <= mask(a.w) {
		a = a.a
	}
	return a
}

// whole recognizes (y/c)*c and y%c and gives y.
func whole(m, r *Term) *Term {
	if r.op == OSrem && m.op == OMul && m.b == r.b && m.a.op == OSdiv && m.a.a == r.a && m.a.b == r.b && m.b.isConst() && m.b.c != 0 {
		return r.a
	}
	m, r = strip(m), strip(r)
	if m.op != OMul || r.op != OUrem || !m.b.isConst() || m.b.c == 0 || r.b != m.b && (!r.b.isConst() || m.b.c != r.b.c) {
		return nil
	}
	q := strip(m.a)
	if q.op != OUdiv || strip(q.a) != strip(r.a) || !q.b.isConst() || q.b.c != r.b.c || q.hi > mask(m.w)/r.b.c {
		return nil
	}
	return q.a
}

func tBAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tConst(a.c&b.c, a.w)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == mask(a.w) {
			return a
		}
		if a.op == OZExt {
			if b.c&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			return tZExt(tBAnd(a.a, tConst(b.c, a.a.w)), a.w)
		}
		if a.op == OBAnd && a.b.isConst() {
			return tBAnd(a.a, tConst(a.b.c&b.c, a.w))
		}
	}
	return mk(OBAnd, a.w, 0, a, b, nil)
}
func tBOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tConst(a.c|b.c, a.w)
	}
	if a == b {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.c == 0 {
		return a
	}
	if b.isConst() && b.c == mask(b.w) {
		return b
	}
	return mk(OBOr, a.w, 0, a, b, nil)
}
func tBXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tConst(a.c^b.c, a.w)
	}
	if a == b {
		return tConst(0, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.c == 0 {
		return a
	}
	return mk(OBXor, a.w, 0, a, b, nil)
}
func tBNot(a *Term) *Term {
	if a.isConst() {
		return tConst(^a.c, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return mk(OBNot, a.w, 0, a, nil, nil)
}

// Shifts: SMT semantics (shift >= width gives 0 / sign fill), same as Go's. b has the same width as a.
func tShl(a, b *Term) *Term {
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(a.w) {
			return tConst(0, a.w)
		}
		if a.isConst() {
			return tConst(a.c<<b.c, a.w)
		}
	}
	return mk(OShl, a.w, 0, a, b, nil)
}
func tLshr(a, b *Term) *Term {
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(a.w) {
			return tConst(0, a.w)
		}
		if a.isConst() {
			return tConst(a.c>>b.c, a.w)
		}
		if a.op == OZExt {
			if b.c >= uint64(a.a.w) {
				return tConst(0, a.w)
			}
			return tZExt(tLshr(a.a, tConst(b.c, a.a.w)), a.w)
		}
	}
	return mk(OLshr, a.w, 0, a, b, nil)
}
func tAshr(a, b *Term) *Term {
	if nonNeg(a) {
		return tLshr(a, b)
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.isConst() {
			s := b.c
			if s > 63 {
				s = 63
			}
			return tConst(uint64(sext(a.c, a.w)>>s), a.w)
		}
	}
	return mk(OAshr, a.w, 0, a, b, nil)
}
func tZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tConst(a.c, w)
	}
	if a.op == OZExt {
		return tZExt(a.a, w)
	}
	if a.op == OExtract && a.c == 0 && a.a.hi <= mask(a.w) {
		return tResize(a.a, w)
	}
	if a.op == OAdd && a.b.isConst() && noWrap(a) {
		return tAdd(tZExt(a.a, w), tConst(a.b.c, w))
	}
	if a.op == OIte && a.b.isConst() && a.d.isConst() {
		return tIte(a.a, tConst(a.b.c, w), tConst(a.d.c, w))
	}
	return mk(OZExt, w, 0, a, nil, nil)
}
func tSExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tConst(uint64(sext(a.c, a.w)), w)
	}
	if nonNeg(a) {
		return tZExt(a, w)
	}
	if a.op == OSExt {
		return tSExt(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.d.isConst() {
		return tIte(a.a, tSExt(a.b, w), tSExt(a.d, w))
	}
	return mk(OSExt, w, 0, a, nil, nil)
}

// tTrunc keeps the low w bits.
func tTrunc(a *Term, w uint8) *Term { return tExtract(a, 0, w) }

func tExtract(a *Term, lo, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.isConst() {
		return tConst(a.c>>lo, w)
	}
	switch a.op {
	case OZExt, OSExt:
		if lo+w <= a.a.w {
			return tExtract(a.a, lo, w)
		}
		if lo == 0 && a.a.w < w {
			if a.op == OZExt {
				return tZExt(a.a, w)
			}
			return tSExt(a.a, w)
		}
		if a.op == OZExt && lo >= a.a.w {
			return tConst(0, w)
		}
	case OExtract:
		return tExtract(a.a, lo+uint8(a.c), w)
	case OIte:
		if a.b.isConst() || a.d.isConst() {
			return tIte(a.a, tExtract(a.b, lo, w), tExtract(a.d, lo, w))
		}
	case OConcat:
		if lo+w <= a.b.w {
			return tExtract(a.b, lo, w)
		}
		if lo >= a.b.w {
			return tExtract(a.a, lo-a.b.w, w)
		}
	case OBAnd, OBOr, OBXor:
		if lo == 0 {
			x, y := tExtract(a.a, lo, w), tExtract(a.b, lo, w)
			switch a.op {
			case OBAnd:
				return tBAnd(x, y)
			case OBOr:
				return tBOr(x, y)
			default:
				return tBXor(x, y)
			}
		}
	case OAdd:
		if lo == 0 {
			return tAdd(tExtract(a.a, 0, w), tExtract(a.b, 0, w))
		}
	case OSub:
		if lo == 0 && a.a.isConst() {
			return tSub(tExtract(a.a, 0, w), tExtract(a.b, 0, w))
		}
	}
	return mk(OExtract, w, uint64(lo), a, nil, nil)
}
func tConcat(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tConst(a.c<<b.w|b.c, a.w+b.w)
	}
	if a.isConst() && a.c == 0 {
		return tZExt(b, a.w+b.w)
	}
	return mk(OConcat, a.w+b.w, 0, a, b, nil)
}

// Evaluation under a model.
type Model map[int32]uint64

type evaluator struct {
	m    Model
	memo map[uint32]uint64
}

func evalTerm(t *Term, m Model) uint64 {
	e := evaluator{m: m}
	if t.size > 200 {
		e.memo = map[uint32]uint64{}
	}
	return e.eval(t)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return e.m[int32(uint32(t.c))] & mask(t.w)
	}
	if e.memo != nil && t.size > 8 {
		if v, ok := e.memo[t.id]; ok {
			return v
		}
		v := e.eval1(t)
		e.memo[t.id] = v
		return v
	}
	return e.eval1(t)
}

func (e *evaluator) eval1(t *Term) uint64 {
	switch t.op {
	case ONot:
		return e.eval(t.a) ^ 1
	case OAnd:
		if e.eval(t.a) == 0 {
			return 0
		}
		return e.eval(t.b)
	case OOr:
		if e.eval(t.a) != 0 {
			return 1
		}
		return e.eval(t.b)
	case OEq:
		return b2u(e.eval(t.a) == e.eval(t.b))
	case OIte:
		if e.eval(t.a) != 0 {
			return e.eval(t.b)
		}
		return e.eval(t.d)
	case OUlt:
		return b2u(e.eval(t.a) < e.eval(t.b))
	case OUle:
		return b2u(e.eval(t.a) <= e.eval(t.b))
	case OSlt:
		return b2u(sext(e.eval(t.a), t.a.w) < sext(e.eval(t.b), t.b.w))
	case OSle:
		return b2u(sext(e.eval(t.a), t.a.w) <= sext(e.eval(t.b), t.b.w))
	case OBNot:
		return ^e.eval(t.a) & mask(t.w)
	case ONeg:
		return -e.eval(t.a) & mask(t.w)
	case OZExt:
		return e.eval(t.a)
	case OSExt:
		return uint64(sext(e.eval(t.a), t.a.w)) & mask(t.w)
	case OExtract:
		return e.eval(t.a) >> t.c & mask(t.w)
	case OConcat:
		return e.eval(t.a)<<t.b.w | e.eval(t.b)
	}
	x, y := e.eval(t.a), e.eval(t.b)
	switch t.op {
	case OAdd:
		x += y
	case OSub:
		x -= y
	case OMul:
		x *= y
	case OUdiv:
		if y == 0 {
			x = ^uint64(0)
		} else {
			x /= y
		}
	case OUrem:
		if y != 0 {
			x %= y
		}
	case OSdiv, OSrem:
		sx, sy := sext(x, t.w), sext(y, t.w)
		if sy == 0 {
			if t.op == OSdiv {
				if sx < 0 {
					x = 1
				} else {
					x = ^uint64(0)
				}
			}
		} else if sy == -1 {
			if t.op == OSdiv {
				x = uint64(-sx)
			} else {
				x = 0
			}
		} else if t.op == OSdiv {
			x = uint64(sx / sy)
		} else {
			x = uint64(sx % sy)
		}
	case OBAnd:
		x &= y
	case OBOr:
		x |= y
	case OBXor:
		x ^= y
	case OShl:
		if y >= 64 {
			x = 0
		} else {
			x <<= y
		}
	case OLshr:
		if y >= 64 {
			x = 0
		} else {
			x >>= y
		}
	case OAshr:
		if y > 63 {
			y = 63
		}
		x = uint64(sext(x, t.w) >> y)
	default:
		panic("eval: op")
	}
	return x & mask(t.w)
}

// SMT-LIB printing.
var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor",
	OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

func (t *Term) smt(names map[uint32]string) string {
	var sb strings.Builder
	t.writeSMT(&sb, names, true)
	return sb.String()
}

func varName(t *Term) string { return fmt.Sprintf("v%d_%d", uint32(t.c), t.w) }

func (t *Term) writeSMT(sb *strings.Builder, names map[uint32]string, top bool) {
	if !top && names != nil {
		if n, ok := names[t.id]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
		} else {
			fmt.Fprintf(sb, "(_ bv%d %d)", t.c, t.w)
		}
		return
	case OVar:
		sb.WriteString(varName(t))
		return
	case OZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.a.w)
	case OSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.a.w)
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) ", uint64(t.w)+t.c-1, t.c)
	default:
		sb.WriteString("(")
		sb.WriteString(opNames[t.op])
		sb.WriteString(" ")
	}
	t.a.writeSMT(sb, names, false)
	if t.b != nil {
		sb.WriteString(" ")
		t.b.writeSMT(sb, names, false)
	}
	if t.d != nil {
		sb.WriteString(" ")
		t.d.writeSMT(sb, names, false)
	}
	sb.WriteString(")")
}

// smtQuery renders declarations, shared definitions and assertions for a constraint set.
func smtQuery(cs []*Term) (text string, vars []*Term) {
	refs := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if t.a != nil {
			visit(t.a)
		}
		if t.b != nil {
			visit(t.b)
		}
		if t.d != nil {
			visit(t.d)
		}
		order = append(order, t)
	}
	for _, c := range cs {
		visit(c)
	}
	names := map[uint32]string{}
	var sb strings.Builder
	for _, t := range order {
		if t.op == OVar {
			vars = append(vars, t)
			sort := "Bool"
			if t.w > 0 {
				sort = fmt.Sprintf("(_ BitVec %d)", t.w)
			}
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", varName(t), sort)
		}
	}
	for _, t := range order {
		if t.op == OVar || t.op == OConst || refs[t] < 2 {
			continue
		}
		sort := "Bool"
		if t.w > 0 {
			sort = fmt.Sprintf("(_ BitVec %d)", t.w)
		}
		nm := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&sb, "(define-fun %s () %s ", nm, sort)
		t.writeSMT(&sb, names, true)
		sb.WriteString(")\n")
		names[t.id] = nm
	}
	for _, c := range cs {
		sb.WriteString("(assert ")
		c.writeSMT(&sb, names, false)
		sb.WriteString(")\n")
	}
	return sb.String(), vars
}
