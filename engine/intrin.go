package main

// Intrinsics: the nd package, and models of library functions that are external, unsafe or better expressed directly.

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]Intrinsic{}

// preHooks change the arguments of functions that are interpreted as they stand.
var preHooks = map[string]func(w *worker, a []V) []V{
	// the size of a buffer is not observable, except in memory
	"bufio.NewReaderSize": func(w *worker, a []V) []V {
		if a[1].p == nil && a[1].n > 4096 {
			return []V{a[0], vInt(4096)}
		}
		return a
	},
}

// packages whose init is never run (globals keep zero values)
var noInit = map[string]bool{"runtime": true, "internal/cpu": true, "internal/godebug": true, "os": true, "reflect": true, "internal/reflectlite": true,
	"syscall": true, "internal/poll": true, "time": false, "github.com/golang/glog": true, "internal/bytealg": true, "internal/godebugs": true, "log": true, "flag": true,
	"google.golang.org/protobuf/internal/filetype": true, "google.golang.org/protobuf/internal/impl": true, "google.golang.org/protobuf/reflect/protoregistry": true,
	"internal/testlog": true, "math/rand": true, "sync": true, "crypto/rand": true, "net": true, "google.golang.org/grpc": true, "internal/runtime/maps": true, "internal/abi": true}

func skipInitFn(f *ssa.Function) bool {
	pos := f.Prog.Fset.Position(f.Pos())
	return strings.HasSuffix(pos.Filename, ".pb.go")
}

func reg(name string, f Intrinsic) {
	if _, dup := intrinsics[name]; dup {
		panic("duplicate intrinsic " + name)
	}
	intrinsics[name] = f
}

func tup(vs ...V) V { return V{p: Tuple(vs)} }

func noop(w *worker, a []V) V { return V{} }

func (w *worker) draw(width uint8) V {
	if w.pure > 0 {
		panic(mergeFail{})
	}
	t := w.newVar(width)
	v := V{p: t}
	w.draws = append(w.draws, draw{v: v, w: width})
	return v
}

func boolV(v V) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return tBool(v.n != 0)
}

func mustStr(w *worker, v V) string {
	s, ok := concreteStr(v)
	if !ok {
		w.unsupported("symbolic string where a concrete one is needed")
	}
	return s
}

func (w *worker) needImpure() {
	if w.pure > 0 {
		panic(mergeFail{})
	}
}

func init() {
	nd := repoModule + "/zz_verif/nd."
	for _, x := range []struct {
		n string
		w uint8
	}{{"Byte", 8}, {"Bool", 0}, {"Uint64", 64}, {"Uint32", 32}, {"Uint16", 16}, {"Int64", 64}, {"Int32", 32}, {"Int16", 16}, {"Int8", 8}, {"Int", 64}} {
		x := x
		reg(nd+x.n, func(w *worker, a []V) V { return w.draw(x.w) })
	}
	reg(nd+"Param", func(w *worker, a []V) V {
		if v, ok := w.eng.params[mustStr(w, a[0])]; ok {
			return vInt(v)
		}
		return a[1]
	})
	reg(nd+"IntRange", func(w *worker, a []V) V {
		if a[0].p == nil && a[1].p == nil && int64(a[1].n) > int64(a[0].n) && a[1].n-a[0].n < 1<<31-1 {
			w.needImpure()
			t := tAdd(tZExt(w.boundedVar(a[1].n-a[0].n), 64), tConst(a[0].n, 64))
			v := V{p: t}
			w.draws = append(w.draws, draw{v: v, w: 64})
			return v
		}
		v := w.draw(64)
		t := v.p.(*Term)
		lo, hi := tConst(a[0].n, 64), tConst(a[1].n, 64)
		if a[0].p != nil || a[1].p != nil {
			lo, hi = a[0].term(64), a[1].term(64)
		}
		w.assume(tAnd(tSle(lo, t), tSle(t, hi)))
		return v
	})
	reg(nd+"Choose", func(w *worker, a []V) V {
		w.needImpure()
		n := w.concInt(a[0])
		if n <= 0 {
			panic(pathEnd{"infeasible", "choose of none"})
		}
		k := w.choose(n)
		w.draws = append(w.draws, draw{v: vInt(k), w: 64})
		return vInt(k)
	})
	reg(nd+"Concretize", func(w *worker, a []V) V { return vInt(w.concInt(a[0])) })
	ndBytes := func(w *worker, n int) []V {
		out := make([]V, n)
		for i := range out {
			out[i] = w.draw(8)
		}
		return out
	}
	reg(nd+"Str", func(w *worker, a []V) V { return mkStr(ndBytes(w, w.concInt(a[0]))) })
	reg(nd+"Bytes", func(w *worker, a []V) V { return V{p: ndBytes(w, w.concInt(a[0]))} })
	reg(nd+"StrUpTo", func(w *worker, a []V) V {
		w.needImpure()
		k := w.choose(w.concInt(a[0]) + 1)
		w.draws = append(w.draws, draw{v: vInt(k), w: 64})
		return mkStr(ndBytes(w, k))
	})
	byteIn := func(w *worker, set string) V {
		v := w.draw(8)
		t := v.p.(*Term)
		w.assume(inSet(t, set))
		return v
	}
	reg(nd+"ByteIn", func(w *worker, a []V) V { return byteIn(w, mustStr(w, a[0])) })
	reg(nd+"StrIn", func(w *worker, a []V) V {
		set := mustStr(w, a[0])
		n := w.concInt(a[1])
		out := make([]V, n)
		for i := range out {
			out[i] = byteIn(w, set)
		}
		return mkStr(out)
	})
	reg(nd+"Assume", func(w *worker, a []V) V {
		w.needImpure()
		t := boolV(a[0])
		if t == tFalse {
			panic(pathEnd{"infeasible", ""})
		}
		w.assume(t)
		return V{}
	})
	check := func(w *worker, c V, id string, kind string) V {
		w.needImpure()
		w.asserts++
		t := boolV(c)
		nt := tNot(t)
		if nt == tFalse {
			return V{}
		}
		if w.pos >= len(w.prefix) {
			r, m := w.feasible(nt)
			w.eng.mu.Lock()
			w.eng.assertQ++
			w.eng.mu.Unlock()
			switch r {
			case resSat:
				w.eng.mu.Lock()
				w.eng.addCexLocked(Cex{w.eng.harness.Name(), kind, id, "assertion " + id + " fails", w.inputs(m)}, kind+" "+id)
				w.eng.mu.Unlock()
			case resUnknown:
				w.eng.addUnknown(w, nt)
			}
		}
		if t == tFalse {
			panic(pathEnd{"violation", id})
		}
		// continue with the assertion assumed
		if w.pos >= len(w.prefix) && evalTerm(t, w.model) == 0 {
			r, m := w.feasible(t)
			if r == resUnsat {
				panic(pathEnd{"violation", id})
			}
			if r == resUnknown {
				panic(pathEnd{"unknown", "after assert"})
			}
			w.model = m
		}
		w.addPC(t)
		return V{}
	}
	reg(nd+"Assert", func(w *worker, a []V) V { return check(w, a[0], mustStr(w, a[1]), "assert") })
	reg(nd+"Known", func(w *worker, a []V) V { return check(w, a[0], mustStr(w, a[1]), "known") })
	reg(nd+"Reach", func(w *worker, a []V) V { w.needImpure(); w.reached[mustStr(w, a[0])] = true; return V{} })
	reg(nd+"ObsInt", func(w *worker, a []V) V {
		w.needImpure()
		w.obsv = append(w.obsv, obs{mustStr(w, a[0]), a[1], 64})
		return V{}
	})
	reg(nd+"ObsBool", func(w *worker, a []V) V {
		w.needImpure()
		w.obsv = append(w.obsv, obs{mustStr(w, a[0]), a[1], 0})
		return V{}
	})
	reg(nd+"ObsStr", func(w *worker, a []V) V {
		w.needImpure()
		w.obsv = append(w.obsv, obs{mustStr(w, a[0]), a[1], 255})
		return V{}
	})
	reg(nd+"Not", func(w *worker, a []V) V { return vTerm(tNot(boolV(a[0]))) })
	reg(nd+"And", func(w *worker, a []V) V { return vTerm(tAnd(boolV(a[0]), boolV(a[1]))) })
	reg(nd+"Or", func(w *worker, a []V) V { return vTerm(tOr(boolV(a[0]), boolV(a[1]))) })
	reg(nd+"Implies", func(w *worker, a []V) V { return vTerm(tOr(tNot(boolV(a[0])), boolV(a[1]))) })
	reg(nd+"Iff", func(w *worker, a []V) V { return vTerm(tEq(boolV(a[0]), boolV(a[1]))) })
	reg(nd+"Ite", func(w *worker, a []V) V { return vTerm(tIte(boolV(a[0]), a[1].term(64), a[2].term(64))) })
	reg(nd+"MapOrder", func(w *worker, a []V) V { w.needImpure(); w.mapPerm = a[0].n != 0; return V{} })

	// sync: single-threaded unless the scheduler is active
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"runtime.KeepAlive", "runtime.GC", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"runtime.SetFinalizer", "(*strings.Builder).copyCheck", "runtime.Gosched", "(*internal/godebug.Setting).IncNonDefault",
		"github.com/golang/glog.Infof", "github.com/golang/glog.Info", "github.com/golang/glog.Warningf", "github.com/golang/glog.Errorf", "github.com/golang/glog.Warning", "github.com/golang/glog.Error",
		"(github.com/golang/glog.Verbose).Infof"} {
		reg(n, noop)
	}
	reg("(*sync.Mutex).TryLock", func(w *worker, a []V) V { return vBool(true) })
	reg("(*internal/godebug.Setting).Value", func(w *worker, a []V) V { return V{} })
	reg("internal/godebug.New", func(w *worker, a []V) V { c := new(V); *c = V{p: &Agg{f: make([]V, 8)}}; return V{p: c} })
	reg("(*sync.Pool).Get", func(w *worker, a []V) V {
		ag := a[0].p.(*V).p.(*Agg)
		f := ag.f[len(ag.f)-1]
		if f.p == nil {
			return V{}
		}
		return w.callV(f, nil, nil)
	})
	reg("(*sync.Pool).Put", noop)
	reg("(*sync.Once).Do", func(w *worker, a []V) V {
		w.needImpure()
		ag := a[0].p.(*V).p.(*Agg)
		// the done flag is kept in the first field cell
		c := &ag.f[0]
		if x, ok := c.p.(onceDone); ok && bool(x) {
			return V{}
		}
		w.setCell(c, V{p: onceDone(true)})
		w.callV(a[1], nil, nil)
		return V{}
	})
	// atomics
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
			ww := uint8(64)
			if strings.HasSuffix(ty, "32") {
				ww = 32
			}
			reg(pk+".Load"+ty, func(w *worker, a []V) V { return w.load(a[0]) })
			reg(pk+".Store"+ty, func(w *worker, a []V) V { w.store(a[0], a[1]); return V{} })
			reg(pk+".Add"+ty, func(w *worker, a []V) V {
				n := vTerm(tAdd(w.load(a[0]).term(ww), a[1].term(ww)))
				w.store(a[0], n)
				return n
			})
			reg(pk+".Swap"+ty, func(w *worker, a []V) V { o := w.load(a[0]); w.store(a[0], a[1]); return o })
			reg(pk+".CompareAndSwap"+ty, func(w *worker, a []V) V {
				if w.branch(tEq(w.load(a[0]).term(ww), a[1].term(ww))) {
					w.store(a[0], a[2])
					return vBool(true)
				}
				return V{}
			})
		}
		reg(pk+".LoadPointer", func(w *worker, a []V) V { return w.load(a[0]) })
		reg(pk+".StorePointer", func(w *worker, a []V) V { w.store(a[0], a[1]); return V{} })
		reg(pk+".CompareAndSwapPointer", func(w *worker, a []V) V {
			if sameV(w.load(a[0]), a[1]) {
				w.store(a[0], a[2])
				return vBool(true)
			}
			return V{}
		})
	}

	// internal/bytealg
	idxByte := func(w *worker, s []V, c V) V {
		ct := c.term(8)
		for i := range s {
			if w.branch(tEq(s[i].term(8), ct)) {
				return vInt(i)
			}
		}
		return vInt(-1)
	}
	lastIdxByte := func(w *worker, s []V, c V) V {
		ct := c.term(8)
		for i := len(s) - 1; i >= 0; i-- {
			if w.branch(tEq(s[i].term(8), ct)) {
				return vInt(i)
			}
		}
		return vInt(-1)
	}
	sl := func(v V) []V { s, _ := v.p.([]V); return s }
	reg("internal/bytealg.IndexByte", func(w *worker, a []V) V { return idxByte(w, sl(a[0]), a[1]) })
	reg("internal/bytealg.IndexByteString", func(w *worker, a []V) V {
		if s, ok := concreteStr(a[0]); ok && a[1].p == nil {
			return vInt(strings.IndexByte(s, byte(a[1].n)))
		}
		return idxByte(w, strBytes(a[0]), a[1])
	})
	reg("internal/bytealg.LastIndexByte", func(w *worker, a []V) V { return lastIdxByte(w, sl(a[0]), a[1]) })
	reg("internal/bytealg.LastIndexByteString", func(w *worker, a []V) V { return lastIdxByte(w, strBytes(a[0]), a[1]) })
	count := func(w *worker, s []V, c V) V {
		n := 0
		ct := c.term(8)
		for i := range s {
			if w.branch(tEq(s[i].term(8), ct)) {
				n++
			}
		}
		return vInt(n)
	}
	reg("internal/bytealg.Count", func(w *worker, a []V) V { return count(w, sl(a[0]), a[1]) })
	reg("internal/bytealg.CountString", func(w *worker, a []V) V { return count(w, strBytes(a[0]), a[1]) })
	reg("internal/bytealg.Equal", func(w *worker, a []V) V { return vTerm(bytesEq(sl(a[0]), sl(a[1]))) })
	reg("bytes.Equal", func(w *worker, a []V) V { return vTerm(bytesEq(sl(a[0]), sl(a[1]))) })
	cmp3 := func(x, y V) V {
		eq, lt := strEqTerm(x, y), strLtTerm(x, y)
		return vTerm(tIte(eq, tConst(0, 64), tIte(lt, tConst(^uint64(0), 64), tConst(1, 64))))
	}
	reg("internal/bytealg.Compare", func(w *worker, a []V) V {
		return cmp3(mkStr(append([]V(nil), sl(a[0])...)), mkStr(append([]V(nil), sl(a[1])...)))
	})
	reg("internal/bytealg.CompareString", func(w *worker, a []V) V { return cmp3(a[0], a[1]) })
	reg("strings.Compare", func(w *worker, a []V) V { return cmp3(a[0], a[1]) })
	reg("internal/bytealg.MakeNoZero", func(w *worker, a []V) V { return V{p: make([]V, w.concInt(a[0]))} })
	index := func(w *worker, s, sep V) V {
		x, ok1 := concreteStr(s)
		y, ok2 := concreteStr(sep)
		if ok1 && ok2 {
			return vInt(strings.Index(x, y))
		}
		n, m := strLen(s), strLen(sep)
		for i := 0; i+m <= n; i++ {
			if w.branch(strEqTerm(strSlice(s, i, i+m), sep)) {
				return vInt(i)
			}
		}
		return vInt(-1)
	}
	lastIndex := func(w *worker, s, sep V) V {
		n, m := strLen(s), strLen(sep)
		for i := n - m; i >= 0; i-- {
			if w.branch(strEqTerm(strSlice(s, i, i+m), sep)) {
				return vInt(i)
			}
		}
		return vInt(-1)
	}
	reg("strings.Index", func(w *worker, a []V) V { return index(w, a[0], a[1]) })
	reg("strings.LastIndex", func(w *worker, a []V) V { return lastIndex(w, a[0], a[1]) })
	contains := func(w *worker, s, sep V) *Term {
		x, ok1 := concreteStr(s)
		y, ok2 := concreteStr(sep)
		if ok1 && ok2 {
			return tBool(strings.Contains(x, y))
		}
		n, m := strLen(s), strLen(sep)
		r := tFalse
		for i := 0; i+m <= n; i++ {
			r = tOr(r, strEqTerm(strSlice(s, i, i+m), sep))
		}
		return r
	}
	reg("strings.Contains", func(w *worker, a []V) V { return vTerm(contains(w, a[0], a[1])) })
	reg("internal/bytealg.IndexString", func(w *worker, a []V) V { return index(w, a[0], a[1]) })
	sls := func(v V) V { return mkStr(append([]V(nil), sl(v)...)) }
	reg("bytes.Index", func(w *worker, a []V) V { return index(w, sls(a[0]), sls(a[1])) })
	reg("bytes.Contains", func(w *worker, a []V) V { return vTerm(contains(w, sls(a[0]), sls(a[1]))) })
	reg("internal/bytealg.Index", func(w *worker, a []V) V { return index(w, sls(a[0]), sls(a[1])) })
	pre := func(s, p V) *Term {
		if strLen(p) > strLen(s) {
			return tFalse
		}
		return strEqTerm(strSlice(s, 0, strLen(p)), p)
	}
	suf := func(s, p V) *Term {
		if strLen(p) > strLen(s) {
			return tFalse
		}
		return strEqTerm(strSlice(s, strLen(s)-strLen(p), strLen(s)), p)
	}
	reg("strings.HasPrefix", func(w *worker, a []V) V { return vTerm(pre(a[0], a[1])) })
	reg("strings.HasSuffix", func(w *worker, a []V) V { return vTerm(suf(a[0], a[1])) })
	// strings.Builder.String shares memory through unsafe; copy instead
	reg("(*strings.Builder).String", func(w *worker, a []V) V {
		c, ok := a[0].p.(*V)
		if !ok {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		b, _ := c.p.(*Agg).f[1].p.([]V)
		return mkStr(append([]V(nil), b...))
	})
	reg("strings.Clone", func(w *worker, a []V) V { return a[0] })
	reg("internal/stringslite.Clone", func(w *worker, a []V) V { return a[0] })

	// utf8
	reg("unicode/utf8.DecodeRuneInString", func(w *worker, a []V) V {
		n := strLen(a[0])
		if n == 0 {
			return tup(V{n: 0xFFFD}, V{})
		}
		r, sz := w.decodeRune(strBytesAt(a[0], 0, 4))
		return tup(r, vInt(sz))
	})
	reg("unicode/utf8.DecodeRune", func(w *worker, a []V) V {
		b := sl(a[0])
		if len(b) == 0 {
			return tup(V{n: 0xFFFD}, V{})
		}
		if len(b) > 4 {
			b = b[:4]
		}
		r, sz := w.decodeRune(b)
		return tup(r, vInt(sz))
	})
	runeLen := func(w *worker, a []V) V {
		t := a[0].term(32)
		c := func(x uint64) *Term { return tConst(x, 32) }
		r := func(x int) *Term { return tConst(uint64(x), 64) }
		sur := tAnd(tUle(c(0xD800), t), tUlt(t, c(0xE000)))
		return vTerm(tIte(tUlt(t, c(0x80)), r(1), tIte(tUlt(t, c(0x800)), r(2), tIte(sur, r(-1), tIte(tUlt(t, c(0x10000)), r(3), tIte(tUlt(t, c(0x110000)), r(4), r(-1)))))))
	}
	reg("unicode/utf8.RuneLen", runeLen)
	reg("unicode/utf8.EncodeRune", func(w *worker, a []V) V {
		e := w.encodeRune(a[1])
		d := sl(a[0])
		if len(d) < len(e) {
			w.rtPanic("index out of range")
		}
		for i := range e {
			w.setCell(&d[i], e[i])
		}
		return vInt(len(e))
	})
	reg("unicode/utf8.AppendRune", func(w *worker, a []V) V {
		return V{p: w.appendV(sl(a[0]), w.encodeRune(a[1]), types.Typ[types.Uint8])}
	})
	reg("unicode/utf8.ValidString", func(w *worker, a []V) V { return vTerm(validTerm(strBytes(a[0]))) })
	reg("unicode/utf8.Valid", func(w *worker, a []V) V { return vTerm(validTerm(sl(a[0]))) })
	asciiCase := func(name string, nat func(string) string, lo, hi uint64, slow string) {
		reg("strings."+name, func(w *worker, a []V) V {
			if s, ok := concreteStr(a[0]); ok {
				return vStr(nat(s))
			}
			b := strBytes(a[0])
			all := tTrue
			for i := range b {
				all = tAnd(all, tUlt(b[i].term(8), tConst(0x80, 8)))
			}
			if !w.branch(all) {
				w.unsupported("strings.%s of non-ASCII text", name)
			}
			out := make([]V, len(b))
			for i := range b {
				t := b[i].term(8)
				out[i] = vTerm(tIte(in8(t, lo, hi), tBXor(t, tConst(0x20, 8)), t))
			}
			return mkStr(out)
		})
	}
	asciiCase("ToUpper", strings.ToUpper, 'a', 'z', "")
	asciiCase("ToLower", strings.ToLower, 'A', 'Z', "")
	// unicode tables
	uni := func(name string, tabs ...*unicode.RangeTable) {
		nat := func(r rune) bool { return unicode.In(r, tabs...) }
		reg("unicode."+name, func(w *worker, a []V) V {
			t, ok := a[0].p.(*Term)
			if !ok {
				return vBool(nat(rune(int32(a[0].n))))
			}
			r := tFalse
			for _, tab := range tabs {
				r = tOr(r, rangeTerm(t, tab))
			}
			return vTerm(r)
		})
	}
	uni("IsLetter", unicode.Letter)
	uni("IsDigit", unicode.Digit)
	uni("IsNumber", unicode.Number)
	uni("IsSpace", unicode.White_Space)
	uni("IsUpper", unicode.Upper)
	uni("IsLower", unicode.Lower)
	uni("IsTitle", unicode.Title)
	uni("IsPunct", unicode.Punct)
	uni("IsControl", unicode.Cc)
	uni("IsSymbol", unicode.Symbol)
	uni("IsMark", unicode.Mark)
	uni("IsPrint", unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, &unicode.RangeTable{R16: []unicode.Range16{{Lo: ' ', Hi: ' ', Stride: 1}}, LatinOffset: 1})
	caseMap := func(name string, f func(rune) rune) {
		reg("unicode."+name, func(w *worker, a []V) V {
			t, ok := a[0].p.(*Term)
			if !ok {
				return V{n: uint64(uint32(f(rune(int32(a[0].n)))))}
			}
			// ASCII exactly; other runes one by one over the case table
			out := t
			type dr struct {
				lo, hi rune
				d      int32
			}
			var ds []dr
			for r := rune(0); r <= unicode.MaxRune; r++ {
				m := f(r)
				if m == r {
					continue
				}
				d := int32(m - r)
				if n := len(ds); n > 0 && ds[n-1].hi == r-1 && ds[n-1].d == d {
					ds[n-1].hi = r
					continue
				}
				ds = append(ds, dr{r, r, d})
			}
			if maxU(t) < 0x80 || !w.branch(tUle(tConst(0x80, 32), t)) {
				if len(ds) > 1 {
					ds = ds[:1]
				}
			}
			for _, d := range ds {
				in := tAnd(tUle(tConst(uint64(d.lo), 32), t), tUle(t, tConst(uint64(d.hi), 32)))
				out = tIte(in, tAdd(t, tConst(uint64(uint32(d.d)), 32)), out)
			}
			return vTerm(out)
		})
	}
	caseMap("ToUpper", unicode.ToUpper)
	caseMap("ToLower", unicode.ToLower)

	// time: the process start and the local zone (UTC) are fixed
	reg("time.runtimeNano", func(w *worker, a []V) V { return V{n: 1} })
	reg("time.initLocal", noop)
	for _, n := range []string{"timestamppb.Timestamp", "durationpb.Duration"} {
		reg("(*google.golang.org/protobuf/types/known/"+n+").String", func(w *worker, a []V) V { return vStr(opaqueMark) })
	}

	// math
	reg("math.Float64bits", func(w *worker, a []V) V { return V{n: a[0].n} })
	reg("math.Float64frombits", func(w *worker, a []V) V {
		if t, ok := a[0].p.(*Term); ok {
			return V{n: w.concretize(t)}
		}
		return V{n: a[0].n}
	})
	reg("math.Float32bits", func(w *worker, a []V) V { return V{n: uint64(math.Float32bits(float32(f64(a[0]))))} })
	reg("math.Float32frombits", func(w *worker, a []V) V {
		if t, ok := a[0].p.(*Term); ok {
			return V{n: math.Float64bits(float64(math.Float32frombits(uint32(w.concretize(t)))))}
		}
		return V{n: math.Float64bits(float64(math.Float32frombits(uint32(a[0].n))))}
	})
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Log10": math.Log10, "Log2": math.Log2, "Log": math.Log} {
		f := f
		reg("math."+n, func(w *worker, a []V) V { return V{n: math.Float64bits(f(f64(a[0])))} })
	}
	reg("math/bits.Mul64", func(w *worker, a []V) V {
		if a[0].p == nil && a[1].p == nil {
			h, l := bits.Mul64(a[0].n, a[1].n)
			return tup(V{n: h}, V{n: l})
		}
		// schoolbook on 32-bit halves
		x, y := a[0].term(64), a[1].term(64)
		m := tConst(0xFFFFFFFF, 64)
		s32 := tConst(32, 64)
		x0, x1 := tBAnd(x, m), tLshr(x, s32)
		y0, y1 := tBAnd(y, m), tLshr(y, s32)
		w0 := tMul(x0, y0)
		t := tAdd(tMul(x1, y0), tLshr(w0, s32))
		w1 := tAdd(tBAnd(t, m), tMul(x0, y1))
		hi := tAdd(tAdd(tMul(x1, y1), tLshr(t, s32)), tLshr(w1, s32))
		return tup(vTerm(hi), vTerm(tMul(x, y)))
	})
	for n, f := range map[string]func(uint64) int{"LeadingZeros64": bits.LeadingZeros64, "TrailingZeros64": bits.TrailingZeros64, "Len64": bits.Len64} {
		f := f
		reg("math/bits."+n, func(w *worker, a []V) V {
			if t, ok := a[0].p.(*Term); ok {
				return vInt(f(w.concretize(t)))
			}
			return vInt(f(a[0].n))
		})
	}
	reg("math/bits.Len", func(w *worker, a []V) V {
		if t, ok := a[0].p.(*Term); ok {
			return vInt(bits.Len64(w.concretize(t)))
		}
		return vInt(bits.Len64(a[0].n))
	})

	// sort
	reg("sort.Slice", func(w *worker, a []V) V { w.sortSlice(a[0], a[1], false); return V{} })
	reg("sort.SliceStable", func(w *worker, a []V) V { w.sortSlice(a[0], a[1], true); return V{} })
	reg("sort.Strings", func(w *worker, a []V) V {
		w.needImpure()
		s := sl(a[0])
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && w.branch(strLtTerm(s[j], s[j-1])); j-- {
				x, y := s[j-1], s[j]
				w.setCell(&s[j-1], y)
				w.setCell(&s[j], x)
			}
		}
		return V{}
	})
	reg("os.Getenv", func(w *worker, a []V) V { return V{} })
	reg("runtime.Caller", func(w *worker, a []V) V { return tup(V{}, V{}, V{}, V{}) })
	reg("internal/abi.NoEscape", func(w *worker, a []V) V { return a[0] })
	reg("internal/abi.Escape", func(w *worker, a []V) V { return a[0] })
	reg("internal/stringslite.HasPrefix", func(w *worker, a []V) V { return vTerm(pre(a[0], a[1])) })
	reg("internal/stringslite.HasSuffix", func(w *worker, a []V) V { return vTerm(suf(a[0], a[1])) })
	reg("internal/stringslite.Index", func(w *worker, a []V) V { return index(w, a[0], a[1]) })
	reg("internal/stringslite.IndexByte", func(w *worker, a []V) V { return idxByte(w, strBytes(a[0]), a[1]) })
}

type onceDone bool

func inSet(t *Term, set string) *Term {
	var has [256]bool
	for i := 0; i < len(set); i++ {
		has[set[i]] = true
	}
	r := tFalse
	for i := 0; i < 256; {
		if !has[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && has[j+1] {
			j++
		}
		if i == j {
			r = tOr(r, tEq(t, tConst(uint64(i), 8)))
		} else {
			r = tOr(r, in8(t, uint64(i), uint64(j)))
		}
		i = j + 1
	}
	return r
}

func bytesEq(a, b []V) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	r := tTrue
	for i := len(a) - 1; i >= 0; i-- {
		r = tAnd(tEq(a[i].term(8), b[i].term(8)), r)
	}
	return r
}

// validTerm: b is valid UTF-8.
func validTerm(b []V) *Term {
	n := len(b)
	ok := make([]*Term, n+5)
	for i := range ok {
		ok[i] = tFalse
	}
	ok[n] = tTrue
	for i := n - 1; i >= 0; i-- {
		c := runeCases(b[i:min(n, i+4)])
		r := tFalse
		for k := 0; k < 4; k++ {
			r = tOr(r, tAnd(c[k], ok[i+k+1]))
		}
		ok[i] = r
	}
	return ok[0]
}

func rangeTerm(t *Term, tab *unicode.RangeTable) *Term {
	r := tFalse
	add := func(lo, hi, stride uint64) {
		hiMax := maxU(t)
		if lo > hiMax {
			return
		}
		var c *Term
		if lo == hi {
			c = tEq(t, tConst(lo, 32))
		} else {
			c = tAnd(tUle(tConst(lo, 32), t), tUle(t, tConst(hi, 32)))
			if stride > 1 {
				c = tAnd(c, tEq(tDivRem(OUrem, tSub(t, tConst(lo, 32)), tConst(stride, 32)), tConst(0, 32)))
			}
		}
		r = tOr(r, c)
	}
	for _, x := range tab.R16 {
		add(uint64(x.Lo), uint64(x.Hi), uint64(x.Stride))
	}
	for _, x := range tab.R32 {
		add(uint64(x.Lo), uint64(x.Hi), uint64(x.Stride))
	}
	return r
}

func (w *worker) sortSlice(sv, less V, stable bool) {
	w.needImpure()
	i, ok := sv.p.(*Iface)
	if !ok {
		w.unsupported("sort.Slice of %T", sv.p)
	}
	s, _ := i.v.p.([]V)
	swap := func(x, y int) {
		a, b := copyV(s[x]), copyV(s[y])
		w.storeCell(&s[x], b)
		w.storeCell(&s[y], a)
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !w.branchV(w.callV(less, []V{vInt(j), vInt(j - 1)}, nil)) {
				break
			}
			swap(j, j-1)
		}
	}
}

var _ = fmt.Sprint
