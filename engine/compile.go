package main

// Compilation of go/ssa functions into closures over register frames.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okConst opKind = iota
	okReg
	okGlobal
	okFresh // constant needing a fresh zero aggregate each time
)

type opnd struct {
	k  opKind
	i  int
	c  V
	t  types.Type
	cf *ssa.Global
}

func (o *opnd) val(fr *frame) V {
	switch o.k {
	case okReg:
		return fr.r[o.i]
	case okConst:
		return o.c
	case okGlobal:
		return V{p: fr.w.global(o.cf)}
	}
	return zero(o.t)
}

type cphi struct {
	dst   int
	edges []opnd
}

type termKind uint8

const (
	tkJump termKind = iota
	tkIf
	tkRet
	tkPanic
)

type insFn func(fr *frame)

type cblock struct {
	idx     int
	phis    []cphi
	body    []insFn
	term    termKind
	cond    opnd
	succ    [2]int
	results []opnd
	preds   []int
	// merging
	pureOK    bool
	nsucc     int
	ssaBlk    *ssa.BasicBlock
	hasBackIn bool
}

type CFn struct {
	fn       *ssa.Function
	name     string
	once     sync.Once
	compiled bool
	nregs    int
	nparams  int
	fvBase   int
	blocks   []*cblock
	recover  int
	hasDefer bool
	pre      func(w *worker, a []V) []V
	intr     Intrinsic
	nres     int
	inRepo   bool
	hits     int64
	badCode  string
}

type Intrinsic func(w *worker, args []V) V

var cfns sync.Map // *ssa.Function -> *CFn

func cfnOf(fn *ssa.Function) *CFn {
	if c, ok := cfns.Load(fn); ok {
		return c.(*CFn)
	}
	c := &CFn{fn: fn, name: fn.String()}
	nm := c.name
	if fn.Origin() != nil {
		nm = fn.Origin().String()
	}
	c.intr = intrinsics[nm]
	c.pre = preHooks[nm]
	if c.intr == nil && fn.Pkg != nil && strings.HasSuffix(nm, ".init#1") {
		// never reached: init#n functions are handled in runInit
	}
	c.nres = fn.Signature.Results().Len()
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil && fn.Parent() != nil {
		pk = fn.Parent().Pkg
	}
	if pk != nil && strings.HasPrefix(pk.Pkg.Path(), repoModule) && !strings.HasPrefix(pk.Pkg.Path(), repoModule+"/zz_verif") {
		c.inRepo = true
	}
	a, _ := cfns.LoadOrStore(fn, c)
	return a.(*CFn)
}

func (c *CFn) ensure() {
	c.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(compileErr); ok {
					c.badCode = string(s)
					c.compiled = false
					return
				}
				panic(r)
			}
		}()
		compileFn(c)
		c.compiled = true
	})
}

type compileErr string

type compiler struct {
	c    *CFn
	regs map[ssa.Value]int
	n    int
}

func (k *compiler) reg(v ssa.Value) int {
	if i, ok := k.regs[v]; ok {
		return i
	}
	i := k.n
	k.n++
	k.regs[v] = i
	return i
}

func constVal(c *ssa.Const) V {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(compileErr("const of type parameter"))
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(compileErr("const type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return vBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return vStr(constant.StringVal(c.Value))
		}
		return vStr(string(rune(c.Int64())))
	case b.Info()&types.IsInteger != 0:
		if b.Info()&types.IsUnsigned != 0 {
			return V{n: c.Uint64() & mask(widthOf(b))}
		}
		return V{n: uint64(c.Int64()) & mask(widthOf(b))}
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case b.Kind() == types.UnsafePointer:
		return V{}
	}
	if b.Info()&types.IsComplex != 0 {
		return V{}
	}
	panic(compileErr("const kind " + t.String()))
}

func (k *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		switch x.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return opnd{k: okFresh, t: x.Type()}
		}
		return opnd{k: okConst, c: constVal(x)}
	case *ssa.Global:
		return opnd{k: okGlobal, cf: x}
	case *ssa.Function:
		return opnd{k: okConst, c: V{p: &Closure{fn: cfnOf(x)}}}
	case *ssa.Builtin:
		return opnd{k: okConst, c: V{p: x}}
	}
	return opnd{k: okReg, i: k.reg(v)}
}

func compileFn(c *CFn) {
	fn := c.fn
	// always wait for the build: another worker may be building the package right now
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		fn.Origin().Pkg.Build()
	}
	if fn.Blocks == nil {
		panic(compileErr("no body: " + fn.String()))
	}
	k := &compiler{c: c, regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		k.reg(p)
	}
	c.nparams = len(fn.Params)
	c.fvBase = k.n
	for _, f := range fn.FreeVars {
		k.reg(f)
	}
	c.recover = -1
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		cb := &cblock{idx: b.Index, ssaBlk: b, pureOK: true}
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, ins := range b.Instrs {
			if !pureInstr(ins) {
				cb.pureOK = false
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				ph := cphi{dst: k.reg(x)}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, k.op(e))
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.Jump:
				cb.term = tkJump
				cb.succ[0] = b.Succs[0].Index
				cb.nsucc = 1
			case *ssa.If:
				cb.term = tkIf
				cb.cond = k.op(x.Cond)
				cb.succ[0], cb.succ[1] = b.Succs[0].Index, b.Succs[1].Index
				cb.nsucc = 2
			case *ssa.Return:
				cb.term = tkRet
				for _, r := range x.Results {
					cb.results = append(cb.results, k.op(r))
				}
			case *ssa.Panic:
				cb.term = tkPanic
				cb.cond = k.op(x.X)
			case *ssa.Defer:
				c.hasDefer = true
				cb.body = append(cb.body, k.instr(ins))
			default:
				f := k.instr(ins)
				if f != nil {
					cb.body = append(cb.body, f)
				}
			}
		}
		c.blocks = append(c.blocks, cb)
	}
	c.nregs = k.n
}

// pureInstr: instructions allowed in a merged region (dynamic checks may still reject).
func pureInstr(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Return, *ssa.BinOp, *ssa.ChangeType, *ssa.Convert, *ssa.FieldAddr, *ssa.Field, *ssa.Extract,
		*ssa.IndexAddr, *ssa.Index, *ssa.DebugRef, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Slice, *ssa.TypeAssert:
		return true
	case *ssa.Lookup:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		return true
	}
	return false
}

func (k *compiler) instr(ins ssa.Instruction) insFn {
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.BinOp:
		return k.binop(x)
	case *ssa.UnOp:
		return k.unop(x)
	case *ssa.ChangeType:
		a, d := k.op(x.X), k.reg(x)
		return func(fr *frame) { fr.r[d] = a.val(fr) }
	case *ssa.Convert:
		return k.convert(x, x.X, x.Type())
	case *ssa.MultiConvert:
		return k.convert(x, x.X, x.Type())
	case *ssa.ChangeInterface:
		a, d := k.op(x.X), k.reg(x)
		return func(fr *frame) { fr.r[d] = a.val(fr) }
	case *ssa.MakeInterface:
		a, d := k.op(x.X), k.reg(x)
		rt := rtOf(x.X.Type())
		return func(fr *frame) { fr.r[d] = V{p: &Iface{rt, a.val(fr)}} }
	case *ssa.Alloc:
		d := k.reg(x)
		et := x.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) {
			c := new(V)
			*c = zero(et)
			fr.r[d] = V{p: c}
		}
	case *ssa.Store:
		a, v := k.op(x.Addr), k.op(x.Val)
		return func(fr *frame) { fr.w.store(a.val(fr), v.val(fr)) }
	case *ssa.FieldAddr:
		a, d, i := k.op(x.X), k.reg(x), x.Field
		return func(fr *frame) {
			p := a.val(fr)
			c, ok := p.p.(*V)
			if !ok {
				if p.p == nil {
					fr.w.rtPanic("invalid memory address or nil pointer dereference")
				}
				fr.w.unsupported("field address of %T in %s", p.p, k.c.name)
			}
			ag, ok := c.p.(*Agg)
			if !ok {
				fr.w.unsupported("field of %T (%v) in %s", c.p, x.X.Type(), k.c.name)
			}
			fr.r[d] = V{p: &ag.f[i]}
		}
	case *ssa.Field:
		a, d, i := k.op(x.X), k.reg(x), x.Field
		return func(fr *frame) {
			ag, ok := a.val(fr).p.(*Agg)
			if !ok {
				fr.w.unsupported("field of opaque struct in %s", k.c.name)
			}
			fr.r[d] = ag.f[i]
		}
	case *ssa.IndexAddr:
		a, ix, d := k.op(x.X), k.op(x.Index), k.reg(x)
		iw, is := widthOf(x.Index.Type()), isSigned(x.Index.Type())
		var et types.Type
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			et = u.Elem().Underlying().(*types.Array).Elem()
		}
		sc := isScalarT(et)
		ew := widthOf(et)
		return func(fr *frame) {
			var arr []V
			p := a.val(fr)
			switch q := p.p.(type) {
			case nil:
				if _, isp := x.X.Type().Underlying().(*types.Pointer); isp {
					fr.w.rtPanic("invalid memory address or nil pointer dereference")
				}
			case []V:
				arr = q
			case *V:
				arr = q.p.(*Agg).f
			default:
				fr.w.unsupported("index of %T", p.p)
			}
			iv := ix.val(fr)
			if t, ok := iv.p.(*Term); ok {
				fr.w.boundsCheck(t, iw, is, len(arr))
				if sc && len(arr) <= 512 && allScalar(arr) {
					if lo, ok := fr.w.uniqueVal(t); ok {
						fr.r[d] = V{p: &arr[lo]}
						return
					}
					fr.r[d] = V{p: &SymPtr{arr: arr, idx: t, w: ew}}
					return
				}
				fr.r[d] = V{p: &arr[fr.w.concretize(t)]}
				return
			}
			i := int64(iv.n)
			if is {
				i = sext(iv.n, iw)
			}
			if i < 0 || i >= int64(len(arr)) {
				fr.w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(arr)))
			}
			fr.r[d] = V{p: &arr[i]}
		}
	case *ssa.Index:
		a, ix, d := k.op(x.X), k.op(x.Index), k.reg(x)
		iw, is := widthOf(x.Index.Type()), isSigned(x.Index.Type())
		str := isString(x.X.Type())
		return func(fr *frame) {
			av := a.val(fr)
			if str {
				fr.r[d] = fr.w.strIndex(av, ix.val(fr), iw, is)
				return
			}
			arr := av.p.(*Agg).f
			fr.r[d] = fr.w.readIndex(arr, ix.val(fr), iw, is, widthOf(x.Type()))
		}
	case *ssa.Lookup:
		a, ix, d := k.op(x.X), k.op(x.Index), k.reg(x)
		if isString(x.X.Type()) {
			iw, is := widthOf(x.Index.Type()), isSigned(x.Index.Type())
			return func(fr *frame) { fr.r[d] = fr.w.strIndex(a.val(fr), ix.val(fr), iw, is) }
		}
		mt := x.X.Type().Underlying().(*types.Map)
		return func(fr *frame) {
			v, ok := fr.w.mapGet(a.val(fr), ix.val(fr), mt.Key(), mt.Elem())
			if !ok {
				v = zero(mt.Elem())
			} else {
				v = copyV(v)
			}
			if x.CommaOk {
				fr.r[d] = V{p: Tuple{v, vBool(ok)}}
			} else {
				fr.r[d] = v
			}
		}
	case *ssa.Slice:
		return k.slice(x)
	case *ssa.Extract:
		a, d, i := k.op(x.Tuple), k.reg(x), x.Index
		return func(fr *frame) { fr.r[d] = a.val(fr).p.(Tuple)[i] }
	case *ssa.MakeSlice:
		l, cp, d := k.op(x.Len), k.op(x.Cap), k.reg(x)
		et := x.Type().Underlying().(*types.Slice).Elem()
		agg := false
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			agg = true
		}
		return func(fr *frame) {
			n := fr.w.concInt(l.val(fr))
			m := fr.w.concInt(cp.val(fr))
			if n < 0 || m < n {
				fr.w.rtPanic("makeslice: len out of range")
			}
			if m > 1<<22 {
				fr.w.unsupported("makeslice of %d", m)
			}
			s := make([]V, m)
			if agg {
				for i := range s {
					s[i] = zero(et)
				}
			}
			fr.r[d] = V{p: s[:n]}
		}
	case *ssa.MakeMap:
		d := k.reg(x)
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.r[d] = V{p: &Map{idx: map[string]*mapEnt{}, kt: kt}} }
	case *ssa.MakeChan:
		d, sz := k.reg(x), k.op(x.Size)
		return func(fr *frame) { fr.r[d] = V{p: &Chan{cap: fr.w.concInt(sz.val(fr))}} }
	case *ssa.Send:
		c, v := k.op(x.Chan), k.op(x.X)
		return func(fr *frame) { fr.w.chanSend(c.val(fr), v.val(fr)) }
	case *ssa.Select:
		return func(fr *frame) { fr.w.unsupported("select in %s", k.c.name) }
	case *ssa.Go:
		f, args := k.callee(&x.Call)
		return func(fr *frame) {
			fnv, av := f(fr), evalArgs(fr, args)
			fr.w.goStmt(fnv, av)
		}
	case *ssa.MapUpdate:
		m, key, v := k.op(x.Map), k.op(x.Key), k.op(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) { fr.w.mapSet(m.val(fr), key.val(fr), v.val(fr), kt) }
	case *ssa.MakeClosure:
		d := k.reg(x)
		f := cfnOf(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, k.op(b))
		}
		return func(fr *frame) {
			env := make([]V, len(bs))
			for i := range bs {
				env[i] = bs[i].val(fr)
			}
			fr.r[d] = V{p: &Closure{f, env}}
		}
	case *ssa.TypeAssert:
		return k.typeAssert(x)
	case *ssa.Range:
		a, d := k.op(x.X), k.reg(x)
		if isString(x.X.Type()) {
			return func(fr *frame) { fr.r[d] = V{p: &strIter{s: a.val(fr)}} }
		}
		return func(fr *frame) {
			it := &mapIter{}
			if m, ok := a.val(fr).p.(*Map); ok {
				it.m = m
				it.ents = fr.w.mapOrder(m)
			}
			fr.r[d] = V{p: it}
		}
	case *ssa.Next:
		a, d := k.op(x.Iter), k.reg(x)
		if x.IsString {
			return func(fr *frame) {
				it := a.val(fr).p.(*strIter)
				n := strLen(it.s)
				if it.pos >= n {
					fr.r[d] = V{p: Tuple{{}, {}, {}}}
					return
				}
				r, sz := fr.w.decodeRune(strBytesAt(it.s, it.pos, 4))
				pos := it.pos
				// iterators are mutated in place: registers are per frame and never shared across paths
				it.pos += sz
				fr.r[d] = V{p: Tuple{vBool(true), vInt(pos), r}}
			}
		}
		return func(fr *frame) {
			it := a.val(fr).p.(*mapIter)
			for it.pos < len(it.ents) {
				e := it.ents[it.pos]
				it.pos++
				if e.del {
					continue
				}
				fr.r[d] = V{p: Tuple{vBool(true), e.k, copyV(e.v)}}
				return
			}
			fr.r[d] = V{p: Tuple{{}, {}, {}}}
		}
	case *ssa.Call:
		return k.call(x)
	case *ssa.Defer:
		f, args := k.callee(&x.Call)
		return func(fr *frame) {
			fnv := f(fr)
			fr.defers = append(fr.defers, deferred{fnv, evalArgs(fr, args)})
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.w.runDefers(fr)
			if fr.panicking {
				panic(fr.panicV)
			}
		}
	case *ssa.SliceToArrayPointer:
		a, d := k.op(x.X), k.reg(x)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s, _ := a.val(fr).p.([]V)
			if len(s) < n {
				fr.w.rtPanic("slice to array conversion: length")
			}
			c := new(V)
			c.p = &Agg{f: s[:n:n]}
			fr.r[d] = V{p: c}
		}
	}
	panic(compileErr(fmt.Sprintf("instruction %T", ins)))
}

func strBytesAt(v V, pos, n int) []V {
	l := strLen(v)
	if pos+n > l {
		n = l - pos
	}
	switch s := v.p.(type) {
	case *SStr:
		return s.b[pos : pos+n]
	case string:
		out := make([]V, n)
		for i := 0; i < n; i++ {
			out[i] = V{n: uint64(s[pos+i])}
		}
		return out
	}
	return nil
}

type strIter struct {
	s   V
	pos int
}
type mapIter struct {
	m    *Map
	ents []*mapEnt
	pos  int
}

func evalArgs(fr *frame, args []opnd) []V {
	out := make([]V, len(args))
	for i := range args {
		out[i] = args[i].val(fr)
	}
	return out
}

// callee returns a function giving the callee value and the argument operands (receiver included for invokes, resolved in f).
func (k *compiler) callee(c *ssa.CallCommon) (func(fr *frame) V, []opnd) {
	var args []opnd
	if c.IsInvoke() {
		r := k.op(c.Value)
		m := c.Method
		args = append(args, opnd{})
		for _, a := range c.Args {
			args = append(args, k.op(a))
		}
		rr := r
		_ = rr
		// the receiver operand is resolved by a special closure value
		f := func(fr *frame) V {
			rv := r.val(fr)
			i, ok := rv.p.(*Iface)
			if !ok {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			return V{p: &boundRecv{fr.w.findMethod(i.t, m), i.v}}
		}
		return f, args
	}
	for _, a := range c.Args {
		args = append(args, k.op(a))
	}
	o := k.op(c.Value)
	return func(fr *frame) V { return o.val(fr) }, args
}

// boundRecv is a resolved interface method call: the receiver replaces args[0].
type boundRecv struct {
	fn   *CFn
	recv V
}

func (k *compiler) call(x *ssa.Call) insFn {
	d := k.reg(x)
	c := &x.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return k.builtin(x, b)
	}
	var args []opnd
	for _, a := range c.Args {
		args = append(args, k.op(a))
	}
	if c.IsInvoke() {
		r, m := k.op(c.Value), c.Method
		var ct *RT
		var cf *CFn
		var mu sync.Mutex
		return func(fr *frame) {
			i, ok := r.val(fr).p.(*Iface)
			if !ok {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			mu.Lock()
			f := cf
			if ct != i.t {
				f = nil
			}
			mu.Unlock()
			if f == nil {
				f = fr.w.findMethod(i.t, m)
				mu.Lock()
				ct, cf = i.t, f
				mu.Unlock()
			}
			av := make([]V, len(args)+1)
			av[0] = i.v
			for j := range args {
				av[j+1] = args[j].val(fr)
			}
			fr.r[d] = fr.w.callCFn(f, av, nil, fr)
		}
	}
	if sf := c.StaticCallee(); sf != nil {
		if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
			cf := cfnOf(sf)
			if sf.String() == "fmt.Sprintf" && onlyPanics(x) {
				in := intrinsics["fmt.Sprintf#opaque"]
				return func(fr *frame) {
					fr.r[d] = in(fr.w, evalArgs(fr, args))
				}
			}
			return func(fr *frame) {
				fr.r[d] = fr.w.callCFn(cf, evalArgs(fr, args), nil, fr)
			}
		}
	}
	o := k.op(c.Value)
	return func(fr *frame) {
		fr.r[d] = fr.w.callV(o.val(fr), evalArgs(fr, args), fr)
	}
}

func (k *compiler) typeAssert(x *ssa.TypeAssert) insFn {
	a, d := k.op(x.X), k.reg(x)
	at := x.AssertedType
	toIface := isIface(at)
	rt := rtOf(at)
	return func(fr *frame) {
		v := a.val(fr)
		i, _ := v.p.(*Iface)
		ok := false
		var out V
		if i != nil {
			if toIface {
				ok = fr.w.implements(i.t, rt)
				out = v
			} else {
				ok = i.t == rt
				out = i.v
			}
		}
		if !ok {
			if !x.CommaOk {
				dyn := "nil"
				if i != nil {
					dyn = i.t.String()
				}
				fr.w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, at))
			}
			out = zero(at)
		}
		if x.CommaOk {
			fr.r[d] = V{p: Tuple{out, vBool(ok)}}
		} else {
			fr.r[d] = out
		}
	}
}

func (k *compiler) slice(x *ssa.Slice) insFn {
	a, d := k.op(x.X), k.reg(x)
	var lo, hi, mx opnd
	hlo, hhi, hmx := x.Low != nil, x.High != nil, x.Max != nil
	if hlo {
		lo = k.op(x.Low)
	}
	if hhi {
		hi = k.op(x.High)
	}
	if hmx {
		mx = k.op(x.Max)
	}
	str := isString(x.X.Type())
	conv := func(fr *frame, o *opnd, v ssa.Value) int {
		vv := o.val(fr)
		if vv.p != nil {
			return fr.w.concInt(vv)
		}
		if isSigned(v.Type()) {
			return int(sext(vv.n, widthOf(v.Type())))
		}
		if vv.n > 1<<62 {
			return 1 << 62
		}
		return int(vv.n)
	}
	return func(fr *frame) {
		v := a.val(fr)
		l := 0
		if str {
			n := strLen(v)
			h := n
			// symbolic bounds are range-checked before being enumerated
			if hlo {
				fr.w.limitSliceIdx(lo.val(fr), n)
				l = conv(fr, &lo, x.Low)
			}
			if hhi {
				fr.w.limitSliceIdx(hi.val(fr), n)
				h = conv(fr, &hi, x.High)
			}
			if h < 0 || h > n {
				fr.w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				fr.w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.r[d] = strSlice(v, l, h)
			return
		}
		var s []V
		isNil := false
		switch q := v.p.(type) {
		case nil:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				fr.w.rtPanic("invalid memory address or nil pointer dereference")
			}
			isNil = true
		case []V:
			s = q
		case *V:
			s = q.p.(*Agg).f
		default:
			fr.w.unsupported("slice of %T", v.p)
		}
		h := len(s)
		c := cap(s)
		if hlo {
			fr.w.limitSliceIdx(lo.val(fr), c)
			l = conv(fr, &lo, x.Low)
		}
		if hhi {
			fr.w.limitSliceIdx(hi.val(fr), c)
			h = conv(fr, &hi, x.High)
		}
		m := c
		if hmx {
			m = conv(fr, &mx, x.Max)
		}
		if m < 0 || m > c {
			fr.w.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, c))
		}
		if h < 0 || h > m {
			fr.w.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, c))
		}
		if l < 0 || l > h {
			fr.w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if isNil {
			fr.r[d] = V{}
			return
		}
		fr.r[d] = V{p: s[l:h:m]}
	}
}

func (k *compiler) unop(x *ssa.UnOp) insFn {
	a, d := k.op(x.X), k.reg(x)
	switch x.Op {
	case token.MUL:
		t := x.Type()
		str := isString(t)
		return func(fr *frame) {
			v := fr.w.load(a.val(fr))
			if str {
				if b, ok := v.p.([]V); ok {
					v = mkStr(append([]V(nil), b...))
				}
			}
			fr.r[d] = v
		}
	case token.NOT:
		return func(fr *frame) {
			v := a.val(fr)
			if t, ok := v.p.(*Term); ok {
				fr.r[d] = vTerm(tNot(t))
				return
			}
			fr.r[d] = V{n: v.n ^ 1}
		}
	case token.SUB:
		if isFloat(x.X.Type()) {
			return func(fr *frame) { fr.r[d] = V{n: math.Float64bits(-math.Float64frombits(a.val(fr).n))} }
		}
		w := widthOf(x.X.Type())
		return func(fr *frame) {
			v := a.val(fr)
			if t, ok := v.p.(*Term); ok {
				fr.r[d] = vTerm(tNeg(t))
				return
			}
			fr.r[d] = V{n: -v.n & mask(w)}
		}
	case token.XOR:
		w := widthOf(x.X.Type())
		return func(fr *frame) {
			v := a.val(fr)
			if t, ok := v.p.(*Term); ok {
				fr.r[d] = vTerm(tBNot(t))
				return
			}
			fr.r[d] = V{n: ^v.n & mask(w)}
		}
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			v, ok := fr.w.chanRecv(a.val(fr))
			if !ok {
				v = zero(et)
			}
			if x.CommaOk {
				fr.r[d] = V{p: Tuple{v, vBool(ok)}}
			} else {
				fr.r[d] = v
			}
		}
	}
	panic(compileErr("unop " + x.Op.String()))
}

func (k *compiler) binop(x *ssa.BinOp) insFn {
	a, b, d := k.op(x.X), k.op(x.Y), k.reg(x)
	xt := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		if w := widthOf(xt); w != 255 && isScalarT(xt) {
			return func(fr *frame) {
				p, q := a.val(fr), b.val(fr)
				if p.p == nil && q.p == nil {
					fr.r[d] = V{n: b2u((p.n == q.n) != neg)}
					return
				}
				t := tEq(p.term(w), q.term(w))
				if neg {
					t = tNot(t)
				}
				fr.r[d] = vTerm(t)
			}
		}
		if isString(xt) {
			return func(fr *frame) {
				t := strEqTerm(a.val(fr), b.val(fr))
				if neg {
					t = tNot(t)
				}
				fr.r[d] = vTerm(t)
			}
		}
		yt := x.Y.Type()
		return func(fr *frame) {
			t := fr.w.eqMixed(a.val(fr), xt, b.val(fr), yt)
			if neg {
				t = tNot(t)
			}
			fr.r[d] = vTerm(t)
		}
	}
	if isString(xt) {
		op := x.Op
		return func(fr *frame) {
			p, q := a.val(fr), b.val(fr)
			switch op {
			case token.ADD:
				fr.r[d] = strConcat(p, q)
			case token.LSS:
				fr.r[d] = vTerm(strLtTerm(p, q))
			case token.GTR:
				fr.r[d] = vTerm(strLtTerm(q, p))
			case token.LEQ:
				fr.r[d] = vTerm(tNot(strLtTerm(q, p)))
			case token.GEQ:
				fr.r[d] = vTerm(tNot(strLtTerm(p, q)))
			}
		}
	}
	if isFloat(xt) {
		f32 := xt.Underlying().(*types.Basic).Kind() == types.Float32
		op := x.Op
		return func(fr *frame) {
			p, q := a.val(fr), b.val(fr)
			if p.p != nil || q.p != nil {
				fr.w.unsupported("symbolic float")
			}
			u, v := math.Float64frombits(p.n), math.Float64frombits(q.n)
			var r float64
			switch op {
			case token.ADD:
				r = u + v
			case token.SUB:
				r = u - v
			case token.MUL:
				r = u * v
			case token.QUO:
				r = u / v
			case token.LSS:
				fr.r[d] = vBool(u < v)
				return
			case token.LEQ:
				fr.r[d] = vBool(u <= v)
				return
			case token.GTR:
				fr.r[d] = vBool(u > v)
				return
			case token.GEQ:
				fr.r[d] = vBool(u >= v)
				return
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.r[d] = V{n: math.Float64bits(r)}
		}
	}
	if !isInt(xt) && !isBool(xt) {
		panic(compileErr("binop on " + xt.String()))
	}
	w := widthOf(xt)
	sg := isSigned(xt)
	yw, ysg := widthOf(x.Y.Type()), isSigned(x.Y.Type())
	op := x.Op
	name := k.c.name
	return func(fr *frame) {
		p, q := a.val(fr), b.val(fr)
		if p.p == nil && q.p == nil {
			u, v := p.n, q.n
			var r uint64
			switch op {
			case token.ADD:
				r = u + v
			case token.SUB:
				r = u - v
			case token.MUL:
				r = u * v
			case token.QUO, token.REM:
				if v == 0 {
					fr.w.rtPanic("integer divide by zero")
				}
				if sg {
					su, sv := sext(u, w), sext(v, w)
					if sv == -1 {
						if op == token.QUO {
							r = uint64(-su)
						}
					} else if op == token.QUO {
						r = uint64(su / sv)
					} else {
						r = uint64(su % sv)
					}
				} else if op == token.QUO {
					r = u / v
				} else {
					r = u % v
				}
			case token.AND:
				r = u & v
			case token.OR:
				r = u | v
			case token.XOR:
				r = u ^ v
			case token.AND_NOT:
				r = u &^ v
			case token.SHL, token.SHR:
				if ysg && sext(v, yw) < 0 {
					fr.w.rtPanic("negative shift amount")
				}
				if op == token.SHL {
					if v < 64 {
						r = u << v
					}
				} else if sg {
					if v > 63 {
						v = 63
					}
					r = uint64(sext(u, w) >> v)
				} else if v < 64 {
					r = u >> v
				}
			case token.LSS:
				if sg {
					r = b2u(sext(u, w) < sext(v, w))
				} else {
					r = b2u(u < v)
				}
				fr.r[d] = V{n: r}
				return
			case token.LEQ:
				if sg {
					r = b2u(sext(u, w) <= sext(v, w))
				} else {
					r = b2u(u <= v)
				}
				fr.r[d] = V{n: r}
				return
			case token.GTR:
				if sg {
					r = b2u(sext(u, w) > sext(v, w))
				} else {
					r = b2u(u > v)
				}
				fr.r[d] = V{n: r}
				return
			case token.GEQ:
				if sg {
					r = b2u(sext(u, w) >= sext(v, w))
				} else {
					r = b2u(u >= v)
				}
				fr.r[d] = V{n: r}
				return
			}
			fr.r[d] = V{n: r & mask(w)}
			return
		}
		if _, ok := p.p.(*Term); p.p != nil && !ok {
			fr.w.unsupported("arithmetic on %T in %s", p.p, name)
		}
		if _, ok := q.p.(*Term); q.p != nil && !ok {
			fr.w.unsupported("arithmetic on %T in %s", q.p, name)
		}
		u := p.term(w)
		if op == token.SHL || op == token.SHR {
			v := q.term(yw)
			if ysg && !nonNeg(v) {
				if fr.w.branch(tSlt(v, tConst(0, yw))) {
					fr.w.rtPanic("negative shift amount")
				}
			}
			var sh *Term
			if yw > w {
				lim := tConst(uint64(w), yw)
				sh = tTrunc(tIte(tUlt(v, lim), v, lim), w)
			} else {
				sh = tZExt(v, w)
			}
			switch {
			case op == token.SHL:
				fr.r[d] = vTerm(tShl(u, sh))
			case sg:
				fr.r[d] = vTerm(tAshr(u, sh))
			default:
				fr.r[d] = vTerm(tLshr(u, sh))
			}
			return
		}
		v := q.term(w)
		var r *Term
		switch op {
		case token.ADD:
			r = tAdd(u, v)
		case token.SUB:
			r = tSub(u, v)
		case token.MUL:
			r = tMul(u, v)
		case token.QUO, token.REM:
			if fr.w.branch(tEq(v, tConst(0, w))) {
				fr.w.rtPanic("integer divide by zero")
			}
			if fr.w.pure > 0 && w > 32 && !(q.p == nil && q.n&(q.n-1) == 0) {
				panic(mergeFail{}) // a costly term: only on a branch known to be feasible
			}
			o := OUdiv
			switch {
			case sg && op == token.QUO:
				o = OSdiv
			case sg:
				o = OSrem
			case op == token.REM:
				o = OUrem
			}
			r = tDivRem(o, u, v)
		case token.AND:
			r = tBAnd(u, v)
		case token.OR:
			r = tBOr(u, v)
		case token.XOR:
			r = tBXor(u, v)
		case token.AND_NOT:
			r = tBAnd(u, tBNot(v))
		case token.LSS:
			if sg {
				r = tSlt(u, v)
			} else {
				r = tUlt(u, v)
			}
		case token.LEQ:
			if sg {
				r = tSle(u, v)
			} else {
				r = tUle(u, v)
			}
		case token.GTR:
			if sg {
				r = tSlt(v, u)
			} else {
				r = tUlt(v, u)
			}
		case token.GEQ:
			if sg {
				r = tSle(v, u)
			} else {
				r = tUle(v, u)
			}
		default:
			fr.w.unsupported("binop %v", op)
		}
		fr.r[d] = vTerm(r)
	}
}

func (k *compiler) convert(x ssa.Value, xv ssa.Value, to types.Type) insFn {
	a, d := k.op(xv), k.reg(x)
	from := xv.Type()
	fu, tu := from.Underlying(), to.Underlying()
	switch {
	case isInt(from) && isInt(to):
		fw, tw, sg := widthOf(from), widthOf(to), isSigned(from)
		return func(fr *frame) {
			v := a.val(fr)
			if t, ok := v.p.(*Term); ok {
				if tw < fw {
					fr.r[d] = vTerm(tTrunc(t, tw))
				} else if sg {
					fr.r[d] = vTerm(tSExt(t, tw))
				} else {
					fr.r[d] = vTerm(tZExt(t, tw))
				}
				return
			}
			n := v.n
			if sg {
				n = uint64(sext(n, fw))
			}
			fr.r[d] = V{n: n & mask(tw)}
		}
	case isInt(from) && isFloat(to):
		f32 := tu.(*types.Basic).Kind() == types.Float32
		fw, sg := widthOf(from), isSigned(from)
		return func(fr *frame) {
			v := a.val(fr)
			if t, ok := v.p.(*Term); ok {
				v = V{n: uint64(fr.w.concretize(t))}
			}
			var f float64
			if sg {
				f = float64(sext(v.n, fw))
				if f32 {
					f = float64(float32(sext(v.n, fw)))
				}
			} else {
				f = float64(v.n)
				if f32 {
					f = float64(float32(v.n))
				}
			}
			fr.r[d] = V{n: math.Float64bits(f)}
		}
	case isFloat(from) && isInt(to):
		tw, sg := widthOf(to), isSigned(to)
		return func(fr *frame) {
			f := math.Float64frombits(a.val(fr).n)
			var n uint64
			if sg {
				n = uint64(int64(f))
			} else {
				n = uint64(f)
			}
			fr.r[d] = V{n: n & mask(tw)}
		}
	case isFloat(from) && isFloat(to):
		f32 := tu.(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			f := math.Float64frombits(a.val(fr).n)
			if f32 {
				f = float64(float32(f))
			}
			fr.r[d] = V{n: math.Float64bits(f)}
		}
	case isString(to) && isInt(from):
		fw, sg := widthOf(from), isSigned(from)
		return func(fr *frame) {
			v := a.val(fr)
			if t, ok := v.p.(*Term); ok {
				// out-of-range -> U+FFFD
				var r *Term
				if fw > 32 {
					r = tTrunc(tIte(tUlt(t, tConst(0x110000, fw)), t, tConst(0xFFFD, fw)), 32)
				} else if sg {
					r = tSExt(t, 32)
				} else {
					r = tZExt(t, 32)
				}
				fr.r[d] = mkStr(fr.w.encodeRune(vTerm(r)))
				return
			}
			n := int64(v.n)
			if sg {
				n = sext(v.n, fw)
			}
			if n < 0 || n > utf8.MaxRune {
				n = utf8.RuneError
			}
			fr.r[d] = vStr(string(rune(n)))
		}
	case isString(from) && isString(to):
		return func(fr *frame) { fr.r[d] = a.val(fr) }
	case isString(to):
		if s, ok := fu.(*types.Slice); ok {
			if widthOf(s.Elem()) == 8 {
				return func(fr *frame) {
					b, _ := a.val(fr).p.([]V)
					fr.r[d] = mkStr(append([]V(nil), b...))
				}
			}
			return func(fr *frame) {
				rs, _ := a.val(fr).p.([]V)
				var out []V
				for _, r := range rs {
					out = append(out, fr.w.encodeRune(r)...)
				}
				fr.r[d] = mkStr(out)
			}
		}
	case isString(from):
		if s, ok := tu.(*types.Slice); ok {
			if widthOf(s.Elem()) == 8 {
				return func(fr *frame) {
					b := strBytes(a.val(fr))
					fr.r[d] = V{p: append(make([]V, 0, len(b)), b...)}
				}
			}
			return func(fr *frame) {
				v := a.val(fr)
				n := strLen(v)
				out := []V{}
				for i := 0; i < n; {
					r, sz := fr.w.decodeRune(strBytesAt(v, i, 4))
					out = append(out, r)
					i += sz
				}
				fr.r[d] = V{p: out}
			}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return func(fr *frame) { fr.r[d] = a.val(fr) }
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(fr *frame) { fr.r[d] = a.val(fr) }
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		nm := k.c.name
		return func(fr *frame) {
			v := a.val(fr)
			if v.p != nil && isInt(to) {
				fr.w.unsupported("pointer to integer in %s", nm)
			}
			fr.r[d] = v
		}
	}
	if _, ok := fu.(*types.Slice); ok {
		if ar, ok := tu.(*types.Array); ok {
			n := int(ar.Len())
			return func(fr *frame) {
				s, _ := a.val(fr).p.([]V)
				if len(s) < n {
					fr.w.rtPanic("slice to array conversion: length")
				}
				fr.r[d] = copyV(V{p: &Agg{f: s[:n]}})
			}
		}
	}
	panic(compileErr(fmt.Sprintf("convert %v -> %v", from, to)))
}

func (k *compiler) builtin(x *ssa.Call, b *ssa.Builtin) insFn {
	d := k.reg(x)
	var args []opnd
	for _, a := range x.Call.Args {
		args = append(args, k.op(a))
	}
	f := builtinFn(b.Name(), x.Call.Args, x.Type())
	if f == nil {
		panic(compileErr("builtin " + b.Name()))
	}
	return func(fr *frame) { fr.r[d] = f(fr, evalArgs(fr, args)) }
}
