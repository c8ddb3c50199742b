package main

// Model of package fmt (and of error construction) over symbolic values.

import (
	"fmt"
	"go/types"
	"maps"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// opaqueMark stands for the text of an error message built from symbolic values; message texts are not part of any property.
const opaqueMark = "\x00opaque\x00"

func (w *worker) pkgFunc(path, name string) *CFn {
	p := w.eng.prog.ImportedPackage(path)
	if p == nil {
		w.unsupported("package %s not loaded", path)
	}
	f := p.Func(name)
	if f == nil {
		w.unsupported("%s.%s not found", path, name)
	}
	return cfnOf(f)
}

func (w *worker) pkgType(path, name string) types.Type {
	p := w.eng.prog.ImportedPackage(path)
	if p == nil || p.Type(name) == nil {
		w.unsupported("type %s.%s not loaded", path, name)
	}
	return p.Type(name).Type()
}

func (w *worker) newObj(t types.Type, fields ...V) V {
	c := new(V)
	z := zero(t)
	ag := z.p.(*Agg)
	for i, f := range fields {
		ag.f[i] = f
	}
	*c = z
	return V{p: c}
}

func (w *worker) mkError(msg V) V {
	t := w.pkgType("errors", "errorString")
	return V{p: &Iface{rtOf(types.NewPointer(t)), w.newObj(t, msg)}}
}

func hasOpaque(v V) bool {
	s, ok := concreteStr(v)
	return ok && strings.Contains(s, opaqueMark)
}

// deepSym tells whether a value to be printed holds symbolic parts.
func deepSym(v V, depth int) bool {
	if depth > 6 {
		return true
	}
	switch x := v.p.(type) {
	case *Term:
		return true
	case *SStr:
		for i := range x.b {
			if x.b[i].isSym() {
				return true
			}
		}
	case *Iface:
		return deepSym(x.v, depth+1)
	case *Agg:
		for i := range x.f {
			if deepSym(x.f[i], depth+1) {
				return true
			}
		}
	case []V:
		for i := range x {
			if deepSym(x[i], depth+1) {
				return true
			}
		}
	case *V:
		if x != nil {
			return deepSym(*x, depth+1)
		}
	case *Map, SymPtr, *SymPtr:
		return true
	case nil, string:
	default:
		return true
	}
	return false
}

type fspec struct {
	flags      string
	wid, prec  int // -1 = absent
	verb       rune
	spec       string
	sharp, pls bool
}

type fmtOut struct {
	b []V
}

func (o *fmtOut) str(s string) {
	for i := 0; i < len(s); i++ {
		o.b = append(o.b, V{n: uint64(s[i])})
	}
}
func (o *fmtOut) v(v V) { o.b = append(o.b, strBytes(v)...) }

// sprintf: opaque=true puts opaqueMark in the place of arguments that hold anything symbolic.
func (w *worker) sprintf(format string, args []V, opaque bool) V {
	var o fmtOut
	argi := 0
	i := 0
	reordered := false
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			o.str(format[i:])
			break
		}
		o.str(format[i : i+j])
		i += j + 1
		st := i - 1
		f := fspec{wid: -1, prec: -1}
		for i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0 {
			f.flags += string(format[i])
			i++
		}
		f.sharp, f.pls = strings.Contains(f.flags, "#"), strings.Contains(f.flags, "+")
		star := ""
		num := func() int {
			if i < len(format) && format[i] == '*' {
				i++
				if argi >= len(args) {
					w.unsupported("fmt: missing width")
				}
				n := w.concInt(args[argi].p.(*Iface).v)
				argi++
				star = "*"
				return n
			}
			s := i
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				i++
			}
			if s == i {
				return -1
			}
			n, _ := strconv.Atoi(format[s:i])
			return n
		}
		if i < len(format) && format[i] == '[' {
			k := strings.IndexByte(format[i:], ']')
			n, err := strconv.Atoi(format[i+1 : i+k])
			if k < 0 || err != nil {
				w.unsupported("fmt: bad index in %q", format)
			}
			argi = n - 1
			i += k + 1
			reordered = true
		}
		f.wid = num()
		if i < len(format) && format[i] == '.' {
			i++
			f.prec = num()
			if f.prec < 0 {
				f.prec = 0
			}
		}
		if i >= len(format) {
			o.str("%!(NOVERB)")
			break
		}
		r, sz := utf8.DecodeRuneInString(format[i:])
		i += sz
		f.verb = r
		if star != "" {
			f.spec = "%" + f.flags
			if f.wid >= 0 {
				f.spec += strconv.Itoa(f.wid)
			}
			if f.prec >= 0 {
				f.spec += "." + strconv.Itoa(f.prec)
			}
			f.spec += string(r)
		} else {
			f.spec = format[st:i]
			if k := strings.IndexByte(f.spec, '['); k >= 0 {
				k2 := strings.IndexByte(f.spec, ']')
				f.spec = f.spec[:k] + f.spec[k2+1:]
			}
		}
		if r == '%' {
			o.str("%")
			continue
		}
		if argi >= len(args) {
			o.str("%!" + string(r) + "(MISSING)")
			continue
		}
		a := args[argi]
		argi++
		if opaque && deepSym(a, 0) {
			o.str(opaqueMark)
			continue
		}
		w.fmtArg(&o, f, a)
	}
	if !reordered && argi < len(args) {
		o.str("%!(EXTRA ")
		for k := argi; k < len(args); k++ {
			if k > argi {
				o.str(", ")
			}
			if i, ok := args[k].p.(*Iface); ok {
				o.str(typeName(i.t.T) + "=")
				w.fmtArg(&o, fspec{wid: -1, prec: -1, verb: 'v', spec: "%v"}, args[k])
			} else {
				o.str("<nil>")
			}
		}
		o.str(")")
	}
	return mkStr(o.b)
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *worker) fmtPad(o *fmtOut, f fspec, s []V) {
	n := 0
	for _, b := range s {
		if b.isSym() || b.n < 0x80 || b.n >= 0xC0 {
			n++
		}
	}
	pad := f.wid - n
	if pad <= 0 {
		o.b = append(o.b, s...)
		return
	}
	if strings.Contains(f.flags, "-") {
		o.b = append(o.b, s...)
		o.str(strings.Repeat(" ", pad))
		return
	}
	if strings.Contains(f.flags, "0") {
		o.str(strings.Repeat("0", pad))
	} else {
		o.str(strings.Repeat(" ", pad))
	}
	o.b = append(o.b, s...)
}

func natScalar(v V, t types.Type) (any, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	if b.Info()&types.IsString != 0 {
		return concreteStr(v)
	}
	if v.isSym() {
		return nil, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return v.n != 0, true
	case types.Int8:
		return int8(v.n), true
	case types.Int16:
		return int16(v.n), true
	case types.Int32, types.UntypedRune:
		return int32(v.n), true
	case types.Int64:
		return int64(v.n), true
	case types.Int, types.UntypedInt:
		return int(v.n), true
	case types.Uint8:
		return uint8(v.n), true
	case types.Uint16:
		return uint16(v.n), true
	case types.Uint32:
		return uint32(v.n), true
	case types.Uint64:
		return v.n, true
	case types.Uint:
		return uint(v.n), true
	case types.Uintptr:
		return uintptr(v.n), true
	case types.Float64, types.UntypedFloat:
		return math.Float64frombits(v.n), true
	case types.Float32:
		return float32(math.Float64frombits(v.n)), true
	}
	return nil, false
}

func (w *worker) fmtArg(o *fmtOut, f fspec, a V) {
	i, ok := a.p.(*Iface)
	if !ok {
		switch f.verb {
		case 'T', 'v':
			o.str("<nil>")
		default:
			o.str("%!" + string(f.verb) + "(<nil>)")
		}
		return
	}
	if f.verb == 'T' {
		o.str(typeName(i.t.T))
		return
	}
	w.fmtVal(o, f, i.v, i.t.T, 0, true)
}

func (w *worker) fmtVal(o *fmtOut, f fspec, v V, t types.Type, depth int, methods bool) {
	if depth > 12 {
		w.unsupported("fmt: deep value")
	}
	if methods && !f.sharp && strings.ContainsRune("vsxXq", f.verb) {
		rt := rtOf(t)
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if m := natRendered(w, v, t); m != nil {
				w.fmtString(o, f, *m)
				return
			}
			if hasMethod(rt, "Format") {
				w.unsupported("fmt: Formatter %s", t)
			}
			for _, name := range []string{"Error", "String"} {
				if !hasMethod(rt, name) {
					continue
				}
				m := w.methodByName(rt, name)
				sig := m.fn.Signature
				if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
					continue
				}
				if _, isP := t.Underlying().(*types.Pointer); isP && v.p == nil {
					// a nil receiver that panics prints <nil>; run it only when it is known not to
					o.str("<nil>")
					return
				}
				s := w.callCFn(m, []V{v}, nil, nil)
				w.fmtString(o, f, s)
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if nat, ok := natScalar(v, t); ok {
			o.str(fmt.Sprintf(f.spec, nat))
			return
		}
		switch {
		case u.Info()&types.IsString != 0:
			w.fmtString(o, f, v)
		case u.Info()&types.IsBoolean != 0:
			if w.branch(boolV(v)) {
				w.fmtVal(o, f, vBool(true), t, depth, false)
			} else {
				w.fmtVal(o, f, vBool(false), t, depth, false)
			}
		case u.Info()&types.IsInteger != 0:
			w.fmtInt(o, f, v, t)
		default:
			w.unsupported("fmt: symbolic %s", t)
		}
	case *types.Pointer:
		if v.p == nil {
			o.str("<nil>")
			return
		}
		if c, ok := v.p.(*V); ok && depth == 0 && f.verb == 'v' {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice, *types.Map:
				o.str("&")
				w.fmtVal(o, f, *c, u.Elem(), depth+1, methods)
				return
			}
		}
		o.str("0xc000000000")
	case *types.Interface:
		i, ok := v.p.(*Iface)
		if !ok {
			o.str("<nil>")
			return
		}
		w.fmtVal(o, f, i.v, i.t.T, depth+1, methods)
	case *types.Struct:
		ag, ok := v.p.(*Agg)
		if !ok {
			w.unsupported("fmt: struct %T", v.p)
		}
		if f.sharp {
			w.unsupported("fmt: %%#v of a struct")
		}
		o.str("{")
		for i := range ag.f {
			if i > 0 {
				o.str(" ")
			}
			if f.pls {
				o.str(u.Field(i).Name() + ":")
			}
			w.fmtVal(o, f, ag.f[i], u.Field(i).Type(), depth+1, methods && u.Field(i).Exported())
		}
		o.str("}")
	case *types.Slice, *types.Array:
		var et types.Type
		var es []V
		switch x := u.(type) {
		case *types.Slice:
			et = x.Elem()
			es, _ = v.p.([]V)
		case *types.Array:
			et = x.Elem()
			es = v.p.(*Agg).f
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && strings.ContainsRune("sqxX", f.verb) {
			w.fmtString(o, f, mkStr(append([]V(nil), es...)))
			return
		}
		if f.sharp {
			w.unsupported("fmt: %%#v of a slice")
		}
		o.str("[")
		for i := range es {
			if i > 0 {
				o.str(" ")
			}
			w.fmtVal(o, f, es[i], et, depth+1, methods)
		}
		o.str("]")
	case *types.Map:
		if f.sharp {
			w.unsupported("fmt: %%#v of a map")
		}
		var ents []*mapEnt
		if m, ok := v.p.(*Map); ok {
			ents = append(ents, m.live()...)
		}
		type keyed struct {
			s string
			n int64
		}
		keys := map[*mapEnt]keyed{}
		for _, e := range ents {
			if s, ok := concreteStr(e.k); ok && isString(u.Key()) {
				keys[e] = keyed{s: s}
			} else if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && e.k.p == nil {
				keys[e] = keyed{n: int64(e.k.n)}
			} else if len(ents) > 1 {
				w.unsupported("fmt: map with keys of type %s", u.Key())
			}
		}
		sort.SliceStable(ents, func(i, j int) bool {
			a, b := keys[ents[i]], keys[ents[j]]
			return a.s < b.s || a.s == b.s && a.n < b.n
		})
		o.str("map[")
		for i, e := range ents {
			if i > 0 {
				o.str(" ")
			}
			w.fmtVal(o, f, e.k, u.Key(), depth+1, methods)
			o.str(":")
			w.fmtVal(o, f, e.v, u.Elem(), depth+1, methods)
		}
		o.str("]")
	case *types.Signature, *types.Chan:
		if v.p == nil {
			o.str("<nil>")
			return
		}
		o.str("0x47c0a0")
	default:
		if v.p == nil {
			o.str("<nil>")
			return
		}
		w.unsupported("fmt: value of type %s", t)
	}
}

// natRendered is a hook for native objects with a textual form.
func natRendered(w *worker, v V, t types.Type) *V {
	if x, ok := v.p.(interface{ fmtString() string }); ok {
		s := vStr(x.fmtString())
		return &s
	}
	return nil
}

func (w *worker) fmtString(o *fmtOut, f fspec, s V) {
	if hasOpaque(s) {
		o.v(s)
		return
	}
	if c, ok := concreteStr(s); ok {
		o.str(fmt.Sprintf(f.spec, c))
		return
	}
	switch f.verb {
	case 's', 'v':
		if f.sharp && f.verb == 'v' {
			w.quoteInto(o, f, s)
			return
		}
		b := strBytes(s)
		if f.prec >= 0 {
			w.unsupported("fmt: %%.s of a symbolic string")
		}
		if f.wid > 0 {
			w.unsupported("fmt: padded symbolic string")
		}
		o.b = append(o.b, b...)
	case 'q':
		w.quoteInto(o, f, s)
	case 'x', 'X':
		for _, b := range strBytes(s) {
			w.hexByte(o, b, f.verb == 'X')
		}
	default:
		w.unsupported("fmt: verb %c of a symbolic string", f.verb)
	}
}

func (w *worker) quoteInto(o *fmtOut, f fspec, s V) {
	if f.sharp && f.verb == 'q' || f.pls {
		w.unsupported("fmt: flags of %%q")
	}
	q := w.callCFn(w.pkgFunc("strconv", "Quote"), []V{s}, nil, nil)
	w.fmtPad(o, f, strBytes(q))
}

func hexDigit(t *Term, upper bool) V {
	x := uint64('a')
	if upper {
		x = 'A'
	}
	return vTerm(tIte(tUlt(t, tConst(10, 8)), tAdd(t, tConst('0', 8)), tAdd(t, tConst(x-10, 8))))
}

func (w *worker) hexByte(o *fmtOut, b V, upper bool) {
	t := b.term(8)
	o.b = append(o.b, hexDigit(tLshr(t, tConst(4, 8)), upper), hexDigit(tBAnd(t, tConst(15, 8)), upper))
}

// fmtInt renders a symbolic integer.
func (w *worker) fmtInt(o *fmtOut, f fspec, v V, t types.Type) {
	wd := widthOf(t)
	x := v.term(wd)
	signed := isSigned(t)
	base := uint64(10)
	upper := false
	switch f.verb {
	case 'd', 'v':
	case 'x', 'X':
		base, upper = 16, f.verb == 'X'
	case 'o':
		base = 8
	case 'b':
		base = 2
	case 'c':
		r := x
		if wd > 32 {
			big := tUle(tConst(utf8.MaxRune+1, wd), x)
			r = tIte(big, tConst(0xFFFD, 32), tTrunc(x, 32))
		} else if wd < 32 {
			r = extTo(x, 32, signed)
		}
		o.b = append(o.b, w.encodeRune(vTerm(r))...)
		return
	case 'U':
		base, upper = 16, true
		o.str("U+")
		if f.prec < 4 {
			f.prec = 4
		}
	default:
		w.unsupported("fmt: verb %c of a symbolic integer", f.verb)
	}
	if f.sharp || f.pls || strings.Contains(f.flags, " ") {
		w.unsupported("fmt: flags of a symbolic integer")
	}
	neg := false
	if signed && f.verb != 'U' {
		if w.branch(tSlt(x, tConst(0, wd))) {
			neg = true
			x = tSub(tConst(0, wd), x)
		}
	}
	ds := w.digits(x, base, upper)
	if f.prec >= 0 {
		for len(ds) < f.prec {
			ds = append([]V{{n: '0'}}, ds...)
		}
	} else if strings.Contains(f.flags, "0") && f.wid > 0 && !strings.Contains(f.flags, "-") {
		n := f.wid
		if neg {
			n--
		}
		for len(ds) < n {
			ds = append([]V{{n: '0'}}, ds...)
		}
		f.flags = strings.ReplaceAll(f.flags, "0", "")
	}
	if neg {
		ds = append([]V{{n: '-'}}, ds...)
	}
	w.fmtPad(o, f, ds)
}

func extTo(x *Term, wd uint8, signed bool) *Term {
	if x.w == wd {
		return x
	}
	if x.w > wd {
		return tTrunc(x, wd)
	}
	if signed {
		return tSExt(x, wd)
	}
	return tZExt(x, wd)
}

// digits gives the digits of unsigned x, forking on their number.
func (w *worker) digits(x *Term, base uint64, upper bool) []V {
	wd := x.w
	maxv := ^uint64(0)
	if wd < 64 {
		maxv = 1<<wd - 1
	}
	n := 1
	p := base
	for {
		// at least n+1 digits?
		if p > maxv || !w.branch(tUle(tConst(p, wd), x)) {
			break
		}
		n++
		if p > maxv/base {
			break
		}
		p *= base
	}
	// Now base^(n-1) <= x < base^n: say so by a fresh variable when x itself does not show it.
	if n > 1 && x.op != OConst {
		if l := p / base; n < maxDigits(maxv, base) && (x.hi >= p || x.lo < l) {
			x = w.rebase(x, l, p-1)
		} else if n == maxDigits(maxv, base) && x.lo < p {
			x = w.rebase(x, p, maxv)
		}
	} else if n == 1 && x.hi >= base {
		x = w.rebase(x, 0, base-1)
	}
	out := make([]V, n)
	for i := 0; i < n; i++ {
		d := x
		if i < n-1 {
			d = tDivRem(OUrem, x, tConst(base, wd))
			x = tDivRem(OUdiv, x, tConst(base, wd))
		}
		d8 := extTo(d, 8, false)
		if base > 10 {
			out[n-1-i] = hexDigit(d8, upper)
		} else {
			out[n-1-i] = vTerm(tAdd(d8, tConst('0', 8)))
		}
	}
	return out
}

func maxDigits(maxv, base uint64) int {
	n := 1
	for ; maxv >= base; maxv /= base {
		n++
	}
	return n
}

// rebase gives a term equal to x, which the path condition puts between lo and hi, whose bounds show that.
func (w *worker) rebase(x *Term, lo, hi uint64) *Term {
	hi = min(hi, x.hi)
	lo = max(lo, x.lo)
	n := uint8(bits.Len64(hi - lo))
	if n > x.w || n == 0 || w.pure > 0 {
		return x
	}
	i := w.nvars
	w.nvars++
	w.varW = append(w.varW, n)
	v := tVarMax(i, n, hi-lo)
	y := tAdd(tZExt(v, x.w), tConst(lo, x.w))
	if w.model != nil {
		w.model = maps.Clone(w.model) // it can be shared
		w.model[int32(i)] = (evalTerm(x, w.model) - lo) & mask(n)
	}
	w.assume(rangeOf(v))
	w.assume(mk(OEq, 0, 0, x, y, nil))
	return y
}

func (w *worker) sprint(args []V, ln bool) V {
	var o fmtOut
	prevStr := false
	for i, a := range args {
		isS := false
		if x, ok := a.p.(*Iface); ok {
			if b, ok := x.t.T.(*types.Basic); ok && b.Kind() == types.String {
				isS = true
			}
		}
		if i > 0 && (ln || !isS && !prevStr) {
			o.str(" ")
		}
		w.fmtArg(&o, fspec{wid: -1, prec: -1, verb: 'v', spec: "%v"}, a)
		prevStr = isS
	}
	if ln {
		o.str("\n")
	}
	return mkStr(o.b)
}

// onlyPanics tells whether the result of a call is used only as a panic value or an error text.
func onlyPanics(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Panic, *ssa.DebugRef:
		case *ssa.MakeInterface:
			if !onlyPanics(x) {
				return false
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || f.String() != "errors.New" && f.String() != "fmt.Errorf" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (w *worker) writeTo(wr V, s V) V {
	i, ok := wr.p.(*Iface)
	if !ok {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if strings.HasSuffix(i.t.String(), "*os.File") || i.t.String() == "*os.File" {
		return tup(vInt(strLen(s)), V{})
	}
	return w.callMethod(i, "Write", V{p: append([]V(nil), strBytes(s)...)})
}

func init() {
	sl := func(v V) []V { s, _ := v.p.([]V); return s }
	reg("fmt.Sprintf", func(w *worker, a []V) V { w.needImpure(); return w.sprintf(mustStr(w, a[0]), sl(a[1]), false) })
	reg("fmt.Sprintf#opaque", func(w *worker, a []V) V { w.needImpure(); return w.sprintf(mustStr(w, a[0]), sl(a[1]), true) })
	reg("fmt.Sprint", func(w *worker, a []V) V { w.needImpure(); return w.sprint(sl(a[0]), false) })
	reg("fmt.Sprintln", func(w *worker, a []V) V { w.needImpure(); return w.sprint(sl(a[0]), true) })
	reg("fmt.Fprintf", func(w *worker, a []V) V {
		w.needImpure()
		return w.writeTo(a[0], w.sprintf(mustStr(w, a[1]), sl(a[2]), false))
	})
	reg("fmt.Fprint", func(w *worker, a []V) V { w.needImpure(); return w.writeTo(a[0], w.sprint(sl(a[1]), false)) })
	reg("fmt.Fprintln", func(w *worker, a []V) V { w.needImpure(); return w.writeTo(a[0], w.sprint(sl(a[1]), true)) })
	for _, n := range []string{"Printf", "Println", "Print"} {
		reg("fmt."+n, func(w *worker, a []V) V { w.needImpure(); return tup(V{}, V{}) })
	}
	reg("fmt.Errorf", func(w *worker, a []V) V {
		w.needImpure()
		format := mustStr(w, a[0])
		args := sl(a[1])
		var wrapped []V
		if strings.Contains(format, "%w") {
			k := 0
			for i := 0; i+1 < len(format); i++ {
				if format[i] != '%' {
					continue
				}
				i++
				for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
					i++
				}
				if i >= len(format) || format[i] == '%' {
					continue
				}
				if format[i] == 'w' && k < len(args) {
					wrapped = append(wrapped, args[k])
				}
				k++
			}
			format = strings.ReplaceAll(format, "%w", "%v")
		}
		msg := w.sprintf(format, args, true)
		switch len(wrapped) {
		case 0:
			return w.mkError(msg)
		case 1:
			if wrapped[0].p == nil {
				return w.mkError(msg)
			}
			t := w.pkgType("fmt", "wrapError")
			return V{p: &Iface{rtOf(types.NewPointer(t)), w.newObj(t, msg, wrapped[0])}}
		}
		t := w.pkgType("fmt", "wrapErrors")
		return V{p: &Iface{rtOf(types.NewPointer(t)), w.newObj(t, msg, V{p: wrapped})}}
	})
	is := func(w *worker, err, target V) bool {
		var walk func(e V, d int) bool
		walk = func(e V, d int) bool {
			i, ok := e.p.(*Iface)
			if !ok || d > 20 {
				return target.p == nil && e.p == nil
			}
			if types.Comparable(i.t.T) {
				if ti, ok := target.p.(*Iface); ok && ti.t == i.t && w.branch(w.eq(i.t.T, i.v, ti.v)) {
					return true
				}
			}
			if hasMethod(i.t, "Is") && w.branchV(w.callMethod(i, "Is", target)) {
				return true
			}
			if hasMethod(i.t, "Unwrap") {
				r := w.callMethod(i, "Unwrap")
				if s, ok := r.p.([]V); ok {
					for _, x := range s {
						if walk(x, d+1) {
							return true
						}
					}
					return false
				}
				if r.p == nil {
					return false
				}
				return walk(r, d+1)
			}
			return false
		}
		return walk(err, 0)
	}
	reg("errors.Is", func(w *worker, a []V) V { w.needImpure(); return vBool(is(w, a[0], a[1])) })
	reg("errors.As", func(w *worker, a []V) V {
		w.needImpure()
		ti, ok := a[1].p.(*Iface)
		if !ok {
			w.rtPanic("errors: target cannot be nil")
		}
		pt, ok := ti.t.T.Underlying().(*types.Pointer)
		if !ok {
			w.rtPanic("errors: target must be a non-nil pointer")
		}
		want := pt.Elem()
		e := a[0]
		for d := 0; d < 20; d++ {
			i, ok := e.p.(*Iface)
			if !ok {
				return vBool(false)
			}
			if isIface(want) {
				if w.implements(i.t, rtOf(want)) {
					w.store(ti.v, e)
					return vBool(true)
				}
			} else if types.Identical(i.t.T, want) {
				w.store(ti.v, i.v)
				return vBool(true)
			}
			if !hasMethod(i.t, "Unwrap") {
				return vBool(false)
			}
			e = w.callMethod(i, "Unwrap")
		}
		return vBool(false)
	})
}
