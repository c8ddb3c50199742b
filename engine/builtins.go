package main

import (
	"go/types"
	"math"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func f64(v V) float64 { return math.Float64frombits(v.n) }

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(oldCap, need, esz int) int {
	nc := oldCap
	if need > oldCap*2 {
		nc = need
	} else if oldCap < 256 {
		nc = oldCap * 2
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if esz == 0 {
		return nc
	}
	b := nc * esz
	for _, c := range sizeClasses {
		if b <= c {
			return c / esz
		}
	}
	b = (b + 8191) &^ 8191
	return b / esz
}

func sizeofT(t types.Type) (n int) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	return int(stdSizes.Sizeof(t))
}

func (w *worker) appendV(s []V, add []V, et types.Type) []V {
	n := len(s) + len(add)
	if n <= cap(s) {
		out := s[:n]
		for i, v := range add {
			w.storeCell(&out[len(s)+i], v)
		}
		return out
	}
	esz := 8
	zv := V{}
	if et != nil {
		esz = sizeofT(et)
	}
	nc := growCap(cap(s), n, esz)
	if nc < n {
		nc = n
	}
	out := make([]V, nc)
	for i := range s {
		out[i] = copyV(s[i])
	}
	for i, v := range add {
		out[len(s)+i] = copyV(v)
	}
	if et != nil {
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := n; i < nc; i++ {
				out[i] = zero(et)
			}
		}
	}
	_ = zv
	return out[:n]
}

func builtinFn(name string, args []ssa.Value, typ types.Type) func(fr *frame, a []V) V {
	switch name {
	case "len":
		return func(fr *frame, a []V) V { return vInt(fr.w.lenOf(a[0], typeOrNil(args))) }
	case "cap":
		return func(fr *frame, a []V) V {
			switch x := a[0].p.(type) {
			case nil:
				return V{}
			case []V:
				return vInt(cap(x))
			case *Agg:
				return vInt(len(x.f))
			case *V:
				return vInt(len(x.p.(*Agg).f))
			case *Chan:
				return vInt(x.cap)
			}
			fr.w.unsupported("cap of %T", a[0].p)
			return V{}
		}
	case "append":
		var et types.Type
		if typ != nil {
			if s, ok := typ.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		return func(fr *frame, a []V) V {
			if len(a) == 1 {
				return a[0]
			}
			var add []V
			switch x := a[1].p.(type) {
			case nil:
				return a[0]
			case []V:
				add = x
			case string, *SStr:
				add = strBytes(a[1])
			default:
				fr.w.unsupported("append of %T", x)
			}
			if len(add) == 0 {
				return a[0]
			}
			var s []V
			if a[0].p != nil {
				var ok bool
				if s, ok = a[0].p.([]V); !ok {
					fr.w.unsupported("append to %T", a[0].p)
				}
			}
			return V{p: fr.w.appendV(s, add, et)}
		}
	case "copy":
		return func(fr *frame, a []V) V {
			d, _ := a[0].p.([]V)
			var s []V
			switch x := a[1].p.(type) {
			case []V:
				s = x
			case string, *SStr:
				s = strBytes(a[1])
			}
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			if n > 0 {
				tmp := append([]V(nil), s[:n]...)
				for i := range tmp {
					fr.w.storeCell(&d[i], tmp[i])
				}
			}
			return vInt(n)
		}
	case "delete":
		var kt types.Type
		if args != nil {
			kt = args[0].Type().Underlying().(*types.Map).Key()
		}
		return func(fr *frame, a []V) V {
			if fr.w.pure > 0 {
				panic(mergeFail{})
			}
			fr.w.mapDelete(a[0], a[1], kt)
			return V{}
		}
	case "clear":
		var et types.Type
		if args != nil {
			if s, ok := args[0].Type().Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		return func(fr *frame, a []V) V {
			switch x := a[0].p.(type) {
			case []V:
				for i := range x {
					fr.w.storeCell(&x[i], zero(et))
				}
			case *Map:
				for _, e := range x.live() {
					fr.w.mapDelete(a[0], e.k, x.kt)
				}
			}
			return V{}
		}
	case "print", "println":
		return func(fr *frame, a []V) V { return V{} }
	case "panic":
		return func(fr *frame, a []V) V { panic(targetPanic{v: a[0], where: fr.w.where()}) }
	case "recover":
		return func(fr *frame, a []V) V {
			c := fr.caller
			if c != nil && c.panicking {
				c.panicking = false
				if tp, ok := c.panicV.(targetPanic); ok {
					return tp.v
				}
			}
			return V{}
		}
	case "min", "max":
		var t types.Type
		if args != nil {
			t = args[0].Type()
		} else {
			return nil
		}
		mn := name == "min"
		return func(fr *frame, a []V) V {
			acc := a[0]
			for _, x := range a[1:] {
				switch {
				case isFloat(t):
					if mn {
						acc = V{n: math.Float64bits(math.Min(f64(acc), f64(x)))}
					} else {
						acc = V{n: math.Float64bits(math.Max(f64(acc), f64(x)))}
					}
				case isString(t):
					lt := strLtTerm(x, acc)
					if !mn {
						lt = strLtTerm(acc, x)
					}
					if fr.w.branch(lt) {
						acc = x
					}
				default:
					w := widthOf(t)
					p, q := x.term(w), acc.term(w)
					if !mn {
						p, q = q, p
					}
					var lt *Term
					if isSigned(t) {
						lt = tSlt(p, q)
					} else {
						lt = tUlt(p, q)
					}
					acc = vTerm(tIte(lt, x.term(w), acc.term(w)))
				}
			}
			return acc
		}
	case "ssa:wrapnilchk":
		return func(fr *frame, a []V) V {
			if a[0].p == nil {
				fr.w.rtPanic("value method called using nil pointer")
			}
			return a[0]
		}
	case "ssa:deferstack":
		return func(fr *frame, a []V) V { return V{} }
	case "String": // unsafe.String(ptr, len)
		return func(fr *frame, a []V) V {
			n := fr.w.concInt(a[1])
			if n == 0 {
				return V{}
			}
			p, ok := a[0].p.(*V)
			if !ok {
				fr.w.unsupported("unsafe.String of %T", a[0].p)
			}
			return mkStr(append([]V(nil), unsafe.Slice(p, n)...))
		}
	case "SliceData":
		return func(fr *frame, a []V) V {
			s, ok := a[0].p.([]V)
			if !ok || cap(s) == 0 {
				return V{}
			}
			return V{p: &s[:1][0]}
		}
	case "StringData":
		return func(fr *frame, a []V) V {
			b := strBytes(a[0])
			if len(b) == 0 {
				return V{}
			}
			c := append([]V(nil), b...)
			return V{p: &c[0]}
		}
	case "Slice":
		return func(fr *frame, a []V) V {
			n := fr.w.concInt(a[1])
			p, ok := a[0].p.(*V)
			if !ok {
				if n == 0 {
					return V{}
				}
				fr.w.unsupported("unsafe.Slice of %T", a[0].p)
			}
			return V{p: unsafe.Slice(p, n)}
		}
	case "close":
		return func(fr *frame, a []V) V { fr.w.chanClose(a[0]); return V{} }
	}
	return nil
}

func typeOrNil(args []ssa.Value) types.Type {
	if len(args) > 0 {
		return args[0].Type()
	}
	return nil
}

func (w *worker) lenOf(v V, t types.Type) int {
	switch x := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(x)
	case *SStr:
		return len(x.b)
	case []V:
		return len(x)
	case *Map:
		return x.count
	case *Agg:
		return len(x.f)
	case *V:
		return len(x.p.(*Agg).f)
	case *Chan:
		return len(x.buf)
	}
	w.unsupported("len of %T", v.p)
	return 0
}

// Channels (single goroutine or under the cooperative scheduler in sched.go).
type Chan struct {
	cap    int
	buf    []V
	closed bool
}
