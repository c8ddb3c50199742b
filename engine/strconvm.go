package main

// Printing of symbolic integers (internal/strconv). Concrete ones are printed natively.

import "strconv"

func init() {
	format := func(signed bool) func(w *worker, x V, base int) []V {
		return func(w *worker, x V, base int) []V {
			t, ok := x.p.(*Term)
			if !ok {
				var s string
				if signed {
					s = strconv.FormatInt(int64(x.n), base)
				} else {
					s = strconv.FormatUint(x.n, base)
				}
				return strBytes(vStr(s))
			}
			if base != 2 && base != 8 && base != 10 && base != 16 {
				w.unsupported("strconv: base %d of a symbolic integer", base)
			}
			neg := signed && w.branch(tSlt(t, tConst(0, 64)))
			if neg {
				t = tNeg(t)
			}
			ds := w.digits(t, uint64(base), false)
			if neg {
				ds = append([]V{{n: '-'}}, ds...)
			}
			return ds
		}
	}
	for _, x := range []struct {
		suffix string
		signed bool
	}{{"Int", true}, {"Uint", false}} {
		f := format(x.signed)
		reg("internal/strconv.Format"+x.suffix, func(w *worker, a []V) V {
			return mkStr(f(w, a[0], w.concInt(a[1])))
		})
	}
	f := format(true)
	reg("internal/strconv.Itoa", func(w *worker, a []V) V { return mkStr(f(w, a[0], 10)) })
}
