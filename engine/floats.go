package main

// Decimal text to floating point (internal/strconv). The scanner is interpreted as it stands; only the final scaling of
// mantissa*10^exp is modelled. A symbolic mantissa gives an opaque value (reported as 0) and an exact range error:
// the value overflows exactly from max + ulp/2 on, a threshold on the mantissa for every exponent.

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
)

// overflowFrom returns the least d for which d*10^p rounds to infinity, and whether it fits 64 bits.
func overflowFrom(p int, size int) (uint64, bool) {
	lim := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 1024), new(big.Int).Lsh(big.NewInt(1), 1024-54))
	if size == 32 {
		lim = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), new(big.Int).Lsh(big.NewInt(1), 128-25))
	}
	ten := big.NewInt(10)
	if p >= 0 {
		q := new(big.Int).Exp(ten, big.NewInt(int64(p)), nil)
		r := new(big.Int)
		lim.DivMod(lim, q, r)
		if r.Sign() != 0 {
			lim.Add(lim, big.NewInt(1))
		}
	} else {
		lim.Mul(lim, new(big.Int).Exp(ten, big.NewInt(int64(-p)), nil))
	}
	return lim.Uint64(), lim.IsUint64()
}

func init() {
	for _, size := range []int{32, 64} {
		size := size
		reg(fmt.Sprintf("internal/strconv.parseFloat%d", size), func(w *worker, a []V) V {
			w.needImpure()
			p := w.concInt(a[1])
			if p > 400 || p < -400 {
				w.unsupported("float scale")
			}
			et := w.pkgType("internal/strconv", "Error")
			rng := V{p: &Iface{rtOf(et), V{n: 1}}}
			if t, ok := a[0].p.(*Term); ok {
				lim, fits := overflowFrom(p, size)
				if fits && w.branch(tUle(tConst(lim, 64), t)) {
					return tup(V{}, rng)
				}
				return tup(V{}, V{})
			}
			f, err := strconv.ParseFloat(fmt.Sprintf("%de%d", a[0].n, p), size)
			if s := w.concretizeV(a[2]); s != 0 {
				f = -f
			}
			if err != nil {
				return tup(V{n: math.Float64bits(f)}, rng)
			}
			return tup(V{n: math.Float64bits(f)}, V{})
		})
		reg(fmt.Sprintf("internal/strconv.atof%dexact", size), func(w *worker, a []V) V { return tup(V{}, V{}) })
		reg(fmt.Sprintf("internal/strconv.float%dfrombits", size), func(w *worker, a []V) V {
			n := w.concretizeV(a[0])
			if size == 32 {
				return V{n: math.Float64bits(float64(math.Float32frombits(uint32(n))))}
			}
			return V{n: n}
		})
	}
}

func (w *worker) concretizeV(v V) uint64 {
	if t, ok := v.p.(*Term); ok {
		return w.concretize(t)
	}
	return v.n
}
