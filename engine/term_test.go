package main

import (
	"math/rand"
	"testing"
)

// TestRewrites builds random terms twice, with and without simplification, and compares their values.
func TestRewrites(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	ws := []uint8{1, 4, 7, 8, 13, 16, 32, 64}
	type pair struct{ s, raw *Term }
	rawBin := func(op Op, a, b *Term) *Term { return mk(op, a.w, 0, a, b, nil) }
	for round := 0; round < 60000; round++ {
		nv := 3
		var vars []pair
		var his []uint64
		for i := 0; i < nv; i++ {
			w := ws[r.Intn(len(ws))]
			hi := r.Uint64() & mask(w) >> uint(r.Intn(int(w)))
			if r.Intn(2) == 0 {
				hi = mask(w)
			}
			v := tVarMax(i, w, hi)
			if hi == 0 {
				v = tVar(i, w)
				hi = mask(w)
			}
			vars = append(vars, pair{v, v})
			his = append(his, hi)
		}
		pool := append([]pair{}, vars...)
		consts := []uint64{0, 1, 2, 10, 10, 10, 48, 100, ^uint64(0), r.Uint64(), r.Uint64() >> uint(r.Intn(64))}
		resize := func(p pair, w uint8) pair {
			if p.s.w == w {
				return p
			}
			if p.s.w > w {
				return pair{tExtract(p.s, 0, w), mk(OExtract, w, 0, p.raw, nil, nil)}
			}
			if r.Intn(3) == 0 {
				return pair{tSExt(p.s, w), mk(OSExt, w, 0, p.raw, nil, nil)}
			}
			return pair{tZExt(p.s, w), mk(OZExt, w, 0, p.raw, nil, nil)}
		}
		var bools []pair
		pick := func(w uint8) pair {
			if r.Intn(3) == 0 {
				c := tConst(consts[r.Intn(len(consts))], w)
				return pair{c, c}
			}
			return resize(pool[r.Intn(len(pool))], w)
		}
		for k := 0; k < 9; k++ {
			w := ws[r.Intn(len(ws))]
			a, b := pick(w), pick(w)
			var p pair
			switch r.Intn(17) {
			case 0, 1:
				p = pair{tAdd(a.s, b.s), rawBin(OAdd, a.raw, b.raw)}
			case 2:
				p = pair{tSub(a.s, b.s), rawBin(OSub, a.raw, b.raw)}
			case 3, 4:
				p = pair{tMul(a.s, b.s), rawBin(OMul, a.raw, b.raw)}
			case 5, 6, 7:
				op := []Op{OUdiv, OUrem, OUdiv, OUrem, OSdiv, OSrem}[r.Intn(6)]
				if b.s.isConst() && b.s.c == 0 {
					continue
				}
				p = pair{tDivRem(op, a.s, b.s), rawBin(op, a.raw, b.raw)}
				if (op == OUdiv || op == OSdiv) && b.s.isConst() { // y/c*c + y%c, y - y/c*c
					m, rm := tMul(p.s, b.s), tDivRem(op-OUdiv+OUrem, a.s, b.s)
					q := pair{tAdd(m, rm), rawBin(OAdd, rawBin(OMul, p.raw, b.raw), rawBin(op-OUdiv+OUrem, a.raw, b.raw))}
					pool = append(pool, q, pair{tSub(a.s, m), rawBin(OSub, a.raw, rawBin(OMul, p.raw, b.raw))})
				}
			case 8:
				p = pair{tBAnd(a.s, b.s), rawBin(OBAnd, a.raw, b.raw)}
			case 9:
				p = pair{tBOr(a.s, b.s), rawBin(OBOr, a.raw, b.raw)}
			case 10:
				p = pair{tNeg(a.s), mk(ONeg, w, 0, a.raw, nil, nil)}
			case 11:
				p = pair{tLshr(a.s, b.s), rawBin(OLshr, a.raw, b.raw)}
			case 12:
				p = pair{tShl(a.s, b.s), rawBin(OShl, a.raw, b.raw)}
			case 13:
				p = pair{tAshr(a.s, b.s), rawBin(OAshr, a.raw, b.raw)}
			case 14:
				lo := uint8(r.Intn(int(w)))
				n := uint8(1 + r.Intn(int(w-lo)))
				p = pair{tExtract(a.s, lo, n), mk(OExtract, n, uint64(lo), a.raw, nil, nil)}
			case 15:
				if len(bools) > 0 {
					c := bools[r.Intn(len(bools))]
					p = pair{tIte(c.s, a.s, b.s), mk(OIte, w, 0, c.raw, a.raw, b.raw)}
					break
				}
				fallthrough
			default:
				var q pair
				switch r.Intn(3) {
				case 0:
					q = pair{tEq(a.s, b.s), mk(OEq, 0, 0, a.raw, b.raw, nil)}
				case 1:
					q = pair{tUlt(a.s, b.s), mk(OUlt, 0, 0, a.raw, b.raw, nil)}
				case 2:
					q = pair{tSlt(a.s, b.s), mk(OSlt, 0, 0, a.raw, b.raw, nil)}
				}
				bools = append(bools, q)
				continue
			}
			pool = append(pool, p)
		}
		for n := 0; n < 4; n++ {
			m := Model{}
			for i, h := range his {
				switch r.Intn(4) {
				case 0:
					m[int32(i)] = h
				case 1:
					m[int32(i)] = 0
				default:
					if h == ^uint64(0) {
						m[int32(i)] = r.Uint64()
					} else {
						m[int32(i)] = r.Uint64() % (h + 1)
					}
				}
			}
			for _, p := range append(append([]pair{}, pool...), bools...) {
				x, y := evalTerm(p.s, m), evalTerm(p.raw, m)
				if x != y {
					t.Fatalf("round %d: model %v his %v: simplified %s = %d, plain %s = %d", round, m, his, p.s.smt(nil), x, p.raw.smt(nil), y)
				}
				if p.s.w > 0 && (x < p.s.lo || x > p.s.hi) {
					t.Fatalf("round %d: %s = %d out of its bounds %d..%d", round, p.s.smt(nil), x, p.s.lo, p.s.hi)
				}
			}
		}
	}
}
