package main

import (
	"math/rand"
	"testing"
)

// builds random terms through the simplifying constructors, in parallel with a naive evaluation.
func TestTermFuzz(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		T := NewTermTable()
		m := &Model{vars: map[string]uint64{}, blobs: map[string]map[uint64]byte{}}
		type pv struct {
			t *Term
			v uint64
		}
		var bv, bo []pv
		ws := []uint8{1, 3, 8, 16, 32, 64}
		small := []uint64{0, 1, 2, 3, 7, 8, 127, 128, 255, 256, 0xfffe, 0xffff, 1 << 31, ^uint64(0), 1 << 63, 1<<63 - 1}
		val := func(w uint8) uint64 {
			if r.Intn(2) == 0 {
				return small[r.Intn(len(small))] & mask(w)
			}
			return r.Uint64() & mask(w)
		}
		for i := 0; i < 5; i++ {
			w := ws[r.Intn(len(ws))]
			n := string(rune('a' + i))
			v := val(w)
			tt := T.Var(n, w)
			if w == 64 && r.Intn(2) == 0 {
				v &= 0xffff
				tt.max = 0xffff
			}
			m.vars[n] = v
			bv = append(bv, pv{tt, v})
		}
		bo = append(bo, pv{T.True, 1})
		pick := func() pv { return bv[r.Intn(len(bv))] }
		pickW := func(w uint8) pv {
			for k := 0; k < 10; k++ {
				p := pick()
				if p.t.w == w {
					return p
				}
			}
			v := val(w)
			return pv{T.Const(w, v), v}
		}
		ev := func(op Op, w, hi, lo uint8, ps ...pv) uint64 {
			var a []*Term
			var v []uint64
			for _, p := range ps {
				a = append(a, p.t)
				v = append(v, p.v)
			}
			return evalOp(op, w, hi, lo, 0, nil, a, v)
		}
		for step := 0; step < 60; step++ {
			a := pick()
			w := a.t.w
			b := pickW(w)
			if r.Intn(4) == 0 {
				v := val(w)
				b = pv{T.Const(w, v), v}
			}
			var n pv
			switch r.Intn(24) {
			case 0, 1:
				n = pv{T.Add(a.t, b.t), (a.v + b.v) & mask(w)}
			case 2:
				n = pv{T.Sub(a.t, b.t), (a.v - b.v) & mask(w)}
			case 3:
				n = pv{T.Mul(a.t, b.t), (a.v * b.v) & mask(w)}
			case 4:
				n = pv{T.UDiv(a.t, b.t), ev(OUDiv, w, 0, 0, a, b)}
			case 5:
				n = pv{T.URem(a.t, b.t), ev(OURem, w, 0, 0, a, b)}
			case 6:
				n = pv{T.SDiv(a.t, b.t), ev(OSDiv, w, 0, 0, a, b)}
				if b.v == 0 {
					continue
				}
			case 7:
				if b.v == 0 {
					continue
				}
				n = pv{T.SRem(a.t, b.t), ev(OSRem, w, 0, 0, a, b)}
			case 8:
				n = pv{T.And(a.t, b.t), a.v & b.v}
			case 9:
				n = pv{T.Or(a.t, b.t), a.v | b.v}
			case 10:
				n = pv{T.Xor(a.t, b.t), a.v ^ b.v}
			case 11:
				s := uint64(r.Intn(int(w) + 2))
				n = pv{T.Shl(a.t, T.Const(w, s)), ev(OShl, w, 0, 0, a, pv{a.t, s & mask(w)})}
			case 12:
				s := uint64(r.Intn(int(w) + 2))
				n = pv{T.Lshr(a.t, T.Const(w, s)), ev(OLshr, w, 0, 0, a, pv{a.t, s & mask(w)})}
			case 13:
				n = pv{T.Ashr(a.t, b.t), ev(OAshr, w, 0, 0, a, b)}
			case 14:
				hi := uint8(r.Intn(int(w)))
				lo := uint8(r.Intn(int(hi) + 1))
				n = pv{T.Extract(a.t, hi, lo), a.v >> lo & mask(hi-lo+1)}
			case 15:
				b = pick()
				if w+b.t.w > 64 {
					continue
				}
				n = pv{T.Concat(a.t, b.t), a.v<<b.t.w | b.v}
			case 16:
				nw := ws[r.Intn(len(ws))]
				if nw < w {
					continue
				}
				n = pv{T.Zext(a.t, nw), a.v}
			case 17:
				nw := ws[r.Intn(len(ws))]
				if nw < w {
					continue
				}
				n = pv{T.Sext(a.t, nw), uint64(sext(a.v, w)) & mask(nw)}
			case 18:
				c := bo[r.Intn(len(bo))]
				v := a.v
				if c.v == 0 {
					v = b.v
				}
				n = pv{T.Ite(c.t, a.t, b.t), v}
			case 19:
				n = pv{T.Eq(a.t, b.t), b2u(a.v == b.v)}
			case 20:
				n = pv{T.Ult(a.t, b.t), b2u(a.v < b.v)}
			case 21:
				n = pv{T.Slt(a.t, b.t), b2u(sext(a.v, w) < sext(b.v, w))}
			case 22:
				c, d := bo[r.Intn(len(bo))], bo[r.Intn(len(bo))]
				switch r.Intn(4) {
				case 0:
					n = pv{T.BAnd(c.t, d.t), c.v & d.v}
				case 1:
					n = pv{T.BOr(c.t, d.t), c.v | d.v}
				case 2:
					n = pv{T.Eq(c.t, d.t), b2u(c.v == d.v)}
				case 3:
					n = pv{T.BNot(c.t), 1 - c.v}
				}
			case 23:
				n = pv{T.Not(a.t), ^a.v & mask(w)}
			}
			if g := T.Eval(n.t, m); g != n.v {
				t.Fatalf("seed %d step %d: got %x want %x: %v", seed, step, g, n.v, n.t)
			}
			if n.v < n.t.min || n.v > n.t.max {
				t.Fatalf("seed %d step %d: range [%x,%x] excludes %x: %v", seed, step, n.t.min, n.t.max, n.v, n.t)
			}
			if n.t.hasAlt {
				var v []uint64
				for _, x := range n.t.altArgs {
					v = append(v, T.Eval(x, m))
				}
				if g := evalOp(n.t.altOp, n.t.w, n.t.altHi, n.t.altLo, n.t.altC, n.t.altCoef, n.t.altArgs, v); g != n.v {
					t.Fatalf("seed %d step %d: alt got %x want %x: %v", seed, step, g, n.v, n.t)
				}
			}
			if n.t.w == 0 {
				bo = append(bo, n)
			} else {
				bv = append(bv, n)
			}
		}
	}
}
