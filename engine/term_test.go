package main

import (
	"math"
	"math/rand"
	"testing"
)

// TestSimplifier builds random terms and compares their value with the value
// computed operation by operation.
func TestSimplifier(t *testing.T) {
	rng := rand.New(rand.NewSource(7))
	for round := 0; round < 3000; round++ {
		b := NewBuilder()
		m := Model{}
		type node struct {
			t *Term
			v uint64
		}
		var ns []node
		for i := 0; i < 4; i++ {
			lo := uint64(rng.Intn(256))
			hi := lo + uint64(rng.Intn(int(256-lo)))
			n := string(rune('a' + i))
			v := b.Var(n, 8, lo, hi)
			x := lo + uint64(rng.Int63n(int64(hi-lo+1)))
			m[n] = x
			w := uint8([]int{8, 16, 32, 64}[rng.Intn(4)])
			ns = append(ns, node{b.ZExt(v, w), x})
		}
		for i := 0; i < 25; i++ {
			p := ns[rng.Intn(len(ns))]
			w := p.t.w
			var q node
			var c []node
			for _, n := range ns {
				if n.t.w == w {
					c = append(c, n)
				}
			}
			if rng.Intn(2) == 0 && len(c) > 0 {
				q = c[rng.Intn(len(c))]
			} else {
				k := []uint64{0, 1, 2, 3, 7, 10, 48, 60, 100, 255, 1000, 3600, 86400, ^uint64(47), ^uint64(0), 1 << 62, 9223371966579724800}[rng.Intn(17)] & mask(w)
				q = node{b.Const(k, w), k}
			}
			ops := []Op{OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr}
			op := ops[rng.Intn(len(ops))]
			if (op == OUDiv || op == OURem || op == OSDiv || op == OSRem) && q.v == 0 {
				continue
			}
			var r node
			switch rng.Intn(8) {
			case 0:
				lo := uint8(rng.Intn(int(w)))
				hi := lo + uint8(rng.Intn(int(w-lo)))
				r = node{b.Extract(p.t, hi, lo), p.v >> lo & mask(hi-lo+1)}
				nw := uint8([]int{8, 16, 32, 64}[rng.Intn(4)])
				if nw < r.t.w {
					nw = 64
				}
				r.t = b.ZExt(r.t, nw)
			case 1:
				if w < 64 {
					r = node{b.SExt(p.t, 64), uint64(int64(p.v<<(64-w)) >> (64 - w))}
				} else {
					continue
				}
			case 2:
				c := b.Ult(p.t, q.t)
				r = node{b.Ite(c, p.t, q.t), min(p.v, q.v)}
			case 3:
				c := b.Slt(p.t, q.t)
				x := q.v
				if int64(p.v<<(64-w)) < int64(q.v<<(64-w)) {
					x = p.v
				}
				r = node{b.Ite(c, p.t, q.t), x}
			case 4:
				c := b.Eq(p.t, q.t)
				x := p.v ^ mask(w)
				if p.v == q.v {
					x = q.v
				}
				r = node{b.Ite(c, q.t, b.NotBV(p.t)), x}
			default:
				v := evalOp(&Term{op: op, w: w, args: []*Term{b.Const(p.v, w), b.Const(q.v, w)}}, []uint64{p.v, q.v})
				r = node{b.bin(op, p.t, q.t), v & mask(w)}
			}
			if got := b.Eval(r.t, m); got != r.v {
				t.Fatalf("round %d: op %v width %d: got %d want %d\n%s\n%v", round, opNames[op], w, got, r.v, body(r.t), m)
			}
			if r.v < r.t.lo || r.v > r.t.hi {
				t.Fatalf("round %d: %d outside bounds %d..%d of %s", round, r.v, r.t.lo, r.t.hi, body(r.t))
			}
			ns = append(ns, r)
		}
	}
}

// TestConversion compares cvtt with the conversions of this machine.
func TestConversion(t *testing.T) {
	for _, f := range []float64{0, -0.5, 0.9, -1.5, 127.9, 300, -3e9, 3e9, 5e9, -2147483648.5, 2147483647.5, 2147483648, 1e19, 2e19, -1e19, 1 << 63, -(1 << 63), 1e30, math.NaN(), math.Inf(1), math.Inf(-1)} {
		s32, s64, u64 := cvtt(f, OFToS, 32), cvtt(f, OFToS, 64), cvtt(f, OFToU, 64)
		if uint32(s32) != uint32(int32(f)) || uint8(s32) != uint8(f) || uint16(s32) != uint16(f) || int64(s64) != int64(f) || uint32(s64) != uint32(f) || u64 != uint64(f) {
			t.Errorf("%v: %x %x %x", f, s32, s64, u64)
		}
	}
}
