package main

import (
	"math"
	"math/rand"
	"testing"
)

// The rewriting of floats of integers agrees with the machine.
func TestFloatRewriting(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	cs := []float64{10, 100, 1e3, 1e15, 1e18, 1e22, 2, 3, 7, 1.5, 1e-3, 5274310}
	done := 0
	for i := 0; i < 10000; i++ {
		m := &Machine{tc: newTermCtx(), dom: map[*Term]*[4]uint64{}, bnd: map[*Term]iv{}}
		n := m.tc.Var("n", 64)
		w := r.Intn(62)
		hi := uint64(1)<<uint(w) | uint64(r.Int63())&(1<<uint(w)-1)
		m.bnd[n] = iv{0, hi}
		x := m.tc.FUn(OFFromU, n, -64)
		neg := r.Intn(2) == 0
		if neg {
			x = m.tc.FUn(OFNeg, x, -64)
		}
		for k := r.Intn(3); k > 0; k-- {
			x = m.tc.FBin([]Op{OFMul, OFDiv}[r.Intn(2)], x, m.tc.FConst(cs[r.Intn(len(cs))]))
		}
		c := m.tc.FConst(cs[r.Intn(len(cs))] * float64(r.Intn(1000)))
		if r.Intn(2) == 0 {
			c = m.tc.FConst(-math.Float64frombits(c.val))
		}
		op := []Op{OFLt, OFLe}[r.Intn(2)]
		a, b := x, c
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		ti, tc := m.ftoi(x), m.fcmp(op, a, b)
		plain := m.tc.FBin(op, a, b)
		for k := 0; k < 20; k++ {
			v := uint64(r.Int63()) % (hi + 1)
			switch k {
			case 0:
				v = hi
			case 1:
				v = 0
			case 2:
				v = hi - hi%10
			}
			md := map[*Term]uint64{n: v}
			if ti != nil {
				f := math.Float64frombits(evalTerm(x, md, map[*Term]uint64{}))
				if math.Abs(f) < 1<<63 && uint64(int64(f)) != evalTerm(ti, md, map[*Term]uint64{}) {
					t.Fatal("ftoi", x, v)
				}
				done++
			}
			if tc != nil && evalTerm(tc, md, map[*Term]uint64{}) != evalTerm(plain, md, map[*Term]uint64{}) {
				t.Fatal("fcmp", plain, v, tc)
			}
		}
	}
	t.Log(done)
	for i := 0; i < 10000; i++ {
		m := &Machine{tc: newTermCtx(), dom: map[*Term]*[4]uint64{}, bnd: map[*Term]iv{}}
		w, h := m.tc.Var("w", 32), m.tc.Var("h", 32)
		m.bnd[w], m.bnd[h] = iv{0, 1<<31 - 1}, iv{0, 1<<31 - 1}
		x := m.tc.FBin(OFDiv, m.tc.FUn(OFFromU, m.tc.ZExt(w, 64), -64), m.tc.FUn(OFFromU, m.tc.ZExt(h, 64), -64))
		C := []float64{1.2, 1.5, 1, 0.3, 4.0 / 3, 16.0 / 9, 3.7}[r.Intn(7)]
		a, b := x, m.tc.FConst(C)
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		op := []Op{OFLt, OFLe}[r.Intn(2)]
		tc := m.fcmp(op, a, b)
		if tc == nil {
			continue
		}
		plain := m.tc.FBin(op, a, b)
		for k := 0; k < 20; k++ {
			hv := uint64(r.Int31()) >> uint(r.Intn(31))
			wv := uint64(float64(hv)*C) + uint64(r.Intn(3)) - 1
			if wv >= 1<<31 {
				continue
			}
			md := map[*Term]uint64{w: wv, h: hv}
			if evalTerm(tc, md, map[*Term]uint64{}) != evalTerm(plain, md, map[*Term]uint64{}) {
				t.Fatal("ratio", plain, wv, hv, tc)
			}
			done++
		}
	}
	t.Log(done)
}
