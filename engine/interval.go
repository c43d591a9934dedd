package main

import (
	"math"
	"math/big"
	"math/bits"
)

// Unsigned intervals of bit-vector terms under the path condition. They only
// over-approximate, so an answer is exact; everything else goes to the solver.

type iv struct{ lo, hi uint64 }

func (m *Machine) rng(t *Term) iv { return m.rngMemo(t, map[*Term]iv{}) }

func (m *Machine) rngMemo(t *Term, memo map[*Term]iv) iv {
	if t.op == OConst {
		return iv{t.val, t.val}
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := m.rng1(t, memo)
	if b, ok := m.bnd[t]; ok {
		if b.lo > r.lo {
			r.lo = b.lo
		}
		if b.hi < r.hi {
			r.hi = b.hi
		}
		if r.lo > r.hi { // an infeasible path
			r = iv{0, mask(t.w)}
		}
	}
	memo[t] = r
	return r
}

func (m *Machine) rng1(t *Term, memo map[*Term]iv) iv {
	full := iv{0, mask(t.w)}
	if t.w == 0 {
		full.hi = 1
	}
	if t.w < 0 {
		return full
	}
	if t.smallVar() {
		vec, d := t.vector(), m.dom[t.v1]
		r := iv{^uint64(0), 0}
		for i, x := range vec {
			if d == nil || d[i>>6]&(1<<uint(i&63)) != 0 {
				if x < r.lo {
					r.lo = x
				}
				if x > r.hi {
					r.hi = x
				}
			}
		}
		if r.lo <= r.hi {
			return r
		}
		return full
	}
	a := func(i int) iv { return m.rngMemo(t.args[i], memo) }
	mk := mask(t.w)
	b2 := func(no, yes bool) iv {
		switch {
		case yes:
			return iv{1, 1}
		case no:
			return iv{0, 0}
		}
		return iv{0, 1}
	}
	switch t.op {
	case ONot:
		x := a(0)
		return iv{1 - x.hi, 1 - x.lo}
	case OAnd, OOr:
		x, y := a(0), a(1)
		if t.op == OAnd {
			return iv{x.lo & y.lo, x.hi & y.hi}
		}
		return iv{x.lo | y.lo, x.hi | y.hi}
	case OEq:
		if t.args[0].w < 0 {
			return full
		}
		x, y := a(0), a(1)
		r := m.linCmp(t, memo)
		return b2(r < 0 || x.hi < y.lo || y.hi < x.lo, r > 0 || x.lo == x.hi && x == y)
	case OIte:
		c := a(0)
		if c.lo == 1 {
			return a(1)
		}
		if c.hi == 0 {
			return a(2)
		}
		x, y := a(1), a(2)
		return iv{min(x.lo, y.lo), max(x.hi, y.hi)}
	case OAdd:
		x, y := a(0), a(1)
		lo, c1 := addw(x.lo, y.lo, t.w)
		hi, c2 := addw(x.hi, y.hi, t.w)
		if c1 == c2 && lo <= hi {
			return iv{lo, hi}
		}
	case OSub:
		x, y := a(0), a(1)
		lo, hi := (x.lo-y.hi)&mk, (x.hi-y.lo)&mk
		if (x.lo < y.hi) == (x.hi < y.lo) && lo <= hi {
			return iv{lo, hi}
		}
	case OMul:
		x, y := a(0), a(1)
		h, hi := bits.Mul64(x.hi, y.hi)
		if h == 0 && hi <= mk {
			return iv{x.lo * y.lo, hi}
		}
	case OUDiv:
		x, y := a(0), a(1)
		if y.lo > 0 {
			return iv{x.lo / y.hi, x.hi / y.lo}
		}
	case OSDiv:
		x, y := a(0), a(1)
		if y.lo > 0 && x.hi <= mk>>1 && y.hi <= mk>>1 {
			return iv{x.lo / y.hi, x.hi / y.lo}
		}
	case OURem:
		x, y := a(0), a(1)
		if x.hi < y.lo {
			return x
		}
		if y.lo > 0 {
			return iv{0, min(x.hi, y.hi-1)}
		}
	case OSRem:
		x, y := a(0), a(1)
		if y.lo > 0 && x.hi <= mk>>1 && y.hi <= mk>>1 {
			return iv{0, min(x.hi, y.hi-1)}
		}
	case OBAnd:
		x, y := a(0), a(1)
		return iv{0, min(x.hi, y.hi)}
	case OBOr:
		x, y := a(0), a(1)
		return iv{max(x.lo, y.lo), uint64(1)<<uint(bits.Len64(x.hi|y.hi)) - 1}
	case OBXor:
		x, y := a(0), a(1)
		return iv{0, uint64(1)<<uint(bits.Len64(x.hi|y.hi)) - 1}
	case OBNot:
		x := a(0)
		return iv{^x.hi & mk, ^x.lo & mk}
	case ONeg:
		x := a(0)
		if x.lo > 0 {
			return iv{-x.hi & mk, -x.lo & mk}
		}
	case OShl:
		x, y := a(0), a(1)
		if y.lo == y.hi && y.lo < uint64(t.w) && bits.Len64(x.hi)+int(y.lo) <= int(t.w) {
			return iv{x.lo << y.lo, x.hi << y.lo}
		}
	case OLShr:
		x, y := a(0), a(1)
		if y.lo == y.hi && y.lo < 64 {
			return iv{x.lo >> y.lo, x.hi >> y.lo}
		}
		return iv{0, x.hi}
	case OAShr:
		x, y := a(0), a(1)
		if y.lo == y.hi && y.lo < 64 && x.hi <= mk>>1 {
			return iv{x.lo >> y.lo, x.hi >> y.lo}
		}
	case OExtract:
		x := a(0)
		if t.aux == 0 && x.hi <= mk {
			return x
		}
	case OZExt:
		return a(0)
	case OSExt:
		x := a(0)
		in := mask(t.args[0].w)
		if x.hi <= in>>1 {
			return x
		}
		if x.lo > in>>1 {
			return iv{x.lo | mk&^in, x.hi | mk&^in}
		}
	case OULt, OULe, OSLt, OSLe:
		x, y := a(0), a(1)
		if t.op == OULt || t.op == OULe {
			if r := m.linCmp(t, memo); r != 0 {
				return b2(r < 0, r > 0)
			}
		}
		if t.op == OSLt || t.op == OSLe {
			// flip the sign bit: the order becomes unsigned
			w := t.args[0].w
			var ok1, ok2 bool
			if x, ok1 = flip(x, w); !ok1 {
				return full
			}
			if y, ok2 = flip(y, w); !ok2 {
				return full
			}
		}
		if t.op == OULt || t.op == OSLt {
			return b2(x.lo >= y.hi, x.hi < y.lo)
		}
		return b2(x.lo > y.hi, x.hi <= y.lo)
	}
	return full
}

func addw(a, b uint64, w int16) (uint64, bool) {
	s, c := bits.Add64(a, b, 0)
	return s & mask(w), c != 0 || s&^mask(w) != 0
}

// flip maps the interval from signed to unsigned order.
func flip(x iv, w int16) (iv, bool) {
	s := uint64(1) << uint(w-1)
	if x.lo < s && x.hi >= s {
		return x, false
	}
	return iv{x.lo ^ s, x.hi ^ s}, true
}

// learn notes the bounds that t (or its negation) implies.
func (m *Machine) learn(t *Term, pos bool) {
	switch t.op {
	case ONot:
		m.learn(t.args[0], !pos)
		return
	case OAnd, OOr:
		if (t.op == OAnd) == pos {
			for k := 0; k < 2; k++ {
				m.learn(t.args[0], pos)
				m.learn(t.args[1], pos)
			}
		}
		return
	case OEq:
		if pos && t.args[0].w > 0 {
			for k := 0; k < 2; k++ {
				if c, x := t.args[k], t.args[1-k]; c.isConst() {
					m.bound(x, iv{c.val, c.val})
				}
			}
		}
		return
	case OULt, OULe, OSLt, OSLe:
	default:
		return
	}
	x, y := t.args[0], t.args[1]
	strict := t.op == OULt || t.op == OSLt
	if !pos { // not x < y is y <= x
		x, y, strict = y, x, !strict
	}
	signed := t.op == OSLt || t.op == OSLe
	mk := mask(x.w)
	one := uint64(0)
	if strict {
		one = 1
	}
	rx, ry := m.rng(x), m.rng(y)
	if signed {
		half := mk >> 1
		// x >= 0 known: y is at least x, without sign
		if rx.hi <= half {
			if rx.lo+one <= half {
				m.bound(y, iv{rx.lo + one, half})
			}
		}
		if ry.hi <= half && rx.hi <= half && ry.hi >= one {
			m.bound(x, iv{0, ry.hi - one})
		}
		return
	}
	if ry.hi >= one {
		m.bound(x, iv{0, ry.hi - one})
	}
	if rx.lo <= mk-one {
		m.bound(y, iv{rx.lo + one, mk})
	}
}

func (m *Machine) bound(t *Term, b iv) {
	if t.isConst() || t.smallVar() {
		return
	}
	if o, ok := m.bnd[t]; ok {
		b.lo, b.hi = max(b.lo, o.lo), min(b.hi, o.hi)
		if b.lo > b.hi {
			return
		}
	}
	m.bnd[t] = b
	// a bound on an extension is one on the term
	if t.op == OZExt && b.lo <= mask(t.args[0].w) {
		m.bound(t.args[0], iv{b.lo, min(b.hi, mask(t.args[0].w))})
	}
}

// ---- floats of bounded integers

// fmono is a float that is a monotone function of one integer term:
// sign * f(n) with f increasing, made of multiplications and divisions by
// positive constants.
type fmono struct {
	n     *Term
	neg   bool
	steps []fstep
}
type fstep struct {
	div bool
	c   float64
}

func (f *fmono) eval(n uint64) float64 {
	x := float64(n)
	for _, s := range f.steps {
		if s.div {
			x /= s.c
		} else {
			x *= s.c
		}
	}
	if f.neg {
		x = -x
	}
	return x
}

// mono recognizes such a term; n must be below 2^63.
func (m *Machine) mono(t *Term) *fmono {
	switch t.op {
	case OFFromS, OFFromU:
		n := t.args[0]
		if n.w != 64 {
			n = m.tc.ZExt(n, 64)
			if t.op == OFFromS && m.rng(t.args[0]).hi > mask(t.args[0].w)>>1 {
				return nil
			}
		}
		if m.rng(n).hi > 1<<62 {
			return nil
		}
		return &fmono{n: n}
	case OFNeg:
		if f := m.mono(t.args[0]); f != nil {
			f.neg = !f.neg
			return f
		}
	case OFMul, OFDiv:
		a, b := t.args[0], t.args[1]
		if t.op == OFMul && a.isConst() {
			a, b = b, a
		}
		if !b.isConst() {
			return nil
		}
		c := math.Float64frombits(b.val)
		if !(c > 0) || math.IsInf(c, 0) {
			return nil
		}
		if f := m.mono(a); f != nil {
			f.steps = append(f.steps, fstep{t.op == OFDiv, c})
			return f
		}
	}
	return nil
}

// fcmp is a comparison of floats without floats, or nil.
func (m *Machine) fcmp(op Op, a, b *Term) *Term {
	if op == OFEq {
		return nil
	}
	if f := m.mono(a); f != nil && b.isConst() {
		return m.threshold(f, func(x float64) bool {
			c := math.Float64frombits(b.val)
			return op == OFLt && x < c || op == OFLe && x <= c
		})
	}
	if f := m.mono(b); f != nil && a.isConst() {
		return m.threshold(f, func(x float64) bool {
			c := math.Float64frombits(a.val)
			return op == OFLt && c < x || op == OFLe && c <= x
		})
	}
	if b.op == OFDiv && a.isConst() {
		return m.ratio(b, math.Float64frombits(a.val), op == OFLt, false)
	}
	if a.op == OFDiv && b.isConst() {
		return m.ratio(a, math.Float64frombits(b.val), op == OFLe, true)
	}
	return nil
}

// threshold: a test that changes at most once over the range of n.
func (m *Machine) threshold(f *fmono, test func(float64) bool) *Term {
	r := m.rng(f.n)
	first, last := test(f.eval(r.lo)), test(f.eval(r.hi))
	if first == last {
		return m.tc.Bool(first)
	}
	lo, hi := r.lo, r.hi // test(lo) is first, test(hi) is not
	for hi-lo > 1 {
		mid := lo + (hi-lo)/2
		if test(f.eval(mid)) == first {
			lo = mid
		} else {
			hi = mid
		}
	}
	below := m.tc.Cmp(OULt, f.n, m.tc.Const(hi, 64))
	if first {
		return below
	}
	return m.tc.Not(below)
}

// ratio: C < w/h (strict) or C <= w/h, or with not the negation of that
// (w/h <= C, w/h < C), for integers below 2^31.
func (m *Machine) ratio(d *Term, c float64, strict, not bool) *Term {
	side := func(t *Term) *Term {
		if t.op != OFFromS && t.op != OFFromU {
			return nil
		}
		n := m.tc.ZExt(t.args[0], 64)
		if m.rng(t.args[0]).hi >= 1<<31 {
			return nil
		}
		return n
	}
	w, h := side(d.args[0]), side(d.args[1])
	if w == nil || h == nil || !(c > 1e-6) || c > 1e6 {
		return nil
	}
	// w/h rounds to more than c exactly beyond the middle to the next float
	lo, hi := c, math.Nextafter(c, math.Inf(1))
	if !strict {
		lo, hi = math.Nextafter(c, 0), c
	}
	mid := new(big.Rat).Add(new(big.Rat).SetFloat64(lo), new(big.Rat).SetFloat64(hi))
	mid.Quo(mid, big.NewRat(2, 1))
	// the simplest fraction p/q just below mid
	for q := int64(1); q < 1<<12; q++ {
		p := new(big.Int).Quo(new(big.Int).Mul(mid.Num(), big.NewInt(q)), mid.Denom())
		x := new(big.Rat).SetFrac(p, big.NewInt(q))
		gap := new(big.Rat).Sub(mid, x)
		if gap.Sign() <= 0 {
			continue
		}
		// no fraction with a denominator below 2^31 lies between
		if gap.Cmp(new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(1<<31), big.NewInt(q)))) >= 0 {
			continue
		}
		if p.BitLen() > 31 {
			return nil
		}
		tc := m.tc
		gt := tc.Cmp(OULt, tc.Bin(OMul, h, tc.Const(p.Uint64(), 64)), tc.Bin(OMul, w, tc.Const(uint64(q), 64)))
		if !not {
			return gt
		}
		return tc.And(tc.Not(gt), tc.Not(tc.Eq(h, tc.Const(0, 64))))
	}
	return nil
}

// ftoi is the truncation of a float, as an integer, without floats, or nil.
func (m *Machine) ftoi(t *Term) *Term {
	f := m.mono(t)
	if f == nil {
		return nil
	}
	n := f.n
	r := m.rng(n)
	if lo, hi := math.Trunc(f.eval(r.lo)), math.Trunc(f.eval(r.hi)); lo == hi && math.Abs(lo) < 1<<62 {
		return m.tc.Const(uint64(int64(lo)), 64)
	}
	for i, s := range f.steps {
		hi := m.rng(n).hi
		// the operand must be exact
		if hi >= 1<<53 {
			return nil
		}
		if s.c != math.Trunc(s.c) || s.c >= 1<<63 {
			return nil
		}
		c := uint64(s.c)
		if s.div {
			// the rounded quotient does not reach the next integer when
			// n + c < 2^53
			if i != len(f.steps)-1 || hi+c >= 1<<53 {
				return nil
			}
			n = m.tc.Bin(OUDiv, n, m.tc.Const(c, 64))
			continue
		}
		odd := c >> uint(bits.TrailingZeros64(c))
		h1, l1 := bits.Mul64(hi, odd)
		h2, l2 := bits.Mul64(hi, c)
		if h1 != 0 || l1 >= 1<<53 || h2 != 0 || l2 >= 1<<63 || i != len(f.steps)-1 {
			return nil
		}
		n = m.tc.Bin(OMul, n, m.tc.Const(c, 64))
	}
	if len(f.steps) == 0 && m.rng(n).hi >= 1<<53 {
		return nil
	}
	if f.neg {
		n = m.tc.Bin(OSub, m.tc.Const(0, 64), n)
	}
	return n
}

func (m *Machine) fless(op Op, a, b *Term) *Term {
	if r := m.fcmp(op, a, b); r != nil {
		return r
	}
	return m.tc.FBin(op, a, b)
}

// lin is a term as an exact integer: a linear form whose value, without any
// wrapping, is the value of the term.
type lin struct {
	c *big.Int
	k map[*Term]*big.Int
}

func (m *Machine) linOf(t *Term, memo map[*Term]iv) *lin {
	atom := func() *lin {
		if t.isConst() {
			return &lin{c: new(big.Int).SetUint64(t.val), k: map[*Term]*big.Int{}}
		}
		return &lin{c: new(big.Int), k: map[*Term]*big.Int{t: big.NewInt(1)}}
	}
	if t.isConst() {
		return atom()
	}
	if t.op == OZExt {
		return m.linOf(t.args[0], memo)
	}
	if t.op == OExtract && t.aux == 0 && m.rngMemo(t.args[0], memo).hi <= mask(t.w) {
		return m.linOf(t.args[0], memo)
	}
	if t.op == OSExt && m.rngMemo(t.args[0], memo).hi <= mask(t.args[0].w)>>1 {
		return m.linOf(t.args[0], memo)
	}
	if t.op != OAdd && t.op != OSub && t.op != OMul {
		return atom()
	}
	x, y := m.rngMemo(t.args[0], memo), m.rngMemo(t.args[1], memo)
	switch t.op {
	case OAdd:
		_, c1 := addw(x.lo, y.lo, t.w)
		_, c2 := addw(x.hi, y.hi, t.w)
		if c1 != c2 {
			return atom()
		}
		a, b := m.linOf(t.args[0], memo), m.linOf(t.args[1], memo)
		a = a.plus(b, 1)
		if c1 { // wraps exactly once
			a.c.Sub(a.c, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
		}
		return a
	case OSub:
		b1, b2 := x.lo < y.hi, x.hi < y.lo
		if b1 != b2 {
			return atom()
		}
		a := m.linOf(t.args[0], memo).plus(m.linOf(t.args[1], memo), -1)
		if b1 {
			a.c.Add(a.c, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
		}
		return a
	}
	h, l := bits.Mul64(x.hi, y.hi)
	if h != 0 || l > mask(t.w) {
		return atom()
	}
	a, b := t.args[0], t.args[1]
	if a.isConst() {
		a, b = b, a
	}
	if !b.isConst() {
		return atom()
	}
	f := m.linOf(a, memo)
	c := new(big.Int).SetUint64(b.val)
	r := &lin{c: new(big.Int).Mul(f.c, c), k: map[*Term]*big.Int{}}
	for v, q := range f.k {
		r.k[v] = new(big.Int).Mul(q, c)
	}
	return r
}

func (a *lin) plus(b *lin, sign int64) *lin {
	s := big.NewInt(sign)
	r := &lin{c: new(big.Int).Add(a.c, new(big.Int).Mul(b.c, s)), k: map[*Term]*big.Int{}}
	for v, q := range a.k {
		r.k[v] = new(big.Int).Set(q)
	}
	for v, q := range b.k {
		if r.k[v] == nil {
			r.k[v] = new(big.Int)
		}
		r.k[v].Add(r.k[v], new(big.Int).Mul(q, s))
	}
	return r
}

// linCmp decides an unsigned comparison or equality by the difference of the
// linear forms: 1, -1 or 0 for unknown.
func (m *Machine) linCmp(t *Term, memo map[*Term]iv) int {
	if t.args[0].w <= 0 {
		return 0
	}
	d := m.linOf(t.args[0], memo).plus(m.linOf(t.args[1], memo), -1)
	lo, hi := new(big.Int).Set(d.c), new(big.Int).Set(d.c)
	for v, q := range d.k {
		r := m.rngMemo(v, memo)
		a, b := new(big.Int).SetUint64(r.lo), new(big.Int).SetUint64(r.hi)
		if q.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a.Mul(a, q))
		hi.Add(hi, b.Mul(b, q))
	}
	switch t.op {
	case OEq:
		if lo.Sign() > 0 || hi.Sign() < 0 {
			return -1
		}
		if lo.Sign() == 0 && hi.Sign() == 0 {
			return 1
		}
	case OULt:
		if hi.Sign() < 0 {
			return 1
		}
		if lo.Sign() >= 0 {
			return -1
		}
	case OULe:
		if hi.Sign() <= 0 {
			return 1
		}
		if lo.Sign() > 0 {
			return -1
		}
	}
	return 0
}
