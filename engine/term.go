package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms are hash-consed Bool / bit-vector / binary64 expressions.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OExtract
	OZExt
	OSExt
	OFFromS
	OFFromU
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFToS
	OFToU
	OFIsNaN
)

// width: 0 = Bool, 1..64 = BV, -64 = binary64.
type Term struct {
	op   Op
	w    int16
	aux  uint8 // extract: low bit
	args []*Term
	val  uint64
	name string
	id   int
	v1   *Term    // the only variable, if exactly one
	mv   bool     // more than one variable
	vec  []uint64 // value for each of the 2^w values of v1 (small v1)
	dec  *decInfo // variable: digit of a decimal rendering
	hid  int      // name id on the solver side (0: none)
	gen  int
}

type decInfo struct{}

type termKey struct {
	op      Op
	w       int16
	aux     uint8
	a, b, c int
	val     uint64
	name    string
}

type TermCtx struct {
	tab    map[termKey]*Term
	nextID int
	tru    *Term
	fls    *Term
	vars   []*Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{}
	c.reset()
	return c
}

func (c *TermCtx) reset() {
	c.tab = make(map[termKey]*Term, 1024)
	c.nextID = 0
	c.vars = c.vars[:0]
	c.tru = c.mk(OConst, 0, 0, 1, "")
	c.fls = c.mk(OConst, 0, 0, 0, "")
}

func (c *TermCtx) mk(op Op, w int16, aux uint8, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, aux: aux, val: val, name: name, a: -1, b: -1, c: -1}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, aux: aux, val: val, name: name, id: c.nextID}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	c.nextID++
	if op == OVar {
		t.v1 = t
	}
	for _, a := range args {
		if a.mv {
			t.mv = true
			t.v1 = nil
			break
		}
		if a.v1 != nil {
			if t.v1 == nil {
				t.v1 = a.v1
			} else if t.v1 != a.v1 {
				t.mv = true
				t.v1 = nil
				break
			}
		}
	}
	c.tab[k] = t
	return t
}

func mask(w int16) uint64 {
	if w >= 64 || w < 0 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int16) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (c *TermCtx) Const(v uint64, w int16) *Term { return c.mk(OConst, w, 0, v&mask(w), "") }
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}
func (c *TermCtx) FConst(f float64) *Term { return c.mk(OConst, -64, 0, math.Float64bits(f), "") }

func (c *TermCtx) Var(name string, w int16) *Term {
	n := c.nextID
	t := c.mk(OVar, w, 0, 0, name)
	if c.nextID != n {
		c.vars = append(c.vars, t)
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, 0, 0, 0, "", a)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.fls
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.fls
	}
	return c.mk(OAnd, 0, 0, 0, "", a, b)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.tru
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.tru
	}
	return c.mk(OOr, 0, 0, 0, "", a, b)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return cond
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(cond)
		}
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	return c.mk(OIte, a.w, 0, 0, "", cond, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b && a.w >= 0 {
		return c.tru
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
		switch a.op {
		case OZExt:
			in := a.args[0]
			if b.val&^mask(in.w) != 0 {
				return c.fls
			}
			return c.Eq(in, c.Const(b.val, in.w))
		case OSExt:
			in := a.args[0]
			lo := b.val & mask(in.w)
			if uint64(sext(lo, in.w))&mask(a.w) != b.val {
				return c.fls
			}
			return c.Eq(in, c.Const(lo, in.w))
		case OAdd:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.Const(b.val-a.args[1].val, a.w))
			}
		case OIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		case OBNot:
			return c.Eq(a.args[0], c.Const(^b.val, a.w))
		}
		return c.mk(OEq, 0, 0, 0, "", a, b)
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, 0, "", a, b)
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(evalBin(op, a.val, b.val, w), w)
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		k := b.val
		switch op {
		case OAdd:
			if k == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return c.Bin(OAdd, a.args[0], c.Const(a.args[1].val+k, w))
			}
			if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
				return c.Ite(a.args[0], c.Const(a.args[1].val+k, w), c.Const(a.args[2].val+k, w))
			}
		case OSub:
			return c.Bin(OAdd, a, c.Const(-k, w))
		case OMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
		case OUDiv:
			if k == 1 {
				return a
			}
			if k != 0 && k&(k-1) == 0 {
				return c.Bin(OLShr, a, c.Const(uint64(bits.TrailingZeros64(k)), w))
			}
		case OURem:
			if k != 0 && k&(k-1) == 0 {
				return c.Bin(OBAnd, a, c.Const(k-1, w))
			}
		case OSDiv:
			if k == 1 {
				return a
			}
		case OBAnd:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
			if a.op == OZExt {
				in := a.args[0]
				return c.ZExt(c.Bin(OBAnd, in, c.Const(k, in.w)), w)
			}
			if a.op == OBAnd && a.args[1].isConst() {
				return c.Bin(OBAnd, a.args[0], c.Const(a.args[1].val&k, w))
			}
		case OBOr, OBXor:
			if k == 0 {
				return a
			}
		case OShl, OLShr:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return c.Const(0, w)
			}
			if op == OLShr && a.op == OZExt {
				in := a.args[0]
				if k >= uint64(in.w) {
					return c.Const(0, w)
				}
				return c.ZExt(c.Bin(OLShr, in, c.Const(k, in.w)), w)
			}
		case OAShr:
			if k == 0 {
				return a
			}
		}
	}
	if a.isConst() && a.val == 0 {
		switch op {
		case OShl, OLShr, OAShr:
			return a
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return c.Const(0, w)
		case OBAnd, OBOr:
			return a
		}
	}
	return c.mk(op, w, 0, 0, "", a, b)
}

func (c *TermCtx) Un(op Op, a *Term) *Term {
	if a.isConst() {
		if op == OBNot {
			return c.Const(^a.val, a.w)
		}
		return c.Const(-a.val, a.w)
	}
	if a.op == op {
		return a.args[0]
	}
	return c.mk(op, a.w, 0, 0, "", a)
}

// unsigned upper bound of a term (cheap).
func ubound(a *Term) uint64 {
	switch a.op {
	case OConst:
		return a.val
	case OZExt:
		return ubound(a.args[0])
	case OBAnd:
		x, y := ubound(a.args[0]), ubound(a.args[1])
		if x < y {
			return x
		}
		return y
	case OIte:
		x, y := ubound(a.args[1]), ubound(a.args[2])
		if x > y {
			return x
		}
		return y
	case OLShr:
		if a.args[1].isConst() && a.args[1].val < 64 {
			return ubound(a.args[0]) >> a.args[1].val
		}
	case OAdd:
		x, y := ubound(a.args[0]), ubound(a.args[1])
		if s := x + y; s >= x && s <= mask(a.w) {
			return s
		}
	case OMul:
		x, y := ubound(a.args[0]), ubound(a.args[1])
		hi, lo := bits.Mul64(x, y)
		if hi == 0 && lo <= mask(a.w) {
			return lo
		}
	case OURem:
		if a.args[1].isConst() && a.args[1].val > 0 {
			return a.args[1].val - 1
		}
	case OUDiv:
		if a.args[1].isConst() && a.args[1].val > 0 {
			return ubound(a.args[0]) / a.args[1].val
		}
	}
	return mask(a.w)
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Bool(evalCmp(op, a.val, b.val, w))
	}
	if a == b {
		return c.Bool(op == OULe || op == OSLe)
	}
	// signed comparisons on provably non-negative terms become unsigned ones
	if op == OSLt || op == OSLe {
		half := mask(w) >> 1
		an, bn := ubound(a) <= half, ubound(b) <= half
		if an && bn {
			if op == OSLt {
				op = OULt
			} else {
				op = OULe
			}
		} else if an && b.isConst() { // b negative
			return c.fls
		} else if bn && a.isConst() { // a negative
			return c.tru
		}
	}
	if op == OULt || op == OULe {
		if b.isConst() {
			if op == OULt && b.val == 0 {
				return c.fls
			}
			ub := ubound(a)
			if op == OULt && ub < b.val || op == OULe && ub <= b.val {
				return c.tru
			}
			if a.op == OZExt && b.val <= mask(a.args[0].w) {
				return c.Cmp(op, a.args[0], c.Const(b.val, a.args[0].w))
			}
			if op == OULt && b.val == 1 {
				return c.Eq(a, c.Const(0, w))
			}
			if op == OULe && b.val == 0 {
				return c.Eq(a, c.Const(0, w))
			}
		}
		if a.isConst() {
			ub := ubound(b)
			if op == OULt && ub <= a.val || op == OULe && ub < a.val {
				return c.fls
			}
			if op == OULe && a.val == 0 {
				return c.tru
			}
			if b.op == OZExt && a.val <= mask(b.args[0].w) {
				return c.Cmp(op, c.Const(a.val, b.args[0].w), b.args[0])
			}
			if op == OULt && a.val == 0 {
				return c.Not(c.Eq(b, c.Const(0, w)))
			}
		}
		if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
			return c.Cmp(op, a.args[0], b.args[0])
		}
	}
	if b.isConst() && a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.Cmp(op, a.args[1], b), c.Cmp(op, a.args[2], b))
	}
	return c.mk(op, 0, 0, 0, "", a, b)
}

func (c *TermCtx) ZExt(a *Term, w int16) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.val, w)
	}
	if a.op == OZExt {
		return c.ZExt(a.args[0], w)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.ZExt(a.args[1], w), c.ZExt(a.args[2], w))
	}
	return c.mk(OZExt, w, 0, 0, "", a)
}

func (c *TermCtx) SExt(a *Term, w int16) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(uint64(sext(a.val, a.w)), w)
	}
	if ubound(a) <= mask(a.w)>>1 {
		return c.ZExt(a, w)
	}
	return c.mk(OSExt, w, 0, 0, "", a)
}

func (c *TermCtx) Trunc(a *Term, w int16) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.val, w)
	}
	switch a.op {
	case OZExt, OSExt:
		in := a.args[0]
		if in.w >= w {
			return c.Trunc(in, w)
		}
		if a.op == OZExt {
			return c.ZExt(in, w)
		}
		return c.SExt(in, w)
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
		return c.Bin(a.op, c.Trunc(a.args[0], w), c.Trunc(a.args[1], w))
	case OIte:
		return c.Ite(a.args[0], c.Trunc(a.args[1], w), c.Trunc(a.args[2], w))
	}
	return c.mk(OExtract, w, 0, 0, "", a)
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := math.Float64frombits(a.val), math.Float64frombits(b.val)
		switch op {
		case OFAdd:
			return c.FConst(x + y)
		case OFSub:
			return c.FConst(x - y)
		case OFMul:
			return c.FConst(x * y)
		case OFDiv:
			return c.FConst(x / y)
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		case OFEq:
			return c.Bool(x == y)
		}
	}
	w := int16(-64)
	if op == OFLt || op == OFLe || op == OFEq {
		w = 0
	}
	return c.mk(op, w, 0, 0, "", a, b)
}

func (c *TermCtx) FUn(op Op, a *Term, w int16) *Term {
	t := c.mk(op, w, 0, 0, "", a)
	if a.isConst() {
		v := evalTerm(t, nil, map[*Term]uint64{})
		if w == 0 {
			return c.Bool(v == 1)
		}
		return c.mk(OConst, w, 0, v&mask(w), "")
	}
	return t
}

func evalBin(op Op, a, b uint64, w int16) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	}
	panic(fmt.Sprint("evalBin ", op))
}

func evalCmp(op Op, a, b uint64, w int16) bool {
	switch op {
	case OULt:
		return a < b
	case OULe:
		return a <= b
	case OSLt:
		return sext(a, w) < sext(b, w)
	case OSLe:
		return sext(a, w) <= sext(b, w)
	}
	panic("evalCmp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalNode(t *Term, a []uint64) uint64 {
	switch t.op {
	case ONot:
		return 1 - a[0]
	case OAnd:
		return a[0] & a[1]
	case OOr:
		return a[0] | a[1]
	case OEq:
		return b2u(a[0] == a[1])
	case OIte:
		if a[0] == 1 {
			return a[1]
		}
		return a[2]
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OBAnd, OBOr, OBXor, OShl, OLShr, OAShr:
		return evalBin(t.op, a[0], a[1], t.w)
	case OBNot:
		return ^a[0] & mask(t.w)
	case ONeg:
		return -a[0] & mask(t.w)
	case OULt, OULe, OSLt, OSLe:
		return b2u(evalCmp(t.op, a[0], a[1], t.args[0].w))
	case OExtract:
		return (a[0] >> t.aux) & mask(t.w)
	case OZExt:
		return a[0]
	case OSExt:
		return uint64(sext(a[0], t.args[0].w)) & mask(t.w)
	case OFFromS:
		return math.Float64bits(float64(sext(a[0], t.args[0].w)))
	case OFFromU:
		return math.Float64bits(float64(a[0]))
	case OFNeg:
		return math.Float64bits(-math.Float64frombits(a[0]))
	case OFToS:
		return uint64(int64(math.Float64frombits(a[0]))) & mask(t.w)
	case OFToU:
		return uint64(math.Float64frombits(a[0])) & mask(t.w)
	case OFIsNaN:
		return b2u(math.IsNaN(math.Float64frombits(a[0])))
	}
	if len(a) == 2 {
		x, y := math.Float64frombits(a[0]), math.Float64frombits(a[1])
		switch t.op {
		case OFAdd:
			return math.Float64bits(x + y)
		case OFSub:
			return math.Float64bits(x - y)
		case OFMul:
			return math.Float64bits(x * y)
		case OFDiv:
			return math.Float64bits(x / y)
		case OFLt:
			return b2u(x < y)
		case OFLe:
			return b2u(x <= y)
		case OFEq:
			return b2u(x == y)
		}
	}
	panic(fmt.Sprint("evalNode ", t.op))
}

// evalTerm evaluates under model m (missing variables are 0).
func evalTerm(t *Term, m map[*Term]uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m[t]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var buf [3]uint64
	for i, a := range t.args {
		buf[i] = evalTerm(a, m, memo)
	}
	v := evalNode(t, buf[:len(t.args)])
	memo[t] = v
	return v
}

// vector returns the value of t for every value of its single small variable.
func (t *Term) vector() []uint64 {
	if t.vec != nil {
		return t.vec
	}
	w := t.v1.w
	n := 2
	if w > 0 {
		n = 1 << uint(w)
	}
	out := make([]uint64, n)
	if t.op == OVar {
		for i := range out {
			out[i] = uint64(i)
		}
	} else {
		var cols [3][]uint64
		for i, a := range t.args {
			if a.v1 != nil {
				cols[i] = a.vector()
			}
		}
		var buf [3]uint64
		for k := range out {
			for i, a := range t.args {
				if cols[i] != nil {
					buf[i] = cols[i][k]
				} else {
					buf[i] = a.val
				}
			}
			out[k] = evalNode(t, buf[:len(t.args)])
		}
	}
	t.vec = out
	return out
}

func (t *Term) smallVar() bool { return t.v1 != nil && t.v1.w >= 0 && t.v1.w <= 8 }

var smtName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN",
}

func sortName(w int16) string {
	switch {
	case w == 0:
		return "Bool"
	case w < 0:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(t *Term) string {
	switch {
	case t.w == 0:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case t.w < 0:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.w/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.val)
}

func nodeSMT(t *Term, arg func(*Term) string) string {
	var head string
	switch t.op {
	case OExtract:
		head = fmt.Sprintf("(_ extract %d %d)", int(t.aux)+int(t.w)-1, t.aux)
	case OZExt:
		head = fmt.Sprintf("(_ zero_extend %d)", t.w-t.args[0].w)
	case OSExt:
		head = fmt.Sprintf("(_ sign_extend %d)", t.w-t.args[0].w)
	case OFFromS:
		head = "(_ to_fp 11 53) RNE"
	case OFFromU:
		head = "(_ to_fp_unsigned 11 53) RNE"
	case OFToS:
		head = fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.w)
	case OFToU:
		head = fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.w)
	default:
		head = smtName[t.op]
	}
	var sb strings.Builder
	sb.WriteString("(")
	sb.WriteString(head)
	for _, a := range t.args {
		sb.WriteString(" ")
		sb.WriteString(arg(a))
	}
	sb.WriteString(")")
	return sb.String()
}

func (t *Term) String() string {
	if t.op == OConst {
		return constSMT(t)
	}
	if t.op == OVar {
		return t.name
	}
	return nodeSMT(t, func(a *Term) string { return a.String() })
}
