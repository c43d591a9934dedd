package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sync/atomic"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func unsafeSlice(p Ptr, n int) []Value { return unsafe.Slice(p, n) }

func (k *compiler) binop(x *ssa.BinOp, dst int) func(fr *frame) {
	a, b := k.op(x.X), k.op(x.Y)
	t := x.X.Type()
	w, signed, isInt := intInfo(t)
	op := x.Op
	switch op {
	case token.EQL:
		return func(fr *frame) {
			va, vb := a.get(fr), b.get(fr)
			if i, ok := va.(I); ok {
				if j, ok := vb.(I); ok {
					fr.regs[dst] = i == j
					return
				}
			}
			fr.regs[dst] = fr.m.equal(va, vb)
		}
	case token.NEQ:
		return func(fr *frame) {
			va, vb := a.get(fr), b.get(fr)
			if i, ok := va.(I); ok {
				if j, ok := vb.(I); ok {
					fr.regs[dst] = i != j
					return
				}
			}
			fr.regs[dst] = fr.m.not(fr.m.equal(va, vb))
		}
	}
	if isInt {
		switch op {
		case token.SHL, token.SHR:
			_, ysigned, _ := intInfo(x.Y.Type())
			yw, _, _ := intInfo(x.Y.Type())
			return func(fr *frame) {
				va, vb := a.get(fr), b.get(fr)
				if j, ok := vb.(I); ok {
					if ysigned && sext(uint64(j), yw) < 0 {
						fr.m.goPanicf("negative shift amount")
					}
					if i, ok := va.(I); ok {
						var r uint64
						switch {
						case op == token.SHL:
							r = evalBin(OShl, uint64(i), uint64(j), w)
						case signed:
							r = evalBin(OAShr, uint64(i), uint64(j), w)
						default:
							r = evalBin(OLShr, uint64(i), uint64(j), w)
						}
						fr.regs[dst] = mkI(r)
						return
					}
				}
				m := fr.m
				ta := m.term(va, w)
				tb := m.term(vb, yw)
				if ysigned && !tb.isConst() {
					if m.truth(m.norm(m.tc.Cmp(OSLt, tb, m.tc.Const(0, yw)))) {
						m.goPanicf("negative shift amount")
					}
				}
				// bring the amount to width w, saturating
				var amt *Term
				if tb.isConst() {
					v := tb.val
					if v > uint64(w) {
						v = uint64(w)
					}
					if w < 8 && v > mask(w) {
						v = mask(w)
					}
					amt = m.tc.Const(v, w)
				} else if yw <= w {
					amt = m.tc.ZExt(tb, w)
				} else {
					big := m.tc.Cmp(OULe, m.tc.Const(uint64(w), yw), tb)
					amt = m.tc.Ite(big, m.tc.Const(uint64(w), w), m.tc.Trunc(tb, w))
				}
				o := OShl
				if op == token.SHR {
					o = OLShr
					if signed {
						o = OAShr
					}
				}
				fr.regs[dst] = m.norm(m.tc.Bin(o, ta, amt))
			}
		}
		type iop struct {
			conc func(x, y uint64) Value
			sym  func(m *Machine, x, y *Term) Value
		}
		mkw := mask(w)
		bin := func(o Op) iop {
			return iop{
				func(x, y uint64) Value { return mkI(evalBin(o, x, y, w)) },
				func(m *Machine, x, y *Term) Value { return m.norm(m.tc.Bin(o, x, y)) },
			}
		}
		cmp := func(o Op, swap, neg bool) iop {
			return iop{
				func(x, y uint64) Value {
					if swap {
						x, y = y, x
					}
					return evalCmp(o, x, y, w) != neg
				},
				func(m *Machine, x, y *Term) Value {
					if swap {
						x, y = y, x
					}
					r := m.tc.Cmp(o, x, y)
					if neg {
						r = m.tc.Not(r)
					}
					return m.norm(r)
				},
			}
		}
		lt, le := OULt, OULe
		dv, rm := OUDiv, OURem
		if signed {
			lt, le, dv, rm = OSLt, OSLe, OSDiv, OSRem
		}
		var f iop
		switch op {
		case token.ADD:
			f = iop{func(x, y uint64) Value { return mkI((x + y) & mkw) }, bin(OAdd).sym}
		case token.SUB:
			f = iop{func(x, y uint64) Value { return mkI((x - y) & mkw) }, bin(OSub).sym}
		case token.MUL:
			f = bin(OMul)
		case token.AND:
			f = iop{func(x, y uint64) Value { return mkI(x & y) }, bin(OBAnd).sym}
		case token.OR:
			f = bin(OBOr)
		case token.XOR:
			f = bin(OBXor)
		case token.AND_NOT:
			f = iop{func(x, y uint64) Value { return mkI(x &^ y) }, func(m *Machine, x, y *Term) Value {
				return m.norm(m.tc.Bin(OBAnd, x, m.tc.Un(OBNot, y)))
			}}
		case token.QUO, token.REM:
			o := dv
			if op == token.REM {
				o = rm
			}
			return func(fr *frame) {
				va, vb := a.get(fr), b.get(fr)
				m := fr.m
				if m.truth(m.equal(vb, mkI(0))) {
					m.goPanicf("integer divide by zero")
				}
				i, ok1 := va.(I)
				j, ok2 := vb.(I)
				if ok1 && ok2 {
					fr.regs[dst] = mkI(evalBin(o, uint64(i), uint64(j), w))
					return
				}
				fr.regs[dst] = m.norm(m.tc.Bin(o, m.term(va, w), m.term(vb, w)))
			}
		case token.LSS:
			f = cmp(lt, false, false)
		case token.LEQ:
			f = cmp(le, false, false)
		case token.GTR:
			f = cmp(lt, true, false)
		case token.GEQ:
			f = cmp(le, true, false)
		}
		return func(fr *frame) {
			va, vb := a.get(fr), b.get(fr)
			i, ok1 := va.(I)
			j, ok2 := vb.(I)
			if ok1 && ok2 {
				fr.regs[dst] = f.conc(uint64(i), uint64(j))
				return
			}
			fr.regs[dst] = f.sym(fr.m, fr.m.term(va, w), fr.m.term(vb, w))
		}
	}
	bt, _ := t.Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		return func(fr *frame) {
			va, vb := a.get(fr), b.get(fr)
			m := fr.m
			switch op {
			case token.ADD:
				fr.regs[dst] = m.strConcat(va, vb)
			case token.LSS:
				fr.regs[dst] = m.strLess(va, vb)
			case token.GTR:
				fr.regs[dst] = m.strLess(vb, va)
			case token.LEQ:
				fr.regs[dst] = m.not(m.strLess(vb, va))
			case token.GEQ:
				fr.regs[dst] = m.not(m.strLess(va, vb))
			}
		}
	}
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		f32 := bt.Kind() == types.Float32
		return func(fr *frame) {
			va, vb := a.get(fr), b.get(fr)
			x, ok1 := va.(float64)
			y, ok2 := vb.(float64)
			if ok1 && ok2 {
				var r Value
				switch op {
				case token.ADD:
					r = x + y
				case token.SUB:
					r = x - y
				case token.MUL:
					r = x * y
				case token.QUO:
					r = x / y
				case token.LSS:
					r = x < y
				case token.LEQ:
					r = x <= y
				case token.GTR:
					r = x > y
				case token.GEQ:
					r = x >= y
				}
				if f, ok := r.(float64); ok && f32 {
					r = float64(float32(f))
				}
				fr.regs[dst] = r
				return
			}
			m := fr.m
			if f32 {
				panic(m.unsupported("symbolic float32"))
			}
			ta, tb := m.term(va, -64), m.term(vb, -64)
			var r *Term
			switch op {
			case token.ADD:
				r = m.tc.FBin(OFAdd, ta, tb)
			case token.SUB:
				r = m.tc.FBin(OFSub, ta, tb)
			case token.MUL:
				r = m.tc.FBin(OFMul, ta, tb)
			case token.QUO:
				r = m.tc.FBin(OFDiv, ta, tb)
			case token.LSS:
				r = m.fless(OFLt, ta, tb)
			case token.LEQ:
				r = m.fless(OFLe, ta, tb)
			case token.GTR:
				r = m.fless(OFLt, tb, ta)
			case token.GEQ:
				r = m.fless(OFLe, tb, ta)
			}
			fr.regs[dst] = m.norm(r)
		}
	}
	if bt != nil && bt.Info()&types.IsBoolean != 0 {
		return func(fr *frame) {
			va, vb := a.get(fr), b.get(fr)
			switch op {
			case token.AND, token.LAND:
				fr.regs[dst] = fr.m.and(va, vb)
			case token.OR, token.LOR:
				fr.regs[dst] = fr.m.or(va, vb)
			default:
				panic(fr.m.unsupported("bool op"))
			}
		}
	}
	return func(fr *frame) {
		if x, ok := a.get(fr).(complex128); ok {
			y := b.get(fr).(complex128)
			switch op {
			case token.ADD:
				fr.regs[dst] = x + y
				return
			case token.MUL:
				fr.regs[dst] = x * y
				return
			}
		}
		panic(fr.m.unsupported(fmt.Sprintf("binop %v on %v", op, t)))
	}
}

func (k *compiler) convert(o opnd, from, to types.Type, dst int) func(fr *frame) {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	fw, fs, fi := intInfo(from)
	tw, _, ti := intInfo(to)
	// unsafe.Pointer <-> pointer / uintptr
	if tb != nil && tb.Kind() == types.UnsafePointer || fb != nil && fb.Kind() == types.UnsafePointer {
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	}
	switch {
	case fi && ti:
		return func(fr *frame) {
			switch v := o.get(fr).(type) {
			case I:
				if tw <= fw {
					fr.regs[dst] = mkI(uint64(v) & mask(tw))
				} else if fs {
					fr.regs[dst] = mkI(uint64(sext(uint64(v), fw)) & mask(tw))
				} else {
					fr.regs[dst] = v
				}
			case *Term:
				fr.regs[dst] = fr.m.norm(fr.m.resize(v, fs, tw))
			default:
				// uintptr holding a pointer
				fr.regs[dst] = v
			}
		}
	case fi && tb != nil && tb.Info()&types.IsFloat != 0:
		f32 := tb.Kind() == types.Float32
		return func(fr *frame) {
			switch v := o.get(fr).(type) {
			case I:
				var f float64
				if fs {
					f = float64(sext(uint64(v), fw))
				} else {
					f = float64(uint64(v))
				}
				if f32 {
					f = float64(float32(f))
				}
				fr.regs[dst] = f
			case *Term:
				op := OFFromU
				if fs {
					op = OFFromS
				}
				fr.regs[dst] = fr.m.norm(fr.m.tc.FUn(op, v, -64))
			}
		}
	case fb != nil && fb.Info()&types.IsFloat != 0 && ti:
		return func(fr *frame) {
			switch v := o.get(fr).(type) {
			case float64:
				fr.regs[dst] = mkI(f2i(v, to) & mask(tw))
			case *Term:
				m := fr.m
				_, ts, _ := intInfo(to)
				if !ts {
					panic(m.unsupported("symbolic float to unsigned"))
				}
				if r := m.ftoi(v); r != nil {
					fr.regs[dst] = m.norm(m.tc.Trunc(r, tw))
					return
				}
				// amd64: out of range gives the minimum integer
				r := m.tc.FUn(OFToS, v, 64)
				lo := m.tc.FBin(OFLe, m.tc.FConst(-9223372036854775808), v)
				hi := m.tc.FBin(OFLt, v, m.tc.FConst(9223372036854775808))
				r = m.tc.Ite(m.tc.And(lo, hi), r, m.tc.Const(1<<63, 64))
				fr.regs[dst] = m.norm(m.tc.Trunc(r, tw))
			}
		}
	case fb != nil && fb.Info()&types.IsFloat != 0 && tb != nil && tb.Info()&types.IsFloat != 0:
		f32 := tb.Kind() == types.Float32
		return func(fr *frame) {
			v := o.get(fr)
			if f, ok := v.(float64); ok && f32 {
				v = float64(float32(f))
			} else if !ok && f32 {
				panic(fr.m.unsupported("symbolic float32"))
			}
			fr.regs[dst] = v
		}
	}
	isStr := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsString != 0 }
	if isStr(tb) {
		if fi {
			return func(fr *frame) {
				v := o.get(fr)
				if i, ok := v.(I); ok {
					r := rune(sext(uint64(i), fw))
					if !fs && uint64(i) > utf8.MaxRune || int64(r) != sext(uint64(i), fw) && fs {
						r = utf8.RuneError
					}
					fr.regs[dst] = string(r)
					return
				}
				fr.regs[dst] = fr.m.runeToStr(fr, fr.m.resize(v.(*Term), fs, 32))
			}
		}
		if s, ok := fu.(*types.Slice); ok {
			ew, _, _ := intInfo(s.Elem())
			if ew == 8 {
				return func(fr *frame) { fr.regs[dst] = mkStr(o.get(fr).(Slice)) }
			}
			return func(fr *frame) {
				var out []Value
				for _, r := range o.get(fr).(Slice) {
					out = append(out, fr.m.strBytes(fr.m.runeToStr(fr, r))...)
				}
				fr.regs[dst] = mkStr(out)
			}
		}
		if isStr(fb) {
			return func(fr *frame) { fr.regs[dst] = o.get(fr) }
		}
	}
	if isStr(fb) {
		if s, ok := tu.(*types.Slice); ok {
			ew, _, _ := intInfo(s.Elem())
			if ew == 8 {
				return func(fr *frame) {
					b := fr.m.strBytes(o.get(fr))
					fr.regs[dst] = Slice(append(make([]Value, 0, len(b)), b...))
				}
			}
			return func(fr *frame) {
				s := fr.m.flat(o.get(fr))
				out := Slice{}
				it := &strIter{s: s}
				for {
					r, _, ok := fr.m.nextRune(fr, it)
					if !ok {
						break
					}
					out = append(out, r)
				}
				fr.regs[dst] = out
			}
		}
	}
	if fb != nil && tb != nil && fb.Info()&types.IsComplex != 0 {
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	}
	// slice to array
	if _, ok := fu.(*types.Slice); ok {
		if at, ok := tu.(*types.Array); ok {
			return func(fr *frame) {
				s := o.get(fr).(Slice)
				if int64(len(s)) < at.Len() {
					fr.m.goPanicf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), at.Len())
				}
				fr.regs[dst] = copyVal(Array(s[:at.Len()]))
			}
		}
	}
	return func(fr *frame) { fr.regs[dst] = o.get(fr) }
}

func f2i(v float64, to types.Type) uint64 {
	switch to.Underlying().(*types.Basic).Kind() {
	case types.Uint64, types.Uint, types.Uintptr:
		return uint64(v)
	case types.Uint32:
		return uint64(uint32(v))
	}
	return uint64(int64(v))
}

func (m *Machine) resize(t *Term, signed bool, w int16) *Term {
	switch {
	case w == t.w:
		return t
	case w < t.w:
		return m.tc.Trunc(t, w)
	case signed:
		return m.tc.SExt(t, w)
	}
	return m.tc.ZExt(t, w)
}

// runeToStr encodes a rune, forking on its encoded length when symbolic.
func (m *Machine) runeToStr(fr *frame, v Value) Value {
	if i, ok := v.(I); ok {
		return string(rune(int32(i)))
	}
	f := m.eng.ld.fnByName("unicode/utf8.AppendRune")
	r := m.callFn(fr, f, []Value{Slice(nil), v}, nil)
	return mkStr(r.(Slice))
}

type strIter struct {
	s   Value
	pos int
}

type mapIter struct {
	mp   *Map
	ents []*mapEntry
	pos  int
}

func (m *Machine) rangeIter(v Value) Value {
	switch x := v.(type) {
	case string, *SymStr, *ChoiceStr:
		return &strIter{s: m.flat(x)}
	case *Map:
		it := &mapIter{mp: x}
		if x != nil {
			it.ents = append(it.ents, x.ents...)
			if m.opt["maprev"] == 1 {
				for i, j := 0, len(it.ents)-1; i < j; i, j = i+1, j-1 {
					it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
				}
			}
		}
		return it
	}
	panic(m.unsupported(fmt.Sprintf("range %T", v)))
}

func (m *Machine) nextRune(fr *frame, it *strIter) (r Value, pos int, ok bool) {
	n := m.int(m.strLen(it.s))
	if it.pos >= n {
		return nil, 0, false
	}
	pos = it.pos
	if s, ok := it.s.(string); ok {
		c, w := utf8.DecodeRuneInString(s[it.pos:])
		it.pos += w
		return mkI(uint64(uint32(c))), pos, true
	}
	ss := it.s.(*SymStr)
	b0 := ss.b[it.pos]
	if m.truth(m.norm(m.tc.Cmp(OULt, m.term(b0, 8), m.tc.Const(0x80, 8)))) {
		it.pos++
		if t, ok := b0.(*Term); ok {
			return m.norm(m.tc.ZExt(t, 32)), pos, true
		}
		return b0, pos, true
	}
	f := m.eng.ld.fnByName("unicode/utf8.DecodeRuneInString")
	t := m.callFn(fr, f, []Value{mkStr(ss.b[it.pos:min(n, it.pos+4)])}, nil).(Tuple)
	it.pos += m.int(t[1])
	return t[0], pos, true
}

func (m *Machine) next(fr *frame, v Value, kt, vt types.Type) Value {
	switch it := v.(type) {
	case *strIter:
		r, pos, ok := m.nextRune(fr, it)
		if !ok {
			return Tuple{false, mkI(0), mkI(0)}
		}
		return Tuple{true, mkI(uint64(pos)), r}
	case *mapIter:
		for it.pos < len(it.ents) {
			e := it.ents[it.pos]
			it.pos++
			if !e.dead {
				return Tuple{true, copyVal(e.k), copyVal(e.v)}
			}
		}
		return Tuple{false, nil, nil}
	}
	panic(m.unsupported("next"))
}

// ---------------------------------------------------------------- calls

func (k *compiler) call(cc *ssa.CallCommon, dst int) func(fr *frame) {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, k.op(a))
	}
	n := len(args)
	if cc.IsInvoke() {
		recv := k.op(cc.Value)
		meth := cc.Method
		ld := k.ld
		type target struct {
			t types.Type
			c *cfn
		}
		var last atomic.Pointer[target]
		return func(fr *frame) {
			i, ok := recv.get(fr).(Iface)
			if !ok {
				panic(fr.m.unsupported(fmt.Sprintf("invoke on %T", recv.get(fr))))
			}
			if i.t == nil {
				fr.m.nilDeref()
			}
			av := make([]Value, n+1)
			for j := range args {
				av[j+1] = args[j].get(fr)
			}
			if rt, ok := i.v.(RType); ok {
				av[0] = rt
				fr.regs[dst] = fr.m.rtypeMethod(fr, rt, meth.Name(), av)
				return
			}
			av[0] = i.v
			lt := last.Load()
			if lt == nil || lt.t != i.t {
				lt = &target{i.t, ld.method(i.t, meth)}
				last.Store(lt)
			}
			fr.regs[dst] = fr.m.callFn(fr, lt.c, av, nil)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return k.builtin(f, cc, args, dst)
	case *ssa.Function:
		c := k.ld.cfnOf(f)
		return func(fr *frame) {
			if c.intr != nil {
				av := make([]Value, n)
				for j := range args {
					av[j] = args[j].get(fr)
				}
				fr.regs[dst] = c.intr(fr.m, &frame{m: fr.m, c: c, caller: fr}, av)
				return
			}
			m := fr.m
			sp := m.sp
			f := m.enter(fr, c)
			for j := range args {
				f.regs[j] = args[j].get(fr)
			}
			fr.regs[dst] = m.finish(f, sp)
		}
	}
	fo := k.op(cc.Value)
	return func(fr *frame) {
		c, _ := fo.get(fr).(*Closure)
		if c == nil {
			fr.m.nilDeref()
		}
		av := make([]Value, n)
		for j := range args {
			av[j] = args[j].get(fr)
		}
		fr.regs[dst] = fr.m.callClosure(fr, c, av)
	}
}

func (m *Machine) callClosure(fr *frame, c *Closure, args []Value) Value {
	if c == nil {
		m.nilDeref()
	}
	if c.nat != nil {
		return c.nat(m, args)
	}
	return m.callFn(fr, c.fn, args, c.env)
}

func (m *Machine) callFn(caller *frame, c *cfn, args []Value, env []Value) Value {
	if c.intr != nil {
		fr := &frame{m: m, c: c, caller: caller}
		return c.intr(m, fr, args)
	}
	sp := m.sp
	fr := m.enter(caller, c)
	fr.env = env
	copy(fr.regs, args)
	copy(fr.regs[c.nparam:], env)
	return m.finish(fr, sp)
}

// enter makes the frame of a call; the parameters go into its registers.
func (m *Machine) enter(caller *frame, c *cfn) *frame {
	if !c.inited.Load() {
		m.eng.ld.compile(c)
	}
	m.depth++
	if m.depth > 5000 {
		panic(pathEnd{endBudget, "call depth"})
	}
	if !m.fnSeen[c] {
		m.fnSeen[c] = true
	}
	var fr *frame
	if n := len(m.frames); n > 0 {
		fr = m.frames[n-1]
		m.frames = m.frames[:n-1]
	} else {
		fr = &frame{m: m}
	}
	fr.c, fr.caller = c, caller
	if forkStat {
		m.cur = fr
	}
	sp, n := m.sp, c.nregs
	if c.err != "" {
		n = max(n, 64)
	}
	if sp+n <= len(m.slab) {
		fr.regs = m.slab[sp : sp+n : sp+n]
		m.sp = sp + n
	} else {
		fr.regs = make([]Value, n)
	}
	return fr
}

// finish runs the call of a frame from enter.
func (m *Machine) finish(fr *frame, sp int) Value {
	c := fr.c
	if c.err != "" {
		if m.initing {
			m.depth--
			m.sp = sp
			return zeroResult(c.fn.Signature)
		}
		panic(m.unsupported(c.err))
	}
	if c.hasDef {
		m.runDeferring(fr)
	} else {
		m.run(fr, c.blocks[0])
	}
	m.depth--
	m.sp = sp
	clear(fr.regs)
	r := fr.result
	if forkStat {
		m.cur = fr.caller
	}
	if !c.hasDef {
		*fr = frame{m: m}
		m.frames = append(m.frames, fr)
	}
	return r
}

func zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	}
	return zero(sig.Results())
}

func (m *Machine) run(fr *frame, b *cblock) {
	for {
		for _, f := range b.ins {
			f(fr)
		}
		m.steps += b.n
		if m.steps > m.maxStep {
			panic(pathEnd{endBudget, "steps"})
		}
		e := b.term(fr)
		if e.to == nil {
			return
		}
		nb := e.to
		switch len(nb.phis) {
		case 0:
		case 1:
			p := &nb.phis[0]
			fr.regs[p.dst] = p.ops[e.pos].get(fr)
		default:
			var buf [8]Value
			tmp := buf[:0]
			for i := range nb.phis {
				tmp = append(tmp, nb.phis[i].ops[e.pos].get(fr))
			}
			for i := range nb.phis {
				fr.regs[nb.phis[i].dst] = tmp[i]
			}
		}
		b = nb
	}
}

func (m *Machine) runDeferring(fr *frame) {
	depth, sp := m.depth, m.sp
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			gp, ok := r.(*goPanic)
			if !ok {
				if re, isRE := r.(error); isRE && m.eng.ld.debug {
					fmt.Println("engine panic in", fr.c.name, re)
				}
				panic(r)
			}
			m.depth, m.sp = depth, sp
			fr.panicking = gp
			fr.tmp = nil
			m.runDefers(fr)
			if fr.panicking != nil {
				panic(fr.panicking)
			}
		}()
		m.run(fr, fr.c.blocks[0])
		return
	}()
	if fr.recovered() {
		if fr.c.recov != nil {
			m.run(fr, fr.c.recov)
		} else {
			fr.result = zeroResult(fr.c.fn.Signature)
		}
	}
}

func (fr *frame) recovered() bool { return fr.tmp != nil }

func (m *Machine) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		m.runDefer(fr, d)
	}
}

func (m *Machine) runDefer(fr *frame, d *deferred) {
	depth, sp := m.depth, m.sp
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			// a panic in a deferred call replaces the current one
			m.depth, m.sp = depth, sp
			fr.panicking = gp
			fr.tmp = nil
			m.runDefers(fr)
			if fr.panicking != nil {
				panic(fr.panicking)
			}
		}
	}()
	if d.bi != nil {
		m.callBuiltin(fr, d.bi, nil, d.args, nil)
		return
	}
	m.callClosure(fr, d.fn, d.args)
}

func (k *compiler) deferGo(cc *ssa.CallCommon, isGo bool) func(fr *frame) {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, k.op(a))
	}
	mk := func(fr *frame) *deferred {
		d := &deferred{}
		if cc.IsInvoke() {
			vo := k.op(cc.Value)
			i := vo.get(fr).(Iface)
			if i.t == nil {
				fr.m.nilDeref()
			}
			d.args = append(d.args, i.v)
			d.fn = &Closure{fn: k.ld.method(i.t, cc.Method)}
		} else if bi, ok := cc.Value.(*ssa.Builtin); ok {
			d.bi = bi
		} else {
			vo := k.op(cc.Value)
			d.fn, _ = vo.get(fr).(*Closure)
			if d.fn == nil {
				fr.m.nilDeref()
			}
		}
		for j := range args {
			d.args = append(d.args, args[j].get(fr))
		}
		return d
	}
	if isGo {
		return func(fr *frame) {
			d := mk(fr)
			fr.m.spawn(d)
		}
	}
	return func(fr *frame) {
		d := mk(fr)
		d.next = fr.defers
		fr.defers = d
	}
}

func (k *compiler) builtin(f *ssa.Builtin, cc *ssa.CallCommon, args []opnd, dst int) func(fr *frame) {
	var rt types.Type
	if cc.Signature() != nil && cc.Signature().Results().Len() > 0 {
		rt = cc.Signature().Results().At(0).Type()
	}
	var ats []types.Type
	for _, a := range cc.Args {
		ats = append(ats, a.Type())
	}
	if f.Name() == "len" && len(args) == 1 {
		o := args[0]
		return func(fr *frame) {
			switch x := o.get(fr).(type) {
			case Slice:
				fr.regs[dst] = mkI(uint64(len(x)))
			case string:
				fr.regs[dst] = mkI(uint64(len(x)))
			default:
				fr.regs[dst] = fr.m.callBuiltin(fr, f, ats, []Value{x}, rt)
			}
		}
	}
	return func(fr *frame) {
		av := make([]Value, len(args))
		for j := range args {
			av[j] = args[j].get(fr)
		}
		fr.regs[dst] = fr.m.callBuiltin(fr, f, ats, av, rt)
	}
}

func (m *Machine) callBuiltin(fr *frame, f *ssa.Builtin, ats []types.Type, a []Value, rt types.Type) Value {
	switch f.Name() {
	case "len":
		switch x := a[0].(type) {
		case Slice:
			return mkI(uint64(len(x)))
		case string, *SymStr, *ChoiceStr:
			return m.strLen(x)
		case *Map:
			if x == nil {
				return mkI(0)
			}
			return mkI(uint64(x.n))
		case Array:
			return mkI(uint64(len(x)))
		case Ptr:
			return mkI(uint64(len((*x).(Array))))
		case *Chan:
			return mkI(uint64(len(x.buf)))
		}
	case "cap":
		switch x := a[0].(type) {
		case Slice:
			return mkI(uint64(cap(x)))
		case Array:
			return mkI(uint64(len(x)))
		case Ptr:
			return mkI(uint64(len((*x).(Array))))
		case *Chan:
			return mkI(uint64(x.cap))
		}
	case "append":
		s := a[0].(Slice)
		var add []Value
		switch y := a[1].(type) {
		case Slice:
			add = y
		case string, *SymStr, *ChoiceStr:
			add = m.strBytes(y)
		}
		if len(add) == 0 {
			return s
		}
		return m.appendVals(s, add, ats)
	case "copy":
		d := a[0].(Slice)
		switch y := a[1].(type) {
		case Slice:
			n := min(len(d), len(y))
			if n > 0 {
				switch y[0].(type) {
				case Struct, Array:
					tmp := make([]Value, n)
					for i := range tmp {
						tmp[i] = copyVal(y[i])
					}
					for i := range tmp {
						assignInto(&d[i], tmp[i])
					}
				default:
					copy(d[:n], y[:n])
				}
			}
			return mkI(uint64(n))
		case string:
			n := min(len(d), len(y))
			for i := 0; i < n; i++ {
				d[i] = smallInts[y[i]]
			}
			return mkI(uint64(n))
		default:
			b := m.strBytes(y)
			return mkI(uint64(copy(d, b)))
		}
	case "delete":
		mp, _ := a[0].(*Map)
		m.mapDelete(mp, a[1])
		return nil
	case "clear":
		switch x := a[0].(type) {
		case *Map:
			if x != nil {
				x.ents, x.idx, x.n, x.nsym = nil, map[any]*mapEntry{}, 0, 0
			}
		case Slice:
			et := ats[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				assignInto(&x[i], zero(et))
			}
		}
		return nil
	case "panic":
		panic(&goPanic{v: a[0]})
	case "recover":
		p := fr.caller
		if p != nil && p.panicking != nil {
			v := p.panicking.v
			p.panicking = nil
			p.tmp = []Value{true}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		acc := a[0]
		for _, b := range a[1:] {
			var less Value
			w, signed, isInt := intInfo(ats[0])
			switch {
			case isInt:
				op := OULt
				if signed {
					op = OSLt
				}
				less = m.norm(m.tc.Cmp(op, m.term(b, w), m.term(acc, w)))
			default:
				if s, ok := b.(float64); ok {
					less = s < acc.(float64)
				} else {
					less = m.strLess(b, acc)
				}
			}
			if f.Name() == "max" {
				if isInt {
					op := OULt
					if signed {
						op = OSLt
					}
					less = m.norm(m.tc.Cmp(op, m.term(acc, w), m.term(b, w)))
				} else if s, ok := b.(float64); ok {
					less = s > acc.(float64)
				} else {
					less = m.strLess(acc, b)
				}
			}
			if isInt {
				if lt, ok := less.(*Term); ok {
					acc = m.norm(m.tc.Ite(lt, m.term(b, w), m.term(acc, w)))
					continue
				}
			}
			if m.truth(less) {
				acc = b
			}
		}
		return acc
	case "close":
		c := a[0].(*Chan)
		if c.closed {
			m.goPanicPlain("close of closed channel")
		}
		c.closed = true
		return nil
	case "ssa:wrapnilchk":
		if p, ok := a[0].(Ptr); ok && p == nil {
			m.goPanicPlain(fmt.Sprintf("value method %v.%v called using nil pointer", a[1], a[2]))
		}
		return a[0]
	case "String": // unsafe.String
		n := m.int(a[1])
		switch p := a[0].(type) {
		case Ptr:
			if n == 0 {
				return ""
			}
			return mkStr(unsafe.Slice(p, n))
		case StrData:
			return m.substr(p.s, 0, n)
		}
	case "StringData":
		s := m.flat(a[0])
		return StrData{s}
	case "SliceData":
		s := a[0].(Slice)
		if cap(s) == 0 {
			if s == nil {
				return Ptr(nil)
			}
			return new(Value)
		}
		return &s[:1][0]
	case "Slice":
		n := m.int(a[1])
		switch p := a[0].(type) {
		case Ptr:
			if p == nil {
				return Slice(nil)
			}
			return Slice(unsafe.Slice(p, n))
		case StrData:
			return Slice(append([]Value(nil), m.strBytes(p.s)[:n]...))
		}
	case "real":
		return real(a[0].(complex128))
	case "imag":
		return imag(a[0].(complex128))
	case "complex":
		return complex(a[0].(float64), a[1].(float64))
	case "Add":
		if m.int(a[1]) == 0 {
			return a[0]
		}
	}
	panic(m.unsupported("builtin " + f.Name()))
}

func (m *Machine) appendVals(s Slice, add []Value, ats []types.Type) Value {
	n := len(s) + len(add)
	var out Slice
	if n <= cap(s) {
		out = s[:n]
	} else {
		c := cap(s) * 2
		if cap(s) >= 256 {
			c = cap(s) + (cap(s)+3*256)/4
		}
		if c < n {
			c = n
		}
		if c < 8 && n <= 8 {
			// mirror the runtime's size classes roughly: powers of two
			switch {
			case n <= 1:
				c = 1
			case n <= 2:
				c = 2
			case n <= 4:
				c = 4
			default:
				c = 8
			}
			if _, ok := add[0].(I); ok {
				c = 8
			}
		}
		buf := make(Slice, c)
		copy(buf, s)
		out = buf[:n:c]
		// spare capacity must hold zero values of the element type
		if c > n {
			var z Value
			var et types.Type
			if len(ats) > 0 {
				if st, ok := ats[0].Underlying().(*types.Slice); ok {
					et = st.Elem()
				}
			}
			if et != nil {
				switch et.Underlying().(type) {
				case *types.Struct, *types.Array:
					for i := n; i < c; i++ {
						buf[i] = zero(et)
					}
				default:
					z = zero(et)
					for i := n; i < c; i++ {
						buf[i] = z
					}
				}
			}
		}
	}
	switch add[0].(type) {
	case Struct, Array:
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		copy(out[len(s):], tmp)
	default:
		copy(out[len(s):], add)
	}
	return out
}

func (m *Machine) chanRecv(c *Chan, et types.Type) (Value, bool) {
	if c == nil {
		panic(m.unsupported("receive from nil channel"))
	}
	for len(c.buf) == 0 {
		if c.closed {
			return zero(et), false
		}
		m.block()
	}
	v := c.buf[0]
	c.buf = c.buf[1:]
	m.wake()
	return v, true
}

func (m *Machine) chanSend(c *Chan, v Value) {
	if c == nil {
		panic(m.unsupported("send on nil channel"))
	}
	if c.closed {
		m.goPanicPlain("send on closed channel")
	}
	// rendezvous is modelled as a buffer of at least one
	for len(c.buf) >= max(c.cap, 1) {
		m.block()
	}
	c.buf = append(c.buf, v)
	m.wake()
	m.schedPoint()
}

var _ = math.Abs
