package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type cfn struct {
	fn     *ssa.Function
	name   string
	once   sync.Once
	blocks []*cblock
	recov  *cblock
	nregs  int
	nparam int
	hasDef bool
	intr   func(m *Machine, fr *frame, args []Value) Value
	inited atomic.Bool
	nInstr int
	inRepo bool
	err    string
}

type opnd struct {
	reg int // >=0 register
	glb int // >=0 global number
	val Value
}

type cphi struct {
	dst int
	ops []opnd
}

type edge struct {
	to  *cblock
	pos int
}

type cblock struct {
	idx  int
	phis []cphi
	ins  []func(fr *frame)
	term func(fr *frame) edge
	n    int64
}

type deferred struct {
	fn   *Closure
	args []Value
	bi   *ssa.Builtin
	next *deferred
}

type frame struct {
	m         *Machine
	c         *cfn
	regs      []Value
	env       []Value
	caller    *frame
	defers    *deferred
	result    Value
	panicking *goPanic
	tmp       []Value
}

func (o *opnd) get(fr *frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glb >= 0 {
		return &fr.m.globals[o.glb]
	}
	return o.val
}

type compiler struct {
	ld   *Loader
	c    *cfn
	regs map[ssa.Value]int
	free map[ssa.Value]int
}

func (ld *Loader) cfnOf(fn *ssa.Function) *cfn {
	if c, ok := ld.fns.Load(fn); ok {
		return c.(*cfn)
	}
	c := &cfn{fn: fn, name: fn.String()}
	if fn.Origin() != nil && fn.Origin() != fn {
		if h, ok := intrinsics[fn.Origin().String()]; ok {
			c.intr = h
		}
	}
	if h, ok := intrinsics[c.name]; ok {
		c.intr = h
	}
	p := fn.Package()
	if p == nil && fn.Parent() != nil {
		p = fn.Parent().Package()
	}
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Package()
	}
	if p != nil {
		if p.Pkg.Path() == ld.repoPath {
			c.inRepo = true
		}
		if c.intr == nil && p.Pkg.Path() == "reflect" && fn.Parent() == nil {
			if !reflectInterp[c.name] {
				n := c.name
				c.intr = func(m *Machine, fr *frame, args []Value) Value {
					panic(m.unsupported("reflect: " + n))
				}
			}
		}
		if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Synthetic != "" {
			path := p.Pkg.Path()
			if skipInit(path) {
				c.intr = func(m *Machine, fr *frame, args []Value) Value { return nil }
			}
		}
	}
	a, _ := ld.fns.LoadOrStore(fn, c)
	return a.(*cfn)
}

func (ld *Loader) compile(c *cfn) {
	c.once.Do(func() {
		fn := c.fn
		if fn.Blocks == nil {
			c.err = "no body: " + c.name
			c.inited.Store(true)
			return
		}
		k := &compiler{ld: ld, c: c, regs: map[ssa.Value]int{}, free: map[ssa.Value]int{}}
		n := 0
		for _, p := range fn.Params {
			k.regs[p] = n
			n++
		}
		c.nparam = n
		for _, f := range fn.FreeVars {
			k.regs[f] = n
			n++
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					k.regs[v] = n
					n++
				}
				if _, ok := in.(*ssa.Defer); ok {
					c.hasDef = true
				}
			}
		}
		if fn.Recover != nil {
			c.hasDef = true
		}
		c.nregs = n
		c.blocks = make([]*cblock, len(fn.Blocks))
		for i := range fn.Blocks {
			c.blocks[i] = &cblock{idx: i}
		}
		for i, b := range fn.Blocks {
			k.block(c.blocks[i], b)
			c.nInstr += len(b.Instrs)
		}
		if fn.Recover != nil {
			c.recov = c.blocks[fn.Recover.Index]
		}
		c.inited.Store(true)
	})
}

func (k *compiler) op(v ssa.Value) opnd {
	if r, ok := k.regs[v]; ok {
		return opnd{reg: r, glb: -1}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, glb: -1, val: constVal(x)}
	case *ssa.Global:
		return opnd{reg: -1, glb: k.ld.globalNum(x)}
	case *ssa.Function:
		return opnd{reg: -1, glb: -1, val: k.ld.closureOf(x)}
	case *ssa.Builtin:
		return opnd{reg: -1, glb: -1, val: x}
	}
	panic(fmt.Sprintf("operand %T", v))
}

func (ld *Loader) closureOf(f *ssa.Function) *Closure {
	if c, ok := ld.closures.Load(f); ok {
		return c.(*Closure)
	}
	c, _ := ld.closures.LoadOrStore(f, &Closure{fn: ld.cfnOf(f)})
	return c.(*Closure)
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("const of %v", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, signed, _ := intInfo(t)
		if signed {
			return mkI(uint64(c.Int64()) & mask(w))
		}
		return mkI(c.Uint64() & mask(w))
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Kind() == types.UnsafePointer:
		return Ptr(nil)
	}
	panic(fmt.Sprintf("const %v", c))
}

func (k *compiler) edgeTo(b *ssa.BasicBlock, i int) edge {
	to := b.Succs[i]
	occ := 0
	for j := 0; j < i; j++ {
		if b.Succs[j] == to {
			occ++
		}
	}
	for p, pr := range to.Preds {
		if pr == b {
			if occ == 0 {
				return edge{k.c.blocks[to.Index], p}
			}
			occ--
		}
	}
	panic("edge")
}

func (k *compiler) block(cb *cblock, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			p := cphi{dst: k.regs[x]}
			for _, e := range x.Edges {
				p.ops = append(p.ops, k.op(e))
			}
			cb.phis = append(cb.phis, p)
		case *ssa.If:
			c := k.op(x.Cond)
			te, fe := k.edgeTo(b, 0), k.edgeTo(b, 1)
			cb.term = func(fr *frame) edge {
				switch v := c.get(fr).(type) {
				case bool:
					if v {
						return te
					}
					return fe
				case *Term:
					if fr.m.branch(v) {
						return te
					}
					return fe
				}
				panic(fr.m.unsupported("if"))
			}
		case *ssa.Jump:
			e := k.edgeTo(b, 0)
			cb.term = func(fr *frame) edge { return e }
		case *ssa.Return:
			var ops []opnd
			for _, r := range x.Results {
				ops = append(ops, k.op(r))
			}
			switch len(ops) {
			case 0:
				cb.term = func(fr *frame) edge { fr.result = nil; return edge{} }
			case 1:
				o := ops[0]
				cb.term = func(fr *frame) edge { fr.result = o.get(fr); return edge{} }
			default:
				cb.term = func(fr *frame) edge {
					t := make(Tuple, len(ops))
					for i := range ops {
						t[i] = ops[i].get(fr)
					}
					fr.result = t
					return edge{}
				}
			}
		case *ssa.Panic:
			o := k.op(x.X)
			cb.term = func(fr *frame) edge {
				panic(&goPanic{v: o.get(fr), trace: fr.c.name})
			}
		default:
			if f := k.instr(in); f != nil {
				cb.ins = append(cb.ins, f)
			}
		}
	}
	cb.n = int64(len(b.Instrs))
	if cb.term == nil {
		cb.term = func(fr *frame) edge { panic(fr.m.unsupported("block without terminator")) }
	}
}

// load reads through a pointer.
func (m *Machine) load(p Value, t types.Type, isStr, isSl bool) Value {
	switch x := p.(type) {
	case Ptr:
		if x == nil {
			m.nilDeref()
		}
		v := *x
		switch y := v.(type) {
		case Struct:
			if isStr || isSl {
				return m.fromHeader(y, isStr)
			}
			return copyVal(v)
		case Array:
			return copyVal(v)
		case Slice:
			if isStr {
				return mkStr(y)
			}
		case string, *SymStr:
			if isSl {
				return Slice(m.strBytes(y))
			}
		}
		return v
	case SymPtr:
		return m.loadSym(x)
	}
	panic(m.unsupported(fmt.Sprintf("load via %T", p)))
}

func (m *Machine) loadSym(x SymPtr) Value {
	// all elements must be scalars
	return m.selectTable(x.arr, x.idx)
}

func (m *Machine) selectTable(arr []Value, idx *Term) Value {
	var w int16 = -1
	for _, e := range arr {
		switch y := e.(type) {
		case *Term:
			w = y.w
		case I, bool:
		default:
			return copyVal(arr[m.concretize(idx)])
		}
	}
	_ = w
	if len(arr) == 0 {
		panic(m.unsupported("empty table"))
	}
	if _, ok := arr[0].(bool); ok {
		w = 0
	}
	if w < 0 {
		w = 64 // width fixed up by the caller through elemWidth
		if ew, ok := m.tblWidth(); ok {
			w = ew
		}
	}
	type run struct {
		lo, hi int
		v      *Term
	}
	var runs []run
	for i, e := range arr {
		t := m.term(e, w)
		if n := len(runs); n > 0 && runs[n-1].v == t {
			runs[n-1].hi = i
		} else {
			runs = append(runs, run{i, i, t})
		}
	}
	cnt := map[*Term]int{}
	var best *Term
	for _, r := range runs {
		cnt[r.v]++
		if best == nil || cnt[r.v] > cnt[best] {
			best = r.v
		}
	}
	acc := best
	byVal := map[*Term]*Term{}
	var order []*Term
	iw := idx.w
	for _, r := range runs {
		if r.v == best {
			continue
		}
		var c *Term
		if r.lo == r.hi {
			c = m.tc.Eq(idx, m.tc.Const(uint64(r.lo), iw))
		} else {
			c = m.tc.And(m.tc.Cmp(OULe, m.tc.Const(uint64(r.lo), iw), idx), m.tc.Cmp(OULe, idx, m.tc.Const(uint64(r.hi), iw)))
		}
		if p, ok := byVal[r.v]; ok {
			byVal[r.v] = m.tc.Or(p, c)
		} else {
			byVal[r.v] = c
			order = append(order, r.v)
		}
	}
	for _, v := range order {
		acc = m.tc.Ite(byVal[v], v, acc)
	}
	return m.norm(acc)
}

func (m *Machine) tblWidth() (int16, bool) {
	if m.curTblW != 0 {
		return m.curTblW, true
	}
	return 0, false
}

// fromHeader materialises a string/slice whose header was written field by field.
func (m *Machine) fromHeader(h Struct, isStr bool) Value {
	n := m.int(h[1])
	var b []Value
	switch d := h[0].(type) {
	case StrData:
		b = m.strBytes(d.s)
		if n <= len(b) {
			b = b[:n]
		}
		if isStr {
			return mkStr(b)
		}
		return Slice(append([]Value(nil), b...))
	case Ptr:
		if d == nil || n == 0 {
			if isStr {
				return ""
			}
			return Slice(nil)
		}
		s := unsafeSlice(d, n)
		if isStr {
			return mkStr(s)
		}
		return Slice(s)
	}
	panic(m.unsupported("header"))
}

func (m *Machine) toHeader(v Value) Struct {
	switch x := v.(type) {
	case string, *SymStr, *ChoiceStr:
		f := m.flat(x)
		return Struct{StrData{f}, m.strLen(f), m.strLen(f)}
	case Slice:
		var p Value = Ptr(nil)
		if cap(x) > 0 {
			y := x[:1]
			p = &y[0]
		}
		return Struct{p, mkI(uint64(len(x))), mkI(uint64(cap(x)))}
	}
	panic(m.unsupported(fmt.Sprintf("header of %T", v)))
}

func (m *Machine) store(p Value, v Value) {
	switch x := p.(type) {
	case Ptr:
		if x == nil {
			m.nilDeref()
		}
		switch v.(type) {
		case Struct, Array:
			assignInto(x, v)
		default:
			*x = v
		}
		return
	case SymPtr:
		i := m.concretize(x.idx)
		m.store(&x.arr[i], v)
		return
	}
	panic(m.unsupported(fmt.Sprintf("store via %T", p)))
}

func (m *Machine) nilDeref() {
	m.goPanicf("invalid memory address or nil pointer dereference")
}

func (m *Machine) goPanicf(f string, a ...any) {
	msg := strings.TrimPrefix(fmt.Sprintf(f, a...), "runtime error: ")
	panic(&goPanic{v: Iface{t: m.eng.ld.rtErr, v: msg}})
}

func (k *compiler) instr(in ssa.Instruction) func(fr *frame) {
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = k.regs[v]
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil

	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return func(fr *frame) {
				p := new(Value)
				*p = zero(t)
				fr.regs[dst] = p
			}
		}
		z := zero(t)
		return func(fr *frame) {
			p := new(Value)
			*p = z
			fr.regs[dst] = p
		}

	case *ssa.UnOp:
		o := k.op(x.X)
		switch x.Op {
		case token.MUL:
			et := x.Type()
			isStr, isSl := false, false
			switch u := et.Underlying().(type) {
			case *types.Basic:
				isStr = u.Info()&types.IsString != 0
			case *types.Slice:
				isSl = true
			}
			ew, _, _ := intInfo(et)
			repo := k.c.inRepo
			return func(fr *frame) {
				p := o.get(fr)
				if q, ok := p.(Ptr); ok && q != nil {
					if repo && len(fr.m.threads) > 1 {
						fr.m.schedPoint()
					}
					switch v := (*q).(type) {
					case I, string, Ptr, bool, Iface, *Map, *Closure, *Term:
						if !isSl {
							fr.regs[dst] = v
							return
						}
					}
				}
				fr.m.curTblW = ew
				fr.regs[dst] = fr.m.load(p, et, isStr, isSl)
			}
		case token.NOT:
			return func(fr *frame) { fr.regs[dst] = fr.m.not(o.get(fr)) }
		case token.SUB:
			t := x.Type()
			w, _, isInt := intInfo(t)
			return func(fr *frame) {
				switch v := o.get(fr).(type) {
				case I:
					fr.regs[dst] = mkI(-uint64(v) & mask(w))
				case *Term:
					if !isInt {
						fr.regs[dst] = fr.m.norm(fr.m.tc.FUn(OFNeg, v, -64))
					} else {
						fr.regs[dst] = fr.m.norm(fr.m.tc.Un(ONeg, v))
					}
				case float64:
					fr.regs[dst] = -v
				case complex128:
					fr.regs[dst] = -v
				default:
					panic(fr.m.unsupported("neg"))
				}
			}
		case token.XOR:
			w, _, _ := intInfo(x.Type())
			return func(fr *frame) {
				switch v := o.get(fr).(type) {
				case I:
					fr.regs[dst] = mkI(^uint64(v) & mask(w))
				case *Term:
					fr.regs[dst] = fr.m.norm(fr.m.tc.Un(OBNot, v))
				}
			}
		case token.ARROW:
			commaOk := x.CommaOk
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			return func(fr *frame) {
				v, ok := fr.m.chanRecv(o.get(fr).(*Chan), et)
				if commaOk {
					fr.regs[dst] = Tuple{v, ok}
				} else {
					fr.regs[dst] = v
				}
			}
		}

	case *ssa.BinOp:
		return k.binop(x, dst)

	case *ssa.Store:
		a, v := k.op(x.Addr), k.op(x.Val)
		repo := k.c.inRepo
		return func(fr *frame) {
			val := v.get(fr)
			if p, ok := a.get(fr).(Ptr); ok && p != nil {
				if repo && len(fr.m.threads) > 1 {
					fr.m.schedPoint()
				}
				switch val.(type) {
				case Struct, Array:
					assignInto(p, val)
				default:
					*p = val
				}
				return
			}
			fr.m.store(a.get(fr), val)
		}

	case *ssa.FieldAddr:
		o := k.op(x.X)
		f := x.Field
		return func(fr *frame) {
			p, ok := o.get(fr).(Ptr)
			if !ok {
				if sp, ok := o.get(fr).(SymPtr); ok {
					p = &sp.arr[fr.m.concretize(sp.idx)]
				} else {
					panic(fr.m.unsupported(fmt.Sprintf("fieldaddr of %T", o.get(fr))))
				}
			}
			if p == nil {
				fr.m.nilDeref()
			}
			switch s := (*p).(type) {
			case Struct:
				fr.regs[dst] = &s[f]
			case string, *SymStr, *ChoiceStr, Slice:
				h := fr.m.toHeader(s)
				*p = h
				fr.regs[dst] = &h[f]
			default:
				panic(fr.m.unsupported(fmt.Sprintf("fieldaddr in %T (%s)", *p, fr.c.name)))
			}
		}

	case *ssa.Field:
		o := k.op(x.X)
		f := x.Field
		return func(fr *frame) {
			s, ok := o.get(fr).(Struct)
			if !ok {
				panic(fr.m.unsupported(fmt.Sprintf("field of %T", o.get(fr))))
			}
			fr.regs[dst] = copyVal(s[f])
		}

	case *ssa.IndexAddr:
		o, ix := k.op(x.X), k.op(x.Index)
		_, signed, _ := intInfo(x.Index.Type())
		return func(fr *frame) {
			m := fr.m
			var arr []Value
			switch a := o.get(fr).(type) {
			case Slice:
				arr = a
			case Ptr:
				if a == nil {
					m.nilDeref()
				}
				switch y := (*a).(type) {
				case Array:
					arr = y
				default:
					arr = m.arrayView(a)
				}
			default:
				panic(m.unsupported(fmt.Sprintf("indexaddr %T", a)))
			}
			switch i := ix.get(fr).(type) {
			case I:
				if uint64(i) >= uint64(len(arr)) {
					m.goPanicf("index out of range [%d] with length %d", int64(i), len(arr))
				}
				fr.regs[dst] = &arr[i]
			case *Term:
				fr.regs[dst] = m.symIndex(arr, i, signed)
			}
		}

	case *ssa.Index:
		o, ix := k.op(x.X), k.op(x.Index)
		_, signed, _ := intInfo(x.Index.Type())
		ew, _, _ := intInfo(x.Type())
		return func(fr *frame) {
			fr.m.curTblW = ew
			fr.regs[dst] = fr.m.index(o.get(fr), ix.get(fr), signed)
		}

	case *ssa.Lookup:
		o, ix := k.op(x.X), k.op(x.Index)
		mt, isMap := x.X.Type().Underlying().(*types.Map)
		if !isMap {
			_, signed, _ := intInfo(x.Index.Type())
			return func(fr *frame) {
				fr.m.curTblW = 8
				fr.regs[dst] = fr.m.index(o.get(fr), ix.get(fr), signed)
			}
		}
		et := mt.Elem()
		ok := x.CommaOk
		repo := k.c.inRepo
		return func(fr *frame) {
			mp, _ := o.get(fr).(*Map)
			if repo && len(fr.m.threads) > 1 {
				fr.m.schedPoint()
			}
			e := fr.m.mapFind(mp, ix.get(fr))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(et)
			}
			if ok {
				fr.regs[dst] = Tuple{v, e != nil}
			} else {
				fr.regs[dst] = v
			}
		}

	case *ssa.MapUpdate:
		mo, ko, vo := k.op(x.Map), k.op(x.Key), k.op(x.Value)
		repo := k.c.inRepo
		return func(fr *frame) {
			mp := mo.get(fr).(*Map)
			if mp == nil {
				fr.m.goPanicPlain("assignment to entry in nil map")
			}
			if repo && len(fr.m.threads) > 1 {
				fr.m.schedPoint()
			}
			fr.m.mapSet(mp, copyVal(ko.get(fr)), copyVal(vo.get(fr)))
		}

	case *ssa.MakeMap:
		return func(fr *frame) { fr.regs[dst] = newMap() }

	case *ssa.MakeChan:
		s := k.op(x.Size)
		return func(fr *frame) { fr.regs[dst] = &Chan{cap: fr.m.int(s.get(fr))} }

	case *ssa.MakeSlice:
		lo, co := k.op(x.Len), k.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			fr.regs[dst] = fr.m.makeSlice(et, lo.get(fr), co.get(fr))
		}

	case *ssa.MakeInterface:
		o := k.op(x.X)
		t := canon(x.X.Type())
		return func(fr *frame) { fr.regs[dst] = Iface{t, copyVal(o.get(fr))} }

	case *ssa.MakeClosure:
		f := k.ld.cfnOf(x.Fn.(*ssa.Function))
		var ops []opnd
		for _, b := range x.Bindings {
			ops = append(ops, k.op(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(ops))
			for i := range ops {
				env[i] = ops[i].get(fr)
			}
			fr.regs[dst] = &Closure{fn: f, env: env}
		}

	case *ssa.ChangeType:
		o := k.op(x.X)
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.ChangeInterface:
		o := k.op(x.X)
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.Convert:
		o := k.op(x.X)
		from, to := x.X.Type(), x.Type()
		return k.convert(o, from, to, dst)
	case *ssa.MultiConvert:
		o := k.op(x.X)
		return k.convert(o, x.X.Type(), x.Type(), dst)
	case *ssa.SliceToArrayPointer:
		o := k.op(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			s := o.get(fr).(Slice)
			if int64(len(s)) < n {
				fr.m.goPanicf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)
			}
			if s == nil {
				fr.regs[dst] = Ptr(nil)
				return
			}
			p := new(Value)
			*p = Array(s[:n])
			fr.regs[dst] = p
		}

	case *ssa.TypeAssert:
		return k.typeAssert(x, dst)

	case *ssa.Extract:
		o := k.op(x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.regs[dst] = o.get(fr).(Tuple)[i] }

	case *ssa.Slice:
		return k.slice(x, dst)

	case *ssa.Range:
		o := k.op(x.X)
		return func(fr *frame) { fr.regs[dst] = fr.m.rangeIter(o.get(fr)) }
	case *ssa.Next:
		o := k.op(x.Iter)
		tt := x.Type().(*types.Tuple)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		return func(fr *frame) { fr.regs[dst] = fr.m.next(fr, o.get(fr), kt, vt) }

	case *ssa.Call:
		return k.call(&x.Call, dst)

	case *ssa.Defer:
		return k.deferGo(&x.Call, false)
	case *ssa.Go:
		return k.deferGo(&x.Call, true)
	case *ssa.RunDefers:
		return func(fr *frame) { fr.m.runDefers(fr) }

	case *ssa.Send:
		c, v := k.op(x.Chan), k.op(x.X)
		return func(fr *frame) { fr.m.chanSend(c.get(fr).(*Chan), v.get(fr)) }
	case *ssa.Select:
		type state struct {
			c, v opnd
			send bool
			et   types.Type
		}
		var sts []state
		for _, s := range x.States {
			st := state{c: k.op(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
			if st.send {
				st.v = k.op(s.Send)
			}
			sts = append(sts, st)
		}
		blocking := x.Blocking
		return func(fr *frame) {
			m := fr.m
			for {
				var ready []int
				for i := range sts {
					c, _ := sts[i].c.get(fr).(*Chan)
					if c == nil {
						continue
					}
					if sts[i].send && (c.closed || len(c.buf) < max(c.cap, 1)) || !sts[i].send && (c.closed || len(c.buf) > 0) {
						ready = append(ready, i)
					}
				}
				res := Tuple{nil, false}
				for i := range sts {
					if !sts[i].send {
						res = append(res, zero(sts[i].et))
					}
				}
				if len(ready) == 0 {
					if !blocking {
						res[0] = I(^uint64(0))
						fr.regs[dst] = res
						return
					}
					m.block()
					continue
				}
				at := 0
				if len(ready) > 1 {
					at = m.chooseN(len(ready))
				}
				i := ready[at]
				res[0] = mkI(uint64(i))
				c := sts[i].c.get(fr).(*Chan)
				if sts[i].send {
					m.chanSend(c, sts[i].v.get(fr))
				} else {
					v, ok := m.chanRecv(c, sts[i].et)
					res[1] = ok
					n := 2
					for j := 0; j < i; j++ {
						if !sts[j].send {
							n++
						}
					}
					res[n] = v
				}
				fr.regs[dst] = res
				return
			}
		}
	}
	name := fmt.Sprintf("%T", in)
	return func(fr *frame) { panic(fr.m.unsupported("instr " + name)) }
}

func (m *Machine) goPanicPlain(msg string) {
	panic(&goPanic{v: Iface{t: m.eng.ld.rtPlain, v: msg}})
}

func (m *Machine) arrayView(p Ptr) []Value {
	panic(m.unsupported(fmt.Sprintf("array view of %T", *p)))
}

// inRange forks on 0 <= i < n and returns true inside.
func (m *Machine) inRange(i *Term, n int, signed bool) bool {
	w := i.w
	if w < 64 && uint64(n) > mask(w) {
		if !signed {
			return true
		}
	}
	// a negative signed index is huge as unsigned at the same width
	return m.truth(m.norm(m.tc.Cmp(OULt, i, m.tc.Const(uint64(n), w))))
}

func (m *Machine) symIndex(arr []Value, i *Term, signed bool) Value {
	if !m.inRange(i, len(arr), signed) {
		m.goPanicf("index out of range [symbolic] with length %d", len(arr))
	}
	scalar := true
	for _, e := range arr {
		switch e.(type) {
		case I, bool, *Term:
		default:
			scalar = false
		}
	}
	if scalar && len(arr) <= 4096 {
		return SymPtr{arr, i}
	}
	return &arr[m.concretize(i)]
}

func (m *Machine) index(x, ix Value, signed bool) Value {
	switch a := x.(type) {
	case string:
		switch i := ix.(type) {
		case I:
			if uint64(i) >= uint64(len(a)) {
				m.goPanicf("index out of range [%d] with length %d", int64(i), len(a))
			}
			return smallInts[a[i]]
		case *Term:
			if !m.inRange(i, len(a), signed) {
				m.goPanicf("index out of range [symbolic] with length %d", len(a))
			}
			m.curTblW = 8
			return m.selectTable(m.strBytes(a), i)
		}
	case *SymStr:
		switch i := ix.(type) {
		case I:
			if uint64(i) >= uint64(len(a.b)) {
				m.goPanicf("index out of range [%d] with length %d", int64(i), len(a.b))
			}
			return a.b[i]
		case *Term:
			if !m.inRange(i, len(a.b), signed) {
				m.goPanicf("index out of range [symbolic] with length %d", len(a.b))
			}
			m.curTblW = 8
			return m.selectTable(a.b, i)
		}
	case *ChoiceStr:
		return m.index(m.flat(a), ix, signed)
	case Array:
		switch i := ix.(type) {
		case I:
			if uint64(i) >= uint64(len(a)) {
				m.goPanicf("index out of range [%d] with length %d", int64(i), len(a))
			}
			return copyVal(a[i])
		case *Term:
			if !m.inRange(i, len(a), signed) {
				m.goPanicf("index out of range [symbolic] with length %d", len(a))
			}
			return m.selectTable(a, i)
		}
	}
	panic(m.unsupported(fmt.Sprintf("index %T[%T]", x, ix)))
}

func (m *Machine) makeSlice(et types.Type, lv, cv Value) Value {
	n, c := m.int(lv), m.int(cv)
	if n < 0 || n > 1<<28 {
		m.goPanicf("makeslice: len out of range")
	}
	if c < n || c > 1<<28 {
		m.goPanicf("makeslice: cap out of range")
	}
	s := make(Slice, c)
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		if c > 0 {
			z := zero(et)
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n:c]
}

func (k *compiler) slice(x *ssa.Slice, dst int) func(fr *frame) {
	o := k.op(x.X)
	var lo, hi, mx *opnd
	get := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		p := k.op(v)
		return &p
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	return func(fr *frame) {
		m := fr.m
		iv := func(p *opnd, def int) int {
			if p == nil {
				return def
			}
			return m.int(p.get(fr))
		}
		v := o.get(fr)
		switch a := v.(type) {
		case string, *SymStr, *ChoiceStr:
			f := m.flat(a)
			n := m.int(m.strLen(f))
			l, h := iv(lo, 0), iv(hi, n)
			if h < 0 || h > n {
				m.goPanicf("slice bounds out of range [:%d] with length %d", h, n)
			}
			if l < 0 || l > h {
				m.goPanicf("slice bounds out of range [%d:%d]", l, h)
			}
			fr.regs[dst] = m.substr(f, l, h)
			return
		case Slice:
			fr.regs[dst] = m.reslice(a, iv(lo, 0), iv(hi, len(a)), iv(mx, cap(a)))
			return
		case Ptr:
			if a == nil {
				m.nilDeref()
			}
			arr, ok := (*a).(Array)
			if !ok {
				panic(m.unsupported(fmt.Sprintf("slice of *%T", *a)))
			}
			s := Slice(arr)
			fr.regs[dst] = m.reslice(s[:len(s):len(s)], iv(lo, 0), iv(hi, len(s)), iv(mx, len(s)))
			return
		}
		panic(m.unsupported(fmt.Sprintf("slice of %T", v)))
	}
}

func (m *Machine) reslice(a Slice, l, h, c int) Value {
	if c < 0 || c > cap(a) {
		m.goPanicf("slice bounds out of range [::%d] with capacity %d", c, cap(a))
	}
	if h < 0 || h > c {
		m.goPanicf("slice bounds out of range [:%d] with capacity %d", h, c)
	}
	if l < 0 || l > h {
		m.goPanicf("slice bounds out of range [%d:%d]", l, h)
	}
	if a == nil {
		return Slice(nil)
	}
	return a[l:h:c]
}

func (k *compiler) typeAssert(x *ssa.TypeAssert, dst int) func(fr *frame) {
	o := k.op(x.X)
	at := canon(x.AssertedType)
	static := typeString(x.X.Type())
	if static == "any" {
		static = "interface {}"
	}
	commaOk := x.CommaOk
	if it, ok := at.Underlying().(*types.Interface); ok {
		return func(fr *frame) {
			i := o.get(fr).(Iface)
			good := i.t != nil && fr.m.eng.ld.implements(i.t, it, at)
			if commaOk {
				if good {
					fr.regs[dst] = Tuple{i, true}
				} else {
					fr.regs[dst] = Tuple{Iface{}, false}
				}
				return
			}
			if !good {
				if i.t == nil {
					fr.m.goPanicPlain("interface conversion: interface is nil, not " + typeString(at))
				}
				fr.m.goPanicf("interface conversion: %v is not %v: missing method", i.t, at)
			}
			fr.regs[dst] = i
		}
	}
	return func(fr *frame) {
		i := o.get(fr).(Iface)
		good := i.t == at
		if commaOk {
			if good {
				fr.regs[dst] = Tuple{copyVal(i.v), true}
			} else {
				fr.regs[dst] = Tuple{zero(at), false}
			}
			return
		}
		if !good {
			is := "nil"
			if i.t != nil {
				is = typeString(i.t)
			}
			fr.m.goPanicPlain("interface conversion: " + static + " is " + is + ", not " + typeString(at))
		}
		fr.regs[dst] = copyVal(i.v)
	}
}

type implKey struct{ t, i types.Type }

func (ld *Loader) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := implKey{t, key}
	if v, ok := ld.impl.Load(k); ok {
		return v.(bool)
	}
	v := types.Implements(t, it)
	ld.impl.Store(k, v)
	return v
}

type methKey struct {
	t    types.Type
	name string
}

// method finds the implementation of a method on dynamic type t.
func (ld *Loader) method(t types.Type, f *types.Func) *cfn {
	k := methKey{t, f.Id()}
	if v, ok := ld.meths.Load(k); ok {
		return v.(*cfn)
	}
	fn := ld.lookupMethod(t, f.Pkg(), f.Name())
	if fn == nil {
		panic(fmt.Sprintf("no method %s on %v", f.Name(), t))
	}
	c := ld.cfnOf(fn)
	ld.meths.Store(k, c)
	return c
}

func (ld *Loader) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := ld.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return ld.prog.MethodValue(sel)
}
