package main

import (
	"fmt"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Value = any

// I is a concrete integer, zero-extended from its width.
type I uint64

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value
type Ptr = *Value

// SymStr is a string of concrete length with symbolic bytes (I or *Term of width 8).
type SymStr struct{ b []Value }

// ChoiceStr is one of finitely many strings, selected by a term.
type ChoiceStr struct {
	sel  *Term
	opts []string
}

// SymPtr addresses an element of arr at a symbolic index (already bounds-checked).
type SymPtr struct {
	arr []Value
	idx *Term
}

// StrData is unsafe.StringData of a non-addressable string.
type StrData struct{ s Value }

type Iface struct {
	t types.Type // canonical; nil = nil interface
	v Value
}

type Closure struct {
	fn  *cfn
	env []Value
	nat func(m *Machine, args []Value) Value
	sig *types.Signature
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
}

// RType is a reflect.Type.
type RType struct{ t types.Type }

// RV is a reflect.Value.
type RV struct {
	t    types.Type // nil: invalid
	v    Value      // value when not addressable
	p    Value      // address when addressable
	ro   bool
	meth *ssa.Function // method value
}

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	ents []*mapEntry
	idx  map[any]*mapEntry
	n    int
	nsym int
}

func newMap() *Map { return &Map{idx: map[any]*mapEntry{}} }

var smallInts [4096]Value

func init() {
	for i := range smallInts {
		smallInts[i] = I(i)
	}
}

func mkI(u uint64) Value {
	if u < uint64(len(smallInts)) {
		return smallInts[u]
	}
	return I(u)
}

// ---------------------------------------------------------------- types

var (
	canonFast sync.Map // types.Type -> types.Type
	canonMu   sync.Mutex
	canonSlow typeutil.Map
)

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonFast.Load(t); ok {
		return c.(types.Type)
	}
	u := types.Unalias(t)
	canonMu.Lock()
	defer canonMu.Unlock()
	c, _ := canonSlow.At(u).(types.Type)
	if c == nil {
		c = u
		canonSlow.Set(u, c)
	}
	canonFast.Store(t, c)
	return c
}

var ptrFast sync.Map

// ptrTo is the canonical pointer type to t.
func ptrTo(t types.Type) types.Type {
	if p, ok := ptrFast.Load(t); ok {
		return p.(types.Type)
	}
	p := canon(types.NewPointer(t))
	ptrFast.Store(t, p)
	return p
}

var sizes = types.SizesFor("gc", "amd64")

var (
	tyString = types.Typ[types.String]
	tyInt    = types.Typ[types.Int]
)

type basicInfo struct {
	w      int16
	signed bool
	float  bool
}

func intInfo(t types.Type) (w int16, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

func zero(t types.Type) Value {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkI(0)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex(0, 0)
		case u.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Struct:
		if isReflectValue(t) {
			return RV{}
		}
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n == 0 {
			return a
		}
		e := u.Elem()
		switch e.Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a {
				a[i] = zero(e)
			}
		default:
			z := zero(e)
			for i := range a {
				a[i] = z
			}
		}
		return a
	case *types.Tuple:
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = zero(u.At(i).Type())
		}
		return tt
	}
	panic(fmt.Sprintf("zero: %v", t))
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

// assignInto stores v into *p keeping the identity of nested cells.
func assignInto(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				assignInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				assignInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	default:
		*p = v
	}
}

// hashKey gives a Go-comparable key for concrete values.
func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case I, bool, string, *Value, *Chan, RType, *RType:
		return x, true
	case float64:
		return math.Float64bits(x), true
	case Iface:
		if x.t == nil {
			return nil, true
		}
		if r, ok := x.v.(RType); ok {
			return r, true
		}
		k, ok := hashKey(x.v)
		return [2]any{x.t, k}, ok
	case Struct:
		return hashSeq(x)
	case Array:
		return hashSeq(x)
	}
	return nil, false
}

func hashSeq(xs []Value) (any, bool) {
	var acc any = len(xs)
	for _, e := range xs {
		k, ok := hashKey(e)
		if !ok {
			return nil, false
		}
		acc = [2]any{acc, k}
	}
	return acc, true
}

// ---------------------------------------------------------------- maps

func (m *Machine) mapFind(mp *Map, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	hk, conc := hashKey(k)
	if conc {
		if e, ok := mp.idx[hk]; ok {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c := hashKey(e.k); c {
				continue
			}
		}
		if m.truth(m.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if e := m.mapFind(mp, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	mp.ents = append(mp.ents, e)
	mp.n++
	if hk, ok := hashKey(k); ok {
		mp.idx[hk] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.dead = true
	mp.n--
	if hk, ok := hashKey(e.k); ok {
		delete(mp.idx, hk)
	} else {
		mp.nsym--
	}
	for i, x := range mp.ents {
		if x == e {
			n := make([]*mapEntry, 0, len(mp.ents)-1)
			n = append(n, mp.ents[:i]...)
			mp.ents = append(n, mp.ents[i+1:]...)
			break
		}
	}
}

// ---------------------------------------------------------------- equality

func (m *Machine) equal(a, b Value) Value {
	switch x := a.(type) {
	case I:
		switch y := b.(type) {
		case I:
			return x == y
		case *Term:
			return m.norm(m.tc.Eq(y, m.tc.Const(uint64(x), y.w)))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			return m.norm(m.tc.Eq(y, m.tc.Bool(x)))
		}
	case *Term:
		switch y := b.(type) {
		case I:
			return m.norm(m.tc.Eq(x, m.tc.Const(uint64(y), x.w)))
		case bool:
			return m.norm(m.tc.Eq(x, m.tc.Bool(y)))
		case float64:
			return m.norm(m.tc.FBin(OFEq, x, m.tc.FConst(y)))
		case *Term:
			if x.w < 0 {
				return m.norm(m.tc.FBin(OFEq, x, y))
			}
			return m.norm(m.tc.Eq(x, y))
		}
	case float64:
		switch y := b.(type) {
		case float64:
			return x == y
		case *Term:
			return m.norm(m.tc.FBin(OFEq, m.tc.FConst(x), y))
		}
	case complex128:
		return x == b.(complex128)
	case string, *SymStr, *ChoiceStr:
		return m.strEq(a, b)
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return x == y
		}
		return false
	case Struct:
		return m.equalSeq(x, b.(Struct))
	case Array:
		return m.equalSeq(x, b.(Array))
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		if !types.Comparable(x.t) {
			m.goPanicf("runtime error: comparing uncomparable type %s", x.t)
		}
		return m.equal(x.v, y.v)
	case RType:
		y, ok := b.(RType)
		return ok && x.t == y.t
	case *Map:
		y, _ := b.(*Map)
		return x == y
	case Slice:
		y, _ := b.(Slice)
		return x == nil && y == nil
	case *Closure:
		y, _ := b.(*Closure)
		return x == y
	case *Chan:
		y, _ := b.(*Chan)
		return x == y
	case StrData:
		return false
	case nil:
		return b == nil
	}
	panic(m.unsupported(fmt.Sprintf("equal %T %T", a, b)))
}

func (m *Machine) equalSeq(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	var acc Value = true
	for i := range a {
		acc = m.and(acc, m.equal(a[i], b[i]))
		if acc == false {
			return false
		}
	}
	return acc
}

func (m *Machine) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return m.norm(m.tc.And(a.(*Term), b.(*Term)))
}

func (m *Machine) or(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if x {
			return true
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if y {
			return true
		}
		return a
	}
	return m.norm(m.tc.Or(a.(*Term), b.(*Term)))
}

func (m *Machine) not(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return m.norm(m.tc.Not(a.(*Term)))
}

// norm turns constant terms into concrete values.
func (m *Machine) norm(t *Term) Value {
	if t.op == OConst {
		switch {
		case t.w == 0:
			return t.val == 1
		case t.w < 0:
			return math.Float64frombits(t.val)
		}
		return mkI(t.val)
	}
	return t
}

// term lifts a concrete value to a term of width w.
func (m *Machine) term(v Value, w int16) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case I:
		return m.tc.Const(uint64(x), w)
	case bool:
		return m.tc.Bool(x)
	case float64:
		return m.tc.FConst(x)
	}
	panic(m.unsupported(fmt.Sprintf("term of %T", v)))
}

// ---------------------------------------------------------------- strings

func (m *Machine) strLen(v Value) Value {
	switch x := v.(type) {
	case string:
		return mkI(uint64(len(x)))
	case *SymStr:
		return mkI(uint64(len(x.b)))
	case *ChoiceStr:
		same := true
		for _, o := range x.opts {
			if len(o) != len(x.opts[0]) {
				same = false
			}
		}
		if same {
			return mkI(uint64(len(x.opts[0])))
		}
		t := m.tc.Const(uint64(len(x.opts[0])), 64)
		for i := 1; i < len(x.opts); i++ {
			t = m.tc.Ite(m.tc.Eq(x.sel, m.tc.Const(uint64(i), x.sel.w)), m.tc.Const(uint64(len(x.opts[i])), 64), t)
		}
		return m.norm(t)
	}
	panic(m.unsupported(fmt.Sprintf("strLen %T", v)))
}

// flat resolves a ChoiceStr by forking.
func (m *Machine) flat(v Value) Value {
	if c, ok := v.(*ChoiceStr); ok {
		return c.opts[m.concretize(c.sel)]
	}
	return v
}

func (m *Machine) strBytes(v Value) []Value {
	switch x := m.flat(v).(type) {
	case string:
		b := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			b[i] = smallInts[x[i]]
		}
		return b
	case *SymStr:
		return x.b
	}
	panic(m.unsupported(fmt.Sprintf("strBytes %T", v)))
}

// mkStr builds a string value from bytes (copied).
func mkStr(b []Value) Value {
	for _, e := range b {
		if _, ok := e.(I); !ok {
			return &SymStr{append([]Value(nil), b...)}
		}
	}
	buf := make([]byte, len(b))
	for i, e := range b {
		buf[i] = byte(e.(I))
	}
	return string(buf)
}

func (m *Machine) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
		a, b = b, a
	}
	if c, ok := a.(*ChoiceStr); ok {
		if s, ok := b.(string); ok {
			acc := m.tc.fls
			for i, o := range c.opts {
				if o == s {
					acc = m.tc.Or(acc, m.tc.Eq(c.sel, m.tc.Const(uint64(i), c.sel.w)))
				}
			}
			return m.norm(acc)
		}
		if d, ok := b.(*ChoiceStr); ok {
			acc := m.tc.fls
			for i, o := range c.opts {
				for j, p := range d.opts {
					if o == p {
						acc = m.tc.Or(acc, m.tc.And(m.tc.Eq(c.sel, m.tc.Const(uint64(i), c.sel.w)), m.tc.Eq(d.sel, m.tc.Const(uint64(j), d.sel.w))))
					}
				}
			}
			return m.norm(acc)
		}
	}
	x, y := m.strBytes(a), m.strBytes(b)
	return m.equalSeq(x, y)
}

func (m *Machine) strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := m.strBytes(a), m.strBytes(b)
	n := make([]Value, 0, len(x)+len(y))
	n = append(n, x...)
	return &SymStr{append(n, y...)}
}

func (m *Machine) strLess(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	x, y := m.strBytes(a), m.strBytes(b)
	n := min(len(x), len(y))
	for i := 0; i < n; i++ {
		if !m.truth(m.equal(x[i], y[i])) {
			return m.norm(m.tc.Cmp(OULt, m.term(x[i], 8), m.term(y[i], 8)))
		}
	}
	return len(x) < len(y)
}

func (m *Machine) substr(v Value, lo, hi int) Value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		if lo == 0 && hi == len(x.b) {
			return x
		}
		return mkStr(x.b[lo:hi])
	}
	panic(m.unsupported("substr"))
}

// conc forces a string to a Go string (forking on symbolic bytes).
func (m *Machine) concStr(v Value) string {
	switch x := m.flat(v).(type) {
	case string:
		return x
	case *SymStr:
		buf := make([]byte, len(x.b))
		for i, e := range x.b {
			buf[i] = byte(m.concInt(e))
		}
		return string(buf)
	}
	panic(m.unsupported(fmt.Sprintf("concStr %T", v)))
}

func (m *Machine) concInt(v Value) uint64 {
	switch x := v.(type) {
	case I:
		return uint64(x)
	case *Term:
		return m.concretize(x)
	}
	panic(m.unsupported(fmt.Sprintf("concInt %T", v)))
}

func (m *Machine) int(v Value) int { return int(int64(m.concInt(v))) }
