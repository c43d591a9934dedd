package main

import (
	"crypto/md5"
	"fmt"
	"go/types"
	"hash/crc32"
	"math"
	"math/bits"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

func lookPath(p string) (string, error) { return exec.LookPath(p) }

type intrinsic = func(m *Machine, fr *frame, a []Value) Value

var intrinsics = map[string]intrinsic{}

func (m *Machine) callReal(fr *frame, a []Value) Value {
	c := fr.c
	cp := m.eng.ld.realOf(c)
	return m.callFn(fr.caller, cp, a, nil)
}

// realOf returns the interpreted version of an intercepted function.
func (ld *Loader) realOf(c *cfn) *cfn {
	key := "real:" + c.name
	ld.byNameMu.Lock()
	defer ld.byNameMu.Unlock()
	if r, ok := ld.byName[key]; ok {
		return r
	}
	r := &cfn{fn: c.fn, name: c.name, inRepo: c.inRepo}
	ld.byName[key] = r
	return r
}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func concStrs(a []Value) ([]string, bool) {
	out := make([]string, len(a))
	for i, v := range a {
		s, ok := v.(string)
		if !ok {
			return nil, false
		}
		out[i] = s
	}
	return out, true
}

func (m *Machine) mkErr(msg Value) Value {
	p := new(Value)
	*p = Struct{msg}
	return Iface{m.eng.ld.errStr, p}
}

func concBytes(s []Value) ([]byte, bool) {
	b := make([]byte, len(s))
	for i, e := range s {
		k, ok := e.(I)
		if !ok {
			return nil, false
		}
		b[i] = byte(k)
	}
	return b, true
}

func bytesOf(b []byte) Slice {
	s := make(Slice, len(b))
	for i, c := range b {
		s[i] = smallInts[c]
	}
	return s
}

func (m *Machine) indexByte(b []Value, c Value) Value {
	for i, e := range b {
		if m.truth(m.equal(e, c)) {
			return mkI(uint64(i))
		}
	}
	return mkI(^uint64(0))
}

func (m *Machine) indexSeq(h, n []Value) int {
	for i := 0; i+len(n) <= len(h); i++ {
		if m.truth(m.equalSeq(h[i:i+len(n)], n)) {
			return i
		}
	}
	return -1
}

func minus1() Value { return mkI(^uint64(0)) }

func intV(n int) Value { return mkI(uint64(int64(n))) }

func (m *Machine) implementsError(t types.Type) bool {
	e := types.Universe.Lookup("error").Type()
	return m.eng.ld.implements(t, e.Underlying().(*types.Interface), canon(e))
}

func (m *Machine) callMethod(fr *frame, i Iface, name string, args ...Value) (Value, bool) {
	fn := m.eng.ld.lookupMethod(i.t, nil, name)
	if fn == nil {
		return nil, false
	}
	return m.callFn(fr, m.eng.ld.cfnOf(fn), append([]Value{i.v}, args...), nil), true
}

func (m *Machine) callErrorString(i Iface) string {
	v, ok := m.callMethod(nil, i, "Error")
	if !ok {
		return "?"
	}
	return m.showStr(v)
}

func (m *Machine) showStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	if m.needModel() {
		s := m.showVal(v)
		if u, err := strconv.Unquote(s); err == nil {
			return u
		}
		return s
	}
	return "?"
}

// fmtInt renders a 64-bit term in decimal, forking on sign and digit count.
func (m *Machine) fmtInt(t *Term, signed bool) Value {
	neg := false
	abs := t
	if signed && m.truth(m.norm(m.tc.Cmp(OSLt, t, m.tc.Const(0, 64)))) {
		neg = true
		abs = m.tc.Un(ONeg, t)
		if abs.isConst() {
			return strconv.FormatInt(int64(t.val), 10)
		}
	}
	n := 1
	lim := uint64(10)
	for n < 20 {
		if m.truth(m.norm(m.tc.Cmp(OULt, abs, m.tc.Const(lim, 64)))) {
			break
		}
		n++
		if n == 20 {
			break
		}
		lim *= 10
	}
	// one decimal rendering per value and digit count on a path
	ck := [3]any{"fmtint", t, n}
	if v, ok := m.extern[ck]; ok {
		return v
	}
	var mv uint64
	okModel := m.modelOK
	if okModel {
		mv = m.evalModel(abs)
	}
	ds := make([]Value, n)
	h := m.tc.Const(0, 64)
	digits := strconv.FormatUint(mv, 10)
	if len(digits) != n {
		okModel = false
	}
	var cons []*Term
	for i := 0; i < n; i++ {
		d := m.freshVar("dec", 8)
		lo := uint64('0')
		if i == 0 && n > 1 {
			lo = '1'
		}
		cons = append(cons, m.tc.Cmp(OULe, m.tc.Const(lo, 8), d), m.tc.Cmp(OULe, d, m.tc.Const('9', 8)))
		if okModel {
			m.model[d] = uint64(digits[i])
		}
		ds[i] = d
		h = m.tc.Bin(OAdd, m.tc.Bin(OMul, h, m.tc.Const(10, 64)), m.tc.ZExt(m.tc.Bin(OSub, d, m.tc.Const('0', 8)), 64))
	}
	m.modelOK = okModel
	for _, c := range cons {
		m.addPC(c)
	}
	m.addPC(m.tc.Eq(abs, h))
	if neg {
		ds = append([]Value{mkI('-')}, ds...)
	}
	s := &SymStr{ds}
	m.decs[seqKey(ds)] = t
	m.extern[ck] = s
	return s
}

func seqKey(b []Value) string {
	var sb strings.Builder
	for _, e := range b {
		switch x := e.(type) {
		case I:
			sb.WriteByte('c')
			sb.WriteString(strconv.Itoa(int(x)))
		case *Term:
			sb.WriteByte('t')
			sb.WriteString(strconv.Itoa(x.id))
		}
	}
	return sb.String()
}

// provenance: the value a decimal string was rendered from
func (m *Machine) decOf(v Value) *Term {
	s, ok := v.(*SymStr)
	if !ok || len(m.decs) == 0 {
		return nil
	}
	return m.decs[seqKey(s.b)]
}

func (m *Machine) fmtSigned(v Value) Value {
	switch x := v.(type) {
	case I:
		return strconv.FormatInt(int64(x), 10)
	case *Term:
		return m.fmtInt(x, true)
	}
	panic(m.unsupported("fmtSigned"))
}

func (m *Machine) fmtUnsigned(v Value) Value {
	switch x := v.(type) {
	case I:
		return strconv.FormatUint(uint64(x), 10)
	case *Term:
		return m.fmtInt(x, false)
	}
	panic(m.unsupported("fmtUnsigned"))
}

func nop(m *Machine, fr *frame, a []Value) Value {
	return zeroResult(fr.c.fn.Signature)
}

func init() {
	// ---- internal/bytealg and friends
	reg(func(m *Machine, fr *frame, a []Value) Value { return m.indexByte(a[0].(Slice), a[1]) },
		"internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(I); ok {
				return intV(strings.IndexByte(s, byte(c)))
			}
		}
		return m.indexByte(m.strBytes(a[0]), a[1])
	}, "internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		n := 0
		for _, e := range a[0].(Slice) {
			if m.truth(m.equal(e, a[1])) {
				n++
			}
		}
		return intV(n)
	}, "internal/bytealg.Count")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		n := 0
		for _, e := range m.strBytes(a[0]) {
			if m.truth(m.equal(e, a[1])) {
				n++
			}
		}
		return intV(n)
	}, "internal/bytealg.CountString")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		return m.equalSeq(x, y)
	}, "bytes.Equal", "internal/bytealg.Equal")
	cmpSeq := func(m *Machine, x, y []Value) Value {
		for i := 0; i < len(x) && i < len(y); i++ {
			if !m.truth(m.equal(x[i], y[i])) {
				if m.truth(m.norm(m.tc.Cmp(OULt, m.term(x[i], 8), m.term(y[i], 8)))) {
					return minus1()
				}
				return mkI(1)
			}
		}
		switch {
		case len(x) < len(y):
			return minus1()
		case len(x) > len(y):
			return mkI(1)
		}
		return mkI(0)
	}
	reg(func(m *Machine, fr *frame, a []Value) Value { return cmpSeq(m, a[0].(Slice), a[1].(Slice)) },
		"internal/bytealg.Compare", "bytes.Compare")
	reg(func(m *Machine, fr *frame, a []Value) Value { return cmpSeq(m, m.strBytes(a[0]), m.strBytes(a[1])) },
		"internal/bytealg.CompareString", "strings.Compare")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return intV(m.indexSeq(a[0].(Slice), a[1].(Slice)))
	}, "internal/bytealg.Index", "bytes.Index")
	idxStr := func(m *Machine, fr *frame, a []Value) Value {
		if ss, ok := concStrs(a); ok {
			return intV(strings.Index(ss[0], ss[1]))
		}
		return intV(m.indexSeq(m.strBytes(a[0]), m.strBytes(a[1])))
	}
	reg(idxStr, "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		n := m.int(a[0])
		s := make(Slice, n)
		for i := range s {
			s[i] = smallInts[0]
		}
		return s
	}, "internal/bytealg.MakeNoZero")
	reg(func(m *Machine, fr *frame, a []Value) Value { return a[0] }, "internal/abi.NoEscape", "internal/abi.Escape",
		"strings.noescape")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return mkStr(a[0].(Slice))
	}, "internal/unsafeheader.String")

	// concrete fast paths; symbolic arguments run the real code
	fast := func(name string, f func(m *Machine, s []string) Value) {
		reg(func(m *Machine, fr *frame, a []Value) Value {
			if ss, ok := concStrs(a); ok {
				return f(m, ss)
			}
			return m.callReal(fr, a)
		}, name)
	}
	fast("strings.Contains", func(m *Machine, s []string) Value { return strings.Contains(s[0], s[1]) })
	fast("strings.HasPrefix", func(m *Machine, s []string) Value { return strings.HasPrefix(s[0], s[1]) })
	fast("strings.HasSuffix", func(m *Machine, s []string) Value { return strings.HasSuffix(s[0], s[1]) })
	fast("strings.LastIndex", func(m *Machine, s []string) Value { return intV(strings.LastIndex(s[0], s[1])) })
	fast("strings.EqualFold", func(m *Machine, s []string) Value { return strings.EqualFold(s[0], s[1]) })
	fast("strings.TrimSpace", func(m *Machine, s []string) Value { return strings.TrimSpace(s[0]) })
	fast("strings.ToLower", func(m *Machine, s []string) Value { return strings.ToLower(s[0]) })
	fast("strings.ToUpper", func(m *Machine, s []string) Value { return strings.ToUpper(s[0]) })
	fast("unicode/utf8.ValidString", func(m *Machine, s []string) Value { return strings.ToValidUTF8(s[0], "") == s[0] })

	// ---- math
	mathF := map[string]func(float64) float64{"math.Abs": math.Abs, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Sqrt": math.Sqrt, "math.floor": math.Floor, "math.ceil": math.Ceil, "math.trunc": math.Trunc, "math.sqrt": math.Sqrt, "math.Round": math.Round}
	for n, f := range mathF {
		f := f
		reg(func(m *Machine, fr *frame, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				panic(m.unsupported(fr.c.name + " of a symbolic float"))
			}
			return f(x)
		}, n)
	}
	reg(func(m *Machine, fr *frame, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return mkI(math.Float64bits(x))
		}
		panic(m.unsupported("Float64bits of a symbolic float"))
	}, "math.Float64bits", "internal/strconv.float64bits")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return math.Float64frombits(m.concInt(a[0]))
	}, "math.Float64frombits", "internal/strconv.float64frombits")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return mkI(uint64(math.Float32bits(float32(a[0].(float64)))))
	}, "math.Float32bits", "internal/strconv.float32bits")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return float64(math.Float32frombits(uint32(m.concInt(a[0]))))
	}, "math.Float32frombits", "internal/strconv.float32frombits")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return math.IsNaN(x)
		case *Term:
			return m.norm(m.tc.FUn(OFIsNaN, x, 0))
		}
		return false
	}, "math.IsNaN")

	b64 := func(f func(x uint64) uint64) intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			if x, ok := a[0].(I); ok {
				return mkI(f(uint64(x)))
			}
			return m.callReal(fr, a)
		}
	}
	reg(b64(func(x uint64) uint64 { return uint64(bits.LeadingZeros64(x)) }), "math/bits.LeadingZeros64")
	reg(b64(func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) }), "math/bits.TrailingZeros64")
	reg(b64(func(x uint64) uint64 { return uint64(bits.TrailingZeros32(uint32(x))) }), "math/bits.TrailingZeros32")
	reg(b64(func(x uint64) uint64 { return uint64(bits.Len64(x)) }), "math/bits.Len64")
	reg(b64(func(x uint64) uint64 { return uint64(bits.Len32(uint32(x))) }), "math/bits.Len32")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		x, ok1 := a[0].(I)
		y, ok2 := a[1].(I)
		if ok1 && ok2 {
			h, l := bits.Mul64(uint64(x), uint64(y))
			return Tuple{mkI(h), mkI(l)}
		}
		return m.callReal(fr, a)
	}, "math/bits.Mul64")

	// ---- strconv
	reg(func(m *Machine, fr *frame, a []Value) Value { return m.fmtSigned(a[0]) }, "strconv.Itoa")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if b, ok := a[1].(I); ok && b == 10 {
			return m.fmtSigned(a[0])
		}
		if x, ok := a[0].(I); ok {
			if b, ok := a[1].(I); ok {
				return strconv.FormatInt(int64(x), int(b))
			}
		}
		return m.callReal(fr, a)
	}, "strconv.FormatInt")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if b, ok := a[1].(I); ok && b == 10 {
			return m.fmtUnsigned(a[0])
		}
		if x, ok := a[0].(I); ok {
			if b, ok := a[1].(I); ok {
				return strconv.FormatUint(uint64(x), int(b))
			}
		}
		return m.callReal(fr, a)
	}, "strconv.FormatUint")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if b, ok := a[2].(I); ok && b == 10 {
			return m.appendVals(a[0].(Slice), m.strBytes(m.fmtSigned(a[1])), nil)
		}
		return m.callReal(fr, a)
	}, "strconv.AppendInt")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if b, ok := a[2].(I); ok && b == 10 {
			return m.appendVals(a[0].(Slice), m.strBytes(m.fmtUnsigned(a[1])), nil)
		}
		return m.callReal(fr, a)
	}, "strconv.AppendUint")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return strconv.FormatFloat(f, byte(m.concInt(a[1])), m.int(a[2]), m.int(a[3]))
		}
		panic(m.unsupported("FormatFloat of a symbolic float"))
	}, "strconv.FormatFloat")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if f, ok := a[1].(float64); ok {
			s := strconv.FormatFloat(f, byte(m.concInt(a[2])), m.int(a[3]), m.int(a[4]))
			return m.appendVals(a[0].(Slice), m.strBytes(s), nil)
		}
		panic(m.unsupported("AppendFloat of a symbolic float"))
	}, "strconv.AppendFloat")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if t := m.decOf(a[0]); t != nil {
			return Tuple{t, Iface{}}
		}
		return m.callReal(fr, a)
	}, "strconv.Atoi")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if t := m.decOf(a[0]); t != nil {
			if b, ok := a[1].(I); ok && (b == 10 || b == 0) {
				if bs, ok := a[2].(I); ok && (bs == 64 || bs == 0) {
					return Tuple{t, Iface{}}
				}
			}
		}
		return m.callReal(fr, a)
	}, "strconv.ParseInt")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if t := m.decOf(a[0]); t != nil {
			s := a[0].(*SymStr)
			if _, isMinus := s.b[0].(I); !isMinus {
				if b, ok := a[1].(I); ok && (b == 10 || b == 0) {
					if bs, ok := a[2].(I); ok && (bs == 64 || bs == 0) {
						return Tuple{t, Iface{}}
					}
				}
			}
		}
		return m.callReal(fr, a)
	}, "strconv.ParseUint")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if f, err := strconv.ParseFloat(s, m.int(a[1])); err == nil {
				return Tuple{f, Iface{}}
			}
		}
		return m.callReal(fr, a)
	}, "strconv.ParseFloat")
	fast("strconv.Quote", func(m *Machine, s []string) Value { return strconv.Quote(s[0]) })

	// ---- sync and atomics
	lockF := func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		if p == nil {
			m.nilDeref()
		}
		m.schedPoint()
		for m.extern[p] == true {
			m.block()
		}
		m.extern[p] = true
		return nil
	}
	unlockF := func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		if p == nil {
			m.nilDeref()
		}
		if m.extern[p] != true {
			m.goPanicPlain("sync: unlock of unlocked mutex")
		}
		m.extern[p] = false
		m.wake()
		m.schedPoint()
		return nil
	}
	reg(lockF, "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(unlockF, "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		if m.extern[p] == true {
			return false
		}
		m.extern[p] = true
		return true
	}, "(*sync.Mutex).TryLock", "(*internal/sync.Mutex).TryLock")
	type rk struct {
		p Ptr
	}
	reg(func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		m.schedPoint()
		for m.extern[p] == true {
			m.block()
		}
		n, _ := m.extern[rk{p}].(int)
		m.extern[rk{p}] = n + 1
		return nil
	}, "(*sync.RWMutex).RLock")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		n, _ := m.extern[rk{p}].(int)
		if n <= 0 {
			m.goPanicPlain("sync: RUnlock of unlocked RWMutex")
		}
		m.extern[rk{p}] = n - 1
		m.wake()
		return nil
	}, "(*sync.RWMutex).RUnlock")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		type ok struct{ p Ptr }
		if m.extern[ok{p}] == true {
			return nil
		}
		if st, isS := (*p).(Struct); isS && len(st) > 0 {
			if d, isB := st[0].(bool); isB && d {
				return nil
			}
			// done flag survives in the object itself
			if m.onceDone[p] {
				return nil
			}
		}
		m.extern[ok{p}] = true
		if m.initing || m.warming {
			m.onceDone[p] = true
		}
		m.callClosure(fr, a[1].(*Closure), nil)
		return nil
	}, "(*sync.Once).Do")
	type wg struct{ p Ptr }
	reg(func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		n, _ := m.extern[wg{p}].(int)
		m.extern[wg{p}] = n + m.int(a[1])
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		n, _ := m.extern[wg{p}].(int)
		m.extern[wg{p}] = n - 1
		m.wake()
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		for {
			n, _ := m.extern[wg{p}].(int)
			if n <= 0 {
				return nil
			}
			m.block()
		}
	}, "(*sync.WaitGroup).Wait")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		p := a[0].(Ptr)
		st := (*p).(Struct)
		for i := range st {
			if c, ok := st[i].(*Closure); ok {
				if c == nil {
					return Iface{}
				}
				return m.callClosure(fr, c, nil)
			}
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(nop, "(*sync.Pool).Put", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched",
		"(*internal/godebug.Setting).IncNonDefault", "internal/race.Acquire", "internal/race.Release",
		"internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"runtime.registerWeakPointer")
	reg(func(m *Machine, fr *frame, a []Value) Value { return "" }, "(*internal/godebug.Setting).Value", "os.Getenv", "(*internal/godebug.Setting).Name")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		p := new(Value)
		*p = zero(fr.c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return p
	}, "internal/godebug.New")

	// sync.Map: an interpreter map kept in the first field of the struct
	smap := func(m *Machine, v Value) *Map {
		p := v.(Ptr)
		st := (*p).(Struct)
		if mp, ok := st[0].(*Map); ok && mp != nil {
			return mp
		}
		mp := newMap()
		st[0] = mp
		return mp
	}
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if e := m.mapFind(smap(m, a[0]), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	}, "(*sync.Map).Load")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		m.mapSet(smap(m, a[0]), a[1], a[2])
		return nil
	}, "(*sync.Map).Store")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		mp := smap(m, a[0])
		if e := m.mapFind(mp, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		m.mapSet(mp, a[1], a[2])
		return Tuple{a[2], false}
	}, "(*sync.Map).LoadOrStore")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		m.mapDelete(smap(m, a[0]), a[1])
		return nil
	}, "(*sync.Map).Delete")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		for _, e := range append([]*mapEntry(nil), smap(m, a[0]).ents...) {
			if !e.dead && !m.truth(m.callClosure(fr, a[1].(*Closure), []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	}, "(*sync.Map).Range")

	for _, ty := range []struct {
		n string
		w int16
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		w := ty.w
		reg(func(m *Machine, fr *frame, a []Value) Value {
			m.schedPoint()
			return m.load(a[0], nil, false, false)
		}, "sync/atomic.Load"+ty.n)
		reg(func(m *Machine, fr *frame, a []Value) Value {
			m.schedPoint()
			m.store(a[0], a[1])
			return nil
		}, "sync/atomic.Store"+ty.n)
		reg(func(m *Machine, fr *frame, a []Value) Value {
			m.schedPoint()
			old := m.load(a[0], nil, false, false)
			m.store(a[0], a[1])
			return old
		}, "sync/atomic.Swap"+ty.n)
		reg(func(m *Machine, fr *frame, a []Value) Value {
			m.schedPoint()
			old := m.load(a[0], nil, false, false)
			if m.truth(m.equal(old, a[1])) {
				m.store(a[0], a[2])
				return true
			}
			return false
		}, "sync/atomic.CompareAndSwap"+ty.n)
		if w != 0 {
			reg(func(m *Machine, fr *frame, a []Value) Value {
				m.schedPoint()
				old := m.load(a[0], nil, false, false)
				n := m.norm(m.tc.Bin(OAdd, m.term(old, w), m.term(a[1], w)))
				m.store(a[0], n)
				return n
			}, "sync/atomic.Add"+ty.n)
		}
	}
	// atomic.Value: keep the interface in the struct's only field
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return (*a[0].(Ptr)).(Struct)[0]
	}, "(*sync/atomic.Value).Load")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		(*a[0].(Ptr)).(Struct)[0] = a[1]
		return nil
	}, "(*sync/atomic.Value).Store")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		st := (*a[0].(Ptr)).(Struct)
		if m.truth(m.equal(st[0], a[1])) {
			st[0] = a[2]
			return true
		}
		return false
	}, "(*sync/atomic.Value).CompareAndSwap")

	// ---- time (only constants are needed)
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return Tuple{mkI(1700000000), mkI(0), mkI(1)}
	}, "time.now", "time.runtimeNow")
	reg(func(m *Machine, fr *frame, a []Value) Value { return mkI(1) }, "time.runtimeNano")

	// ---- compression and checksums: models (identity / constant)
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if len(a[2].(Slice)) == 0 {
			return a[0]
		}
		return mkI(0x5a5a5a5a)
	}, "hash/crc32.Update", "hash/crc32.update")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		x := a[0].(Slice)
		b := make([]byte, len(x))
		for i, e := range x {
			c, ok := e.(I)
			if !ok {
				panic(m.unsupported("checksum of symbolic bytes"))
			}
			b[i] = byte(c)
		}
		return mkI(uint64(crc32.ChecksumIEEE(b)))
	}, "hash/crc32.ChecksumIEEE")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		p := new(Value)
		*p = Struct{mkI(0), Ptr(nil)}
		return Iface{m.crcType(), p}
	}, "hash/crc32.NewIEEE")
	reg(func(m *Machine, fr *frame, a []Value) Value { return intV(len(a[1].(Slice))) }, "(*hash/crc32.digest).Write_")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		b, ok := concBytes(a[0].(Slice))
		out := make(Array, 16)
		if ok {
			h := md5.Sum(b)
			for i := range out {
				out[i] = mkI(uint64(h[i]))
			}
			return out
		}
		// an uninterpreted function: equal inputs give equal sums
		key := "md5:" + seqKey(a[0].(Slice))
		if v, ok := m.extern[key]; ok {
			return copyVal(v.(Array))
		}
		for i := range out {
			out[i] = m.freshVar("md5", 8)
		}
		m.extern[key] = copyVal(out)
		return out
	}, "crypto/md5.Sum")

	// ---- errors / fmt
	reg(func(m *Machine, fr *frame, a []Value) Value {
		msg, wrapped := m.sprintf(fr, a[0], a[1].(Slice))
		if wrapped.t != nil {
			p := new(Value)
			*p = Struct{msg, wrapped}
			return Iface{m.eng.ld.wrapErr, p}
		}
		return m.mkErr(msg)
	}, "fmt.Errorf")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		s, _ := m.sprintf(fr, a[0], a[1].(Slice))
		return s
	}, "fmt.Sprintf")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return m.sprint(fr, a[0].(Slice), false)
	}, "fmt.Sprint")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return m.sprint(fr, a[0].(Slice), true)
	}, "fmt.Sprintln")
	wr := func(m *Machine, fr *frame, w Value, s Value) Value {
		b := Slice(m.strBytes(s))
		r, ok := m.callMethod(fr, w.(Iface), "Write", append(Slice{}, b...))
		if !ok {
			panic(m.unsupported("Fprint to a non-writer"))
		}
		return r
	}
	reg(func(m *Machine, fr *frame, a []Value) Value {
		s, _ := m.sprintf(fr, a[1], a[2].(Slice))
		return wr(m, fr, a[0], s)
	}, "fmt.Fprintf")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return wr(m, fr, a[0], m.sprint(fr, a[1].(Slice), false))
	}, "fmt.Fprint")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return wr(m, fr, a[0], m.sprint(fr, a[1].(Slice), true))
	}, "fmt.Fprintln")
	reg(func(m *Machine, fr *frame, a []Value) Value { return Tuple{mkI(0), Iface{}} },
		"fmt.Println", "fmt.Printf", "fmt.Print")
	reg(nop, "log.Println", "log.Printf", "log.Print")

	reg(func(m *Machine, fr *frame, a []Value) Value {
		return mkI(0)
	}, "runtime.fastrand", "math/rand.Int")

	// errors.As / reflectlite
	var as func(m *Machine, fr *frame, err Iface, et types.Type, tgt Value) bool
	as = func(m *Machine, fr *frame, err Iface, et types.Type, tgt Value) bool {
		for err.t != nil {
			if it, ok := et.Underlying().(*types.Interface); ok {
				if m.eng.ld.implements(err.t, it, et) {
					m.store(tgt, err)
					return true
				}
			} else if err.t == et {
				m.store(tgt, err.v)
				return true
			}
			r, ok := m.callMethod(fr, err, "Unwrap")
			if !ok {
				return false
			}
			if l, ok := r.(Slice); ok {
				for _, x := range l {
					if as(m, fr, x.(Iface), et, tgt) {
						return true
					}
				}
				return false
			}
			err = r.(Iface)
		}
		return false
	}
	reg(func(m *Machine, fr *frame, a []Value) Value {
		tgt := a[1].(Iface)
		if tgt.t == nil {
			m.goPanicPlain("errors: target cannot be nil")
		}
		pt, ok := tgt.t.Underlying().(*types.Pointer)
		if !ok {
			m.goPanicPlain("errors: target must be a non-nil pointer")
		}
		return as(m, fr, a[0].(Iface), canon(pt.Elem()), tgt.v)
	}, "errors.As")
	var is func(m *Machine, fr *frame, err, tgt Iface) bool
	is = func(m *Machine, fr *frame, err, tgt Iface) bool {
		for {
			if err.t == nil || tgt.t == nil {
				return err.t == nil && tgt.t == nil
			}
			if types.Comparable(err.t) && m.truth(m.equal(err, tgt)) {
				return true
			}
			if r, ok := m.callMethod(fr, err, "Is", tgt); ok && m.truth(r) {
				return true
			}
			r, ok := m.callMethod(fr, err, "Unwrap")
			if !ok {
				return false
			}
			if l, ok := r.(Slice); ok {
				for _, x := range l {
					if is(m, fr, x.(Iface), tgt) {
						return true
					}
				}
				return false
			}
			err = r.(Iface)
		}
	}
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return is(m, fr, a[0].(Iface), a[1].(Iface))
	}, "errors.Is")

	reg(func(m *Machine, fr *frame, a []Value) Value {
		x, _ := a[0].(Iface).v.(Slice)
		return &Closure{nat: func(m *Machine, a []Value) Value {
			i, j := m.int(a[0]), m.int(a[1])
			if i < 0 || j < 0 || i >= len(x) || j >= len(x) {
				m.goPanicPlain("reflect: slice index out of range")
			}
			p, q := copyVal(x[i]), copyVal(x[j])
			assignInto(&x[i], q)
			assignInto(&x[j], p)
			return nil
		}}
	}, "internal/reflectlite.Swapper", "reflect.Swapper")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		x, _ := i.v.(*Map)
		if x == nil {
			return i
		}
		n := &Map{idx: map[any]*mapEntry{}, n: x.n, nsym: x.nsym}
		to := map[*mapEntry]*mapEntry{}
		for _, e := range x.ents {
			c := &mapEntry{k: copyVal(e.k), v: copyVal(e.v), dead: e.dead}
			to[e] = c
			n.ents = append(n.ents, c)
		}
		for k, e := range x.idx {
			n.idx[k] = to[e]
		}
		return Iface{i.t, n}
	}, "maps.clone")
	for n, f := range map[string]func(x, y float64) float64{"math.archMax": math.Max, "math.archMin": math.Min, "math.Mod": math.Mod, "math.Pow": math.Pow, "math.Hypot": math.Hypot, "math.Atan2": math.Atan2} {
		reg(func(m *Machine, fr *frame, a []Value) Value {
			x, ok := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok && ok2 {
				return f(x, y)
			}
			switch n {
			case "math.archMax":
				return m.callFn(fr, m.eng.ld.fnByName("math.max"), a, nil)
			case "math.archMin":
				return m.callFn(fr, m.eng.ld.fnByName("math.min"), a, nil)
			}
			panic(m.unsupported(n + " of a symbolic float"))
		}, n)
	}
	for n, f := range map[string]func(x float64) float64{"math.Log": math.Log, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Exp": math.Exp, "math.RoundToEven": math.RoundToEven, "math.Cbrt": math.Cbrt, "math.Sin": math.Sin, "math.Cos": math.Cos, "math.Tan": math.Tan} {
		reg(func(m *Machine, fr *frame, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				panic(m.unsupported(n + " of a symbolic float"))
			}
			return f(x)
		}, n)
	}

	// the character classes of names, without forks
	oneOf := func(m *Machine, c *Term, w int16, rs [][2]uint64) *Term {
		t := m.tc.Bool(false)
		for _, r := range rs {
			t = m.tc.Or(t, m.tc.And(m.tc.Cmp(OULe, m.tc.Const(r[0], w), c), m.tc.Cmp(OULe, c, m.tc.Const(r[1], w))))
		}
		return t
	}
	reg(func(m *Machine, fr *frame, a []Value) Value {
		c, ok := a[0].(*Term)
		if !ok {
			return m.callReal(fr, a)
		}
		return m.norm(oneOf(m, c, 8, [][2]uint64{{'A', 'Z'}, {'a', 'z'}, {'0', '9'}, {'_', '_'}, {':', ':'}, {'.', '.'}, {'-', '-'}}))
	}, "encoding/xml.isNameByte")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		c, ok := a[1].(*Term)
		if !ok || !m.truth(m.norm(m.tc.Cmp(OULt, c, m.tc.Const(0x80, 32)))) {
			return m.callReal(fr, a)
		}
		var rs [][2]uint64
		st := (*a[0].(Ptr)).(Struct)
		for _, r := range st[0].(Slice) {
			f := r.(Struct)
			lo, hi, step := uint64(f[0].(I)), uint64(f[1].(I)), uint64(f[2].(I))
			if lo >= 0x80 {
				break
			}
			if step == 1 {
				rs = append(rs, [2]uint64{lo, hi})
				continue
			}
			for ; lo <= hi && lo < 0x80; lo += step {
				rs = append(rs, [2]uint64{lo, lo})
			}
		}
		return m.norm(oneOf(m, c, 32, rs))
	}, "unicode.Is")

	// flate: stored verbatim (identity model)
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return Tuple{m.flateWriter(a[0].(Iface)), Iface{}}
	}, "compress/flate.NewWriter")
	reg(func(m *Machine, fr *frame, a []Value) Value { return m.callMethodOr(fr, a, 0, "Write") }, "(*compress/flate.Writer).Write")
	reg(func(m *Machine, fr *frame, a []Value) Value { return Iface{} }, "(*compress/flate.Writer).Close", "(*compress/flate.Writer).Flush")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		(*a[0].(Ptr)).(Struct)[0] = a[1]
		return nil
	}, "(*compress/flate.Writer).Reset")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return m.callFn(fr, m.eng.ld.fnByName("verif/harness/sym.Inflate"), []Value{a[0]}, nil)
	}, "compress/flate.NewReader")
	_ = time.Now
}

func (m *Machine) crcType() types.Type {
	p := m.eng.ld.prog.ImportedPackage("hash/crc32")
	return ptrTo(p.Type("digest").Type())
}

func (m *Machine) flateWriter(w Iface) Value {
	c := new(Value)
	*c = Struct{w}
	return c
}

func (m *Machine) callMethodOr(fr *frame, a []Value, k int, name string) Value {
	w, ok := (*a[k].(Ptr)).(Struct)[0].(Iface)
	if !ok {
		panic(m.unsupported(name + ": no writer"))
	}
	r, ok := m.callMethod(fr, w, name, a[1:]...)
	if !ok {
		panic(m.unsupported(name + " missing"))
	}
	return r
}

// ---------------------------------------------------------------- fmt

func (m *Machine) sprint(fr *frame, args Slice, ln bool) Value {
	var acc Value = ""
	prevStr := true
	for i, x := range args {
		v := x.(Iface)
		isStr := v.t != nil && isStringType(v.t)
		if i > 0 && (ln || !isStr && !prevStr) {
			acc = m.strConcat(acc, " ")
		}
		prevStr = isStr
		acc = m.strConcat(acc, m.fmtArg(fr, "%v", 'v', v))
	}
	if ln {
		acc = m.strConcat(acc, "\n")
	}
	return acc
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *Machine) sprintf(fr *frame, format Value, args Slice) (Value, Iface) {
	f := m.concStr(format)
	var acc Value = ""
	var wrapped Iface
	n := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			acc = m.strConcat(acc, f[i:i+j])
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			acc = m.strConcat(acc, "%!(NOVERB)")
			break
		}
		spec := f[i : j+1]
		verb := f[j]
		i = j + 1
		if verb == '%' {
			acc = m.strConcat(acc, "%")
			continue
		}
		if n >= len(args) {
			acc = m.strConcat(acc, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[n].(Iface)
		n++
		if verb == 'w' {
			wrapped = a
			spec = spec[:len(spec)-1] + "v"
			verb = 'v'
		}
		acc = m.strConcat(acc, m.fmtArg(fr, spec, verb, a))
	}
	return acc, wrapped
}

func (m *Machine) fmtArg(fr *frame, spec string, verb byte, a Iface) Value {
	if a.t == nil {
		return fmt.Sprintf(spec, nil)
	}
	if verb == 'T' {
		return typeString(a.t)
	}
	if rt, ok := a.v.(RType); ok {
		return fmt.Sprintf(spec, typeString(rt.t))
	}
	if strings.IndexByte("vsqxX", verb) >= 0 {
		for _, nm := range []string{"Error", "String"} {
			if fn := m.eng.ld.lookupMethod(a.t, nil, nm); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isStringType(fn.Signature.Results().At(0).Type()) {
				if p, ok := a.v.(Ptr); ok && p == nil {
					return "<nil>"
				}
				s := m.callFn(fr, m.eng.ld.cfnOf(fn), []Value{a.v}, nil)
				return m.fmtStr(spec, s)
			}
		}
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return m.fmtStr(spec, a.v)
		case u.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(a.t)
			if t, ok := a.v.(*Term); ok {
				if spec == "%d" || spec == "%v" {
					return m.fmtInt(m.resize(t, signed, 64), signed)
				}
				return m.fmtNative(spec, m.concInt(t), w, signed)
			}
			return m.fmtNative(spec, uint64(a.v.(I)), w, signed)
		case u.Info()&types.IsBoolean != 0:
			return fmt.Sprintf(spec, m.truth(a.v))
		case u.Info()&types.IsFloat != 0:
			if f, ok := a.v.(float64); ok {
				if u.Kind() == types.Float32 {
					return fmt.Sprintf(spec, float32(f))
				}
				return fmt.Sprintf(spec, f)
			}
			panic(m.unsupported("formatting a symbolic float"))
		}
	case *types.Slice:
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 {
			s := a.v.(Slice)
			if verb == 's' {
				return m.fmtStr(spec, mkStr(s))
			}
			b := make([]byte, len(s))
			for i, e := range s {
				b[i] = byte(m.concInt(e))
			}
			return fmt.Sprintf(spec, b)
		}
	case *types.Array:
		if w, _, ok := intInfo(u.Elem()); ok && w == 8 {
			s := a.v.(Array)
			b := make([]byte, len(s))
			for i, e := range s {
				b[i] = byte(m.concInt(e))
			}
			return fmt.Sprintf(spec, b)
		}
	}
	return m.fmtParts(fr, spec, verb, a, 0)
}

// fmtParts formats composite values, part by part.
func (m *Machine) fmtParts(fr *frame, spec string, verb byte, a Iface, depth int) Value {
	part := func(t types.Type, v Value) Value {
		if _, ok := t.Underlying().(*types.Interface); ok {
			i, _ := v.(Iface)
			if i.t == nil {
				return "<nil>"
			}
			t, v = i.t, i.v
		}
		if _, ok := t.Underlying().(*types.Pointer); ok && depth >= 0 {
			if m.eng.ld.lookupMethod(t, nil, "Error") == nil && m.eng.ld.lookupMethod(t, nil, "String") == nil {
				if p, ok := v.(Ptr); ok && p == nil {
					return "<nil>"
				}
				return "0xc000000000"
			}
		}
		return m.fmtArg(fr, spec, verb, Iface{canon(t), v})
	}
	seq := func(et types.Type, vs []Value) Value {
		var acc Value = "["
		for i, v := range vs {
			if i > 0 {
				acc = m.strConcat(acc, " ")
			}
			acc = m.strConcat(acc, part(et, v))
		}
		return m.strConcat(acc, "]")
	}
	if spec == "%#v" {
		return "<" + typeString(a.t) + ">"
	}
	switch u := a.t.Underlying().(type) {
	case *types.Slice:
		if s, ok := a.v.(Slice); ok {
			return seq(u.Elem(), s)
		}
		return "[]"
	case *types.Array:
		if s, ok := a.v.(Array); ok {
			return seq(u.Elem(), s)
		}
	case *types.Struct:
		if s, ok := a.v.(Struct); ok {
			var acc Value = "{"
			for i := range s {
				if i > 0 {
					acc = m.strConcat(acc, " ")
				}
				if spec == "%+v" {
					acc = m.strConcat(acc, u.Field(i).Name()+":")
				}
				acc = m.strConcat(acc, part(u.Field(i).Type(), s[i]))
			}
			return m.strConcat(acc, "}")
		}
	case *types.Pointer:
		p, ok := a.v.(Ptr)
		if ok && p == nil {
			return "<nil>"
		}
		if ok && depth == 0 && verb == 'v' {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array, *types.Slice:
				return m.strConcat("&", m.fmtParts(fr, spec, verb, Iface{canon(u.Elem()), *p}, 1))
			}
		}
		return "0xc000000000"
	case *types.Map:
		x, _ := a.v.(*Map)
		if x == nil {
			return "map[]"
		}
		type ent struct {
			key string
			num int64
			txt Value
		}
		var es []ent
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			k := m.concStr(m.fmtArg(fr, "%v", 'v', Iface{canon(u.Key()), e.k}))
			n, _ := strconv.ParseInt(k, 10, 64)
			if isStringType(u.Key()) {
				n = 0
			}
			es = append(es, ent{k, n, m.strConcat(k+":", part(u.Elem(), e.v))})
		}
		sort.Slice(es, func(i, j int) bool {
			if es[i].num != es[j].num {
				return es[i].num < es[j].num
			}
			return es[i].key < es[j].key
		})
		var acc Value = "map["
		for i, e := range es {
			if i > 0 {
				acc = m.strConcat(acc, " ")
			}
			acc = m.strConcat(acc, e.txt)
		}
		return m.strConcat(acc, "]")
	}
	return "<" + typeString(a.t) + ">"
}

func (m *Machine) fmtStr(spec string, v Value) Value {
	if s, ok := v.(string); ok {
		return fmt.Sprintf(spec, s)
	}
	if spec == "%s" || spec == "%v" {
		return v
	}
	return fmt.Sprintf(spec, m.showStr(v))
}

func (m *Machine) fmtNative(spec string, u uint64, w int16, signed bool) Value {
	if signed {
		s := sext(u, w)
		switch w {
		case 32:
			return fmt.Sprintf(spec, int32(s))
		case 16:
			return fmt.Sprintf(spec, int16(s))
		case 8:
			return fmt.Sprintf(spec, int8(s))
		}
		return fmt.Sprintf(spec, s)
	}
	switch w {
	case 32:
		return fmt.Sprintf(spec, uint32(u))
	case 16:
		return fmt.Sprintf(spec, uint16(u))
	case 8:
		return fmt.Sprintf(spec, uint8(u))
	}
	return fmt.Sprintf(spec, u)
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
