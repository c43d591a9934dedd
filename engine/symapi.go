package main

func init() {
	const P = "verif/harness/sym."
	name := func(m *Machine, v Value) string { return m.concStr(v) }
	reg(func(m *Machine, fr *frame, a []Value) Value {
		w := int16(m.int(a[1]))
		v := m.newVar(name(m, a[0]), w)
		return m.norm(m.tc.ZExt(v, 64))
	}, P+"Bits")
	reg(func(m *Machine, fr *frame, a []Value) Value { return m.newVar(name(m, a[0]), 0) }, P+"Bool")
	reg(func(m *Machine, fr *frame, a []Value) Value { return m.newVar(name(m, a[0]), 8) }, P+"Byte")
	reg(func(m *Machine, fr *frame, a []Value) Value { return m.newVar(name(m, a[0]), 64) }, P+"Int64")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		lo, hi := m.int(a[1]), m.int(a[2])
		v := m.newVar(name(m, a[0]), 64)
		m.model[v] = uint64(int64(lo))
		m.assume(m.norm(m.tc.And(m.tc.Cmp(OSLe, m.tc.Const(uint64(int64(lo)), 64), v), m.tc.Cmp(OSLe, v, m.tc.Const(uint64(int64(hi)), 64)))))
		return v
	}, P+"Int")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		n := m.int(a[1])
		v := m.newVar(name(m, a[0]), 8)
		if n < 256 {
			m.assume(m.norm(m.tc.Cmp(OULt, v, m.tc.Const(uint64(n), 8))))
		}
		return m.norm(m.tc.ZExt(v, 64))
	}, P+"Pick")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		nm := name(m, a[0])
		lo, hi := m.int(a[1]), m.int(a[2])
		l := m.newVar(nm+".len", 8)
		m.model[l] = uint64(lo)
		m.assume(m.norm(m.tc.And(m.tc.Cmp(OULe, m.tc.Const(uint64(lo), 8), l), m.tc.Cmp(OULe, l, m.tc.Const(uint64(hi), 8)))))
		n := int(m.concretize(l))
		b := make([]Value, n)
		for i := range b {
			b[i] = m.newVar(nm, 8)
		}
		if n == 0 {
			return ""
		}
		return &SymStr{b}
	}, P+"Str")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		nm := name(m, a[0])
		var opts []string
		for _, o := range a[1].(Slice) {
			opts = append(opts, m.concStr(o))
		}
		v := m.newVar(nm, 8)
		if len(opts) < 256 {
			m.assume(m.norm(m.tc.Cmp(OULt, v, m.tc.Const(uint64(len(opts)), 8))))
		}
		return &ChoiceStr{sel: v, opts: opts}
	}, P+"Choice")
	reg(func(m *Machine, fr *frame, a []Value) Value { m.assume(a[0]); return nil }, P+"Assume")
	reg(func(m *Machine, fr *frame, a []Value) Value { m.assert(a[0], name(m, a[1])); return nil }, P+"Assert")
	reg(func(m *Machine, fr *frame, a []Value) Value { m.assert(false, name(m, a[0])); return nil }, P+"Fail")
	reg(func(m *Machine, fr *frame, a []Value) Value { m.reach[name(m, a[0])] = true; return nil }, P+"Reach")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		o := Observation{label: name(m, a[0])}
		for _, v := range a[1].(Slice) {
			o.vals = append(o.vals, v)
		}
		m.obs = append(m.obs, o)
		return nil
	}, P+"Observe")
	reg(func(m *Machine, fr *frame, a []Value) Value { m.opt[name(m, a[0])] = m.int(a[1]); return nil }, P+"Opt")
	reg(func(m *Machine, fr *frame, a []Value) Value { return m.eng.thorough }, P+"Thorough")
	reg(func(m *Machine, fr *frame, a []Value) Value { return mkI(m.concInt(a[0])) }, P+"Concrete")
	reg(func(m *Machine, fr *frame, a []Value) Value { return true }, P+"Symbolic")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		n, _ := m.extern["files"].(int)
		m.extern["files"] = n + 1
		nm := "/sym/file" + string(rune('0'+n))
		m.extern["file:"+nm] = append(Slice{}, a[0].(Slice)...)
		return nm
	}, P+"File")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		if d, ok := m.extern["file:"+m.concStr(a[0])].(Slice); ok {
			return Tuple{append(Slice{}, d...), Iface{}}
		}
		return Tuple{Slice(nil), m.globalValue("io/fs", "ErrNotExist")}
	}, "os.ReadFile")
}
