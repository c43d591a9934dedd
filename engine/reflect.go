package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// functions of package reflect that are interpreted as they are
var reflectInterp = map[string]bool{
	"(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true, "(reflect.Kind).String": true,
	"(reflect.StructField).IsExported": true, "(*reflect.ValueError).Error": true, "(reflect.Method).IsExported": true,
	"(reflect.ChanDir).String": true,
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func kindV(t types.Type) Value { return mkI(uint64(kindOf(t))) }

func (m *Machine) mkType(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{m.eng.ld.rtypeT, RType{canon(t)}}
}

func (r RV) get() Value {
	if r.p != nil {
		return *r.p.(Ptr)
	}
	return r.v
}

func (m *Machine) rvGet(r RV) Value {
	if r.p != nil {
		switch q := r.p.(type) {
		case Ptr:
			v := *q
			if st, ok := v.(Struct); ok {
				switch u := r.t.Underlying().(type) {
				case *types.Basic:
					return m.fromHeader(st, true)
				case *types.Slice:
					_ = u
					return m.fromHeader(st, false)
				}
			}
			return v
		default:
			return m.load(q, r.t, false, false)
		}
	}
	return r.v
}

func rvPanic(m *Machine, method string, k reflect.Kind) {
	m.goPanicPlain(fmt.Sprintf("reflect: call of reflect.Value.%s on %s Value", method, k))
}

func typeName(t types.Type) (name, pkg string) {
	switch x := t.(type) {
	case *types.Named:
		n := x.Obj().Name()
		if a := x.TypeArgs(); a != nil && a.Len() > 0 {
			var parts []string
			for i := 0; i < a.Len(); i++ {
				parts = append(parts, types.TypeString(a.At(i), nil))
			}
			n += "[" + strings.Join(parts, ",") + "]"
		}
		p := ""
		if x.Obj().Pkg() != nil {
			p = x.Obj().Pkg().Path()
		}
		return n, p
	case *types.Basic:
		return x.Name(), ""
	}
	return "", ""
}

func (m *Machine) fieldStruct(t types.Type, st *types.Struct, i int, index []int) Value {
	f := st.Field(i)
	rp := m.eng.ld.prog.ImportedPackage("reflect")
	sft := rp.Type("StructField").Type()
	s := zero(sft).(Struct)
	ss := sft.Underlying().(*types.Struct)
	for k := 0; k < ss.NumFields(); k++ {
		switch ss.Field(k).Name() {
		case "Name":
			s[k] = f.Name()
		case "PkgPath":
			if !f.Exported() {
				s[k] = f.Pkg().Path()
			} else {
				s[k] = ""
			}
		case "Type":
			s[k] = m.mkType(f.Type())
		case "Tag":
			s[k] = st.Tag(i)
		case "Index":
			sl := Slice{}
			for _, x := range index {
				sl = append(sl, intV(x))
			}
			s[k] = sl
		case "Anonymous":
			s[k] = f.Embedded()
		}
	}
	return s
}

// exported methods of t in name order
func (m *Machine) exportedMethods(t types.Type) []*types.Selection {
	ms := m.eng.ld.prog.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	return out
}

func (m *Machine) rtypeMethod(fr *frame, rt RType, name string, a []Value) Value {
	t := rt.t
	switch name {
	case "Kind":
		return kindV(t)
	case "Name":
		n, _ := typeName(t)
		return n
	case "PkgPath":
		_, p := typeName(t)
		return p
	case "String":
		return typeString(t)
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.mkType(u.Elem())
		case *types.Slice:
			return m.mkType(u.Elem())
		case *types.Array:
			return m.mkType(u.Elem())
		case *types.Map:
			return m.mkType(u.Elem())
		case *types.Chan:
			return m.mkType(u.Elem())
		}
		m.goPanicPlain("reflect: Elem of invalid type " + typeString(t))
	case "Key":
		return m.mkType(t.Underlying().(*types.Map).Key())
	case "Len":
		return intV(int(t.Underlying().(*types.Array).Len()))
	case "NumField":
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			m.goPanicPlain("reflect: NumField of non-struct type " + typeString(t))
		}
		return intV(st.NumFields())
	case "Field":
		st, ok := t.Underlying().(*types.Struct)
		i := m.int(a[1])
		if !ok || i < 0 || i >= st.NumFields() {
			m.goPanicPlain("reflect: Field index out of bounds")
		}
		return m.fieldStruct(t, st, i, []int{i})
	case "FieldByName":
		st := t.Underlying().(*types.Struct)
		want := m.concStr(a[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == want {
				return Tuple{m.fieldStruct(t, st, i, []int{i}), true}
			}
		}
		rp := m.eng.ld.prog.ImportedPackage("reflect")
		return Tuple{zero(rp.Type("StructField").Type()), false}
	case "Implements":
		u := a[1].(Iface).v.(RType)
		it, ok := u.t.Underlying().(*types.Interface)
		if !ok {
			m.goPanicPlain("reflect: non-interface type passed to Type.Implements")
		}
		return m.eng.ld.implements(t, it, canon(u.t))
	case "AssignableTo":
		return types.AssignableTo(t, a[1].(Iface).v.(RType).t)
	case "ConvertibleTo":
		return types.ConvertibleTo(t, a[1].(Iface).v.(RType).t)
	case "Comparable":
		return types.Comparable(t)
	case "NumMethod":
		if it, ok := t.Underlying().(*types.Interface); ok {
			return intV(it.NumMethods())
		}
		return intV(len(m.exportedMethods(t)))
	case "Size":
		return mkI(uint64(sizes.Sizeof(t)))
	case "Bits":
		return intV(int(sizes.Sizeof(t) * 8))
	case "NumIn":
		return intV(t.Underlying().(*types.Signature).Params().Len())
	case "NumOut":
		return intV(t.Underlying().(*types.Signature).Results().Len())
	case "In":
		return m.mkType(t.Underlying().(*types.Signature).Params().At(m.int(a[1])).Type())
	case "Out":
		return m.mkType(t.Underlying().(*types.Signature).Results().At(m.int(a[1])).Type())
	case "IsVariadic":
		return t.Underlying().(*types.Signature).Variadic()
	}
	panic(m.unsupported("reflect.Type." + name))
}

func (m *Machine) rvField(r RV, i int) RV {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		rvPanic(m, "Field", kindOf(r.t))
	}
	if i < 0 || i >= st.NumFields() {
		m.goPanicPlain("reflect: Field index out of range")
	}
	f := st.Field(i)
	out := RV{t: canon(f.Type()), ro: r.ro || !f.Exported()}
	if r.p != nil {
		s := (*r.p.(Ptr)).(Struct)
		out.p = &s[i]
	} else {
		out.v = r.v.(Struct)[i]
	}
	return out
}

func (m *Machine) rvElem(r RV) RV {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p := m.rvGet(r)
		if q, ok := p.(Ptr); ok && q == nil {
			return RV{}
		}
		return RV{t: canon(u.Elem()), p: p, ro: r.ro}
	case *types.Interface:
		i := m.rvGet(r).(Iface)
		if i.t == nil {
			return RV{}
		}
		return RV{t: i.t, v: i.v, ro: r.ro}
	}
	rvPanic(m, "Elem", kindOf(r.t))
	return RV{}
}

func (m *Machine) rvSet(r RV, v Value) {
	if r.p == nil {
		m.goPanicPlain("reflect: reflect.Value.Set using unaddressable value")
	}
	if r.ro {
		m.goPanicPlain("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	m.store(r.p, v)
}

// rvAs converts x for assignment to type t.
func (m *Machine) rvAs(x RV, t types.Type) Value {
	v := copyVal(m.rvGet(x))
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, isI := x.t.Underlying().(*types.Interface); !isI {
			return Iface{canon(x.t), v}
		}
		return v
	}
	if !types.AssignableTo(x.t, t) {
		m.goPanicPlain("reflect.Set: value of type " + typeString(x.t) + " is not assignable to type " + typeString(t))
	}
	return v
}

func (m *Machine) rvInterface(r RV) Value {
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return m.rvGet(r)
	}
	return Iface{canon(r.t), copyVal(m.rvGet(r))}
}

func (m *Machine) valueOf(i Iface) RV {
	if i.t == nil {
		return RV{}
	}
	return RV{t: i.t, v: i.v}
}

func (m *Machine) rvMethod(r RV, fn *ssa.Function) RV {
	recv := copyVal(m.rvGet(r))
	c := m.eng.ld.cfnOf(fn)
	sig := fn.Signature
	// method signature without receiver
	ns := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	cl := &Closure{nat: func(m *Machine, args []Value) Value {
		return m.callFn(nil, c, append([]Value{recv}, args...), nil)
	}, sig: ns}
	return RV{t: canon(ns), v: cl}
}

func (m *Machine) isZeroVal(v Value, t types.Type) Value {
	switch x := v.(type) {
	case I:
		return x == 0
	case bool:
		return !x
	case float64:
		return x == 0
	case string:
		return x == ""
	case *SymStr:
		return len(x.b) == 0
	case *ChoiceStr:
		return m.strEq(x, "")
	case *Term:
		if x.w == 0 {
			return m.not(x)
		}
		return m.equal(x, mkI(0))
	case Ptr:
		return x == nil
	case Slice:
		return x == nil
	case *Map:
		return x == nil
	case *Closure:
		return x == nil
	case *Chan:
		return x == nil
	case Iface:
		return x.t == nil
	case Struct:
		var acc Value = true
		for _, e := range x {
			acc = m.and(acc, m.isZeroVal(e, nil))
		}
		return acc
	case Array:
		var acc Value = true
		for _, e := range x {
			acc = m.and(acc, m.isZeroVal(e, nil))
		}
		return acc
	case RType:
		return false
	}
	panic(m.unsupported(fmt.Sprintf("IsZero %T", v)))
}

func init() {
	R := func(name string, f func(m *Machine, fr *frame, r RV, a []Value) Value) {
		reg(func(m *Machine, fr *frame, a []Value) Value {
			r, ok := a[0].(RV)
			if !ok {
				panic(m.unsupported(fmt.Sprintf("reflect.Value.%s on %T", name, a[0])))
			}
			if r.t == nil && name != "IsValid" && name != "Kind" && name != "String" {
				m.goPanicPlain("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(m, fr, r, a)
		}, "(reflect.Value)."+name, "(internal/reflectlite.Value)."+name)
	}
	reg(func(m *Machine, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return m.mkType(i.t)
	}, "reflect.TypeOf", "internal/reflectlite.TypeOf")
	reg(func(m *Machine, fr *frame, a []Value) Value { return m.valueOf(a[0].(Iface)) }, "reflect.ValueOf", "internal/reflectlite.ValueOf")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return m.mkType(fr.c.fn.TypeArgs()[0])
	}, "reflect.TypeFor")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		at := canon(fr.c.fn.TypeArgs()[0])
		r := a[0].(RV)
		if r.t == nil {
			m.goPanicPlain("reflect.TypeAssert: zero Value")
		}
		i := m.rvInterface(r).(Iface)
		if it, ok := at.Underlying().(*types.Interface); ok {
			if i.t != nil && m.eng.ld.implements(i.t, it, at) {
				return Tuple{i, true}
			}
			return Tuple{Iface{}, false}
		}
		if i.t == at {
			return Tuple{copyVal(i.v), true}
		}
		return Tuple{zero(at), false}
	}, "reflect.TypeAssert")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		p := new(Value)
		*p = zero(t)
		return RV{t: ptrTo(t), v: p}
	}, "reflect.New")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RV{t: canon(t), v: zero(t)}
	}, "reflect.Zero")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return m.mkType(types.NewPointer(a[0].(Iface).v.(RType).t))
	}, "reflect.PointerTo", "reflect.PtrTo")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return m.mkType(types.NewSlice(a[0].(Iface).v.(RType).t))
	}, "reflect.SliceOf")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		r := a[0].(RV)
		if r.t != nil {
			if _, ok := r.t.Underlying().(*types.Pointer); ok {
				return m.rvElem(r)
			}
		}
		return r
	}, "reflect.Indirect")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RV{t: canon(t), v: m.makeSlice(t.Underlying().(*types.Slice).Elem(), a[1], a[2])}
	}, "reflect.MakeSlice")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RV{t: canon(t), v: newMap()}
	}, "reflect.MakeMap")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		r := a[0].(RV)
		et := r.t.Underlying().(*types.Slice).Elem()
		var add []Value
		for _, x := range a[1].(Slice) {
			add = append(add, m.rvAs(x.(RV), et))
		}
		s := m.rvGet(r).(Slice)
		if len(add) == 0 {
			return RV{t: r.t, v: s}
		}
		return RV{t: r.t, v: m.appendVals(s, add, []types.Type{r.t})}
	}, "reflect.Append")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		d, s := a[0].(RV), a[1].(RV)
		var dst []Value
		switch x := m.rvGet(d).(type) {
		case Slice:
			dst = x
		case Array:
			dst = x
		}
		var src []Value
		switch x := m.rvGet(s).(type) {
		case Slice:
			src = x
		case Array:
			src = x
		default:
			src = m.strBytes(x)
		}
		n := copy(dst, src)
		return intV(n)
	}, "reflect.Copy")
	reg(func(m *Machine, fr *frame, a []Value) Value {
		return m.deepEqual(fr, a[0], a[1], 0)
	}, "reflect.DeepEqual")

	R("Kind", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if r.t == nil {
			return mkI(0)
		}
		return kindV(r.t)
	})
	R("IsValid", func(m *Machine, fr *frame, r RV, a []Value) Value { return r.t != nil })
	R("Type", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.mkType(r.t) })
	R("Elem", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.rvElem(r) })
	R("CanAddr", func(m *Machine, fr *frame, r RV, a []Value) Value { return r.p != nil })
	R("CanSet", func(m *Machine, fr *frame, r RV, a []Value) Value { return r.p != nil && !r.ro })
	R("CanInterface", func(m *Machine, fr *frame, r RV, a []Value) Value { return !r.ro })
	R("Addr", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if r.p == nil {
			m.goPanicPlain("reflect.Value.Addr of unaddressable value")
		}
		return RV{t: ptrTo(r.t), v: r.p, ro: r.ro}
	})
	R("Interface", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if r.ro {
			m.goPanicPlain("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.rvInterface(r)
	})
	R("IsNil", func(m *Machine, fr *frame, r RV, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case Ptr:
			return x == nil
		case Slice:
			return x == nil
		case *Map:
			return x == nil
		case Iface:
			return x.t == nil
		case *Closure:
			return x == nil
		case *Chan:
			return x == nil
		}
		rvPanic(m, "IsNil", kindOf(r.t))
		return nil
	})
	R("IsZero", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.isZeroVal(m.rvGet(r), r.t) })
	R("NumField", func(m *Machine, fr *frame, r RV, a []Value) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			rvPanic(m, "NumField", kindOf(r.t))
		}
		return intV(st.NumFields())
	})
	R("Field", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.rvField(r, m.int(a[1])) })
	R("FieldByIndex", func(m *Machine, fr *frame, r RV, a []Value) Value {
		for i, x := range a[1].(Slice) {
			if i > 0 {
				if _, ok := r.t.Underlying().(*types.Pointer); ok {
					r = m.rvElem(r)
				}
			}
			r = m.rvField(r, m.int(x))
		}
		return r
	})
	R("FieldByName", func(m *Machine, fr *frame, r RV, a []Value) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			rvPanic(m, "FieldByName", kindOf(r.t))
		}
		want := m.concStr(a[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == want {
				return m.rvField(r, i)
			}
		}
		return RV{}
	})
	R("NumMethod", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if it, ok := r.t.Underlying().(*types.Interface); ok {
			return intV(it.NumMethods())
		}
		return intV(len(m.exportedMethods(r.t)))
	})
	R("MethodByName", func(m *Machine, fr *frame, r RV, a []Value) Value {
		want := m.concStr(a[1])
		for _, s := range m.exportedMethods(r.t) {
			if s.Obj().Name() == want {
				return m.rvMethod(r, m.eng.ld.prog.MethodValue(s))
			}
		}
		return RV{}
	})
	R("Method", func(m *Machine, fr *frame, r RV, a []Value) Value {
		ms := m.exportedMethods(r.t)
		i := m.int(a[1])
		if i < 0 || i >= len(ms) {
			m.goPanicPlain("reflect: Method index out of range")
		}
		return m.rvMethod(r, m.eng.ld.prog.MethodValue(ms[i]))
	})
	R("Call", func(m *Machine, fr *frame, r RV, a []Value) Value {
		sig := r.t.Underlying().(*types.Signature)
		c := m.rvGet(r).(*Closure)
		var in []Value
		for i, x := range a[1].(Slice) {
			in = append(in, m.rvAs(x.(RV), sig.Params().At(i).Type()))
		}
		if sig.Params().Len() != len(in) {
			m.goPanicPlain("reflect: Call with too few input arguments")
		}
		res := m.callClosure(fr, c, in)
		out := Slice{}
		switch n := sig.Results().Len(); n {
		case 0:
			return Slice(nil)
		case 1:
			out = append(out, RV{t: canon(sig.Results().At(0).Type()), v: res})
		default:
			for i, v := range res.(Tuple) {
				out = append(out, RV{t: canon(sig.Results().At(i).Type()), v: v})
			}
		}
		return out
	})
	R("Len", func(m *Machine, fr *frame, r RV, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case Slice:
			return intV(len(x))
		case Array:
			return intV(len(x))
		case *Map:
			if x == nil {
				return mkI(0)
			}
			return intV(x.n)
		case string, *SymStr, *ChoiceStr:
			return m.strLen(x)
		}
		rvPanic(m, "Len", kindOf(r.t))
		return nil
	})
	R("Cap", func(m *Machine, fr *frame, r RV, a []Value) Value {
		return intV(cap(m.rvGet(r).(Slice)))
	})
	R("Index", func(m *Machine, fr *frame, r RV, a []Value) Value {
		i := m.int(a[1])
		switch x := m.rvGet(r).(type) {
		case Slice:
			if i < 0 || i >= len(x) {
				m.goPanicPlain("reflect: slice index out of range")
			}
			return RV{t: canon(r.t.Underlying().(*types.Slice).Elem()), p: &x[i], ro: r.ro}
		case Array:
			if i < 0 || i >= len(x) {
				m.goPanicPlain("reflect: array index out of range")
			}
			out := RV{t: canon(r.t.Underlying().(*types.Array).Elem()), ro: r.ro}
			if r.p != nil {
				out.p = &x[i]
			} else {
				out.v = x[i]
			}
			return out
		case string, *SymStr:
			return RV{t: types.Typ[types.Uint8], v: m.index(x, intV(i), true)}
		}
		rvPanic(m, "Index", kindOf(r.t))
		return nil
	})
	R("Int", func(m *Machine, fr *frame, r RV, a []Value) Value {
		w, signed, ok := intInfo(r.t)
		if !ok || !signed {
			rvPanic(m, "Int", kindOf(r.t))
		}
		switch x := m.rvGet(r).(type) {
		case I:
			return mkI(uint64(sext(uint64(x), w)))
		case *Term:
			return m.norm(m.resize(x, true, 64))
		}
		panic(m.unsupported("Value.Int"))
	})
	R("Uint", func(m *Machine, fr *frame, r RV, a []Value) Value {
		_, signed, ok := intInfo(r.t)
		if !ok || signed {
			rvPanic(m, "Uint", kindOf(r.t))
		}
		switch x := m.rvGet(r).(type) {
		case I:
			return x
		case *Term:
			return m.norm(m.resize(x, false, 64))
		}
		panic(m.unsupported("Value.Uint"))
	})
	R("Float", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.rvGet(r) })
	R("Bool", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.rvGet(r) })
	R("String", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if r.t == nil {
			return "<invalid Value>"
		}
		if kindOf(r.t) == reflect.String {
			return m.rvGet(r)
		}
		return "<" + typeString(r.t) + " Value>"
	})
	R("Bytes", func(m *Machine, fr *frame, r RV, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case Slice:
			return x
		case Array:
			return Slice(x)
		}
		panic(m.unsupported("Value.Bytes"))
	})
	R("Pointer", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.rvGet(r) })
	R("UnsafePointer", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.rvGet(r) })
	R("Set", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.rvSet(r, m.rvAs(a[1].(RV), r.t))
		return nil
	})
	R("SetZero", func(m *Machine, fr *frame, r RV, a []Value) Value { m.rvSet(r, zero(r.t)); return nil })
	setN := func(m *Machine, fr *frame, r RV, a []Value) Value {
		w, _, ok := intInfo(r.t)
		if !ok {
			rvPanic(m, "SetInt", kindOf(r.t))
		}
		switch x := a[1].(type) {
		case I:
			m.rvSet(r, mkI(uint64(x)&mask(w)))
		case *Term:
			m.rvSet(r, m.norm(m.tc.Trunc(x, w)))
		}
		return nil
	}
	R("SetInt", setN)
	R("SetUint", setN)
	set := func(m *Machine, fr *frame, r RV, a []Value) Value { m.rvSet(r, a[1]); return nil }
	R("SetFloat", set)
	R("SetBool", set)
	R("SetString", set)
	R("SetBytes", set)
	R("SetLen", func(m *Machine, fr *frame, r RV, a []Value) Value {
		s := m.rvGet(r).(Slice)
		n := m.int(a[1])
		if n < 0 || n > cap(s) {
			m.goPanicPlain("reflect: slice length out of range in SetLen")
		}
		m.rvSet(r, s[:n])
		return nil
	})
	R("Grow", func(m *Machine, fr *frame, r RV, a []Value) Value {
		s := m.rvGet(r).(Slice)
		n := m.int(a[1])
		if len(s)+n > cap(s) {
			c := max(len(s)+n, 2*cap(s), 1)
			ns := m.makeSlice(r.t.Underlying().(*types.Slice).Elem(), intV(c), intV(c)).(Slice)
			for i := range s {
				ns[i] = s[i]
			}
			m.rvSet(r, ns[:len(s)])
		}
		return nil
	})
	R("Slice", func(m *Machine, fr *frame, r RV, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case Slice:
			return RV{t: r.t, v: m.reslice(x, m.int(a[1]), m.int(a[2]), cap(x))}
		case Array:
			if r.p == nil {
				m.goPanicPlain("reflect.Value.Slice: slice of unaddressable array")
			}
			et := r.t.Underlying().(*types.Array).Elem()
			return RV{t: canon(types.NewSlice(et)), v: m.reslice(Slice(x), m.int(a[1]), m.int(a[2]), len(x))}
		case string, *SymStr:
			return RV{t: r.t, v: m.substr(x, m.int(a[1]), m.int(a[2]))}
		}
		panic(m.unsupported("Value.Slice"))
	})
	R("MapKeys", func(m *Machine, fr *frame, r RV, a []Value) Value {
		out := Slice{}
		mp, _ := m.rvGet(r).(*Map)
		kt := canon(r.t.Underlying().(*types.Map).Key())
		if mp != nil {
			for _, e := range mp.ents {
				out = append(out, RV{t: kt, v: e.k})
			}
		}
		return out
	})
	R("MapIndex", func(m *Machine, fr *frame, r RV, a []Value) Value {
		mp, _ := m.rvGet(r).(*Map)
		mt := r.t.Underlying().(*types.Map)
		e := m.mapFind(mp, m.rvAs(a[1].(RV), mt.Key()))
		if e == nil {
			return RV{}
		}
		return RV{t: canon(mt.Elem()), v: e.v}
	})
	R("SetMapIndex", func(m *Machine, fr *frame, r RV, a []Value) Value {
		mp, _ := m.rvGet(r).(*Map)
		mt := r.t.Underlying().(*types.Map)
		if mp == nil {
			m.goPanicPlain("assignment to entry in nil map")
		}
		m.mapSet(mp, m.rvAs(a[1].(RV), mt.Key()), m.rvAs(a[2].(RV), mt.Elem()))
		return nil
	})
	R("Convert", func(m *Machine, fr *frame, r RV, a []Value) Value {
		t := a[1].(Iface).v.(RType).t
		if types.Identical(r.t.Underlying(), t.Underlying()) {
			return RV{t: canon(t), v: copyVal(m.rvGet(r))}
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return RV{t: canon(t), v: m.rvInterface(r)}
		}
		panic(m.unsupported("Value.Convert"))
	})
	R("Comparable", func(m *Machine, fr *frame, r RV, a []Value) Value { return types.Comparable(r.t) })
	R("Equal", func(m *Machine, fr *frame, r RV, a []Value) Value {
		o := a[1].(RV)
		if o.t == nil || o.t != r.t {
			return false
		}
		return m.equal(m.rvGet(r), m.rvGet(o))
	})
	R("CanInt", func(m *Machine, fr *frame, r RV, a []Value) Value {
		_, s, ok := intInfo(r.t)
		return ok && s
	})
	R("OverflowInt", func(m *Machine, fr *frame, r RV, a []Value) Value {
		w, _, _ := intInfo(r.t)
		switch x := a[1].(type) {
		case I:
			return uint64(sext(uint64(x)&mask(w), w)) != uint64(x)
		case *Term:
			return m.not(m.norm(m.tc.Eq(m.tc.SExt(m.tc.Trunc(x, w), 64), x)))
		}
		return false
	})
}

// deepEqual follows reflect.DeepEqual; the result may be a term.
func (m *Machine) deepEqual(fr *frame, a, b Value, depth int) Value {
	if depth > 200 {
		panic(m.unsupported("DeepEqual depth"))
	}
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return m.deepEqual(fr, x.v, y.v, depth+1)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return m.deepEqual(fr, *x, *y, depth+1)
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var acc Value = true
		for i := range x {
			acc = m.and(acc, m.deepEqual(fr, x[i], y[i], depth+1))
			if acc == false {
				return false
			}
		}
		return acc
	case Struct:
		y := b.(Struct)
		var acc Value = true
		for i := range x {
			acc = m.and(acc, m.deepEqual(fr, x[i], y[i], depth+1))
			if acc == false {
				return false
			}
		}
		return acc
	case Array:
		y := b.(Array)
		var acc Value = true
		for i := range x {
			acc = m.and(acc, m.deepEqual(fr, x[i], y[i], depth+1))
			if acc == false {
				return false
			}
		}
		return acc
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil || x == y {
			return true
		}
		if x.n != y.n {
			return false
		}
		var acc Value = true
		for _, e := range x.ents {
			f := m.mapFind(y, e.k)
			if f == nil {
				return false
			}
			acc = m.and(acc, m.deepEqual(fr, e.v, f.v, depth+1))
		}
		return acc
	case *Closure:
		y := b.(*Closure)
		return x == nil && y == nil
	}
	return m.equal(a, b)
}
