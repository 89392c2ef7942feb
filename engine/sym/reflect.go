package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/types/typeutil"

	"gosym/smt"
)

// rtypeIface is the reflect.Type of t: a canonical object per type.
func (m *Machine) rtypeIface(t types.Type) Iface {
	if m.rtypes == nil {
		m.rtypes = &typeutil.Map{}
		m.rtypeOf = map[*Object]types.Type{}
	}
	o, _ := m.rtypes.At(t).(*Object)
	if o == nil {
		m.initDepth++
		o = m.newObject(types.Typ[types.Int], 1)
		m.initDepth--
		o.base = true
		o.site = "type " + t.String()
		m.rtypes.Set(t, o)
		m.rtypeOf[o] = t
	}
	rp := m.P.SSA.ImportedPackage("reflect")
	if rp == nil {
		m.unsupported("reflect is not loaded")
	}
	return Iface{T: m.ptrTo(rp.Type("rtype").Type()), V: Ptr{Obj: o}}
}

// ptrTo returns the canonical pointer type to t.
func (m *Machine) ptrTo(t types.Type) types.Type {
	if m.ptrs == nil {
		m.ptrs = &typeutil.Map{}
	}
	if p, ok := m.ptrs.At(t).(types.Type); ok {
		return p
	}
	p := types.NewPointer(t)
	m.ptrs.Set(t, p)
	return p
}

func (m *Machine) typeArg(v Value) types.Type {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	p, ok := v.(Ptr)
	if !ok || p.Obj == nil {
		panic(sigGoPanic{m.runtimeError(nilDeref)})
	}
	t := m.rtypeOf[p.Obj]
	if t == nil {
		m.unsupported("reflect on an unknown type")
	}
	return t
}

// reflectValue packs an interface value into a reflect.Value.
func (m *Machine) reflectValue(i Iface, ret types.Type) Value {
	a := m.zero(ret).(*Agg)
	if i.T != nil {
		a.L[0] = m.rtypeIface(i.T).V
		a.L[1] = i
	}
	return a
}

func (m *Machine) unreflect(v Value) Iface {
	a := v.(*Agg)
	i, ok := a.L[1].(Iface)
	if !ok {
		return Iface{}
	}
	return i
}

func typeNameOf(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func init() {
	add := map[string]intrinsic{
		"reflect.TypeOf": func(m *Machine, c *Call) Value {
			e := c.Args[0].(Iface)
			if e.T == nil {
				return Iface{}
			}
			return m.rtypeIface(e.T)
		},
		"internal/reflectlite.TypeOf": func(m *Machine, c *Call) Value {
			e := c.Args[0].(Iface)
			if e.T == nil {
				return Iface{}
			}
			return m.rtypeIface(e.T)
		},
		"(*reflect.rtype).Comparable": func(m *Machine, c *Call) Value { return m.C.Bool(types.Comparable(m.typeArg(c.Args[0]))) },
		"reflect.ValueOf": func(m *Machine, c *Call) Value {
			return m.reflectValue(c.Args[0].(Iface), resultType(c.Fn))
		},
		"reflect.New": func(m *Machine, c *Call) Value {
			t := m.typeArg(c.Args[0])
			m.addAlloc(m.constInt(m.sizes.Sizeof(t)))
			return m.reflectValue(Iface{T: m.ptrTo(t), V: Ptr{Obj: m.newObject(t, 1)}}, resultType(c.Fn))
		},
		"reflect.Zero": func(m *Machine, c *Call) Value {
			t := m.typeArg(c.Args[0])
			return m.reflectValue(Iface{T: t, V: m.zero(t)}, resultType(c.Fn))
		},
		"(reflect.Value).Interface": func(m *Machine, c *Call) Value { return m.unreflect(c.Args[0]) },
		"(reflect.Value).IsValid":   func(m *Machine, c *Call) Value { return m.C.Bool(m.unreflect(c.Args[0]).T != nil) },
		"(reflect.Value).IsNil": func(m *Machine, c *Call) Value {
			i := m.unreflect(c.Args[0])
			switch v := i.V.(type) {
			case Ptr:
				return m.C.Bool(v.Obj == nil)
			case Slice:
				return m.C.Bool(v.Obj == nil)
			case *MapObj:
				return m.C.Bool(v == nil)
			case *ChanObj:
				return m.C.Bool(v == nil)
			case *Closure:
				return m.C.Bool(v == nil)
			}
			m.unsupported("reflect.Value.IsNil")
			return nil
		},
		"(reflect.Value).Type": func(m *Machine, c *Call) Value { return m.rtypeIface(m.unreflect(c.Args[0]).T) },
		"(*reflect.rtype).Elem": func(m *Machine, c *Call) Value {
			switch u := under(m.typeArg(c.Args[0])).(type) {
			case *types.Pointer:
				return m.rtypeIface(u.Elem())
			case *types.Slice:
				return m.rtypeIface(u.Elem())
			}
			m.unsupported("reflect Elem")
			return nil
		},
		"(*reflect.rtype).String": func(m *Machine, c *Call) Value { return Str{S: typeNameOf(m.typeArg(c.Args[0]))} },
		"(*reflect.rtype).Name": func(m *Machine, c *Call) Value {
			if n, ok := m.typeArg(c.Args[0]).(*types.Named); ok {
				return Str{S: n.Obj().Name()}
			}
			return Str{}
		},
		"reflect.DeepEqual": func(m *Machine, c *Call) Value {
			a, b := c.Args[0].(Iface), c.Args[1].(Iface)
			if a.T == nil || b.T == nil {
				return m.C.Bool(a.T == nil && b.T == nil)
			}
			if !types.Identical(a.T, b.T) {
				return m.C.False
			}
			return m.deepEq(a.T, a.V, b.V, 0)
		},
	}
	for k, v := range add {
		intrinsics[k] = v
	}
}

func (m *Machine) deepEq(t types.Type, a, b Value, depth int) *smt.Term {
	if depth > 20 {
		m.unsupported("deep comparison")
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p == q {
			return m.C.True
		}
		if p.Obj == nil || q.Obj == nil {
			return m.C.False
		}
		return m.deepEq(u.Elem(), m.loadShared(nil, p, u.Elem()), m.loadShared(nil, q, u.Elem()), depth+1)
	case *types.Slice:
		p, q := a.(Slice), b.(Slice)
		if (p.Obj == nil) != (q.Obj == nil) {
			return m.C.False
		}
		n, k := m.concreteLen(p.Len), m.concreteLen(q.Len)
		if n != k {
			return m.C.False
		}
		r := m.C.True
		per := m.leaves(u.Elem())
		for i := 0; i < n; i++ {
			x := m.loadShared(nil, Ptr{p.Obj, p.Off + i*per}, u.Elem())
			y := m.loadShared(nil, Ptr{q.Obj, q.Off + i*per}, u.Elem())
			r = m.C.BAnd(r, m.deepEq(u.Elem(), x, y, depth+1))
		}
		return r
	case *types.Struct:
		x, y := a.(*Agg), b.(*Agg)
		l := m.layoutOf(t)
		r := m.C.True
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r = m.C.BAnd(r, m.deepEq(ft, m.sub(x, l.fields[i], ft), m.sub(y, l.fields[i], ft), depth+1))
		}
		return r
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.T == nil || y.T == nil {
			return m.C.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return m.C.False
		}
		return m.deepEq(x.T, x.V, y.V, depth+1)
	case *types.Map, *types.Array, *types.Signature:
		m.unsupported(fmt.Sprintf("deep comparison of %v", t))
	}
	return m.eq(t, a, b)
}

// sub extracts the component of type t at leaf offset off.
func (m *Machine) sub(a *Agg, off int, t types.Type) Value {
	if !isAgg(t) {
		return a.L[off]
	}
	return &Agg{L: a.L[off : off+m.leaves(t)]}
}
