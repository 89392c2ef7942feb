package sym

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

type intrinsic = func(m *Machine, c *Call) Value

var intrinsics map[string]intrinsic

const vp = "vharness/verif."

func unit() Value { return Tuple{} }

func (m *Machine) constStr(v Value, what string) string {
	s, ok := v.(Str)
	if !ok || s.T != nil {
		m.unsupported(what + " must be a constant string")
	}
	return s.S
}

// nondet draws an integer input.
func nondet(w uint8, kind string) intrinsic {
	return func(m *Machine, c *Call) Value {
		name := m.constStr(c.Args[0], "input name")
		t := m.X.fresh(name, w)
		m.X.inputs = append(m.X.inputs, &Input{Name: name, Kind: kind, terms: []*smt.Term{t}, w: w})
		return t
	}
}

func (m *Machine) nondetBytes(name, kind string, n int) []*smt.Term {
	base := m.X.names[name]
	m.X.names[name] = base + 1
	if base > 0 {
		name = fmt.Sprintf("%s#%d", name, base)
	}
	ts := make([]*smt.Term, n)
	for i := range ts {
		ts[i] = m.X.fresh(fmt.Sprintf("%s[%d]", name, i), 8)
	}
	m.X.inputs = append(m.X.inputs, &Input{Name: name, Kind: kind, terms: ts, w: 8})
	return ts
}

func ptrElem(t types.Type) types.Type { return under(t).(*types.Pointer).Elem() }

// atomic helpers work on leaves.
func atomicLoad(m *Machine, c *Call) Value {
	p := m.argPtr(c.Args[0])
	return m.atomicGet(c.G, p)
}

func atomicStore(m *Machine, c *Call) Value {
	p := m.argPtr(c.Args[0])
	m.atomicSet(c.G, p, c.Args[1])
	return unit()
}

func atomicAdd(m *Machine, c *Call) Value {
	p := m.argPtr(c.Args[0])
	v := m.atomicRMW(c.G, p, func(old Value) Value { return m.C.Add(old.(*smt.Term), c.Args[1].(*smt.Term)) })
	return m.C.Add(v.(*smt.Term), c.Args[1].(*smt.Term))
}

func atomicSwap(m *Machine, c *Call) Value {
	p := m.argPtr(c.Args[0])
	return m.atomicRMW(c.G, p, func(Value) Value { return c.Args[1] })
}

func atomicCAS(m *Machine, c *Call) Value {
	p := m.argPtr(c.Args[0])
	ok := false
	t := ptrElem(firstParam(c.Fn.Signature))
	m.atomicRMW(c.G, p, func(old Value) Value {
		ok = m.branch(m.eq(t, old, c.Args[1]))
		if ok {
			return c.Args[2]
		}
		return old
	})
	return m.C.Bool(ok)
}

func (m *Machine) decompose(e Iface) (string, []Value) {
	if e.T == nil {
		return "nil", nil
	}
	conv := func(t types.Type, v Value) Value {
		if types.IsInterface(t) {
			return v
		}
		return Iface{T: t, V: v}
	}
	switch u := under(e.T).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string", []Value{Iface{T: types.Typ[types.String], V: e.V}}
		case u.Info()&types.IsBoolean != 0:
			return "bool", []Value{Iface{T: types.Typ[types.Bool], V: e.V}}
		case u.Info()&types.IsInteger != 0:
			t, ok := e.V.(*smt.Term)
			if !ok {
				return "other", nil
			}
			if u.Info()&types.IsUnsigned != 0 {
				return "uint", []Value{Iface{T: types.Typ[types.Uint64], V: m.C.ZExt(t, 64)}}
			}
			return "int", []Value{Iface{T: types.Typ[types.Int64], V: m.C.SExt(t, 64)}}
		}
	case *types.Slice:
		s := e.V.(Slice)
		kind := "slice"
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			kind = "bytes"
		}
		n := m.concreteLen(s.Len)
		per := m.leaves(u.Elem())
		r := make([]Value, n)
		for i := range r {
			r[i] = conv(u.Elem(), m.loadShared(nil, Ptr{s.Obj, s.Off + i*per}, u.Elem()))
		}
		return kind, r
	case *types.Array:
		kind := "slice"
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			kind = "bytes"
		}
		per := m.leaves(u.Elem())
		r := make([]Value, u.Len())
		for i := range r {
			r[i] = conv(u.Elem(), m.sub(e.V.(*Agg), i*per, u.Elem()))
		}
		return kind, r
	case *types.Struct:
		l := m.layoutOf(e.T)
		r := make([]Value, 0, 2*u.NumFields())
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r = append(r, Iface{T: types.Typ[types.String], V: Str{S: u.Field(i).Name()}}, conv(ft, m.sub(e.V.(*Agg), l.fields[i], ft)))
		}
		return "struct", r
	case *types.Pointer:
		if p, ok := e.V.(Ptr); ok && p.Obj == nil {
			return "nilptr", nil
		} else if ok {
			switch under(u.Elem()).(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return "ptr", []Value{conv(u.Elem(), m.loadShared(nil, p, u.Elem()))}
			}
		}
	}
	return "other", nil
}

// valueRMW models the methods of atomic.Value, which insist on one concrete type.
func valueRMW(name string, f func(m *Machine, c *Call, p Ptr, check func(old, v Value)) Value) intrinsic {
	return func(m *Machine, c *Call) Value {
		fail := func(msg string) {
			panic(sigGoPanic{Iface{T: types.Typ[types.String], V: Str{S: "sync/atomic: " + name + " of " + msg + " value"}}})
		}
		return f(m, c, m.argPtr(c.Args[0]), func(old, v Value) {
			n := v.(Iface)
			if n.T == nil {
				fail("nil")
			}
			if o := old.(Iface); o.T != nil && !types.Identical(o.T, n.T) {
				fail("inconsistently typed")
			}
		})
	}
}

var (
	valueStore = valueRMW("store", func(m *Machine, c *Call, p Ptr, check func(old, v Value)) Value {
		m.atomicRMW(c.G, p, func(old Value) Value { check(old, c.Args[1]); return c.Args[1] })
		return unit()
	})
	valueSwap = valueRMW("swap", func(m *Machine, c *Call, p Ptr, check func(old, v Value)) Value {
		return m.atomicRMW(c.G, p, func(old Value) Value { check(old, c.Args[1]); return c.Args[1] })
	})
	valueCAS = valueRMW("compare and swap", func(m *Machine, c *Call, p Ptr, check func(old, v Value)) Value {
		ok := false
		m.atomicRMW(c.G, p, func(old Value) Value {
			check(old, c.Args[2])
			if e := c.Args[1].(Iface); e.T != nil {
				check(e, c.Args[2])
			}
			if ok = m.branch(m.eq(types.NewInterfaceType(nil, nil), old, c.Args[1])); ok {
				return c.Args[2]
			}
			return old
		})
		return m.C.Bool(ok)
	})
)

func atomicBits(or bool) intrinsic {
	return func(m *Machine, c *Call) Value {
		return m.atomicRMW(c.G, m.argPtr(c.Args[0]), func(old Value) Value {
			x, y := old.(*smt.Term), c.Args[1].(*smt.Term)
			if or {
				return m.C.Or(x, y)
			}
			return m.C.And(x, y)
		})
	}
}

func firstParam(s *types.Signature) types.Type {
	if s.Recv() != nil {
		return s.Recv().Type()
	}
	return s.Params().At(0).Type()
}

func (m *Machine) argPtr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		if p.Obj == nil {
			panic(sigGoPanic{m.runtimeError(nilDeref)})
		}
		return p
	case SymPtr:
		return m.resolve(p)
	}
	m.unsupported(fmt.Sprintf("internal: %T as pointer argument", v))
	return Ptr{}
}

func init() {
	intrinsics = map[string]intrinsic{
		vp + "Byte":   nondet(8, "uint"),
		vp + "Uint16": nondet(16, "uint"),
		vp + "Uint32": nondet(32, "uint"),
		vp + "Int16":  nondet(16, "int"),
		vp + "Int32":  nondet(32, "int"),
		vp + "Int64":  nondet(64, "int"),
		vp + "Int":    nondet(64, "int"),
		vp + "Bool":   nondet(0, "uint"),
		vp + "Choice": func(m *Machine, c *Call) Value {
			name := m.constStr(c.Args[0], "input name")
			n := m.concretize(c.Args[1].(*smt.Term))
			t := m.X.fresh(name, 16)
			m.X.inputs = append(m.X.inputs, &Input{Name: name, Kind: "uint", terms: []*smt.Term{t}, w: 16})
			m.assume(m.C.Ult(t, m.C.Const(16, n)))
			return m.constInt(int64(m.concretize(t)))
		},
		vp + "IntRange": func(m *Machine, c *Call) Value {
			name := m.constStr(c.Args[0], "input name")
			t := m.X.fresh(name, 64)
			m.X.inputs = append(m.X.inputs, &Input{Name: name, Kind: "int", terms: []*smt.Term{t}, w: 64})
			lo, hi := c.Args[1].(*smt.Term), c.Args[2].(*smt.Term)
			m.assume(m.C.BAnd(m.C.Sle(lo, t), m.C.Sle(t, hi)))
			return t
		},
		vp + "Bytes": func(m *Machine, c *Call) Value {
			name := m.constStr(c.Args[0], "input name")
			n := int(m.concretize(c.Args[1].(*smt.Term)))
			ts := m.nondetBytes(name, "bytes", n)
			o := m.newObject(types.Typ[types.Uint8], n)
			for i, t := range ts {
				m.set(o, i, t)
			}
			l := m.constInt(int64(n))
			return Slice{Obj: o, Len: l, Cap: l}
		},
		vp + "String": func(m *Machine, c *Call) Value {
			name := m.constStr(c.Args[0], "input name")
			n := int(m.concretize(c.Args[1].(*smt.Term)))
			ts := m.nondetBytes(name, "string", n)
			if n == 0 {
				return Str{}
			}
			return Str{T: ts}
		},
		vp + "Assume": func(m *Machine, c *Call) Value {
			m.assume(c.Args[0].(*smt.Term))
			return unit()
		},
		vp + "Assert": func(m *Machine, c *Call) Value {
			msg := m.constStr(c.Args[1], "assertion text")
			m.assert(c.Args[0].(*smt.Term), msg)
			return unit()
		},
		vp + "Cover": func(m *Machine, c *Call) Value {
			s := m.constStr(c.Args[0], "cover name")
			m.X.covers = append(m.X.covers, s)
			return unit()
		},
		vp + "AllocBytes": func(m *Machine, c *Call) Value { return m.alloc },
		vp + "Thorough":   func(m *Machine, c *Call) Value { return m.C.Bool(m.P.Thorough) },
		vp + "Symbolic":   func(m *Machine, c *Call) Value { return m.C.True },
		vp + "Concrete": func(m *Machine, c *Call) Value {
			return m.constInt(int64(m.concretize(c.Args[0].(*smt.Term))))
		},
		vp + "Settle": func(m *Machine, c *Call) Value {
			g := c.G
			if m.active() {
				if g.granted {
					g.granted = false
					return unit()
				}
				g.pend = &pendOp{what: "settle", settle: true}
				panic(sigBlock{})
			}
			if g.parked && !g.idle { // woken up
				g.parked = false
				return unit()
			}
			g.idle, g.parked = true, true
			panic(sigBlock{})
		},
		// two-way split without forking: a != 0 ? x : y
		vp + "Ite": func(m *Machine, c *Call) Value {
			return m.C.Ite(c.Args[0].(*smt.Term), c.Args[1].(*smt.Term), c.Args[2].(*smt.Term))
		},
		vp + "And": func(m *Machine, c *Call) Value {
			return m.C.BAnd(c.Args[0].(*smt.Term), c.Args[1].(*smt.Term))
		},
		vp + "Or": func(m *Machine, c *Call) Value {
			return m.C.BOr(c.Args[0].(*smt.Term), c.Args[1].(*smt.Term))
		},
		vp + "EqBytes": func(m *Machine, c *Call) Value {
			a, b := c.Args[0].(Slice), c.Args[1].(Slice)
			n, k := m.concreteLen(a.Len), m.concreteLen(b.Len)
			if n != k {
				return m.C.False
			}
			r := m.C.True
			for i := 0; i < n; i++ {
				r = m.C.BAnd(r, m.C.Eq(m.getShared(a.Obj, a.Off+i).(*smt.Term), m.getShared(b.Obj, b.Off+i).(*smt.Term)))
			}
			return r
		},
		vp + "EqStr": func(m *Machine, c *Call) Value { return m.strEq(c.Args[0].(Str), c.Args[1].(Str)) },
		// assignTo(err, target): when err's dynamic type is assignable to *target, stores it
		vp + "AssignTo": func(m *Machine, c *Call) Value {
			e, tg := c.Args[0].(Iface), c.Args[1].(Iface)
			if e.T == nil || tg.T == nil {
				return m.C.False
			}
			pt, ok := under(tg.T).(*types.Pointer)
			if !ok {
				panic(sigGoPanic{m.runtimeError("errors: target must be a non-nil pointer")})
			}
			p := m.argPtr(tg.V)
			if types.IsInterface(pt.Elem()) {
				if m.implements(e.T, pt.Elem()) {
					m.storeShared(nil, p, pt.Elem(), e)
					return m.C.True
				}
				return m.C.False
			}
			if types.Identical(e.T, pt.Elem()) {
				m.storeShared(nil, p, pt.Elem(), e.V)
				return m.C.True
			}
			return m.C.False
		},
		vp + "Comparable": func(m *Machine, c *Call) Value {
			e := c.Args[0].(Iface)
			return m.C.Bool(e.T == nil || types.Comparable(e.T))
		},
		vp + "TypeName": func(m *Machine, c *Call) Value {
			e := c.Args[0].(Iface)
			if e.T == nil {
				return Str{S: "<nil>"}
			}
			return Str{S: types.TypeString(e.T, func(p *types.Package) string { return p.Name() })}
		},
		// Decompose(x): the kind of x and its parts, for formatting
		vp + "Decompose": func(m *Machine, c *Call) Value {
			e := c.Args[0].(Iface)
			kind, parts := m.decompose(e)
			et := types.Type(types.NewInterfaceType(nil, nil))
			o := m.newObject(et, len(parts))
			for i, x := range parts {
				m.set(o, i, x)
			}
			n := m.constInt(int64(len(parts)))
			return Tuple{Str{S: kind}, Slice{Obj: o, Len: n, Cap: n}}
		},
		"maps.clone": func(m *Machine, c *Call) Value {
			e := c.Args[0].(Iface)
			old, _ := e.V.(*MapObj)
			if old == nil {
				return e
			}
			m.mapAccess(old, false)
			mo := &MapObj{id: m.nextID(), base: m.initDepth > 0, epoch: m.born(), typ: old.typ}
			for _, x := range old.E {
				if !x.dead {
					mo.E = append(mo.E, &MapEntry{K: x.K, V: x.V})
					mo.n++
				}
			}
			m.addAlloc(m.constInt(int64(48 + 64*mo.n)))
			return Iface{T: e.T, V: mo}
		},
		vp + "SliceLen": func(m *Machine, c *Call) Value { return c.Args[0].(Iface).V.(Slice).Len },
		vp + "SliceSwap": func(m *Machine, c *Call) Value {
			e := c.Args[0].(Iface)
			s := e.V.(Slice)
			elem := under(e.T).(*types.Slice).Elem()
			per := m.leaves(elem)
			i, j := c.Args[1].(*smt.Term), c.Args[2].(*smt.Term)
			p, q := Ptr{s.Obj, s.Off + m.concreteLen(i)*per}, Ptr{s.Obj, s.Off + m.concreteLen(j)*per}
			x, y := m.loadShared(nil, p, elem), m.loadShared(nil, q, elem)
			m.storeShared(nil, p, elem, y)
			m.storeShared(nil, q, elem, x)
			return unit()
		},
		// FieldLen(ptr, name): the number of entries of a map field, -1 without such a field
		vp + "FieldLen": func(m *Machine, c *Call) Value {
			e := c.Args[0].(Iface)
			name := m.constStr(c.Args[1], "field name")
			if pt, ok := under(e.T).(*types.Pointer); ok {
				if st, ok := under(pt.Elem()).(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if _, ok := under(st.Field(i).Type()).(*types.Map); ok && st.Field(i).Name() == name {
							p := e.V.(Ptr)
							mo, _ := m.get(p.Obj, p.Off+m.layoutOf(pt.Elem()).fields[i]).(*MapObj)
							if mo == nil {
								return m.constInt(0)
							}
							return m.constInt(int64(mo.n))
						}
					}
				}
			}
			return m.constInt(-1)
		},
		// StringField(v, key): the string field a configuration key means
		vp + "StringField": func(m *Machine, c *Call) Value {
			e := c.Args[0].(Iface)
			key := m.constStr(c.Args[1], "field name")
			if pt, ok := under(e.T).(*types.Pointer); ok {
				if st, ok := under(pt.Elem()).(*types.Struct); ok {
					found := -1
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						name := f.Name()
						if tag := reflect.StructTag(st.Tag(i)).Get("toml"); tag != "" {
							name = tag
						}
						if b, ok := under(f.Type()).(*types.Basic); !ok || b.Kind() != types.String || !f.Exported() {
							continue
						}
						if name == key {
							found = i
							break
						}
						if strings.EqualFold(name, key) {
							found = i
						}
					}
					if found >= 0 {
						p := e.V.(Ptr)
						return Ptr{Obj: p.Obj, Off: p.Off + m.layoutOf(pt.Elem()).fields[found]}
					}
					return Ptr{}
				}
			}
			m.unsupported("configuration decoded into " + e.T.String())
			return nil
		},
		vp + "IsSymbolic": func(m *Machine, c *Call) Value {
			t, ok := c.Args[0].(*smt.Term)
			return m.C.Bool(!ok || !t.IsConst())
		},
		// goroutines that have not ended, timers excepted
		vp + "Running": func(m *Machine, c *Call) Value {
			n := 0
			for _, g := range m.gs {
				if !g.done && !g.armed {
					n++
				}
			}
			return m.constInt(int64(n))
		},
		// Sync(cond, body, keys...): body runs when cond holds, as one operation on the objects keys point to
		vp + "Sync": func(m *Machine, c *Call) Value {
			cond, _ := c.Args[0].(*Closure)
			body, _ := c.Args[1].(*Closure)
			ks := c.Args[2].(Slice)
			var acc []access
			for i := 0; i < m.concreteLen(ks.Len); i++ {
				p := m.argPtr(m.get(ks.Obj, ks.Off+i).(Iface).V)
				acc = append(acc, access{syncKey{p.Obj, p.Off}, 'w', nil})
			}
			var en func() bool
			if cond != nil {
				en = func() bool { return m.branch(m.call(cond).(*smt.Term)) }
				if m.active() {
					en = m.S.remember(acc, en)
				}
			}
			m.visible(c.G, "environment", en, acc...)
			for _, a := range acc {
				m.acquire(c.G, a.obj)
			}
			if body != nil {
				m.call(body)
			}
			for _, a := range acc {
				m.release(c.G, a.obj)
			}
			return unit()
		},
		vp + "Sleep": func(m *Machine, c *Call) Value {
			g := c.G
			if m.active() {
				if g.granted {
					g.granted = false
					return unit()
				}
				m.S.timers++
				g.pend = &pendOp{what: "sleep", timer: true, seq: m.S.timers}
				panic(sigBlock{})
			}
			if g.parked && !g.sleep {
				g.parked = false
				return unit()
			}
			g.sleep, g.parked = true, true
			panic(sigBlock{})
		},
		vp + "StartTimer": func(m *Machine, c *Call) Value {
			p := m.argPtr(c.Args[0].(Iface).V)
			h := m.spawn(c.Args[1].(*Closure), nil)
			boot := h.boot
			waited := false
			h.armed = true
			h.boot = func() {
				if !waited {
					if m.active() {
						if !h.granted {
							m.S.timers++
							h.pend = &pendOp{what: "timer", timer: true, seq: m.S.timers}
							panic(sigBlock{})
						}
						h.granted = false
					} else if !h.parked {
						h.sleep, h.parked = true, true
						panic(sigBlock{})
					} else {
						h.parked = false
					}
					waited = true
					h.armed = false
				}
				boot()
			}
			m.timers[syncKey{p.Obj, p.Off}] = h
			return unit()
		},
		vp + "StopTimer": func(m *Machine, c *Call) Value {
			p := m.argPtr(c.Args[0].(Iface).V)
			k := syncKey{p.Obj, p.Off}
			h := m.timers[k]
			if h == nil || h.done || !h.armed {
				return m.C.False
			}
			h.done = true
			return m.C.True
		},

		"sync/atomic.LoadInt32": atomicLoad, "sync/atomic.LoadInt64": atomicLoad, "sync/atomic.LoadUint32": atomicLoad,
		"sync/atomic.LoadUint64": atomicLoad, "sync/atomic.LoadUintptr": atomicLoad, "sync/atomic.LoadPointer": atomicLoad,
		"sync/atomic.StoreInt32": atomicStore, "sync/atomic.StoreInt64": atomicStore, "sync/atomic.StoreUint32": atomicStore,
		"sync/atomic.StoreUint64": atomicStore, "sync/atomic.StoreUintptr": atomicStore, "sync/atomic.StorePointer": atomicStore,
		"sync/atomic.AddInt32": atomicAdd, "sync/atomic.AddInt64": atomicAdd, "sync/atomic.AddUint32": atomicAdd, "sync/atomic.AddUint64": atomicAdd,
		"sync/atomic.SwapInt32": atomicSwap, "sync/atomic.SwapInt64": atomicSwap, "sync/atomic.SwapUint32": atomicSwap, "sync/atomic.SwapUint64": atomicSwap,
		"sync/atomic.SwapPointer":         atomicSwap,
		"sync/atomic.CompareAndSwapInt32": atomicCAS, "sync/atomic.CompareAndSwapInt64": atomicCAS, "sync/atomic.CompareAndSwapUint32": atomicCAS,
		"sync/atomic.CompareAndSwapUint64": atomicCAS, "sync/atomic.CompareAndSwapPointer": atomicCAS,
		"(*sync/atomic.Value).Load": atomicLoad, "(*sync/atomic.Value).Store": valueStore, "(*sync/atomic.Value).Swap": valueSwap,
		"(*sync/atomic.Value).CompareAndSwap": valueCAS,
		"sync/atomic.AndInt32":                atomicBits(false), "sync/atomic.AndUint32": atomicBits(false), "sync/atomic.AndInt64": atomicBits(false), "sync/atomic.AndUint64": atomicBits(false),
		"sync/atomic.OrInt32": atomicBits(true), "sync/atomic.OrUint32": atomicBits(true), "sync/atomic.OrInt64": atomicBits(true), "sync/atomic.OrUint64": atomicBits(true),

		"(*sync.Mutex).Lock": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "lock", func() bool { return !s.locked }, access{k, 'w', nil})
			s.locked = true
			m.acquire(c.G, k)
			return unit()
		},
		"(*sync.Mutex).TryLock": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "try lock", nil, access{k, 'w', nil})
			if s.locked {
				return m.C.False
			}
			s.locked = true
			m.acquire(c.G, k)
			return m.C.True
		},
		"(*sync.Mutex).Unlock": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "unlock", nil, access{k, 'w', nil})
			if !s.locked {
				panic(sigCrash{Iface{T: types.Typ[types.String], V: Str{S: "fatal error: sync: unlock of unlocked mutex"}}})
			}
			s.locked = false
			m.release(c.G, k)
			return unit()
		},
		"(*sync.RWMutex).Lock": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "lock", func() bool { return !s.locked && s.readers == 0 }, access{k, 'w', nil})
			s.locked = true
			m.acquire(c.G, k)
			m.acquire(c.G, readers{k})
			return unit()
		},
		"(*sync.RWMutex).TryLock": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "try lock", nil, access{k, 'w', nil})
			if s.locked || s.readers > 0 {
				return m.C.False
			}
			s.locked = true
			m.acquire(c.G, k)
			m.acquire(c.G, readers{k})
			return m.C.True
		},
		"(*sync.RWMutex).Unlock": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "unlock", nil, access{k, 'w', nil})
			if !s.locked {
				panic(sigCrash{Iface{T: types.Typ[types.String], V: Str{S: "fatal error: sync: Unlock of unlocked RWMutex"}}})
			}
			s.locked = false
			m.release(c.G, k)
			return unit()
		},
		"(*sync.RWMutex).RLock": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "read lock", func() bool { return !s.locked }, access{k, 'A', nil})
			s.readers++
			m.acquire(c.G, k)
			return unit()
		},
		"(*sync.RWMutex).TryRLock": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "try read lock", nil, access{k, 'A', nil})
			if s.locked {
				return m.C.False
			}
			s.readers++
			m.acquire(c.G, k)
			return m.C.True
		},
		"(*sync.RWMutex).RUnlock": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "read unlock", nil, access{k, 'A', nil})
			if s.readers == 0 {
				panic(sigCrash{Iface{T: types.Typ[types.String], V: Str{S: "fatal error: sync: RUnlock of unlocked RWMutex"}}})
			}
			s.readers--
			m.release(c.G, readers{k})
			return unit()
		},
		// OnceEnter reports whether the caller is to run the function, waiting while another one runs it
		vp + "Depth": func(m *Machine, c *Call) Value { return m.constInt(int64(m.depth(c.G))) },
		vp + "OnceEnter": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visibleDyn(c.G, "once", func() bool { return s.count != 1 }, func() []access {
				if s.count == 2 {
					return []access{{k, 'r', nil}}
				}
				return []access{{k, 'w', nil}}
			})
			m.acquire(c.G, k)
			if s.count == 2 {
				return m.C.False
			}
			s.count = 1
			return m.C.True
		},
		vp + "OnceLeave": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "end of once", nil, access{k, 'w', nil})
			s.count = 2
			m.release(c.G, k)
			return unit()
		},
		"(*sync.WaitGroup).Add": wgAdd,
		"(*sync.WaitGroup).Done": func(m *Machine, c *Call) Value {
			d := *c
			d.Args = []Value{c.Args[0], m.constInt(-1)}
			return wgAdd(m, &d)
		},
		"(*sync.WaitGroup).Wait": func(m *Machine, c *Call) Value {
			k, s := m.syncOf(c)
			m.visible(c.G, "wait for the group", func() bool { return s.count <= 0 }, access{k, 'r', nil})
			m.acquire(c.G, k)
			return unit()
		},

		"internal/abi.NoEscape":                     func(m *Machine, c *Call) Value { return c.Args[0] },
		"internal/abi.Escape":                       func(m *Machine, c *Call) Value { return c.Args[0] },
		"(*strings.Builder).copyCheck":              func(m *Machine, c *Call) Value { return unit() },
		"runtime.KeepAlive":                         func(m *Machine, c *Call) Value { return unit() },
		"runtime.SetFinalizer":                      func(m *Machine, c *Call) Value { return unit() },
		"runtime.Gosched":                           func(m *Machine, c *Call) Value { return unit() },
		"runtime.GC":                                func(m *Machine, c *Call) Value { return unit() },
		"(*internal/godebug.Setting).Value":         func(m *Machine, c *Call) Value { return Str{} },
		"(*internal/godebug.Setting).IncNonDefault": func(m *Machine, c *Call) Value { return unit() },
		"internal/godebug.New": func(m *Machine, c *Call) Value {
			o := m.newObject(ptrElem(resultType(c.Fn)), 1)
			return Ptr{Obj: o}
		},
		"internal/stringslite.Clone": func(m *Machine, c *Call) Value { return c.Args[0] },
		"strings.Clone":              func(m *Machine, c *Call) Value { return c.Args[0] },
		"internal/bytealg.MakeNoZero": func(m *Machine, c *Call) Value {
			n := m.concreteLen(c.Args[0].(*smt.Term))
			m.addAlloc(m.constInt(int64(n)))
			l := m.constInt(int64(n))
			s := Slice{Obj: m.newObject(types.Typ[types.Uint8], n), Len: l, Cap: l}
			s = m.roundUpCap(s, types.Typ[types.Uint8])
			s.Len = l
			return s
		},
		"internal/race.Enabled": nil,
		// equal values share one pointer
		"unique.Make": func(m *Machine, c *Call) Value {
			t := c.Fn.Signature.Params().At(0).Type()
			o := m.newObject(t, 1)
			m.store(Ptr{Obj: o}, t, c.Args[0])
			k := t.String()
			for i := 0; i < o.n; i++ {
				v := m.get(o, i)
				if tm, ok := v.(*smt.Term); ok && tm.Op != smt.OpConst {
					m.unsupported("unique.Make of a symbolic value")
				}
				if st, ok := v.(Str); ok && st.T != nil {
					m.unsupported("unique.Make of a symbolic value")
				}
				k += fmt.Sprintf("|%v", v)
			}
			p, ok := m.unique[k]
			if !ok {
				if p, ok = m.uniquePath[k]; !ok {
					p = Ptr{Obj: o}
					if m.initDepth > 0 {
						m.unique[k] = p
					} else {
						m.uniquePath[k] = p
					}
				}
			}
			rt := resultOf(c.Fn.Signature)
			h := m.newObject(rt, 1)
			m.set(h, 0, p)
			return m.load(Ptr{Obj: h}, rt)
		},
	}
	for _, n := range []string{"Acquire", "Release", "ReleaseMerge", "Disable", "Enable", "Read", "Write", "ReadRange", "WriteRange", "Errors"} {
		intrinsics["internal/race."+n] = func(m *Machine, c *Call) Value { return m.zero(resultOf(c.Fn.Signature)) }
	}
	delete(intrinsics, "internal/race.Enabled")
}

// readers is the key of what readers of a lock publish to its next writer.
type readers struct{ k syncKey }

// depth is the height of the calling goroutine's stack, also inside an atomic harness step.
func (m *Machine) depth(g *G) int {
	n := len(g.frames)
	if g.id == -2 && m.caller != nil {
		n += len(m.caller.frames)
	}
	return n
}

func wgAdd(m *Machine, c *Call) Value {
	k, s := m.syncOf(c)
	d := int(m.signed(64, m.concretize(c.Args[1].(*smt.Term))))
	m.visible(c.G, fmt.Sprintf("add %d to the group", d), nil, access{k, 'A', nil})
	s.count += d
	if d < 0 {
		m.release(c.G, k)
	}
	if s.count < 0 {
		panic(sigGoPanic{Iface{T: types.Typ[types.String], V: Str{S: "sync: negative WaitGroup counter"}}})
	}
	return unit()
}

// syncOf is the state behind a synchronisation object passed as first argument.
func (m *Machine) syncOf(c *Call) (syncKey, *syncState) {
	p := m.argPtr(c.Args[0])
	return syncKey{p.Obj, p.Off}, m.syncAt(p)
}

func (m *Machine) atomicKey(p Ptr) interface{} {
	return cell{p.Obj, p.Off}
}

func (m *Machine) atomicGet(g *G, p Ptr) Value {
	k := m.atomicKey(p)
	m.visible(g, "atomic load", nil, access{k, 'r', nil})
	m.acquire(g, k)
	m.touchAtomic(p, false)
	return m.get(p.Obj, p.Off)
}

func (m *Machine) atomicSet(g *G, p Ptr, v Value) {
	k := m.atomicKey(p)
	m.visible(g, "atomic store", nil, access{k, 'w', nil})
	m.acquire(g, k)
	m.touchAtomic(p, true)
	m.release(g, k)
	m.set(p.Obj, p.Off, v)
}

func (m *Machine) atomicRMW(g *G, p Ptr, f func(Value) Value) Value {
	k := m.atomicKey(p)
	m.visible(g, "atomic update", nil, access{k, 'w', nil})
	m.acquire(g, k)
	m.touchAtomic(p, true)
	m.release(g, k)
	old := m.get(p.Obj, p.Off)
	m.set(p.Obj, p.Off, f(old))
	return old
}

var _ = strings.HasPrefix
var _ *ssa.Function
