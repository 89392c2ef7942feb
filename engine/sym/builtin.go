package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

func (m *Machine) builtin(fr *Frame, b *ssa.Builtin, args []Value, in *ssa.Call) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return x.Len
		case Str:
			return m.constInt(int64(x.Len()))
		case *MapObj:
			if x == nil {
				return m.constInt(0)
			}
			return m.constInt(int64(x.n))
		case *ChanObj:
			if x == nil {
				return m.constInt(0)
			}
			return m.chanLen(x)
		case Ptr:
			arr := under(under(in.Call.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array)
			return m.constInt(arr.Len())
		case *Agg:
			return m.constInt(under(in.Call.Args[0].Type()).(*types.Array).Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return x.Cap
		case *ChanObj:
			if x == nil {
				return m.constInt(0)
			}
			return m.constInt(int64(x.cap))
		case Ptr:
			arr := under(under(in.Call.Args[0].Type()).(*types.Pointer).Elem()).(*types.Array)
			return m.constInt(arr.Len())
		}
	case "append":
		return m.appendOp(args, in)
	case "copy":
		return m.copyOp(args, in)
	case "delete":
		mo, _ := args[0].(*MapObj)
		if mo != nil {
			m.mapDelete(mo, args[1])
		}
		return Tuple{}
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				m.mapAccess(x, true)
				m.touchMap(x)
				x.E, x.n = nil, 0
			}
		case Slice:
			n := m.concreteLen(x.Len)
			elem := under(in.Call.Args[0].Type()).(*types.Slice).Elem()
			per := m.leaves(elem)
			var z []Value
			m.appendZero(elem, &z)
			for i := 0; i < n; i++ {
				for j := 0; j < per; j++ {
					m.setShared(x.Obj, x.Off+i*per+j, z[j])
				}
			}
		}
		return Tuple{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *smt.Term:
				y := a.(*smt.Term)
				_, signed, _ := intWidth(in.Type())
				var less *smt.Term
				if signed {
					less = m.C.Slt(x, y)
				} else {
					less = m.C.Ult(x, y)
				}
				if b.Name() == "max" {
					less = m.C.BNot(less)
				}
				r = m.C.Ite(less, x, y)
			case Float:
				y := a.(Float)
				if (b.Name() == "min") == (y < x) {
					r = y
				}
			default:
				m.unsupported("min/max of " + fmt.Sprintf("%T", r))
			}
		}
		return r
	case "close":
		m.closeOp(args[0].(*ChanObj))
		return Tuple{}
	case "panic":
		v := args[0]
		panic(sigGoPanic{v})
	case "recover":
		if fr != nil && fr.deferOf != nil && fr.deferOf.panicking && !fr.deferOf.recovered && !fr.deferOf.goexit {
			fr.deferOf.recovered = true
			return fr.deferOf.panicVal
		}
		return Iface{}
	case "print", "println":
		return Tuple{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.Obj == nil {
			panic(sigGoPanic{m.runtimeError("value method called using nil pointer")})
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.Obj, s.Off}
	case "StringData":
		s := args[0].(Str)
		sl := m.strToBytes(s, types.Typ[types.Uint8])
		return Ptr{sl.Obj, 0}
	case "String":
		p := args[0].(Ptr)
		n := m.C.Resize(args[1].(*smt.Term), 64, true)
		if p.Obj == nil {
			return Str{}
		}
		return m.bytesToStr(Slice{p.Obj, p.Off, n, n})
	case "Slice":
		p := args[0].(Ptr)
		n := m.C.Resize(args[1].(*smt.Term), 64, true)
		if p.Obj == nil {
			z := m.constInt(0)
			return Slice{Len: z, Cap: z}
		}
		return Slice{p.Obj, p.Off, n, n}
	case "Add":
		p := args[0].(Ptr)
		n := args[1].(*smt.Term)
		if n.IsConst() && n.K == 0 {
			return p
		}
	}
	m.unsupported("builtin " + b.Name())
	return nil
}

func (m *Machine) appendOp(args []Value, in *ssa.Call) Value {
	st := under(in.Type()).(*types.Slice)
	elem := st.Elem()
	per := m.leaves(elem)
	s := args[0].(Slice)
	var src Slice
	switch x := args[1].(type) {
	case Slice:
		src = x
	case Str:
		src = m.strToBytes(x, elem)
	default:
		m.unsupported(fmt.Sprintf("append of %T", x))
	}
	if r, ok := m.appendHuge(s, src, elem); ok {
		return r
	}
	k := m.concreteLen(src.Len)
	if k == 0 {
		return s
	}
	n := m.concreteLen(s.Len)
	total := n + k
	// read the source before any growth or overwriting
	vals := make([]Value, k*per)
	if src.Obj.bytes != nil && len(src.Obj.sym) == 0 && per == 1 {
		vals = nil
	} else {
		for i := range vals {
			vals[i] = m.get(src.Obj, src.Off+i)
		}
	}
	dst := s
	fits := false
	if s.Obj != nil {
		fits = m.branch(m.C.Sle(m.constInt(int64(total)), s.Cap))
	}
	if !fits {
		size := m.sizes.Sizeof(elem)
		c := int64(0)
		if s.Obj != nil {
			c = int64(m.concretize(s.Cap))
		}
		newCap := growCap(c, int64(total))
		if size > 0 {
			newCap = roundSize(newCap*size) / size
		}
		m.addAlloc(m.constInt(newCap * size))
		o := m.newObject(elem, int(newCap))
		o.site = "append"
		if s.Obj != nil {
			m.copyLeaves(o, 0, s.Obj, s.Off, n*per)
		}
		dst = Slice{Obj: o, Cap: m.constInt(newCap)}
	}
	if vals == nil {
		m.copyLeaves(dst.Obj, dst.Off+n*per, src.Obj, src.Off, k*per)
	} else {
		for i, v := range vals {
			m.setShared(dst.Obj, dst.Off+n*per+i, v)
		}
	}
	dst.Len = m.constInt(int64(total))
	return dst
}

const hugeLen = 1 << 14

// appendHuge appends a slice of an unknown or huge number of elements, most of them zero, to a new array.
func (m *Machine) appendHuge(s, src Slice, elem types.Type) (Value, bool) {
	if src.Obj == nil || !src.Obj.isLzy || m.initDepth > 0 {
		return nil, false
	}
	if src.Len.IsConst() {
		if src.Len.Signed() <= 1<<24 {
			return nil, false
		}
	} else if m.X.rangeOf(src.Len, ivDepth).hi <= hugeLen {
		return nil, false
	}
	if s.Obj != nil && m.branch(m.C.Sle(m.C.Add(s.Len, src.Len), s.Cap)) {
		return nil, false
	}
	if m.branch(m.C.Sle(src.Len, m.constInt(hugeLen))) {
		return nil, false
	}
	n := m.concreteLen(s.Len)
	per := m.leaves(elem)
	total := m.C.Add(s.Len, src.Len)
	// the capacity is the length: how much more there is does not matter here
	m.addAlloc(m.C.Mul(total, m.constInt(m.sizes.Sizeof(elem))))
	o := m.newLazy(elem, total)
	o.site = "append"
	for i := 0; i < n*per; i++ {
		m.set(o, i, m.getShared(s.Obj, s.Off+i))
	}
	for i, v := range src.Obj.lazy {
		if j := i - src.Off; j >= 0 {
			m.set(o, n*per+j, v)
		}
	}
	return Slice{Obj: o, Len: total, Cap: total}, true
}

func growCap(oldCap, newLen int64) int64 {
	if newLen > 2*oldCap {
		return newLen
	}
	if oldCap < 256 {
		return 2 * oldCap
	}
	c := oldCap
	for c < newLen {
		c += (c + 3*256) / 4
	}
	return c
}

// copyLeaves copies n leaves, handling overlap.
func (m *Machine) copyLeaves(dst *Object, d int, src *Object, s, n int) {
	if n == 0 {
		return
	}
	if n > 1<<24 {
		panic(sigBound{"copying more than 2^24 elements" + m.where()})
	}
	if dst.bytes != nil && src.bytes != nil && len(src.sym) == 0 && d+n <= len(dst.bytes) && s+n <= len(src.bytes) {
		m.touch(dst)
		copy(dst.bytes[d:d+n], src.bytes[s:s+n])
		if dst.sym != nil {
			for i := d; i < d+n; i++ {
				delete(dst.sym, i)
			}
		}
		return
	}
	vals := make([]Value, n)
	for i := range vals {
		vals[i] = m.getShared(src, s+i)
	}
	for i, v := range vals {
		m.setShared(dst, d+i, v)
	}
}

func (m *Machine) copyOp(args []Value, in *ssa.Call) Value {
	dst := args[0].(Slice)
	elem := under(in.Call.Args[0].Type()).(*types.Slice).Elem()
	per := m.leaves(elem)
	switch src := args[1].(type) {
	case Str:
		n := m.constInt(int64(src.Len()))
		k := m.minLen(dst.Len, n)
		for i, t := range m.strTerms(src)[:k] {
			m.setShared(dst.Obj, dst.Off+i, t)
		}
		return m.constInt(int64(k))
	case Slice:
		k := m.minLen(dst.Len, src.Len)
		if k > 0 {
			m.copyLeaves(dst.Obj, dst.Off, src.Obj, src.Off, k*per)
		}
		return m.constInt(int64(k))
	}
	m.unsupported("copy")
	return nil
}

// minLen fixes the smaller of two lengths.
func (m *Machine) minLen(a, b *smt.Term) int {
	if a.IsConst() && b.IsConst() {
		if a.K < b.K {
			return int(a.K)
		}
		return int(b.K)
	}
	if m.branch(m.C.Sle(a, b)) {
		return m.concreteLen(a)
	}
	return m.concreteLen(b)
}

// Maps.

func (m *Machine) mapFind(mo *MapObj, k Value) *MapEntry {
	if i, ok := k.(Iface); ok && i.T != nil && !types.Comparable(i.T) {
		panic(sigGoPanic{m.runtimeError("hash of unhashable type " + i.T.String())})
	}
	for _, e := range mo.E {
		if e.dead {
			continue
		}
		if m.branch(m.eq(mo.typ.Key(), e.K, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mo *MapObj, k, v Value) {
	m.mapAccess(mo, true)
	if e := m.mapFind(mo, k); e != nil {
		i := m.entryIndex(mo, e)
		m.touchMap(mo)
		mo.E[i] = &MapEntry{K: e.K, V: v}
		return
	}
	m.touchMap(mo)
	m.addAlloc(m.constInt(64))
	mo.E = append(mo.E, &MapEntry{K: k, V: v})
	mo.n++
}

func (m *Machine) entryIndex(mo *MapObj, e *MapEntry) int {
	for i, x := range mo.E {
		if x == e {
			return i
		}
	}
	panic("map entry")
}

func (m *Machine) mapDelete(mo *MapObj, k Value) {
	m.mapAccess(mo, true)
	if e := m.mapFind(mo, k); e != nil {
		i := m.entryIndex(mo, e)
		m.touchMap(mo)
		mo.E[i] = &MapEntry{K: e.K, V: e.V, dead: true}
		mo.n--
	}
}

func (m *Machine) lookup(fr *Frame, in *ssa.Lookup) Value {
	x := m.val(fr, in.X)
	if s, ok := x.(Str); ok {
		return m.strIndex(s, m.idx64(fr, in.Index))
	}
	mo := x.(*MapObj)
	et := under(in.X.Type()).(*types.Map).Elem()
	var v Value
	found := false
	if mo != nil {
		m.mapAccess(mo, false)
		if e := m.mapFind(mo, m.val(fr, in.Index)); e != nil {
			v, found = e.V, true
		}
	}
	if !found {
		v = m.zero(et)
	}
	if in.CommaOk {
		return Tuple{v, m.C.Bool(found)}
	}
	return v
}

func (m *Machine) rangeOp(fr *Frame, in *ssa.Range) Value {
	switch x := m.val(fr, in.X).(type) {
	case Str:
		return &Iter{s: x}
	case *MapObj:
		it := &Iter{m: x}
		if x != nil {
			m.mapAccess(x, false)
			for i := range x.E {
				it.todo = append(it.todo, i)
			}
		}
		return it
	}
	m.unsupported("range")
	return nil
}

func (m *Machine) next(fr *Frame, in *ssa.Next) Value {
	it := m.val(fr, in.Iter).(*Iter)
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		if it.pos >= it.s.Len() {
			return Tuple{m.C.False, m.constInt(0), m.C.Const(32, 0)}
		}
		r, n := m.decodeRune(it.s, it.pos)
		// iterators are re-created rather than mutated when a path is re-executed
		p := it.pos
		it.pos += n
		return Tuple{m.C.True, m.constInt(int64(p)), r}
	}
	zeroOf := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return m.zero(t)
	}
	live := func() []int {
		var l []int
		for _, i := range it.todo {
			if i < len(it.m.E) && !it.m.E[i].dead {
				l = append(l, i)
			}
		}
		return l
	}
	if it.m == nil {
		return Tuple{m.C.False, zeroOf(1), zeroOf(2)}
	}
	m.mapAccess(it.m, false)
	l := live()
	if len(l) == 0 {
		return Tuple{m.C.False, zeroOf(1), zeroOf(2)}
	}
	k := 0
	if len(l) > 1 && len(l) <= m.P.MapOrder && m.initDepth == 0 && m.P.isTarget(fr.fn) {
		k = m.choose("maporder", len(l))
	}
	i := l[k]
	var rest []int
	for _, j := range it.todo {
		if j != i {
			rest = append(rest, j)
		}
	}
	it.todo = rest
	e := it.m.E[i]
	return Tuple{m.C.True, e.K, e.V}
}
