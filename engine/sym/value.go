// Package sym executes Go SSA symbolically.
package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// Value is a run-time value of the executed program:
// *smt.Term (integers, booleans), Float, Str, Ptr, SymPtr, Slice, *MapObj, *ChanObj, *Closure,
// Iface, *Agg (structs and arrays, flattened), Tuple, *Iter, Poison.
type Value interface{}

// Float is a concrete floating point number.
type Float float64

// Str is a string: S when T is nil, otherwise one term per byte.
type Str struct {
	S string
	T []*smt.Term
}

// Len is the string's length.
func (s Str) Len() int {
	if s.T != nil {
		return len(s.T)
	}
	return len(s.S)
}

// Ptr points at the leaf Off of Obj. The nil pointer has a nil Obj.
type Ptr struct {
	Obj *Object
	Off int
}

// SymPtr points at an element with a symbolic index.
type SymPtr struct {
	Obj  *Object
	Off  int // leaf offset of element 0
	Step int // leaves per element
	Idx  *smt.Term
	N    int // number of elements that may be addressed
}

// Slice is a slice header. The nil slice has a nil Obj.
type Slice struct {
	Obj      *Object
	Off      int // leaf offset of element 0
	Len, Cap *smt.Term
}

// Closure is a function value; nil for nil.
type Closure struct {
	Fn    *ssa.Function
	Free  []Value
	Built *ssa.Builtin
	id    int
}

// Iface is an interface value; T is nil for the nil interface.
type Iface struct {
	T types.Type
	V Value
}

// Agg is a struct or array value, flattened into leaves.
type Agg struct{ L []Value }

// Tuple is a multiple result.
type Tuple []Value

// Poison is a value that could not be computed.
type Poison struct{ Why string }

// Iter iterates over a map or string.
type Iter struct {
	m    *MapObj
	keys []Value
	todo []int
	s    Str
	pos  int
}

// MapEntry is one binding.
type MapEntry struct {
	K, V Value
	dead bool
}

// MapObj is a map. Keys are compared symbolically.
type MapObj struct {
	id    int
	E     []*MapEntry
	n     int
	base  bool
	epoch int
	typ   *types.Map
	meta  *objMeta
}

// Object is a heap object: a sequence of leaves.
type Object struct {
	id    int
	typ   types.Type // element type (allocated type, or slice element)
	n     int        // number of leaves
	cells []Value
	bytes []byte // storage for byte arrays
	sym   map[int]*smt.Term
	lazy  map[int]Value // storage for huge or symbolically sized arrays
	isLzy bool
	base  bool
	epoch int
	count *smt.Term // symbolic element count for lazy objects
	site  string
	meta  *objMeta
}

// objMeta carries the thread-modular mode's knowledge of an object.
type objMeta struct {
	shared bool
	name   string
}

// ChanObj is a channel.
type ChanObj struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	typ    types.Type
	base   bool
	epoch  int
	site   string
	meta   *objMeta
}

type layout struct {
	n      int
	fields []int // leaf offset per struct field
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func (m *Machine) layoutOf(t types.Type) *layout {
	if l, ok := m.layouts[t]; ok {
		return l
	}
	l := &layout{}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			l.fields = append(l.fields, l.n)
			l.n += m.leaves(u.Field(i).Type())
		}
	case *types.Array:
		l.n = int(u.Len()) * m.leaves(u.Elem())
	default:
		l.n = 1
	}
	m.layouts[t] = l
	return l
}

func (m *Machine) leaves(t types.Type) int { return m.layoutOf(t).n }

func isAgg(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// intWidth returns the width and signedness of an integer (or boolean, width 0) type.
func intWidth(t types.Type) (w uint8, signed, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func (m *Machine) zeroLeaf(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return m.C.Const(w, 0)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			return Float(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		return Poison{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		z := m.C.Const(64, 0)
		return Slice{Len: z, Cap: z}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	}
	return Poison{"zero of " + t.String()}
}

func (m *Machine) zero(t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = m.zero(tt.At(i).Type())
		}
		return r
	}
	if !isAgg(t) {
		return m.zeroLeaf(t)
	}
	a := &Agg{L: make([]Value, 0, m.leaves(t))}
	m.appendZero(t, &a.L)
	return a
}

func (m *Machine) appendZero(t types.Type, out *[]Value) {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			m.appendZero(u.Field(i).Type(), out)
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			m.appendZero(u.Elem(), out)
		}
	default:
		*out = append(*out, m.zeroLeaf(t))
	}
}

const lazyLimit = 1 << 17

// newObject allocates n elements of type elem.
func (m *Machine) newObject(elem types.Type, n int) *Object {
	o := &Object{id: m.nextID(), typ: elem, base: m.initDepth > 0, epoch: m.born()}
	per := m.leaves(elem)
	o.n = n * per
	switch {
	case isByte(elem) && o.n <= 1<<24:
		o.bytes = make([]byte, n)
	case o.n > lazyLimit:
		o.isLzy = true
		o.lazy = map[int]Value{}
	default:
		o.cells = make([]Value, 0, o.n)
		if n > 0 && per > 0 {
			m.appendZero(elem, &o.cells)
			for i := 1; i < n; i++ {
				o.cells = append(o.cells, o.cells[:per]...)
			}
		}
	}
	m.allocated += o.n
	return o
}

// newLazy allocates an array of symbolic length.
func (m *Machine) newLazy(elem types.Type, count *smt.Term) *Object {
	return &Object{id: m.nextID(), typ: elem, base: m.initDepth > 0, epoch: m.born(),
		isLzy: true, lazy: map[int]Value{}, n: 1 << 60, count: count}
}

func (m *Machine) get(o *Object, i int) Value {
	if i < 0 || i >= o.n {
		m.unsupported(fmt.Sprintf("internal: leaf %d of %d of %v", i, o.n, o.typ))
	}
	switch {
	case o.cells != nil:
		return o.cells[i]
	case o.isLzy:
		if v, ok := o.lazy[i]; ok {
			return v
		}
		per := m.leaves(o.typ)
		var z []Value
		m.appendZero(o.typ, &z)
		return z[i%per]
	default:
		if o.sym != nil {
			if t, ok := o.sym[i]; ok {
				return t
			}
		}
		return m.C.Const(8, uint64(o.bytes[i]))
	}
}

func (m *Machine) set(o *Object, i int, v Value) {
	if i < 0 || i >= o.n {
		m.unsupported(fmt.Sprintf("internal: leaf %d of %d of %v", i, o.n, o.typ))
	}
	m.touch(o)
	switch {
	case o.cells != nil:
		o.cells[i] = v
	case o.isLzy:
		o.lazy[i] = v
	default:
		t, ok := v.(*smt.Term)
		if !ok {
			if p, isP := v.(Poison); isP {
				m.unsupported("poisoned byte: " + p.Why)
			}
			m.unsupported(fmt.Sprintf("internal: byte store of %T", v))
		}
		if t.IsConst() {
			o.bytes[i] = byte(t.K)
			if o.sym != nil {
				delete(o.sym, i)
			}
			return
		}
		if o.sym == nil {
			o.sym = map[int]*smt.Term{}
		}
		o.sym[i] = t
	}
}

// touch journals a base object before its first write of this run.
func (m *Machine) touch(o *Object) {
	if !o.base || m.initDepth > 0 || o.epoch == m.epoch {
		return
	}
	o.epoch = m.epoch
	c := *o
	c.cells = append([]Value(nil), o.cells...)
	if o.cells != nil && c.cells == nil {
		c.cells = []Value{}
	}
	c.bytes = append([]byte(nil), o.bytes...)
	if o.sym != nil {
		c.sym = map[int]*smt.Term{}
		for k, v := range o.sym {
			c.sym[k] = v
		}
	}
	if o.lazy != nil {
		c.lazy = map[int]Value{}
		for k, v := range o.lazy {
			c.lazy[k] = v
		}
	}
	m.journal = append(m.journal, func() {
		e := o.epoch
		*o = c
		o.epoch = e
	})
}

func (m *Machine) touchMap(o *MapObj) {
	if !o.base || m.initDepth > 0 || o.epoch == m.epoch {
		return
	}
	o.epoch = m.epoch
	c := *o
	c.E = nil
	for _, e := range o.E {
		ec := *e
		c.E = append(c.E, &ec)
	}
	m.journal = append(m.journal, func() {
		e := o.epoch
		*o = c
		o.epoch = e
	})
}

func (m *Machine) touchChan(o *ChanObj) {
	if !o.base || m.initDepth > 0 || o.epoch == m.epoch {
		return
	}
	o.epoch = m.epoch
	c := *o
	c.buf = append([]Value(nil), o.buf...)
	m.journal = append(m.journal, func() {
		e := o.epoch
		*o = c
		o.epoch = e
	})
}

// load reads a value of type t at p.
func (m *Machine) load(p Ptr, t types.Type) Value {
	if p.Obj == nil {
		m.unsupported("internal: load through nil")
	}
	if isAgg(t) {
		n := m.leaves(t)
		a := &Agg{L: make([]Value, n)}
		for i := 0; i < n; i++ {
			a.L[i] = m.get(p.Obj, p.Off+i)
		}
		return a
	}
	v := m.get(p.Obj, p.Off)
	if s, ok := v.(Slice); ok { // *(*string)(unsafe.Pointer(&bytes))
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return m.bytesToStr(s)
		}
	}
	return v
}

// store writes v of type t at p.
func (m *Machine) store(p Ptr, t types.Type, v Value) {
	if p.Obj == nil {
		m.unsupported("internal: store through nil")
	}
	if isAgg(t) {
		a, ok := v.(*Agg)
		if !ok {
			m.unsupported(fmt.Sprintf("internal: store of %T as %v", v, t))
		}
		for i, x := range a.L {
			m.set(p.Obj, p.Off+i, x)
		}
		return
	}
	m.set(p.Obj, p.Off, v)
}

func (m *Machine) constInt(v int64) *smt.Term { return m.C.Const(64, uint64(v)) }

func (m *Machine) strTerms(s Str) []*smt.Term {
	if s.T != nil {
		return s.T
	}
	out := make([]*smt.Term, len(s.S))
	for i := 0; i < len(s.S); i++ {
		out[i] = m.C.Const(8, uint64(s.S[i]))
	}
	return out
}

// mkStr builds a string from byte terms, concrete where possible.
func (m *Machine) mkStr(ts []*smt.Term) Str {
	for _, t := range ts {
		if !t.IsConst() {
			return Str{T: ts}
		}
	}
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.K)
	}
	return Str{S: string(b)}
}

func (m *Machine) bytesToStr(s Slice) Str {
	n := m.concreteLen(s.Len)
	if s.Obj != nil && s.Obj.bytes != nil && len(s.Obj.sym) == 0 {
		return Str{S: string(s.Obj.bytes[s.Off : s.Off+n])}
	}
	ts := make([]*smt.Term, n)
	for i := range ts {
		v := m.get(s.Obj, s.Off+i)
		t, ok := v.(*smt.Term)
		if !ok {
			m.unsupported("string of non-bytes")
		}
		ts[i] = t
	}
	return m.mkStr(ts)
}

func (m *Machine) strToBytes(s Str, elem types.Type) Slice {
	n := s.Len()
	o := m.newObject(elem, n)
	if s.T == nil && o.bytes != nil {
		copy(o.bytes, s.S)
	} else {
		for i, t := range m.strTerms(s) {
			m.set(o, i, t)
		}
	}
	l := m.constInt(int64(n))
	return Slice{Obj: o, Len: l, Cap: l}
}

func (m *Machine) strSlice(s Str, lo, hi int) Str {
	if s.T != nil {
		return m.mkStr(s.T[lo:hi:hi])
	}
	return Str{S: s.S[lo:hi]}
}

func (m *Machine) strConcat(a, b Str) Str {
	if a.T == nil && b.T == nil {
		return Str{S: a.S + b.S}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	ts := append(append([]*smt.Term{}, m.strTerms(a)...), m.strTerms(b)...)
	return Str{T: ts}
}

func (m *Machine) strEq(a, b Str) *smt.Term {
	if a.T == nil && b.T == nil {
		return m.C.Bool(a.S == b.S)
	}
	if a.Len() != b.Len() {
		return m.C.False
	}
	x, y := m.strTerms(a), m.strTerms(b)
	r := m.C.True
	for i := range x {
		r = m.C.BAnd(r, m.C.Eq(x[i], y[i]))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (m *Machine) strLess(a, b Str) *smt.Term {
	if a.T == nil && b.T == nil {
		return m.C.Bool(a.S < b.S)
	}
	x, y := m.strTerms(a), m.strTerms(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := m.C.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.C.BOr(m.C.Ult(x[i], y[i]), m.C.BAnd(m.C.Eq(x[i], y[i]), r))
	}
	return r
}
