package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

const nilDeref = "invalid memory address or nil pointer dereference"

// step executes one instruction of g's top frame.
func (m *Machine) step(g *G) {
	fr := g.frames[len(g.frames)-1]
	if fr.panicking {
		if crash := m.unwind(g); crash != nil {
			panic(*crash)
		}
		return
	}
	m.steps++
	if m.steps > m.P.MaxSteps && m.initDepth == 0 {
		panic(sigBound{fmt.Sprintf("%d instructions", m.P.MaxSteps) + m.where()})
	}
	in := fr.block.Instrs[fr.pc]
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			m.recvOp(g, fr, in)
			return
		}
		m.setReg(fr, in, m.unop(fr, in))
	case *ssa.BinOp:
		m.setReg(fr, in, m.binop(in.Op, in.X.Type(), m.val(fr, in.X), m.val(fr, in.Y), in.Y.Type()))
	case *ssa.Call:
		m.callInstr(g, fr, in)
		return
	case *ssa.ChangeInterface:
		m.setReg(fr, in, m.val(fr, in.X))
	case *ssa.ChangeType:
		m.setReg(fr, in, m.val(fr, in.X))
	case *ssa.Convert:
		m.setReg(fr, in, m.convert(in.X.Type(), in.Type(), m.val(fr, in.X)))
	case *ssa.MultiConvert:
		m.setReg(fr, in, m.convert(in.X.Type(), in.Type(), m.val(fr, in.X)))
	case *ssa.MakeInterface:
		m.setReg(fr, in, Iface{T: in.X.Type(), V: m.val(fr, in.X)})
	case *ssa.Extract:
		m.setReg(fr, in, m.val(fr, in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		m.setReg(fr, in, m.sliceOp(fr, in))
	case *ssa.SliceToArrayPointer:
		s := m.val(fr, in.X).(Slice)
		n := under(in.Type()).(*types.Pointer).Elem()
		l := under(n).(*types.Array).Len()
		m.check(m.C.Sle(m.constInt(l), s.Len), "cannot convert slice to array or pointer to array")
		m.setReg(fr, in, Ptr{s.Obj, s.Off})
	case *ssa.Alloc:
		t := under(in.Type()).(*types.Pointer).Elem()
		o := m.newObject(t, 1)
		o.site = m.site(fr, in)
		if in.Heap {
			m.addAlloc(m.constInt(m.sizes.Sizeof(t)))
		}
		m.noteAlloc(o, fr, in)
		m.setReg(fr, in, Ptr{Obj: o})
	case *ssa.MakeSlice:
		m.setReg(fr, in, m.makeSlice(fr, in))
	case *ssa.MakeMap:
		mo := &MapObj{id: m.nextID(), base: m.initDepth > 0, epoch: m.born(), typ: under(in.Type()).(*types.Map)}
		m.addAlloc(m.constInt(48))
		m.setReg(fr, in, mo)
	case *ssa.MakeChan:
		n := m.term(fr, in.Size)
		m.check(m.C.Sle(m.constInt(0), m.C.Resize(n, 64, true)), "makechan: size out of range")
		c := &ChanObj{id: m.nextID(), cap: int(m.concretize(n)), typ: under(in.Type()).(*types.Chan).Elem(),
			base: m.initDepth > 0, epoch: m.born(), site: m.site(fr, in)}
		m.noteChan(c, fr, in)
		m.setReg(fr, in, c)
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function), id: m.nextID()}
		for _, b := range in.Bindings {
			c.Free = append(c.Free, m.val(fr, b))
		}
		m.setReg(fr, in, c)
	case *ssa.FieldAddr:
		p := m.ptr(fr, in.X)
		st := under(in.X.Type()).(*types.Pointer).Elem()
		m.setReg(fr, in, Ptr{p.Obj, p.Off + m.layoutOf(st).fields[in.Field]})
	case *ssa.Field:
		a := m.val(fr, in.X).(*Agg)
		off := m.layoutOf(in.X.Type()).fields[in.Field]
		m.setReg(fr, in, m.subValue(a, off, in.Type()))
	case *ssa.IndexAddr:
		m.setReg(fr, in, m.indexAddr(fr, in))
	case *ssa.Index:
		m.setReg(fr, in, m.index(fr, in))
	case *ssa.Lookup:
		m.setReg(fr, in, m.lookup(fr, in))
	case *ssa.Range:
		m.setReg(fr, in, m.rangeOp(fr, in))
	case *ssa.Next:
		m.setReg(fr, in, m.next(fr, in))
	case *ssa.TypeAssert:
		m.setReg(fr, in, m.typeAssert(fr, in))
	case *ssa.Store:
		m.storeInstr(fr, in)
	case *ssa.MapUpdate:
		mo, _ := m.val(fr, in.Map).(*MapObj)
		if mo == nil {
			panic(sigGoPanic{Iface{T: m.runtimeErrT(), V: Str{S: "assignment to entry in nil map"}}})
		}
		m.mapSet(mo, m.val(fr, in.Key), m.val(fr, in.Value))
	case *ssa.Send:
		m.sendOp(g, fr, in)
		return
	case *ssa.Select:
		m.selectOp(g, fr, in)
		return
	case *ssa.Go:
		m.goInstr(g, fr, in)
		return
	case *ssa.Defer:
		c, args := m.callee(fr, &in.Call)
		if c == nil {
			panic(sigGoPanic{m.runtimeError(nilDeref)})
		}
		if in.DeferStack != nil {
			m.unsupported("defer in a range-over-func body")
		}
		fr.defers = append(fr.defers, deferred{c, args})
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			m.callDeferred(g, fr, d)
			return
		}
	case *ssa.Panic:
		v := m.val(fr, in.X)
		if i, ok := v.(Iface); ok && i.T == nil {
			v = m.runtimeError("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(sigGoPanic{v})
	case *ssa.Return:
		var v Value
		switch len(in.Results) {
		case 0:
			v = Tuple{}
		case 1:
			v = m.val(fr, in.Results[0])
		default:
			t := make(Tuple, len(in.Results))
			for i, r := range in.Results {
				t[i] = m.val(fr, r)
			}
			v = t
		}
		m.popFrame(g, v)
		return
	case *ssa.If:
		c := m.term(fr, in.Cond)
		if m.branch(c) {
			m.jump(fr, fr.block.Succs[0])
		} else {
			m.jump(fr, fr.block.Succs[1])
		}
		return
	case *ssa.Jump:
		m.jump(fr, fr.block.Succs[0])
		return
	case *ssa.Phi:
		m.unsupported("internal: stray phi")
	default:
		m.unsupported(fmt.Sprintf("instruction %T", in))
	}
	fr.pc++
}

func (m *Machine) site(fr *Frame, in ssa.Instruction) string {
	return fr.fn.String() + "@" + m.P.shortPos(in.Pos())
}

// jump transfers control and evaluates the phis of the target in parallel.
func (m *Machine) jump(fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	n := 0
	var vals []Value
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		// a phi may merge values that were never computed on this path only if it is dead
		if i, ok := fr.info.slots[phi.Edges[idx]]; ok {
			vals = append(vals, fr.env[i])
		} else {
			vals = append(vals, m.val(fr, phi.Edges[idx]))
		}
		n++
	}
	for i := 0; i < n; i++ {
		m.setReg(fr, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	fr.prev, fr.block, fr.pc = from, to, n
}

// ptr evaluates a pointer operand and checks it against nil.
func (m *Machine) ptr(fr *Frame, v ssa.Value) Ptr {
	switch p := m.val(fr, v).(type) {
	case Ptr:
		if p.Obj == nil {
			panic(sigGoPanic{m.runtimeError(nilDeref)})
		}
		return p
	case SymPtr:
		return m.resolve(p)
	default:
		m.unsupported(fmt.Sprintf("internal: %T where a pointer was expected", p))
	}
	return Ptr{}
}

// resolve concretises a symbolic element pointer.
func (m *Machine) resolve(p SymPtr) Ptr {
	i := int(int64(m.concretize(p.Idx)))
	return Ptr{p.Obj, p.Off + i*p.Step}
}

func (m *Machine) unop(fr *Frame, in *ssa.UnOp) Value {
	switch in.Op {
	case token.MUL:
		x := m.val(fr, in.X)
		if sp, ok := x.(SymPtr); ok {
			if v := m.loadSym(sp, in.Type()); v != nil {
				return v
			}
			x = m.resolve(sp)
		}
		p, ok := x.(Ptr)
		if !ok {
			m.unsupported(fmt.Sprintf("internal: load through %T", x))
		}
		if p.Obj == nil {
			panic(sigGoPanic{m.runtimeError(nilDeref)})
		}
		v := m.loadShared(fr, p, in.Type())
		if pz, isP := v.(Poison); isP && m.initDepth == 0 {
			m.unsupported("load of a value that could not be computed (" + pz.Why + ")")
		}
		return v
	case token.NOT:
		return m.C.BNot(m.term(fr, in.X))
	case token.SUB:
		switch x := m.val(fr, in.X).(type) {
		case *smt.Term:
			return m.C.Neg(x)
		case Float:
			return -x
		}
	case token.XOR:
		return m.C.Not(m.term(fr, in.X))
	}
	m.unsupported("unary " + in.Op.String())
	return nil
}

// loadSym reads a one-leaf element at a symbolic index as an if-then-else chain; nil when not possible.
func (m *Machine) loadSym(p SymPtr, t types.Type) Value {
	w, _, ok := intWidth(t)
	if !ok || p.Step != 1 || p.N > 512 {
		return nil
	}
	_ = w
	type group struct {
		v    *smt.Term
		cond *smt.Term
	}
	var groups []*group
	byVal := map[*smt.Term]*group{}
	// consecutive runs of equal values become range tests
	i := 0
	for i < p.N {
		v, ok := m.get(p.Obj, p.Off+i).(*smt.Term)
		if !ok {
			return nil
		}
		j := i + 1
		for j < p.N {
			x, _ := m.get(p.Obj, p.Off+j).(*smt.Term)
			if x != v {
				break
			}
			j++
		}
		lo, hi := m.constInt(int64(i)), m.constInt(int64(j-1))
		var c *smt.Term
		if i == j-1 {
			c = m.C.Eq(p.Idx, lo)
		} else {
			c = m.C.BAnd(m.C.Ule(lo, p.Idx), m.C.Ule(p.Idx, hi))
		}
		if g := byVal[v]; g != nil {
			g.cond = m.C.BOr(g.cond, c)
		} else {
			g := &group{v, c}
			byVal[v] = g
			groups = append(groups, g)
		}
		i = j
	}
	if len(groups) == 0 {
		return nil
	}
	r := groups[len(groups)-1].v
	for k := len(groups) - 2; k >= 0; k-- {
		r = m.C.Ite(groups[k].cond, groups[k].v, r)
	}
	return r
}

func (m *Machine) storeInstr(fr *Frame, in *ssa.Store) {
	p := m.ptr(fr, in.Addr)
	t := under(in.Addr.Type()).(*types.Pointer).Elem()
	var v Value
	if m.initDepth > 0 {
		if i, ok := fr.info.slots[in.Val]; ok { // poison may be stored during initialisation
			v = fr.env[i]
		}
	}
	if v == nil {
		v = m.val(fr, in.Val)
	}
	if pz, ok := v.(Poison); ok && isAgg(t) {
		v = m.poisonOf(t, pz.Why)
	}
	m.storeShared(fr, p, t, v)
}

func (m *Machine) subValue(a *Agg, off int, t types.Type) Value {
	if isAgg(t) {
		n := m.leaves(t)
		return &Agg{L: a.L[off : off+n : off+n]}
	}
	v := a.L[off]
	if p, ok := v.(Poison); ok {
		m.unsupported("use of a value that could not be computed (" + p.Why + ")")
	}
	return v
}

// idx64 widens an index operand.
func (m *Machine) idx64(fr *Frame, v ssa.Value) *smt.Term {
	t := m.term(fr, v)
	_, signed, _ := intWidth(v.Type())
	return m.C.Resize(t, 64, signed)
}

// inRange is 0 <= i < n, with n known to be non-negative.
func (m *Machine) inRange(i, n *smt.Term) *smt.Term { return m.C.Ult(i, n) }

func (m *Machine) boundsMsg(i, n *smt.Term) string {
	if i.IsConst() && n.IsConst() {
		return fmt.Sprintf("index out of range [%d] with length %d", i.Signed(), n.Signed())
	}
	return "index out of range"
}

func (m *Machine) indexAddr(fr *Frame, in *ssa.IndexAddr) Value {
	i := m.idx64(fr, in.Index)
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		s := m.val(fr, in.X).(Slice)
		m.check(m.inRange(i, s.Len), m.boundsMsg(i, s.Len))
		step := m.leaves(u.Elem())
		if i.IsConst() {
			return Ptr{s.Obj, s.Off + int(i.K)*step}
		}
		if s.Len.IsConst() && !s.Obj.isLzy {
			return SymPtr{s.Obj, s.Off, step, i, int(s.Len.K)}
		}
		k := m.concretize(i)
		return Ptr{s.Obj, s.Off + int(k)*step}
	case *types.Pointer:
		arr := under(u.Elem()).(*types.Array)
		p := m.ptr(fr, in.X)
		m.check(m.inRange(i, m.constInt(arr.Len())), m.boundsMsg(i, m.constInt(arr.Len())))
		step := m.leaves(arr.Elem())
		if i.IsConst() {
			return Ptr{p.Obj, p.Off + int(i.K)*step}
		}
		return SymPtr{p.Obj, p.Off, step, i, int(arr.Len())}
	}
	m.unsupported("index of " + in.X.Type().String())
	return nil
}

func (m *Machine) index(fr *Frame, in *ssa.Index) Value {
	i := m.idx64(fr, in.Index)
	switch x := m.val(fr, in.X).(type) {
	case *Agg:
		arr := under(in.X.Type()).(*types.Array)
		m.check(m.inRange(i, m.constInt(arr.Len())), m.boundsMsg(i, m.constInt(arr.Len())))
		step := m.leaves(arr.Elem())
		if !i.IsConst() {
			if _, _, ok := intWidth(arr.Elem()); ok && arr.Len() <= 512 {
				o := &Object{typ: arr.Elem(), n: len(x.L), cells: x.L}
				if v := m.loadSym(SymPtr{o, 0, 1, i, int(arr.Len())}, arr.Elem()); v != nil {
					return v
				}
			}
		}
		k := int(m.concretize(i))
		return m.subValue(x, k*step, in.Type())
	case Str:
		return m.strIndex(x, i)
	}
	m.unsupported("index")
	return nil
}

func (m *Machine) strIndex(x Str, i *smt.Term) Value {
	n := m.constInt(int64(x.Len()))
	m.check(m.inRange(i, n), m.boundsMsg(i, n))
	if i.IsConst() {
		if x.T != nil {
			return x.T[i.K]
		}
		return m.C.Const(8, uint64(x.S[i.K]))
	}
	if x.Len() <= 512 {
		ts := m.strTerms(x)
		cells := make([]Value, len(ts))
		for k := range ts {
			cells[k] = ts[k]
		}
		o := &Object{typ: types.Typ[types.Uint8], n: len(ts), cells: cells}
		if v := m.loadSym(SymPtr{o, 0, 1, i, len(ts)}, types.Typ[types.Uint8]); v != nil {
			return v
		}
	}
	k := m.concretize(i)
	return m.strIndex(x, m.constInt(int64(k)))
}

func (m *Machine) makeSlice(fr *Frame, in *ssa.MakeSlice) Value {
	n, c := m.idx64(fr, in.Len), m.idx64(fr, in.Cap)
	elem := under(in.Type()).(*types.Slice).Elem()
	size := m.sizes.Sizeof(elem)
	maxN := int64(1) << 47
	if size > 0 {
		maxN /= size
	}
	m.check(m.C.Ule(n, m.constInt(maxN)), "makeslice: len out of range")
	if c != n {
		m.check(m.C.BAnd(m.C.Sle(n, c), m.C.Ule(c, m.constInt(maxN))), "makeslice: cap out of range")
	}
	m.addAlloc(m.C.Mul(c, m.constInt(size)))
	if c.IsConst() {
		if c.K > 1<<26 {
			return Slice{Obj: m.newLazy(elem, c), Len: n, Cap: c}
		}
		o := m.newObject(elem, int(c.K))
		o.site = m.site(fr, in)
		return Slice{Obj: o, Len: n, Cap: c}
	}
	o := m.newLazy(elem, c)
	o.site = m.site(fr, in)
	return Slice{Obj: o, Len: n, Cap: c}
}

func (m *Machine) addAlloc(n *smt.Term) {
	if m.initDepth == 0 {
		m.alloc = m.C.Add(m.alloc, n)
	}
}

func (m *Machine) sliceOp(fr *Frame, in *ssa.Slice) Value {
	z := m.constInt(0)
	lo := z
	if in.Low != nil {
		lo = m.idx64(fr, in.Low)
	}
	var hi, max *smt.Term
	if in.High != nil {
		hi = m.idx64(fr, in.High)
	}
	if in.Max != nil {
		max = m.idx64(fr, in.Max)
	}
	var base Slice
	var step int
	switch x := m.val(fr, in.X).(type) {
	case Str:
		n := m.constInt(int64(x.Len()))
		if hi == nil {
			hi = n
		}
		m.check(m.C.BAnd(m.C.Ule(hi, n), m.C.Ule(lo, hi)), "slice bounds out of range")
		l, h := int(m.concretize(lo)), int(m.concretize(hi))
		return m.strSlice(x, l, h)
	case Slice:
		base = x
		step = m.leaves(under(in.X.Type()).(*types.Slice).Elem())
	case Ptr:
		if x.Obj == nil {
			panic(sigGoPanic{m.runtimeError(nilDeref)})
		}
		arr := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		n := m.constInt(arr.Len())
		base = Slice{x.Obj, x.Off, n, n}
		step = m.leaves(arr.Elem())
	default:
		m.unsupported(fmt.Sprintf("slice of %T", x))
	}
	if hi == nil {
		hi = base.Len
	}
	newCap := base.Cap
	if max != nil {
		m.check(m.C.BAnd(m.C.Ule(max, base.Cap), m.C.Ule(hi, max)), "slice bounds out of range")
		newCap = max
	} else {
		m.check(m.C.Ule(hi, base.Cap), "slice bounds out of range")
	}
	m.check(m.C.Ule(lo, hi), "slice bounds out of range")
	if base.Obj == nil { // nil[0:0]
		return base
	}
	if lo != z && !lo.IsConst() {
		lo = m.constInt(int64(m.concretize(lo)))
	}
	off := base.Off + int(lo.K)*step
	return Slice{base.Obj, off, m.C.Sub(hi, lo), m.C.Sub(newCap, lo)}
}

// concreteLen fixes a length.
func (m *Machine) concreteLen(t *smt.Term) int { return int(int64(m.concretize(t))) }

func (m *Machine) convert(from, to types.Type, x Value) Value {
	fu, tu := under(from), under(to)
	tb, toBasic := tu.(*types.Basic)
	switch v := x.(type) {
	case *smt.Term:
		if toBasic {
			if w, _, ok := intWidth(tb); ok && w > 0 {
				_, signed, _ := intWidth(fu)
				return m.C.Resize(v, w, signed)
			}
			if tb.Info()&types.IsString != 0 {
				r := m.concretize(v)
				return Str{S: string(rune(int32(r)))}
			}
			if tb.Info()&types.IsFloat != 0 {
				_, signed, _ := intWidth(fu)
				k := m.concretize(v)
				if signed {
					return m.roundF(Float(float64(int64(m.signed(v.W, k)))), tb)
				}
				return m.roundF(Float(float64(k)), tb)
			}
			if tb.Kind() == types.UnsafePointer {
				m.unsupported("uintptr to unsafe.Pointer")
			}
		}
	case Float:
		if toBasic {
			if w, signed, ok := intWidth(tb); ok {
				if signed {
					return m.C.Const(w, uint64(int64(v)))
				}
				return m.C.Const(w, uint64(v))
			}
			return m.roundF(v, tb)
		}
	case Str:
		if sl, ok := tu.(*types.Slice); ok {
			if isByte(sl.Elem()) {
				m.addAlloc(m.constInt(int64(v.Len())))
				s := m.strToBytes(v, sl.Elem())
				return m.roundUpCap(s, sl.Elem())
			}
			if v.T != nil {
				m.unsupported("symbolic string to []rune")
			}
			rs := []rune(v.S)
			o := m.newObject(sl.Elem(), len(rs))
			for i, r := range rs {
				m.set(o, i, m.C.Const(32, uint64(uint32(r))))
			}
			l := m.constInt(int64(len(rs)))
			return Slice{Obj: o, Len: l, Cap: l}
		}
		if toBasic {
			return v
		}
	case Slice:
		if toBasic && tb.Info()&types.IsString != 0 {
			el := under(fu.(*types.Slice).Elem()).(*types.Basic)
			if el.Kind() == types.Uint8 {
				s := m.bytesToStr(v)
				m.addAlloc(m.constInt(int64(s.Len())))
				return s
			}
			n := m.concreteLen(v.Len)
			var rs []rune
			for i := 0; i < n; i++ {
				rs = append(rs, rune(int32(m.concretize(m.get(v.Obj, v.Off+i).(*smt.Term)))))
			}
			return Str{S: string(rs)}
		}
		return v
	case Ptr:
		if toBasic && tb.Kind() == types.Uintptr {
			// only used for identity tricks
			if v.Obj == nil {
				return m.constInt(0)
			}
			return m.constInt(int64(v.Obj.id)*1<<20 + int64(v.Off)*8)
		}
		return v
	case *ChanObj, *MapObj, *Closure:
		return v
	}
	m.unsupported(fmt.Sprintf("conversion from %v to %v of %T", from, to, x))
	return nil
}

func (m *Machine) signed(w uint8, k uint64) int64 { return m.C.Const(w, k).Signed() }

func (m *Machine) roundF(f Float, b *types.Basic) Float {
	if b.Kind() == types.Float32 {
		return Float(float32(f))
	}
	return f
}

// roundUpCap gives a fresh slice the spare capacity the run-time's size classes would.
func (m *Machine) roundUpCap(s Slice, elem types.Type) Slice {
	if !s.Len.IsConst() || s.Obj == nil || m.leaves(elem) == 0 {
		return s
	}
	size := m.sizes.Sizeof(elem)
	if size == 0 {
		return s
	}
	n := int64(s.Len.K)
	c := roundSize(n*size) / size
	if c > n {
		m.extend(s.Obj, elem, int(c-n))
		s.Cap = m.constInt(c)
	}
	return s
}

// extend grows a fresh object by n zero elements.
func (m *Machine) extend(o *Object, elem types.Type, n int) {
	per := m.leaves(elem)
	switch {
	case o.isLzy:
		o.n += n * per
	case o.cells != nil:
		for i := 0; i < n; i++ {
			m.appendZero(elem, &o.cells)
		}
		o.n = len(o.cells)
	default:
		o.bytes = append(o.bytes, make([]byte, n)...)
		o.n = len(o.bytes)
	}
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int64) int64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func (m *Machine) cmpTerm(op token.Token, a, b *smt.Term, signed bool) *smt.Term {
	switch op {
	case token.LSS:
		if signed {
			return m.C.Slt(a, b)
		}
		return m.C.Ult(a, b)
	case token.LEQ:
		if signed {
			return m.C.Sle(a, b)
		}
		return m.C.Ule(a, b)
	case token.GTR:
		return m.cmpTerm(token.LSS, b, a, signed)
	case token.GEQ:
		return m.cmpTerm(token.LEQ, b, a, signed)
	}
	panic("cmp")
}

func (m *Machine) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return m.eq(t, x, y)
	case token.NEQ:
		return m.C.BNot(m.eq(t, x, y))
	}
	switch a := x.(type) {
	case *smt.Term:
		b, ok := y.(*smt.Term)
		if !ok {
			break
		}
		_, signed, _ := intWidth(t)
		switch op {
		case token.ADD:
			return m.C.Add(a, b)
		case token.SUB:
			return m.C.Sub(a, b)
		case token.MUL:
			return m.C.Mul(a, b)
		case token.QUO, token.REM:
			m.check(m.C.BNot(m.C.Eq(b, m.C.Const(b.W, 0))), "integer divide by zero")
			if q := m.smallDiv(a, b); q != nil {
				if op == token.QUO {
					return q
				}
				return m.C.Sub(a, m.C.Mul(q, b))
			}
			switch {
			case op == token.QUO && signed:
				return m.C.SDiv(a, b)
			case op == token.QUO:
				return m.C.UDiv(a, b)
			case signed:
				return m.C.SRem(a, b)
			default:
				return m.C.URem(a, b)
			}
		case token.AND:
			return m.C.And(a, b)
		case token.OR:
			return m.C.Or(a, b)
		case token.XOR:
			return m.C.Xor(a, b)
		case token.AND_NOT:
			return m.C.And(a, m.C.Not(b))
		case token.SHL, token.SHR:
			_, ys, _ := intWidth(yt)
			if ys {
				m.check(m.C.BNot(m.C.Slt(b, m.C.Const(b.W, 0))), "negative shift amount")
			}
			// bring the amount to a's width, saturating
			var amt *smt.Term
			if b.W > a.W {
				big := m.C.Ule(m.C.Const(b.W, uint64(a.W)), b)
				amt = m.C.Ite(big, m.C.Const(a.W, uint64(a.W)), m.C.Extract(b, a.W-1, 0))
			} else {
				amt = m.C.Resize(b, a.W, false)
			}
			switch {
			case op == token.SHL:
				return m.C.Shl(a, amt)
			case signed:
				return m.C.AShr(a, amt)
			default:
				return m.C.LShr(a, amt)
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return m.cmpTerm(op, a, b, signed)
		}
	case Float:
		b, ok := y.(Float)
		if !ok {
			break
		}
		tb := under(t).(*types.Basic)
		switch op {
		case token.ADD:
			return m.roundF(a+b, tb)
		case token.SUB:
			return m.roundF(a-b, tb)
		case token.MUL:
			return m.roundF(a*b, tb)
		case token.QUO:
			return m.roundF(a/b, tb)
		case token.LSS:
			return m.C.Bool(a < b)
		case token.LEQ:
			return m.C.Bool(a <= b)
		case token.GTR:
			return m.C.Bool(a > b)
		case token.GEQ:
			return m.C.Bool(a >= b)
		}
	case Str:
		b, ok := y.(Str)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			r := m.strConcat(a, b)
			m.addAlloc(m.constInt(int64(r.Len())))
			return r
		case token.LSS:
			return m.strLess(a, b)
		case token.LEQ:
			return m.C.BNot(m.strLess(b, a))
		case token.GTR:
			return m.strLess(b, a)
		case token.GEQ:
			return m.C.BNot(m.strLess(a, b))
		}
	}
	m.unsupported(fmt.Sprintf("%T %s %T", x, op, y))
	return nil
}

// smallDiv divides a small non-negative range by a constant without a divider circuit.
func (m *Machine) smallDiv(a, b *smt.Term) *smt.Term {
	if m.X == nil || m.initDepth > 0 || a.IsConst() || !b.IsConst() || b.Signed() <= 0 {
		return nil
	}
	r := m.X.rangeOf(a, ivDepth)
	c := b.Signed()
	if r.lo < 0 || r.hi/c-r.lo/c > 40 || r.lo > r.hi {
		return nil
	}
	q := m.C.Const(a.W, uint64(r.hi/c))
	for k := r.hi / c; k > r.lo/c; k-- {
		q = m.C.Ite(m.C.Ult(a, m.C.Const(a.W, uint64(k*c))), m.C.Const(a.W, uint64(k-1)), q)
	}
	return q
}

// eq compares two values of static type t.
func (m *Machine) eq(t types.Type, x, y Value) *smt.Term {
	switch u := under(t).(type) {
	case *types.Struct:
		a, b := x.(*Agg), y.(*Agg)
		r := m.C.True
		l := m.layoutOf(t)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "_" {
				continue
			}
			r = m.C.BAnd(r, m.eq(f.Type(), m.subValue(a, l.fields[i], f.Type()), m.subValue(b, l.fields[i], f.Type())))
		}
		return r
	case *types.Array:
		a, b := x.(*Agg), y.(*Agg)
		r := m.C.True
		n := m.leaves(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = m.C.BAnd(r, m.eq(u.Elem(), m.subValue(a, i*n, u.Elem()), m.subValue(b, i*n, u.Elem())))
		}
		return r
	}
	switch a := x.(type) {
	case *smt.Term:
		if b, ok := y.(*smt.Term); ok {
			return m.C.Eq(a, b)
		}
	case Str:
		if b, ok := y.(Str); ok {
			return m.strEq(a, b)
		}
	case Float:
		if b, ok := y.(Float); ok {
			return m.C.Bool(a == b && !math.IsNaN(float64(a)))
		}
	case Ptr:
		if b, ok := y.(SymPtr); ok {
			y = m.resolve(b)
		}
		if b, ok := y.(Ptr); ok {
			return m.C.Bool(a == b)
		}
	case SymPtr:
		return m.eq(t, m.resolve(a), y)
	case Slice:
		if b, ok := y.(Slice); ok { // only against nil
			return m.C.Bool(a.Obj == nil && b.Obj == nil)
		}
	case *MapObj:
		if b, ok := y.(*MapObj); ok {
			return m.C.Bool(a == b)
		}
	case *ChanObj:
		if b, ok := y.(*ChanObj); ok {
			return m.C.Bool(a == b)
		}
	case *Closure:
		if b, ok := y.(*Closure); ok {
			return m.C.Bool(a == nil && b == nil)
		}
	case Iface:
		b, ok := y.(Iface)
		if !ok { // interface compared with a concrete value
			b = Iface{T: t, V: y}
		}
		if a.T == nil || b.T == nil {
			return m.C.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return m.C.False
		}
		if !types.Comparable(a.T) {
			panic(sigGoPanic{m.runtimeError("comparing uncomparable type " + a.T.String())})
		}
		return m.eq(a.T, a.V, b.V)
	}
	m.unsupported(fmt.Sprintf("comparison of %T and %T", x, y))
	return nil
}

func (m *Machine) runtimeErrT() types.Type {
	if m.P.runtimeErr != nil {
		return m.P.runtimeErr
	}
	return types.Typ[types.String]
}

func (m *Machine) implements(t types.Type, i types.Type) bool {
	k := implKey{t, i}
	if r, ok := m.implC[k]; ok {
		return r
	}
	r := types.Implements(t, under(i).(*types.Interface))
	m.implC[k] = r
	return r
}

func (m *Machine) typeAssert(fr *Frame, in *ssa.TypeAssert) Value {
	x := m.val(fr, in.X).(Iface)
	ok := false
	var v Value
	if x.T != nil {
		if types.IsInterface(in.AssertedType) {
			if m.implements(x.T, in.AssertedType) {
				ok, v = true, x
			}
		} else if types.Identical(x.T, in.AssertedType) {
			ok, v = true, x.V
		}
	}
	if in.CommaOk {
		if !ok {
			v = m.zero(in.AssertedType)
		}
		return Tuple{v, m.C.Bool(ok)}
	}
	if !ok {
		dyn := "nil"
		if x.T != nil {
			dyn = x.T.String()
		}
		panic(sigGoPanic{m.runtimeError("interface conversion: interface is " + dyn + ", not " + in.AssertedType.String())})
	}
	return v
}

// callee evaluates the function and arguments of a call.
func (m *Machine) callee(fr *Frame, c *ssa.CallCommon) (*Closure, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv, ok := m.val(fr, c.Value).(Iface)
		if !ok {
			m.unsupported("internal: invoke on non-interface")
		}
		if recv.T == nil {
			panic(sigGoPanic{m.runtimeError(nilDeref)})
		}
		fn := m.method(recv.T, c.Method)
		args = append(args, recv.V)
		for _, a := range c.Args {
			args = append(args, m.val(fr, a))
		}
		return m.fnVal(fn), args
	}
	f, ok := m.val(fr, c.Value).(*Closure)
	if !ok {
		m.unsupported(fmt.Sprintf("internal: call of %T", m.val(fr, c.Value)))
	}
	for _, a := range c.Args {
		args = append(args, m.val(fr, a))
	}
	return f, args
}

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Id()}
	if f, ok := m.methC[k]; ok {
		return f
	}
	f := m.P.lookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		m.unsupported("no method " + meth.Name() + " on " + t.String())
	}
	m.methC[k] = f
	return f
}

// callInstr executes a call; the register is set when it returns.
func (m *Machine) callInstr(g *G, fr *Frame, in *ssa.Call) {
	if b, ok := in.Call.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(in.Call.Args))
		for i, a := range in.Call.Args {
			args[i] = m.val(fr, a)
		}
		v := m.builtin(fr, b, args, in)
		m.setReg(fr, in, v)
		fr.pc++
		return
	}
	if f, ok := in.Call.Value.(*ssa.Function); ok && m.initDepth > 0 && isInitFn(f) && f.Name() == "init" && f.Signature.Recv() == nil && f.Pkg != fr.fn.Pkg {
		// packages initialise on demand
		m.setReg(fr, in, Tuple{})
		fr.pc++
		return
	}
	c, args := m.callee(fr, &in.Call)
	ret := func(m *Machine, v Value) {
		m.setReg(fr, in, v)
		fr.pc++
	}
	m.invoke(g, c, args, ret, in)
}

// decodeRune decodes the first rune of a (symbolic) string, forking on its class.
func (m *Machine) decodeRune(s Str, pos int) (*smt.Term, int) {
	if s.T == nil {
		r, n := utf8.DecodeRuneInString(s.S[pos:])
		return m.C.Const(32, uint64(uint32(r))), n
	}
	b := s.T[pos]
	if m.branch(m.C.Ult(b, m.C.Const(8, 0x80))) {
		return m.C.ZExt(b, 32), 1
	}
	// non-ASCII: fix the bytes of the rune
	var buf []byte
	for i := pos; i < len(s.T) && i < pos+4; i++ {
		k := byte(m.concretize(s.T[i]))
		buf = append(buf, k)
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	return m.C.Const(32, uint64(uint32(r))), n
}
