// Package smt holds hash-consed bit-vector/boolean terms and a pipe to an SMT solver.
package smt

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term constructor.
type Op uint8

// Term constructors. Boolean terms have width 0.
const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLShr
	OpAShr
	OpNot // bitwise
	OpConcat
	OpExtract
	OpSExt
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd
	OpBOr
	OpBNot
)

// Term is an immutable, hash-consed expression.
type Term struct {
	Op   Op
	W    uint8 // 0: bool
	Lo   uint8 // extract: low bit
	K    uint64
	Args []*Term
	Name string
	ID   uint32
	hash uint64
}

// Ctx owns hash-consed terms. Not safe for concurrent use.
type Ctx struct {
	tab    map[uint64][]*Term
	nextID uint32
	True   *Term
	False  *Term
	vars   map[string]*Term
	small  [256]*Term
}

// NewCtx returns an empty context.
func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Term{}, vars: map[string]*Term{}}
	c.False = c.mk(OpConst, 0, 0, 0, "")
	c.True = c.mk(OpConst, 0, 0, 1, "")
	for i := range c.small {
		c.small[i] = c.mk(OpConst, 8, 0, uint64(i), "")
	}
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w, lo uint8, k uint64, name string, args ...*Term) *Term {
	h := uint64(14695981039346656037)
	mix := func(x uint64) { h = (h ^ x) * 1099511628211; h ^= h >> 29 }
	mix(uint64(op)<<16 | uint64(w)<<8 | uint64(lo))
	mix(k)
	for _, a := range args {
		mix(a.hash + 7)
	}
	for i := 0; i < len(name); i++ {
		mix(uint64(name[i]))
	}
outer:
	for _, t := range c.tab[h] {
		if t.Op != op || t.W != w || t.Lo != lo || t.K != k || t.Name != name || len(t.Args) != len(args) {
			continue
		}
		for i := range args {
			if t.Args[i] != args[i] {
				continue outer
			}
		}
		return t
	}
	t := &Term{Op: op, W: w, Lo: lo, K: k, Name: name, ID: c.nextID, hash: h}
	if len(args) > 0 {
		t.Args = append([]*Term(nil), args...)
	}
	c.nextID++
	c.tab[h] = append(c.tab[h], t)
	return t
}

// after orders the operands of commutative operations: the same way in every context, constants last.
func after(a, b *Term) bool {
	if ca, cb := a.IsConst(), b.IsConst(); ca != cb {
		return ca
	}
	if a.hash != b.hash {
		return a.hash > b.hash
	}
	return a.ID > b.ID
}

// Size returns the number of terms created.
func (c *Ctx) Size() int { return int(c.nextID) }

// Const returns the w-bit constant v.
func (c *Ctx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v&1 == 1 {
			return c.True
		}
		return c.False
	}
	if w == 8 {
		return c.small[v&255]
	}
	return c.mk(OpConst, w, 0, v&mask(w), "")
}

// Bool returns the boolean constant b.
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var returns the variable of that name and width.
func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.vars[name]; ok {
		if t.W != w {
			panic(fmt.Sprintf("smt: variable %s redeclared with width %d (was %d)", name, w, t.W))
		}
		return t
	}
	t := c.mk(OpVar, w, 0, 0, name)
	c.vars[name] = t
	return t
}

// IsConst reports whether t is a constant.
func (t *Term) IsConst() bool { return t.Op == OpConst }

// IsTrue and IsFalse test for the boolean constants.
func (t *Term) IsTrue() bool  { return t.Op == OpConst && t.W == 0 && t.K == 1 }
func (t *Term) IsFalse() bool { return t.Op == OpConst && t.W == 0 && t.K == 0 }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// Signed returns a constant's value read as signed.
func (t *Term) Signed() int64 { return sext(t.K, t.W) }

// EvalOp computes op on constants.
func evalOp(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		s := b
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext(a, w)>>s) & m
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sext(a, w) < sext(b, w))
	case OpSle:
		return b2u(sext(a, w) <= sext(b, w))
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Add returns a+b.
func (c *Ctx) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, a.K+b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		if a.Op == OpAdd && a.Args[1].IsConst() {
			return c.Add(a.Args[0], c.Const(a.W, a.Args[1].K+b.K))
		}
		return c.mk(OpAdd, a.W, 0, 0, "", a, b)
	}
	// move constants outwards
	if a.Op == OpAdd && a.Args[1].IsConst() {
		return c.Add(c.Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == OpAdd && b.Args[1].IsConst() {
		return c.Add(c.Add(a, b.Args[0]), b.Args[1])
	}
	// x + (-x)
	if n := c.negOf(a); n != nil && n == b {
		return c.Const(a.W, 0)
	}
	if n := c.negOf(b); n != nil {
		if n == a {
			return c.Const(a.W, 0)
		}
		if a.Op == OpAdd {
			if a.Args[0] == n {
				return a.Args[1]
			}
			if a.Args[1] == n {
				return a.Args[0]
			}
		}
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.mk(OpAdd, a.W, 0, 0, "", a, b)
}

// negOf returns x when t is -x.
func (c *Ctx) negOf(t *Term) *Term {
	if t.Op == OpMul && t.Args[1].IsConst() && t.Args[1].K == mask(t.W) {
		return t.Args[0]
	}
	return nil
}

// Neg returns -a.
func (c *Ctx) Neg(a *Term) *Term { return c.Mul(a, c.Const(a.W, mask(a.W))) }

// Sub returns a-b.
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.W, 0)
	}
	if b.IsConst() {
		return c.Add(a, c.Const(a.W, -b.K))
	}
	return c.Add(a, c.Neg(b))
}

// Mul returns a*b.
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, a.K*b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch {
		case b.K == 0:
			return b
		case b.K == 1:
			return a
		case b.K&(b.K-1) == 0:
			return c.Shl(a, c.Const(a.W, uint64(bits.TrailingZeros64(b.K))))
		}
		if a.Op == OpMul && a.Args[1].IsConst() {
			return c.Mul(a.Args[0], c.Const(a.W, a.Args[1].K*b.K))
		}
		if b.K == mask(a.W) && a.Op == OpAdd && a.Args[1].IsConst() {
			return c.Add(c.Neg(a.Args[0]), c.Const(a.W, -a.Args[1].K))
		}
		return c.mk(OpMul, a.W, 0, 0, "", a, b)
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.mk(OpMul, a.W, 0, 0, "", a, b)
}

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, evalOp(op, a.W, a.K, b.K))
	}
	return c.mk(op, a.W, 0, 0, "", a, b)
}

// Div and Rem, signed or not. Division by zero must be excluded by the caller.
func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.IsConst() && b.K == 1 {
		return a
	}
	if b.IsConst() && b.K != 0 && b.K&(b.K-1) == 0 {
		return c.LShr(a, c.Const(a.W, uint64(bits.TrailingZeros64(b.K))))
	}
	return c.bin(OpUDiv, a, b)
}
func (c *Ctx) URem(a, b *Term) *Term {
	if b.IsConst() && b.K != 0 && b.K&(b.K-1) == 0 {
		return c.And(a, c.Const(a.W, b.K-1))
	}
	return c.bin(OpURem, a, b)
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	if b.IsConst() && b.K == 1 {
		return a
	}
	return c.bin(OpSDiv, a, b)
}
func (c *Ctx) SRem(a, b *Term) *Term { return c.bin(OpSRem, a, b) }

// pieces views t as a concatenation, most significant first.
func pieces(t *Term) []*Term {
	if t.Op == OpConcat {
		return t.Args
	}
	return []*Term{t}
}

// slicePieces cuts the piece lists a and b at common boundaries.
func (c *Ctx) align(a, b *Term) (pa, pb []*Term) {
	cuts := map[uint8]bool{}
	for _, t := range []*Term{a, b} {
		pos := t.W
		for _, p := range pieces(t) {
			pos -= p.W
			cuts[pos] = true
		}
	}
	var cs []int
	for k := range cuts {
		cs = append(cs, int(k))
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	hi := a.W
	for _, lo := range cs {
		pa = append(pa, c.Extract(a, hi-1, uint8(lo)))
		pb = append(pb, c.Extract(b, hi-1, uint8(lo)))
		hi = uint8(lo)
	}
	return pa, pb
}

func isZero(t *Term) bool { return t.IsConst() && t.K == 0 }
func isOnes(t *Term) bool { return t.IsConst() && t.K == mask(t.W) }

// And returns the bitwise conjunction.
func (c *Ctx) And(a, b *Term) *Term {
	if a.W == 0 {
		return c.BAnd(a, b)
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, a.K&b.K)
	}
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.K == 0 {
			return b
		}
		if isOnes(b) {
			return a
		}
		// split the mask into runs of ones and zeros
		var ps []*Term
		hi := int(a.W) - 1
		runs := 0
		for hi >= 0 {
			bit := (b.K >> uint(hi)) & 1
			lo := hi
			for lo > 0 && (b.K>>uint(lo-1))&1 == bit {
				lo--
			}
			if bit == 1 {
				ps = append(ps, c.Extract(a, uint8(hi), uint8(lo)))
			} else {
				ps = append(ps, c.Const(uint8(hi-lo+1), 0))
			}
			hi = lo - 1
			runs++
		}
		if runs <= 4 {
			return c.Concat(ps...)
		}
		return c.mk(OpAnd, a.W, 0, 0, "", a, b)
	}
	if a.Op == OpConcat || b.Op == OpConcat {
		pa, pb := c.align(a, b)
		out := make([]*Term, len(pa))
		ok := true
		for i := range pa {
			x, y := pa[i], pb[i]
			switch {
			case isZero(x) || isOnes(y) || x == y:
				out[i] = x
			case isZero(y) || isOnes(x):
				out[i] = y
			default:
				ok = false
			}
		}
		if ok {
			return c.Concat(out...)
		}
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.mk(OpAnd, a.W, 0, 0, "", a, b)
}

// Or returns the bitwise disjunction.
func (c *Ctx) Or(a, b *Term) *Term {
	if a.W == 0 {
		return c.BOr(a, b)
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, a.K|b.K)
	}
	if a == b || isZero(b) || isOnes(a) {
		return a
	}
	if isZero(a) || isOnes(b) {
		return b
	}
	if a.Op == OpConcat || b.Op == OpConcat {
		pa, pb := c.align(a, b)
		out := make([]*Term, len(pa))
		ok := true
		for i := range pa {
			x, y := pa[i], pb[i]
			switch {
			case isZero(x) || isOnes(y) || x == y:
				out[i] = y
			case isZero(y) || isOnes(x):
				out[i] = x
			default:
				ok = false
			}
		}
		if ok {
			return c.Concat(out...)
		}
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.mk(OpOr, a.W, 0, 0, "", a, b)
}

// Xor returns the bitwise exclusive or.
func (c *Ctx) Xor(a, b *Term) *Term {
	if a.W == 0 {
		return c.BNot(c.Eq(a, b))
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, a.K^b.K)
	}
	if a == b {
		return c.Const(a.W, 0)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if isOnes(b) {
		return c.Not(a)
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.mk(OpXor, a.W, 0, 0, "", a, b)
}

// Not is the bitwise complement.
func (c *Ctx) Not(a *Term) *Term {
	if a.W == 0 {
		return c.BNot(a)
	}
	if a.IsConst() {
		return c.Const(a.W, ^a.K)
	}
	if a.Op == OpNot {
		return a.Args[0]
	}
	return c.mk(OpNot, a.W, 0, 0, "", a)
}

// Shl shifts left; shift amounts >= width give zero. b has a's width.
func (c *Ctx) Shl(a, b *Term) *Term {
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		if b.K >= uint64(a.W) {
			return c.Const(a.W, 0)
		}
		k := uint8(b.K)
		return c.Concat(c.Extract(a, a.W-1-k, 0), c.Const(k, 0))
	}
	return c.bin(OpShl, a, b)
}

// LShr is the logical right shift.
func (c *Ctx) LShr(a, b *Term) *Term {
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		if b.K >= uint64(a.W) {
			return c.Const(a.W, 0)
		}
		k := uint8(b.K)
		return c.Concat(c.Const(k, 0), c.Extract(a, a.W-1, k))
	}
	return c.bin(OpLShr, a, b)
}

// AShr is the arithmetic right shift.
func (c *Ctx) AShr(a, b *Term) *Term {
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		k := b.K
		if k >= uint64(a.W) {
			k = uint64(a.W) - 1
		}
		return c.SExt(c.Extract(a, a.W-1, uint8(k)), a.W)
	}
	return c.bin(OpAShr, a, b)
}

// Concat joins parts, most significant first.
func (c *Ctx) Concat(parts ...*Term) *Term {
	var out []*Term
	var w int
	for _, p := range parts {
		if p == nil || p.W == 0 {
			panic("smt: concat of non-bitvector")
		}
		w += int(p.W)
		for _, q := range pieces(p) {
			if n := len(out); n > 0 {
				l := out[n-1]
				if l.IsConst() && q.IsConst() {
					out[n-1] = c.Const(l.W+q.W, l.K<<q.W|q.K)
					continue
				}
				if l.Op == OpExtract && q.Op == OpExtract && l.Args[0] == q.Args[0] && l.Lo == q.Lo+q.W {
					out[n-1] = c.Extract(l.Args[0], l.Lo+l.W-1, q.Lo)
					continue
				}
			}
			out = append(out, q)
		}
	}
	if w > 64 {
		panic("smt: concat wider than 64 bits")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(OpConcat, uint8(w), 0, 0, "", out...)
}

// Extract returns bits hi..lo of a.
func (c *Ctx) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.W {
		return a
	}
	switch a.Op {
	case OpConst:
		return c.Const(w, a.K>>lo)
	case OpExtract:
		return c.Extract(a.Args[0], a.Lo+hi, a.Lo+lo)
	case OpConcat:
		pos := a.W
		var ps []*Term
		for _, p := range a.Args {
			pos -= p.W
			// piece covers bits pos .. pos+p.W-1
			phi, plo := pos+p.W-1, pos
			if phi < lo || plo > hi {
				continue
			}
			h, l := phi, plo
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			ps = append(ps, c.Extract(p, h-pos, l-pos))
		}
		return c.Concat(ps...)
	case OpSExt:
		in := a.Args[0]
		if hi < in.W {
			return c.Extract(in, hi, lo)
		}
		if lo < in.W {
			return c.SExt(c.Extract(in, in.W-1, lo), w)
		}
	case OpAdd, OpMul:
		if lo == 0 { // low bits depend on low bits only
			x, y := c.Extract(a.Args[0], hi, 0), c.Extract(a.Args[1], hi, 0)
			if a.Op == OpAdd {
				return c.Add(x, y)
			}
			return c.Mul(x, y)
		}
	case OpAnd:
		return c.And(c.Extract(a.Args[0], hi, lo), c.Extract(a.Args[1], hi, lo))
	case OpOr:
		return c.Or(c.Extract(a.Args[0], hi, lo), c.Extract(a.Args[1], hi, lo))
	case OpIte:
		if a.Args[1].IsConst() || a.Args[2].IsConst() {
			return c.Ite(a.Args[0], c.Extract(a.Args[1], hi, lo), c.Extract(a.Args[2], hi, lo))
		}
	}
	return c.mk(OpExtract, w, lo, 0, "", a)
}

// ZExt widens with zeros.
func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	return c.Concat(c.Const(w-a.W, 0), a)
}

// SExt widens with the sign.
func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if w == a.W {
		return a
	}
	if a.IsConst() {
		return c.Const(w, uint64(sext(a.K, a.W)))
	}
	if a.Op == OpSExt {
		return c.SExt(a.Args[0], w)
	}
	if a.Op == OpConcat && a.Args[0].IsConst() && a.Args[0].K>>(a.Args[0].W-1) == 0 {
		return c.ZExt(a, w)
	}
	return c.mk(OpSExt, w, 0, 0, "", a)
}

// Resize converts between widths.
func (c *Ctx) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case w == a.W:
		return a
	case w < a.W:
		return c.Extract(a, w-1, 0)
	case signed:
		return c.SExt(a, w)
	}
	return c.ZExt(a, w)
}

// Ite is if-then-else on bit-vectors or booleans.
func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.IsTrue() || a == b {
		return a
	}
	if p.IsFalse() {
		return b
	}
	if p.Op == OpBNot {
		return c.Ite(p.Args[0], b, a)
	}
	if a.W == 0 {
		if a.IsTrue() {
			return c.BOr(p, b)
		}
		if a.IsFalse() {
			return c.BAnd(c.BNot(p), b)
		}
		if b.IsTrue() {
			return c.BOr(c.BNot(p), a)
		}
		if b.IsFalse() {
			return c.BAnd(p, a)
		}
	}
	return c.mk(OpIte, a.W, 0, 0, "", p, a, b)
}

// Eq is equality.
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("smt: eq of widths %d and %d", a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.K == b.K)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.W == 0 {
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.BNot(a)
		}
	}
	if b.IsConst() {
		if a.Op == OpAdd && a.Args[1].IsConst() {
			return c.Eq(a.Args[0], c.Const(a.W, b.K-a.Args[1].K))
		}
		if a.Op == OpIte && a.Args[1].IsConst() && a.Args[2].IsConst() {
			x, y := a.Args[1].K == b.K, a.Args[2].K == b.K
			return c.Ite(a.Args[0], c.Bool(x), c.Bool(y))
		}
		if a.Op == OpSExt {
			in := a.Args[0]
			if uint64(sext(b.K&mask(in.W), in.W))&mask(a.W) != b.K {
				return c.False
			}
			return c.Eq(in, c.Const(in.W, b.K))
		}
		if a.Op == OpConcat { // split
			r := c.True
			pos := a.W
			for _, p := range a.Args {
				pos -= p.W
				r = c.BAnd(r, c.Eq(p, c.Const(p.W, b.K>>pos)))
			}
			return r
		}
	}
	if a.Op == OpAdd && b.Op == OpAdd && a.Args[1].IsConst() && a.Args[1] == b.Args[1] {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, 0, "", a, b)
}

// zext bound: the largest unsigned value t can have by its shape.
func maxOf(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.K
	case OpConcat:
		if t.Args[0].IsConst() {
			rest := t.W - t.Args[0].W
			return t.Args[0].K<<rest | mask(rest)
		}
	case OpIte:
		a, b := maxOf(t.Args[1]), maxOf(t.Args[2])
		if a > b {
			return a
		}
		return b
	}
	return mask(t.W)
}

// Ult is unsigned less-than.
func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.K < b.K)
	}
	if isZero(b) || isOnes(a) {
		return c.False
	}
	if b.IsConst() && maxOf(a) < b.K {
		return c.True
	}
	if b.IsConst() && b.K == 1 {
		return c.Eq(a, c.Const(a.W, 0))
	}
	if isZero(a) {
		return c.BNot(c.Eq(b, a))
	}
	return c.mk(OpUlt, 0, 0, 0, "", a, b)
}

// Ule is unsigned less-or-equal.
func (c *Ctx) Ule(a, b *Term) *Term { return c.BNot(c.Ult(b, a)) }

// Slt is signed less-than.
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext(a.K, a.W) < sext(b.K, b.W))
	}
	half := uint64(1) << (a.W - 1)
	// both non-negative by shape: unsigned comparison
	if maxOf(a) < half && maxOf(b) < half {
		return c.Ult(a, b)
	}
	if b.IsConst() && b.K == half { // x < min
		return c.False
	}
	if a.IsConst() && a.K == half-1 { // max < x
		return c.False
	}
	if isZero(b) && maxOf(a) < half { // non-negative < 0
		return c.False
	}
	if b.IsConst() && sext(b.K, b.W) <= 0 && maxOf(a) < half {
		return c.False
	}
	if a.IsConst() && sext(a.K, a.W) < 0 && maxOf(b) < half {
		return c.True
	}
	if a.Op == OpSExt && b.Op == OpSExt && a.Args[0].W == b.Args[0].W {
		return c.Slt(a.Args[0], b.Args[0])
	}
	return c.mk(OpSlt, 0, 0, 0, "", a, b)
}

// Sle is signed less-or-equal.
func (c *Ctx) Sle(a, b *Term) *Term { return c.BNot(c.Slt(b, a)) }

// BNot negates a boolean.
func (c *Ctx) BNot(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.K == 0)
	}
	if a.Op == OpBNot {
		return a.Args[0]
	}
	return c.mk(OpBNot, 0, 0, 0, "", a)
}

// BAnd conjoins booleans.
func (c *Ctx) BAnd(a, b *Term) *Term {
	switch {
	case a.IsFalse() || b.IsFalse():
		return c.False
	case a.IsTrue():
		return b
	case b.IsTrue() || a == b:
		return a
	case c.BNot(a) == b:
		return c.False
	}
	if after(a, b) {
		a, b = b, a
	}
	return c.mk(OpBAnd, 0, 0, 0, "", a, b)
}

// BOr disjoins booleans.
func (c *Ctx) BOr(a, b *Term) *Term {
	return c.BNot(c.BAnd(c.BNot(a), c.BNot(b)))
}

// Implies is a -> b.
func (c *Ctx) Implies(a, b *Term) *Term { return c.BOr(c.BNot(a), b) }

// Model assigns variables by name; absent ones are zero.
type Model map[string]uint64

// Evaluator evaluates terms under one model.
type Evaluator struct {
	M     Model
	cache map[*Term]uint64
}

// NewEval returns an evaluator for m.
func NewEval(m Model) *Evaluator { return &Evaluator{M: m, cache: map[*Term]uint64{}} }

// Eval returns t's value (0/1 for booleans).
func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.Op {
	case OpConst:
		return t.K
	case OpVar:
		w := t.W
		if w == 0 {
			w = 1
		}
		return e.M[t.Name] & mask(w)
	}
	if v, ok := e.cache[t]; ok {
		return v
	}
	var v uint64
	switch t.Op {
	case OpNot:
		v = ^e.Eval(t.Args[0]) & mask(t.W)
	case OpBNot:
		v = 1 - e.Eval(t.Args[0])
	case OpBAnd:
		v = e.Eval(t.Args[0])
		if v == 1 {
			v = e.Eval(t.Args[1])
		}
	case OpBOr:
		v = e.Eval(t.Args[0]) | e.Eval(t.Args[1])
	case OpIte:
		if e.Eval(t.Args[0]) == 1 {
			v = e.Eval(t.Args[1])
		} else {
			v = e.Eval(t.Args[2])
		}
	case OpConcat:
		for _, a := range t.Args {
			v = v<<a.W | e.Eval(a)
		}
	case OpExtract:
		v = (e.Eval(t.Args[0]) >> t.Lo) & mask(t.W)
	case OpSExt:
		v = uint64(sext(e.Eval(t.Args[0]), t.Args[0].W)) & mask(t.W)
	case OpEq, OpUlt, OpUle, OpSlt, OpSle:
		v = evalOp(t.Op, t.Args[0].W, e.Eval(t.Args[0]), e.Eval(t.Args[1]))
	default:
		v = evalOp(t.Op, t.W, e.Eval(t.Args[0]), e.Eval(t.Args[1]))
	}
	e.cache[t] = v
	return v
}

var opName = map[Op]string{
	OpAdd: "bvadd", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpNot: "bvnot",
	OpConcat: "concat", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpBAnd: "and", OpBOr: "or", OpBNot: "not",
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func quote(name string) string { return "|" + name + "|" }

// head prints t with its arguments rendered by ref.
func (t *Term) print(sb *strings.Builder, ref func(*Term) string) {
	switch t.Op {
	case OpConst:
		if t.W == 0 {
			if t.K == 1 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", t.K, t.W)
	case OpVar:
		sb.WriteString(quote(t.Name))
	case OpExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.Lo+t.W-1, t.Lo, ref(t.Args[0]))
	case OpSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.W-t.Args[0].W, ref(t.Args[0]))
	default:
		sb.WriteByte('(')
		sb.WriteString(opName[t.Op])
		for _, a := range t.Args {
			sb.WriteByte(' ')
			sb.WriteString(ref(a))
		}
		sb.WriteByte(')')
	}
}

// String renders t as an SMT-LIB expression (without sharing; for diagnostics).
func (t *Term) String() string {
	var sb strings.Builder
	var rec func(x *Term) string
	n := 0
	rec = func(x *Term) string {
		n++
		if n > 400 {
			return "..."
		}
		var b strings.Builder
		x.print(&b, rec)
		return b.String()
	}
	sb.WriteString(rec(t))
	return sb.String()
}
