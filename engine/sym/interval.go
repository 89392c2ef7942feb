package sym

import (
	"math"
	"math/bits"

	"gosym/smt"
)

// iv is a range of a term read as a signed number of its width.
type iv struct{ lo, hi int64 }

func fullIv(w uint8) iv {
	if w == 0 || w >= 64 {
		return iv{math.MinInt64, math.MaxInt64}
	}
	return iv{-(1 << (w - 1)), 1<<(w-1) - 1}
}

func (a iv) meet(b iv) iv {
	if b.lo > a.lo {
		a.lo = b.lo
	}
	if b.hi < a.hi {
		a.hi = b.hi
	}
	return a
}

func addOK(a, b int64) (int64, bool) {
	s := a + b
	return s, !((a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0))
}

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo > math.MaxInt64 || a == math.MinInt64 || b == math.MinInt64 {
		return 0, false
	}
	return a * b, true
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// rangeOf bounds a term under the facts of the current path.
func (x *Explorer) rangeOf(t *smt.Term, depth int) iv {
	if t.IsConst() {
		v := t.Signed()
		return iv{v, v}
	}
	r := fullIv(t.W)
	if f, ok := x.facts[t]; ok {
		r = r.meet(f)
	}
	if depth <= 0 {
		return r
	}
	switch t.Op {
	case smt.OpSExt:
		r = r.meet(x.rangeOf(t.Args[0], depth-1))
	case smt.OpConcat:
		if h := t.Args[0]; h.IsConst() && h.K == 0 {
			low := t.W - h.W
			if len(t.Args) == 2 {
				s := x.rangeOf(t.Args[1], depth-1)
				if s.lo >= 0 {
					r = r.meet(s)
					break
				}
			}
			if low < 63 {
				r = r.meet(iv{0, 1<<low - 1})
			} else {
				r = r.meet(iv{0, math.MaxInt64})
			}
		}
	case smt.OpAdd:
		s, ok := iv{}, true
		for _, a := range t.Args {
			ra := x.rangeOf(a, depth-1)
			var o1, o2 bool
			s.lo, o1 = addOK(s.lo, ra.lo)
			s.hi, o2 = addOK(s.hi, ra.hi)
			if !o1 || !o2 {
				ok = false
				break
			}
		}
		if f := fullIv(t.W); ok && s.lo >= f.lo && s.hi <= f.hi {
			r = r.meet(s)
		}
	case smt.OpMul:
		if len(t.Args) == 2 {
			a, b := x.rangeOf(t.Args[0], depth-1), x.rangeOf(t.Args[1], depth-1)
			s, ok := iv{math.MaxInt64, math.MinInt64}, true
			for _, p := range [][2]int64{{a.lo, b.lo}, {a.lo, b.hi}, {a.hi, b.lo}, {a.hi, b.hi}} {
				v, o := mulOK(p[0], p[1])
				ok = ok && o
				if v < s.lo {
					s.lo = v
				}
				if v > s.hi {
					s.hi = v
				}
			}
			if f := fullIv(t.W); ok && s.lo >= f.lo && s.hi <= f.hi {
				r = r.meet(s)
			}
		}
	case smt.OpIte:
		a, b := x.rangeOf(t.Args[1], depth-1), x.rangeOf(t.Args[2], depth-1)
		if v, ok := x.decided(t.Args[0]); ok {
			if v {
				r = r.meet(a)
			} else {
				r = r.meet(b)
			}
			break
		}
		if b.lo < a.lo {
			a.lo = b.lo
		}
		if b.hi > a.hi {
			a.hi = b.hi
		}
		r = r.meet(a)
	case smt.OpAnd:
		for _, a := range t.Args {
			if a.IsConst() && a.Signed() >= 0 {
				r = r.meet(iv{0, a.Signed()})
			}
		}
	case smt.OpExtract:
		if t.Lo == 0 {
			s := x.rangeOf(t.Args[0], depth-1)
			if f := fullIv(t.W); s.lo >= f.lo && s.hi <= f.hi {
				r = r.meet(s)
			}
		}
	}
	return r
}

const ivDepth = 6

// decided evaluates a condition by what the path is known to imply.
func (x *Explorer) decided(c *smt.Term) (v, ok bool) {
	if c.IsConst() {
		return c.K == 1, true
	}
	if v, ok := x.known[c]; ok {
		return v, true
	}
	switch c.Op {
	case smt.OpBNot:
		v, ok = x.decided(c.Args[0])
		return !v, ok
	case smt.OpBAnd:
		all := true
		for _, a := range c.Args {
			v, ok := x.decided(a)
			if ok && !v {
				return false, true
			}
			all = all && ok
		}
		return true, all
	case smt.OpSlt, smt.OpSle, smt.OpUlt, smt.OpUle, smt.OpEq:
		if c.Args[0].W == 0 {
			return false, false
		}
		a, b := x.rangeOf(c.Args[0], ivDepth), x.rangeOf(c.Args[1], ivDepth)
		if a.lo > a.hi || b.lo > b.hi {
			return false, false
		}
		switch c.Op {
		case smt.OpEq:
			if a.hi < b.lo || b.hi < a.lo {
				return false, true
			}
			if a.lo == a.hi && b == a {
				return true, true
			}
			return false, false
		case smt.OpUlt, smt.OpUle:
			// same order as signed when the signs agree; a negative number is above every other
			if a.hi < 0 && b.lo >= 0 {
				return false, true
			}
			if a.lo >= 0 && b.hi < 0 {
				return true, true
			}
			if !(a.lo >= 0 && b.lo >= 0) && !(a.hi < 0 && b.hi < 0) {
				return false, false
			}
		}
		if c.Op == smt.OpSlt || c.Op == smt.OpUlt {
			if a.hi < b.lo {
				return true, true
			}
			if a.lo >= b.hi {
				return false, true
			}
		} else {
			if a.hi <= b.lo {
				return true, true
			}
			if a.lo > b.hi {
				return false, true
			}
		}
	}
	return false, false
}

// note records what a decided condition says about ranges.
func (x *Explorer) note(c *smt.Term, v bool) {
	switch c.Op {
	case smt.OpBNot:
		x.note(c.Args[0], !v)
	case smt.OpBAnd:
		if v {
			for _, a := range c.Args {
				x.known[a] = true
				x.note(a, true)
			}
		}
	case smt.OpSlt, smt.OpSle, smt.OpUlt, smt.OpUle, smt.OpEq:
		p, q := c.Args[0], c.Args[1]
		if p.W == 0 {
			return
		}
		a, b := x.rangeOf(p, ivDepth), x.rangeOf(q, ivDepth)
		op := c.Op
		if op == smt.OpEq {
			if a.lo == a.hi {
				p, q, a, b = q, p, b, a
			}
			if v {
				x.narrow(p, b, ivDepth)
				x.narrow(q, a, ivDepth)
			} else if b.lo == b.hi {
				if a.lo == b.lo && a.lo < math.MaxInt64 {
					x.narrow(p, iv{a.lo + 1, a.hi}, ivDepth)
				} else if a.hi == b.lo && a.hi > math.MinInt64 {
					x.narrow(p, iv{a.lo, a.hi - 1}, ivDepth)
				}
			}
			return
		}
		strict := op == smt.OpSlt || op == smt.OpUlt
		unsigned := op == smt.OpUlt || op == smt.OpUle
		if !v { // p<q false: q<=p
			p, q, a, b = q, p, b, a
			strict = !strict
		}
		// now p < q or p <= q
		d := int64(0)
		if strict {
			d = 1
		}
		if unsigned {
			if b.lo < 0 { // q may be a huge unsigned number
				if a.lo >= 0 {
					return
				}
				return
			}
			// q is a non-negative number, hence so is p
			if b.hi-d >= 0 {
				x.narrow(p, iv{0, b.hi - d}, ivDepth)
			}
			if a.lo >= 0 {
				x.narrow(q, iv{a.lo + d, math.MaxInt64}, ivDepth)
			}
			return
		}
		if b.hi > math.MinInt64 {
			x.narrow(p, iv{math.MinInt64, b.hi - d}, ivDepth)
		}
		if a.lo < math.MaxInt64 {
			x.narrow(q, iv{a.lo + d, math.MaxInt64}, ivDepth)
		}
	}
}

// narrow records that t lies in r and what follows for its parts.
func (x *Explorer) narrow(t *smt.Term, r iv, depth int) {
	if t.IsConst() || depth <= 0 {
		return
	}
	cur := x.rangeOf(t, ivDepth)
	n := cur.meet(r)
	if n == cur || n.lo > n.hi {
		return
	}
	x.facts[t] = n
	switch t.Op {
	case smt.OpSExt:
		x.narrow(t.Args[0], n, depth-1)
	case smt.OpConcat:
		if h := t.Args[0]; len(t.Args) == 2 && h.IsConst() && h.K == 0 {
			if n.lo >= 0 && n.hi <= fullIv(t.Args[1].W).hi {
				x.narrow(t.Args[1], n, depth-1)
			}
		}
	case smt.OpAdd:
		if len(t.Args) == 2 {
			for i := 0; i < 2; i++ {
				if k := t.Args[i]; k.IsConst() {
					lo, o1 := addOK(n.lo, -k.Signed())
					hi, o2 := addOK(n.hi, -k.Signed())
					f := fullIv(t.W)
					if o1 && o2 && lo >= f.lo && hi <= f.hi {
						x.narrow(t.Args[1-i], iv{lo, hi}, depth-1)
					}
					return
				}
			}
		}
	}
}
