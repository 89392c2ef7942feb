package sym

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

type commCase struct {
	ch   *ChanObj
	send bool
	val  Value
}

// commReq is a pending channel operation: a send, a receive or a select.
type commReq struct {
	cases []commCase
	// complete delivers the outcome: the chosen case, the received value and ok flag
	complete func(i int, v Value, ok bool)
}

type commResult struct {
	i  int
	v  Value
	ok bool
}

func (m *Machine) chanLen(c *ChanObj) Value {
	if m.active() && c != nil {
		m.visible(m.cur, "len", nil, access{c, 'R', nil})
	}
	if c == nil {
		return m.constInt(0)
	}
	return m.constInt(int64(len(c.buf)))
}

func (m *Machine) recvOp(g *G, fr *Frame, in *ssa.UnOp) {
	ch := m.val(fr, in.X).(*ChanObj)
	et := under(in.X.Type()).(*types.Chan).Elem()
	m.comm(g, []commCase{{ch: ch}}, false, func(i int, v Value, ok bool) {
		if v == nil {
			v = m.zero(et)
		}
		if in.CommaOk {
			m.setReg(fr, in, Tuple{v, m.C.Bool(ok)})
		} else {
			m.setReg(fr, in, v)
		}
		fr.pc++
	})
}

func (m *Machine) sendOp(g *G, fr *Frame, in *ssa.Send) {
	ch := m.val(fr, in.Chan).(*ChanObj)
	m.comm(g, []commCase{{ch: ch, send: true, val: m.val(fr, in.X)}}, false, func(i int, v Value, ok bool) {
		fr.pc++
	})
}

func (m *Machine) selectOp(g *G, fr *Frame, in *ssa.Select) {
	var cs []commCase
	for _, s := range in.States {
		c := commCase{ch: m.val(fr, s.Chan).(*ChanObj)}
		if s.Dir == types.SendOnly {
			c.send = true
			c.val = m.val(fr, s.Send)
		}
		cs = append(cs, c)
	}
	m.comm(g, cs, !in.Blocking, func(i int, v Value, ok bool) {
		r := Tuple{m.constInt(int64(i)), m.C.Bool(ok)}
		k := 0
		for j, s := range in.States {
			if s.Dir == types.SendOnly {
				continue
			}
			et := under(s.Chan.Type()).(*types.Chan).Elem()
			if j == i && v != nil {
				r = append(r, v)
			} else {
				r = append(r, m.zero(et))
			}
			k++
		}
		m.setReg(fr, in, r)
		fr.pc++
	})
}

// comm performs a channel operation, possibly blocking the goroutine.
func (m *Machine) comm(g *G, cs []commCase, nonblocking bool, complete func(int, Value, bool)) {
	if m.active() {
		m.commSched(g, cs, nonblocking, complete)
		return
	}
	// which cases can proceed now?
	var ready []int
	for i, c := range cs {
		if m.commReady(g, c) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if nonblocking {
			complete(-1, nil, false)
			return
		}
		g.wait = &commReq{cases: cs, complete: complete}
		panic(sigBlock{})
	}
	k := 0
	if len(ready) > 1 {
		k = m.choose("select", len(ready))
	}
	i := ready[k]
	c := cs[i]
	g.wait = nil
	v, ok := m.commDo(g, c)
	complete(i, v, ok)
}

func (m *Machine) partner(g *G, c commCase) (*G, int) {
	for _, h := range m.gs {
		if h == g || h.wait == nil {
			continue
		}
		for j, d := range h.wait.cases {
			if d.ch == c.ch && d.send != c.send {
				return h, j
			}
		}
	}
	return nil, 0
}

func (m *Machine) commReady(g *G, c commCase) bool {
	if c.ch == nil {
		return false
	}
	if c.send {
		if c.ch.closed || len(c.ch.buf) < c.ch.cap {
			return true
		}
	} else if len(c.ch.buf) > 0 || c.ch.closed {
		return true
	}
	if c.ch.cap == 0 || (!c.send && len(c.ch.buf) == 0) {
		h, _ := m.partner(g, c)
		return h != nil && c.ch.cap == 0
	}
	return false
}

func (m *Machine) commDo(g *G, c commCase) (Value, bool) {
	ch := c.ch
	m.touchChan(ch)
	if c.send {
		if ch.closed {
			panic(sigGoPanic{m.runtimeError("send on closed channel")})
		}
		if ch.cap > 0 {
			ch.buf = append(append([]Value{}, ch.buf...), c.val)
			return nil, false
		}
		h, j := m.partner(g, c)
		req := h.wait
		h.wait = nil
		req.complete(j, c.val, true)
		return nil, false
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		return v, true
	}
	if ch.closed {
		return nil, false
	}
	h, j := m.partner(g, c)
	req := h.wait
	v := req.cases[j].val
	h.wait = nil
	req.complete(j, nil, false)
	return v, true
}

func (m *Machine) closeOp(c *ChanObj) {
	if c == nil {
		panic(sigGoPanic{m.runtimeError("close of nil channel")})
	}
	if m.active() {
		m.closeSched(m.cur, c)
		return
	}
	if c.closed {
		panic(sigGoPanic{m.runtimeError("close of closed channel")})
	}
	m.touchChan(c)
	c.closed = true
}

func (m *Machine) goInstr(g *G, fr *Frame, in *ssa.Go) {
	c, args := m.callee(fr, &in.Call)
	if c == nil {
		panic(sigGoPanic{m.runtimeError("go of nil func value")})
	}
	fr.pc++
	m.spawn(c, args)
}

func (m *Machine) spawn(c *Closure, args []Value) *G {
	h := &G{id: len(m.gs), start: c.Fn}
	m.gs = append(m.gs, h)
	if m.S != nil {
		m.S.multi = true
		if p := m.cur; p != nil && p.id >= 0 {
			h.vc = p.vc.clone()
			h.hb = p.hb.clone()
			p.hb.set(p.id, p.hb.get(p.id)+1)
		}
		h.hb.set(h.id, 1)
	}
	h.boot = func() { m.invoke(h, c, args, func(*Machine, Value) {}, nil) }
	return h
}

// block parks the current goroutine; the instruction is retried later.
func (m *Machine) block() {
	panic(sigBlock{})
}

func (m *Machine) syncAt(p Ptr) *syncState {
	if p.Obj == nil {
		panic(sigGoPanic{m.runtimeError(nilDeref)})
	}
	k := syncKey{p.Obj, p.Off}
	s := m.sync[k]
	if s == nil {
		s = &syncState{}
		m.sync[k] = s
	}
	return s
}

var _ = smt.Sat
