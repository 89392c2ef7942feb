package sym

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// Schedule exploration. Goroutines run freely up to their next visible operation (channel, lock, atomic, wait group, or
// a harness operation made of verif.Sync); the order of visible operations is decided by forking on a schedule variable.
// Orders that only swap independent operations are explored once: backtracking points come from dependent operations
// that are not ordered by happens-before (dynamic partial-order reduction after Flanagan and Godefroid), together with
// sleep sets. Plain memory accesses are not visible operations; a vector-clock check reports every pair of conflicting
// accesses that is not ordered, which justifies that.

type vclock []int32

func (a vclock) get(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a vclock) clone() vclock { return append(vclock(nil), a...) }

func (a *vclock) set(i int, v int32) {
	for len(*a) <= i {
		*a = append(*a, 0)
	}
	(*a)[i] = v
}

func (a *vclock) join(b vclock) {
	for i, v := range b {
		if a.get(i) < v {
			a.set(i, v)
		}
	}
}

// access is one object an operation touches and how:
// r/w for locks, atomics and harness operations; A commuting update;
// D the same by an operation that may give up, on an unbuffered channel: a partner arriving matters to it;
// p and q a send or receive offered on an unbuffered channel and not taken, which its possible partners can tell;
// o and i the same on a buffered channel, where it was ready;
// S send, V receive of a value, C close, R observation that does not change the channel, B blocked; on buffered channels
// s send and v receive: they act on opposite ends, and an order the channel itself forces is added to the clocks.
// A send that cannot be the one that fills the buffer may carry its value: two such sends of the same value commute.
type access struct {
	obj  interface{}
	kind byte
	val  interface{}
}

// conflict reports whether the order of the accesses matters.
func conflict(a, b access) bool {
	return a.obj == b.obj && !(a.kind == 's' && b.kind == 's' && a.val != nil && a.val == b.val) && dependentKinds(a.kind, b.kind)
}

func dependentKinds(a, b byte) bool {
	switch a {
	case 'r', 'R', 'D':
		if b == 'r' || b == 'R' || b == 'D' || (b == 'B' && a != 'D') {
			return false
		}
		if a == 'R' && (b == 'p' || b == 'q' || b == 'o' || b == 'i') {
			return false
		}
	case 'p', 'q': // one direction only, or no change
		if b == a || b == 'R' {
			return false
		}
	case 'A':
		if b == 'A' {
			return false
		}
	case 'B':
		if b == 'R' || b == 'B' {
			return false
		}
	case 'v': // receive from a buffer: closing does not change it
		if b == 'C' || b == 's' || b == 'o' {
			return false
		}
	case 's':
		if b == 'v' || b == 'i' {
			return false
		}
	case 'C':
		if b == 'v' || b == 'i' {
			return false
		}
	case 'o': // could have been sent: receiving does not change that
		if b == 'v' || b == 'o' || b == 'i' || b == 'R' {
			return false
		}
	case 'i': // could have been received: sending and closing do not change that
		if b == 's' || b == 'C' || b == 'o' || b == 'i' || b == 'R' {
			return false
		}
	}
	return true
}

func dependent(a, b []access) bool {
	for _, x := range a {
		for _, y := range b {
			if conflict(x, y) {
				return true
			}
		}
	}
	return false
}

// pendOp is a visible operation about to be executed.
type pendOp struct {
	what    string
	enabled func() bool
	acc     []access        // for operations other than channel communication
	accf    func() []access // the same where it depends on the state
	comm    *commReq
	nonblk  bool
	settle  bool // waits until nothing else can run
	timer   bool // fires only when nothing else can run
	seq     int  // when it was set
}

type sleeper struct {
	tid int
	acc []access
}

// schedNode is a point where the schedule was decided. It is shared between workers.
type schedNode struct {
	mu      sync.Mutex
	enabled []int
	sleep   []int         // threads asleep on arrival
	order   []int         // threads whose exploration has been requested, in order
	sleepAt map[int][]int // threads asleep when that one is chosen
	last    int           // thread that ran before
	pre     int           // preemptions so far
}

type event struct {
	tid  int
	n    int32
	acc  []access
	node *schedNode
	dec  int // index of the decision
	desc string
	en   map[int]bool // threads enabled before it
}

type chanHB struct {
	items  []vclock
	recvs  []vclock
	sends  int
	clkS   []vclock // clocks of the sends and receives so far
	clkR   []vclock
	closed vclock
}

type sched struct {
	x       *Explorer
	m       *Machine
	ev      []event
	byObj   map[interface{}][]int
	keyHB   map[interface{}]vclock
	chHB    map[*ChanObj]*chanHB
	sleep   []sleeper
	last    int
	pre     int
	cur     *schedNode
	curDec  int
	nested  int
	shadows map[interface{}]map[int]*shadow
	inRow   int // steps the last goroutine has run in a row
	alone   int // steps it ran while nothing else could
	multi   bool
	enNow   map[int]bool
	timers  int
	points  int // schedule variables so far
	clks    []vclock
	ver     map[interface{}]int // how often an object was accessed
	epoch   int                 // how often a goroutine of the harness ran
	watch   bool                // plain accesses are examined for races
}

type epoch struct {
	t   int32
	c   int32
	at  place
	set bool
}

const (
	unfair   = 1000 // steps in a row after which another goroutine goes first
	livelock = 8000 // steps in a row, alone, that are taken for ever
)

type shadow struct {
	w      epoch
	r      []epoch
	aw, ar []epoch // atomic ones, of each goroutine
}

func newSched(x *Explorer) *sched {
	return &sched{x: x, m: x.m, byObj: map[interface{}][]int{}, keyHB: map[interface{}]vclock{}, chHB: map[*ChanObj]*chanHB{},
		watch: !x.one || x.races != 2, shadows: map[interface{}]map[int]*shadow{}, ver: map[interface{}]int{}, last: -1, curDec: -1}
}

var checkRemembered = os.Getenv("GOSYM_CHECK_COND") != ""

// remember evaluates a condition again only after something happened to the objects it is about, or a goroutine of the
// harness ran, which may change what it depends on directly.
func (s *sched) remember(acc []access, cond func() bool) func() bool {
	have, val, epoch, ver := false, false, 0, 0
	return func() bool {
		v := 0
		for _, a := range acc {
			v += s.ver[a.obj]
		}
		if !have || epoch != s.epoch || ver != v {
			val = cond()
			have, epoch, ver = true, s.epoch, v
		} else if checkRemembered && cond() != val {
			panic("a condition changed though nothing happened to its objects" + s.m.where())
		}
		return val
	}
}

// active reports whether visible operations are scheduled now.
func (m *Machine) active() bool { return m.S != nil && m.initDepth == 0 && m.S.nested == 0 }

// visible stops g before a visible operation until the scheduler grants it.
func (m *Machine) visible(g *G, what string, enabled func() bool, acc ...access) {
	if !m.active() {
		if enabled != nil && !enabled() {
			m.block()
		}
		return
	}
	if g.granted {
		g.granted = false
		m.S.record(g, nil, acc)
		return
	}
	g.pend = &pendOp{what: what + m.where(), enabled: enabled, acc: acc}
	g.since = len(m.S.ev)
	panic(sigBlock{})
}

// visibleDyn is visible for operations whose accesses depend on the state.
func (m *Machine) visibleDyn(g *G, what string, enabled func() bool, acc func() []access) {
	if m.active() && g.granted {
		g.granted = false
		m.S.record(g, nil, acc())
		return
	}
	if !m.active() {
		m.visible(g, what, enabled)
		return
	}
	g.pend = &pendOp{what: what + m.where(), enabled: enabled, accf: acc}
	g.since = len(m.S.ev)
	panic(sigBlock{})
}

// record notes that g executes a visible operation with those accesses, joined by partner in a rendezvous.
func (s *sched) record(g, partner *G, acc []access, join ...vclock) {
	what := ""
	if g.pend != nil {
		what = g.pend.what
	}
	g.pend = nil
	i := len(s.ev)
	g.steps++
	clk := g.vc.clone()
	clk.set(g.id, g.steps)
	if partner != nil {
		clk.join(partner.vc)
	}
	for _, v := range join {
		clk.join(v)
	}
	for _, a := range acc {
		for _, j := range s.byObj[a.obj] {
			e := &s.ev[j]
			if clk.get(e.tid) >= e.n {
				continue
			}
			for _, b := range e.acc {
				if conflict(a, b) {
					clk.join(s.evClk(j))
					break
				}
			}
		}
	}
	g.vc = clk
	g.hb.set(g.id, g.hb.get(g.id)+1)
	d := fmt.Sprintf("%s: %s", g.label(), what)
	if partner != nil {
		partner.vc = clk.clone()
		partner.hb.set(partner.id, partner.hb.get(partner.id)+1)
		d += " with " + partner.label()
	}
	s.ev = append(s.ev, event{tid: g.id, n: g.steps, acc: acc, node: s.cur, dec: s.curDec, desc: d, en: s.enNow})
	s.clks = append(s.clks, clk)
	if partner != nil && s.cur != nil && s.enNow[partner.id] && !s.x.full && !s.x.replaying() && len(s.x.forced) == 0 {
		// the partner could have moved first, with another one or over another channel
		s.cur.mu.Lock()
		s.request(s.cur, s.curDec, partner.id)
		s.cur.mu.Unlock()
	}
	for _, a := range acc {
		s.ver[a.obj]++
		l := s.byObj[a.obj]
		if len(l) == 0 || l[len(l)-1] != i {
			s.byObj[a.obj] = append(l, i)
		}
	}
	// sleeping threads wake up when something they depend on happens
	var rest []sleeper
	for _, z := range s.sleep {
		if z.tid != g.id && (partner == nil || z.tid != partner.id) && !dependent(z.acc, acc) {
			rest = append(rest, z)
		}
	}
	s.sleep = rest
	s.last = g.id
}

func (s *sched) evClk(i int) vclock { return s.clks[i] }

func (g *G) label() string {
	n := g.name
	if n == "" && g.start != nil {
		n = g.start.Name()
	}
	return fmt.Sprintf("%s#%d", n, g.id)
}

// Happens-before edges of the Go memory model, for race detection.

func (m *Machine) acquire(g *G, key interface{}) {
	if m.S != nil && m.S.nested == 0 {
		g.hb.join(m.S.keyHB[key])
	}
}

func (m *Machine) release(g *G, key interface{}) {
	if m.S != nil && m.S.nested == 0 {
		k := m.S.keyHB[key].clone()
		k.join(g.hb)
		m.S.keyHB[key] = k
		g.hb.set(g.id, g.hb.get(g.id)+1)
	}
}

func (s *sched) hbOf(c *ChanObj) *chanHB {
	h := s.chHB[c]
	if h == nil {
		h = &chanHB{}
		s.chHB[c] = h
	}
	return h
}

// commOption is one way a channel operation can proceed.
type commOption struct {
	i       int // case, -1 for default
	partner *G
	j       int
}

// commOptions lists how g's channel operation can proceed now.
func (m *Machine) commOptions(g *G, cs []commCase, nonblk bool) (opts []commOption) {
	definite := false
	for i, c := range cs {
		ch := c.ch
		if ch == nil {
			continue
		}
		if c.send {
			if ch.closed || len(ch.buf) < ch.cap {
				opts = append(opts, commOption{i: i})
				definite = true
				continue
			}
			if ch.cap == 0 {
				for _, h := range m.gs {
					if h == g || h.pend == nil || h.pend.comm == nil || h.pend.nonblk {
						continue
					}
					for j, d := range h.pend.comm.cases {
						if d.ch == ch && !d.send {
							opts = append(opts, commOption{i: i, partner: h, j: j})
						}
					}
				}
			}
			continue
		}
		if len(ch.buf) > 0 || ch.closed {
			opts = append(opts, commOption{i: i})
			definite = true
			continue
		}
		if nonblk && ch.cap == 0 {
			for _, h := range m.gs {
				if h == g || h.pend == nil || h.pend.comm == nil || h.pend.nonblk {
					continue
				}
				for j, d := range h.pend.comm.cases {
					if d.ch == ch && d.send {
						opts = append(opts, commOption{i: i, partner: h, j: j})
					}
				}
			}
		}
	}
	if nonblk && !definite {
		opts = append(opts, commOption{i: -1})
	}
	return opts
}

func isReady(opts []commOption, i int) bool {
	for _, o := range opts {
		if o.i == i {
			return true
		}
	}
	return false
}

// notTaken is the effect of a case that was offered and not taken: on an unbuffered channel it concerns whoever could
// have paired with it.
func notTaken(c commCase, nonblk bool) byte {
	switch {
	case c.ch.cap > 0 && !c.ch.closed && c.send && len(c.ch.buf) < c.ch.cap:
		return 'o'
	case c.ch.cap > 0 && !c.send && len(c.ch.buf) > 0:
		return 'i'
	case c.ch.cap > 0 || c.ch.closed:
		return 'R'
	case nonblk:
		return 'D'
	case c.send:
		return 'p'
	}
	return 'q'
}

// arrives wakes sleeping operations that could now pair with a goroutine waiting in cs.
func (s *sched) arrives(cs []commCase) {
	var rest []sleeper
	for _, z := range s.sleep {
		keep := true
		for _, a := range z.acc {
			for _, c := range cs {
				if c.ch != nil && a.obj == interface{}(c.ch) && c.ch.cap == 0 && (a.kind == 'D' || (a.kind == 'p' || a.kind == 'S') && !c.send || (a.kind == 'q' || a.kind == 'V') && c.send) {
					keep = false
				}
			}
		}
		if keep {
			rest = append(rest, z)
		}
	}
	s.sleep = rest
}

// With a default case it matters whether a channel is ready, not only when it becomes ready.
func sendKind(c *ChanObj, nonblk bool) byte {
	if !nonblk && c.cap > 0 && !c.closed {
		return 's'
	}
	return 'S'
}

func recvKind(c *ChanObj, nonblk bool) byte {
	if len(c.buf) > 0 {
		if !nonblk && c.cap > 0 {
			return 'v'
		}
		return 'V'
	}
	if c.closed {
		return 'R'
	}
	return 'V'
}

// pendAcc describes what p's next operation would touch in the current state.
func (m *Machine) pendAcc(g *G, p *pendOp) []access {
	if p.accf != nil {
		return p.accf()
	}
	if p.comm == nil {
		return p.acc
	}
	s := m.S
	opts := m.commOptions(g, p.comm.cases, p.nonblk)
	blocked := len(opts) == 0
	var acc []access
	for i, c := range p.comm.cases {
		if c.ch == nil {
			continue
		}
		k := notTaken(c, p.nonblk)
		var val interface{}
		switch {
		case isReady(opts, i) && c.send:
			k = sendKind(c.ch, p.nonblk)
			if k == 's' {
				val = s.sent(c)
			}
		case isReady(opts, i):
			k = recvKind(c.ch, p.nonblk)
		case blocked:
			k = 'B'
		}
		acc = append(acc, access{c.ch, k, val})
	}
	for _, o := range opts {
		acc = append(acc, o.withdrawn()...)
	}
	return acc
}

// sent identifies the value of a send that finds room whatever other senders do before it: at most as many values as the
// buffer holds have been sent by then. nil if it is not such a send, or where it matters who sent a value.
func (s *sched) sent(c commCase) interface{} {
	if s.x.races != 2 || s.x.full || len(s.hbOf(c.ch).clkS) >= c.ch.cap {
		return nil
	}
	return simpleKey(c.val)
}

// simpleKey is a comparable form of a small value, nil if it has none.
func simpleKey(v Value) interface{} {
	switch v := v.(type) {
	case Iface:
		if v.T == nil {
			return "nil"
		}
		k := simpleKey(v.V)
		if k == nil {
			return nil
		}
		return [2]interface{}{v.T, k}
	case Ptr:
		return v
	case *smt.Term:
		return v
	case Str:
		if v.T == nil {
			return v.S
		}
	case *Agg:
		switch len(v.L) {
		case 0:
			return "{}"
		case 1:
			return simpleKey(v.L[0])
		}
	}
	return nil
}

// withdrawn is what the partner of a rendezvous no longer offers.
func (o commOption) withdrawn() (acc []access) {
	if o.partner != nil {
		for j, d := range o.partner.pend.comm.cases {
			if d.ch != nil && j != o.j {
				acc = append(acc, access{d.ch, notTaken(d, false), nil})
			}
		}
	}
	return acc
}

// commSched performs a channel operation under schedule exploration.
func (m *Machine) commSched(g *G, cs []commCase, nonblk bool, complete func(int, Value, bool)) {
	s := m.S
	if !g.granted {
		what := "select"
		if len(cs) == 1 {
			what = "receive"
			if cs[0].send {
				what = "send"
			}
		}
		req := &commReq{cases: cs, complete: complete}
		p := &pendOp{what: what + m.where(), comm: req, nonblk: nonblk}
		p.enabled = func() bool { return len(m.commOptions(g, cs, nonblk)) > 0 }
		g.pend = p
		g.since = len(s.ev)
		if !nonblk {
			s.arrives(cs)
		}
		panic(sigBlock{})
	}
	g.granted = false
	opts := m.commOptions(g, cs, nonblk)
	k := 0
	if len(opts) > 1 {
		k = m.choose("select", len(opts))
	}
	o := opts[k]
	var acc []access
	for i, c := range cs {
		if c.ch == nil {
			continue
		}
		kind := notTaken(c, nonblk)
		var val interface{}
		if i == o.i {
			if c.send {
				kind = sendKind(c.ch, nonblk)
				if kind == 's' {
					val = s.sent(c)
				}
			} else {
				kind = recvKind(c.ch, nonblk)
			}
		}
		acc = append(acc, access{c.ch, kind, val})
	}
	acc = append(acc, o.withdrawn()...)
	h := o.partner
	if g.pend != nil && len(cs) > 1 {
		g.pend.what += fmt.Sprintf(" (case %d)", o.i)
	}
	if o.i < 0 {
		s.record(g, h, acc)
		complete(-1, nil, false)
		return
	}
	c := cs[o.i]
	ch := c.ch
	hb := s.hbOf(ch)
	var join []vclock
	if ch.cap > 0 && h == nil {
		if c.send && !ch.closed {
			if n := len(hb.clkS) - ch.cap; n >= 0 && n < len(hb.clkR) {
				join = append(join, hb.clkR[n])
			}
		} else if !c.send && len(ch.buf) > 0 {
			if n := len(hb.clkR); n < len(hb.clkS) {
				join = append(join, hb.clkS[n])
			}
		}
	}
	s.record(g, h, acc, join...)
	if ch.cap > 0 && h == nil {
		if c.send && !ch.closed {
			hb.clkS = append(hb.clkS, g.vc)
		} else if !c.send && len(ch.buf) > 0 {
			hb.clkR = append(hb.clkR, g.vc)
		}
	}
	m.touchChan(ch)
	if h != nil {
		req := h.pend.comm
		h.pend = nil
		j := g.hb.clone()
		j.join(h.hb)
		g.hb, h.hb = j, j.clone()
		g.hb.set(g.id, g.hb.get(g.id)+1)
		h.hb.set(h.id, h.hb.get(h.id)+1)
		save := m.cur
		if c.send {
			m.cur = h
			req.complete(o.j, c.val, true)
			m.cur = save
			complete(o.i, nil, false)
		} else {
			v := req.cases[o.j].val
			m.cur = h
			req.complete(o.j, nil, false)
			m.cur = save
			complete(o.i, v, true)
		}
		return
	}
	if c.send {
		if ch.closed {
			panic(sigGoPanic{m.runtimeError("send on closed channel")})
		}
		if n := hb.sends - ch.cap; n >= 0 && n < len(hb.recvs) {
			g.hb.join(hb.recvs[n])
		}
		hb.sends++
		hb.items = append(hb.items, g.hb.clone())
		g.hb.set(g.id, g.hb.get(g.id)+1)
		ch.buf = append(append([]Value{}, ch.buf...), c.val)
		complete(o.i, nil, false)
		return
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		if len(hb.items) > 0 {
			g.hb.join(hb.items[0])
			hb.items = hb.items[1:]
		}
		hb.recvs = append(hb.recvs, g.hb.clone())
		g.hb.set(g.id, g.hb.get(g.id)+1)
		complete(o.i, v, true)
		return
	}
	g.hb.join(hb.closed)
	complete(o.i, nil, false)
}

func (m *Machine) closeSched(g *G, c *ChanObj) {
	m.visible(g, "close", nil, access{c, 'C', nil})
	if c.closed {
		panic(sigGoPanic{m.runtimeError("close of closed channel")})
	}
	m.touchChan(c)
	c.closed = true
	h := m.S.hbOf(c)
	h.closed = g.hb.clone()
	g.hb.set(g.id, g.hb.get(g.id)+1)
}

// Plain memory.

func (m *Machine) racy() bool {
	return m.S != nil && m.S.multi && m.S.watch && m.S.nested == 0 && m.initDepth == 0 && m.cur != nil && m.cur.id >= 0
}

func (s *sched) touch(obj interface{}, off int, write bool) {
	g := s.m.cur
	mm := s.shadows[obj]
	if mm == nil {
		mm = map[int]*shadow{}
		s.shadows[obj] = mm
	}
	sh := mm[off]
	if sh == nil {
		sh = &shadow{}
		mm[off] = sh
	}
	me := g.hb.get(g.id)
	if sh.w.set && int(sh.w.t) != g.id && g.hb.get(int(sh.w.t)) < sh.w.c {
		s.race(sh.w.at, write, true)
	}
	s.unordered(sh.aw, write, true)
	if write {
		s.unordered(sh.r, true, false)
		s.unordered(sh.ar, true, false)
		sh.w = epoch{int32(g.id), me, s.m.place(), true}
		sh.r = sh.r[:0]
		return
	}
	sh.r = s.latest(sh.r, me)
}

// unordered reports accesses that are not ordered before one of the current goroutine.
func (s *sched) unordered(l []epoch, write, otherWrite bool) {
	g := s.m.cur
	for _, e := range l {
		if int(e.t) != g.id && g.hb.get(int(e.t)) < e.c {
			s.race(e.at, write, otherWrite)
		}
	}
}

func (s *sched) latest(l []epoch, me int32) []epoch {
	g := s.m.cur
	for i := range l {
		if int(l[i].t) == g.id {
			l[i].c = me
			return l
		}
	}
	return append(l, epoch{int32(g.id), me, s.m.place(), true})
}

// touchAtomic is touch for an atomic access, which races with plain ones only.
func (m *Machine) touchAtomic(p Ptr, write bool) {
	if !m.racy() || p.Obj == nil {
		return
	}
	s, g := m.S, m.cur
	mm := s.shadows[p.Obj]
	if mm == nil {
		mm = map[int]*shadow{}
		s.shadows[p.Obj] = mm
	}
	sh := mm[p.Off]
	if sh == nil {
		sh = &shadow{}
		mm[p.Off] = sh
	}
	if sh.w.set && int(sh.w.t) != g.id && g.hb.get(int(sh.w.t)) < sh.w.c {
		s.race(sh.w.at, write, true)
	}
	if write {
		s.unordered(sh.r, true, false)
		sh.aw = s.latest(sh.aw, g.hb.get(g.id))
	} else {
		sh.ar = s.latest(sh.ar, g.hb.get(g.id))
	}
}

type sigRace struct{ msg string }

// place is a cheap position.
type place struct {
	g    *G
	fr   *Frame
	b    *ssa.BasicBlock
	pc   int
	none bool
}

func (m *Machine) place() place {
	g := m.cur
	if len(g.frames) == 0 {
		return place{g: g, none: true}
	}
	fr := g.frames[len(g.frames)-1]
	return place{g: g, fr: fr, b: fr.block, pc: fr.pc}
}

func (m *Machine) placeText(p place) string {
	if p.none {
		return p.g.label()
	}
	fr := &Frame{fn: p.fr.fn, block: p.b, pc: p.pc}
	return p.g.label() + " in " + fr.fn.String() + " at " + m.pos(fr)
}

func (s *sched) race(other place, write, otherWrite bool) {
	if s.m.X.races == 2 {
		s.m.X.noteRace(s.m.place(), other)
		return
	}
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	panic(sigRace{fmt.Sprintf("data race: %s by %s%s and %s by %s", k(write), s.m.cur.label(), s.m.where(), k(otherWrite), s.m.placeText(other))})
}

// noteRace remembers two accesses that race, unless they are visible already or cannot be made so.
func (x *Explorer) noteRace(l ...place) {
	if x.one {
		return
	}
	for _, p := range l {
		if p.none || p.pc >= len(p.b.Instrs) || x.vis[p.b.Instrs[p.pc]] || !x.m.P.isTarget(p.fr.fn) {
			continue
		}
		in := p.b.Instrs[p.pc]
		switch in.(type) {
		case *ssa.UnOp, *ssa.Store, *ssa.MapUpdate, *ssa.Lookup, *ssa.Next, *ssa.Range:
			x.shared.mu.Lock()
			if x.shared.racing == nil {
				x.shared.racing = map[ssa.Instruction]bool{}
			}
			x.shared.racing[in] = true
			x.shared.stop = true
			x.shared.cond.Broadcast()
			x.shared.mu.Unlock()
		}
	}
}

// place of a plain access that is a visible operation
type cell struct {
	obj interface{}
	off int
}

// plain makes a plain access a visible operation if it is known to race.
func (m *Machine) plain(obj interface{}, off, n int, write bool) {
	if len(m.X.vis) == 0 {
		return
	}
	p := m.place()
	if p.none || p.pc >= len(p.b.Instrs) || !m.X.vis[p.b.Instrs[p.pc]] {
		return
	}
	what, kind := "read", byte('r')
	if write {
		what, kind = "write", 'w'
	}
	var acc []access
	for i := 0; i < n; i++ {
		acc = append(acc, access{cell{obj, off + i}, kind, nil})
	}
	m.visible(m.cur, what, nil, acc...)
}

func (m *Machine) loadShared(fr *Frame, p Ptr, t types.Type) Value {
	if m.racy() && p.Obj != nil {
		n := m.leaves(t)
		if n > 16 {
			n = 16
		}
		m.plain(p.Obj, p.Off, n, false)
		for i := 0; i < n; i++ {
			m.S.touch(p.Obj, p.Off+i, false)
		}
	}
	return m.load(p, t)
}

func (m *Machine) storeShared(fr *Frame, p Ptr, t types.Type, v Value) {
	if m.racy() && p.Obj != nil {
		n := m.leaves(t)
		if n > 16 {
			n = 16
		}
		m.plain(p.Obj, p.Off, n, true)
		for i := 0; i < n; i++ {
			m.S.touch(p.Obj, p.Off+i, true)
		}
	}
	m.store(p, t, v)
}

func (m *Machine) getShared(o *Object, i int) Value {
	if m.racy() {
		m.S.touch(o, i, false)
	}
	return m.get(o, i)
}

func (m *Machine) setShared(o *Object, i int, v Value) {
	if m.racy() {
		m.S.touch(o, i, true)
	}
	m.set(o, i, v)
}

func (m *Machine) mapAccess(mo *MapObj, write bool) {
	if m.racy() {
		m.plain(mo, 0, 1, write)
		m.S.touch(mo, 0, write)
	}
}

// call runs a closure to its end at once, without visible operations.
func (m *Machine) call(c *Closure, args ...Value) Value {
	var out Value
	h := &G{id: -2}
	if m.S != nil {
		m.S.nested++
		defer func() { m.S.nested-- }()
	}
	save, outer := m.cur, m.caller
	m.cur, m.caller = h, save
	defer func() { m.cur, m.caller = save, outer }()
	m.invoke(h, c, args, func(_ *Machine, v Value) { out = v }, nil)
	for len(h.frames) > 0 {
		m.step(h)
	}
	return out
}

// scheduleSym runs goroutines until main returns, forking on the order of visible operations.
func (m *Machine) scheduleSym(main *G) interface{} {
	s := m.S
	for {
		// run everything up to its next visible operation
		for again := true; again; {
			again = false
			for i := 0; i < len(m.gs); i++ {
				g := m.gs[i]
				if g.done || g.pend != nil {
					continue
				}
				again = true
				s.ran(g)
				sig := m.runG(g)
				switch sig.(type) {
				case nil:
					g.done = true
					if g == main {
						return s.finish()
					}
				case sigBlock:
					if g.pend == nil {
						return sigUnsupported{"goroutine blocked on something that is not a visible operation" + m.where()}
					}
				default:
					return sig
				}
			}
		}
		var enabled []int
		var settle, timer *G
		for _, g := range m.gs {
			if g.done {
				continue
			}
			p := g.pend
			switch {
			case p.settle:
				if settle == nil {
					settle = g
				}
			case p.timer:
				if p.enabled == nil || p.enabled() {
					if timer == nil || p.seq < timer.pend.seq {
						timer = g
					}
				}
			case p.enabled == nil || p.enabled():
				enabled = append(enabled, g.id)
			}
		}
		en := map[int]bool{}
		for _, t := range enabled {
			en[t] = true
		}
		fresh := !s.x.replaying() && len(s.x.forced) == 0
		if fresh {
			s.races(en)
		}
		if len(enabled) == 0 {
			s.cur, s.curDec, s.enNow = nil, -1, nil
			w := settle
			if w == nil {
				w = timer
			}
			if w == nil {
				var where []string
				for _, g := range m.gs {
					if !g.done && len(g.frames) > 0 {
						where = append(where, g.label()+" in "+strings.Join(m.targetStack(g), " < "))
					}
				}
				m.cur = main
				return sigDeadlock{"all goroutines are blocked: " + strings.Join(where, " || ")}
			}
			// nothing else can run: the state is independent of the order so far
			for _, h := range m.gs {
				w.vc.join(h.vc)
				if w == settle {
					w.hb.join(h.hb)
				}
			}
			w.granted = true
			w.pend = nil
			s.sleep = nil
			continue
		}
		t, sig := s.pick(enabled)
		if sig != nil {
			return sig
		}
		s.enNow = en
		g := m.gs[t]
		if t == s.last {
			s.inRow++
		} else {
			s.inRow = 0
		}
		if len(enabled) > 1 || t != s.last {
			s.alone = 0
		} else if s.alone++; s.alone > livelock && g.start != nil && m.P.isTarget(g.start) && !s.x.one {
			m.cur = g
			return sigDeadlock{"livelock: nothing else can run, and it never ends: " + g.label() + " in " + strings.Join(m.targetStack(g), " < ")}
		}
		if s.last >= 0 && s.last != t && en[s.last] {
			s.pre++
		}
		g.granted = true
		m.cur = g
		s.ran(g)
		sg := m.runG(g)
		switch sg.(type) {
		case nil:
			g.done = true
			if g == main {
				return s.finish()
			}
		case sigBlock:
			if g.granted {
				return sigUnsupported{"internal: granted operation did not run" + m.where()}
			}
		default:
			return sg
		}
	}
}

// ran notes that g is about to run.
func (s *sched) ran(g *G) {
	if g.id == 0 || g.start == nil || s.m.P.isHarness(g.start) {
		s.epoch++
	}
}

// finish looks at what the other goroutines were about to do when main returned.
func (s *sched) finish() interface{} {
	m := s.m
	for i := 0; i < len(m.gs); i++ {
		g := m.gs[i]
		if g.done || g.pend != nil {
			continue
		}
		switch sig := m.runG(g).(type) {
		case nil:
			g.done = true
		case sigBlock:
			if g.pend == nil {
				return sigUnsupported{"goroutine blocked on something that is not a visible operation" + m.where()}
			}
		default:
			return sig
		}
	}
	if !s.x.replaying() && len(s.x.forced) == 0 {
		s.races(nil)
	}
	return nil
}

// targetStack is the stack without library frames.
func (m *Machine) targetStack(g *G) []string {
	var out []string
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		if m.P.isTarget(fr.fn) || i == 0 {
			out = append(out, fr.fn.String()+" "+m.pos(fr))
		}
	}
	return out
}

// races adds backtracking points: a pending operation that could have come before an earlier, dependent one.
func (s *sched) races(en map[int]bool) {
	if s.x.full || s.x.one {
		return
	}
	for _, g := range s.m.gs {
		if g.done || g.pend == nil || g.pend.settle || g.pend.timer {
			continue
		}
		acc := s.m.pendAcc(g, g.pend)
		cand := map[int]bool{}
		for _, a := range acc {
			for _, j := range s.byObj[a.obj] {
				e := &s.ev[j]
				if e.tid == g.id || e.node == nil || g.vc.get(e.tid) >= e.n || cand[j] {
					// e.node == nil: nothing else could run there
					continue
				}
				// pending on this very operation then, and unable to run it: not a race
				if e.en != nil && !e.en[g.id] && g.since <= j && !severalChans(g.pend) {
					continue
				}
				for _, b := range e.acc {
					if conflict(a, b) {
						cand[j] = true
						break
					}
				}
			}
		}
		if len(cand) == 0 {
			continue
		}
		var js []int
		for j := range cand {
			js = append(js, j)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(js)))
		var kept []int
	next:
		for _, j := range js {
			for _, k := range kept {
				if s.clks[k].get(s.ev[j].tid) >= s.ev[j].n {
					continue next
				}
			}
			kept = append(kept, j)
			s.backtrackAt(j, g, acc)
		}
	}
}

// severalChans reports whether what enables p may be one of several channels.
func severalChans(p *pendOp) bool {
	return p.comm != nil && len(p.comm.cases) > 1
}

// backtrackAt makes sure that some run explores p's pending operation before event i. What must run first at i's node is
// one of the initials of the events that do not depend on i, followed by p (source sets, Abdulla et al.).
func (s *sched) backtrackAt(i int, p *G, pacc []access) {
	e := &s.ev[i]
	n := e.node
	if s.m.P.Debug {
		fmt.Printf("race at %d (%s) with %s %s order=%v enabled=%v sleep=%v\n   %s\n", i, e.desc, p.label(), p.pend.what, n.order, n.enabled, n.sleep, strings.Join(s.trace(), "\n   "))
	}
	var v []int
	first := map[int]bool{}
	var cand []int
	before := func(k int, clk vclock) bool { return clk.get(s.ev[k].tid) >= s.ev[k].n }
	for j := i + 1; j < len(s.ev); j++ {
		if before(i, s.clks[j]) {
			continue
		}
		if q := s.ev[j].tid; !first[q] {
			first[q] = true
			initial := true
			for _, k := range v {
				if before(k, s.clks[j]) {
					initial = false
					break
				}
			}
			if initial {
				cand = append(cand, q)
			}
		}
		v = append(v, j)
	}
	if !first[p.id] {
		initial := true
		for _, k := range v {
			if before(k, p.vc) || dependent(s.ev[k].acc, pacc) {
				initial = false
				break
			}
		}
		if initial {
			cand = append([]int{p.id}, cand...)
		}
	}
	if len(v) == 0 && e.en != nil && !e.en[p.id] && p.since <= i {
		return // p could not have run before event i, whatever came first
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	pick := -1
	for _, q := range cand {
		on := false
		for _, o := range n.enabled {
			on = on || o == q
		}
		if !on {
			continue
		}
		for _, o := range n.order {
			if o == q {
				return
			}
		}
		for _, z := range n.sleep {
			if z == q {
				return
			}
		}
		if pick < 0 {
			pick = q
		}
	}
	if pick >= 0 {
		s.request(n, e.dec, pick)
		return
	}
	for _, q := range n.enabled {
		s.request(n, e.dec, q)
	}
}

// request schedules the exploration of thread q at node n, whose decision has index dec on the current path.
func (s *sched) request(n *schedNode, dec int, q int) {
	for _, o := range n.order {
		if o == q {
			return
		}
	}
	for _, z := range n.sleep {
		if z == q {
			return
		}
	}
	if b := s.x.preempt; b >= 0 && n.last >= 0 && n.last != q && n.pre+1 > b {
		for _, t := range n.enabled {
			if t == n.last {
				s.x.trunc(fmt.Sprintf("schedules with more than %d preemptions", b))
				return
			}
		}
	}
	var z []int
	if !s.x.full {
		z = append(append(z, n.sleep...), n.order...)
	}
	n.order = append(n.order, q)
	n.sleepAt[q] = z
	var p []outcome
	for _, d := range s.x.dec[:dec] {
		p = append(p, d.outcome())
	}
	p = append(p, outcome{kind: decSched, val: uint64(q), node: n})
	s.x.shared.give(p)
}

func (d *decision) outcome() outcome {
	return outcome{kind: d.kind, taken: d.taken, val: d.val, node: d.node}
}

// pick decides which enabled thread runs next.
func (s *sched) pick(enabled []int) (int, interface{}) {
	x := s.x
	sort.Ints(enabled)
	if x.one {
		first := enabled[0]
		for _, e := range enabled {
			if e == s.last && s.inRow < unfair {
				return e, nil
			}
			if e > s.last && first <= s.last {
				first = e
			}
		}
		return first, nil
	}
	if x.script != nil {
		// re-execution of a recorded schedule
		if len(enabled) == 1 {
			return enabled[0], nil
		}
		if len(x.script) == 0 {
			return 0, sigPathEnd{"script exhausted"}
		}
		t := x.script[0]
		x.script = x.script[1:]
		for _, e := range enabled {
			if e == t {
				return t, nil
			}
		}
		return 0, sigPathEnd{"script diverged"}
	}
	asleep := map[int]bool{}
	for _, z := range s.sleep {
		asleep[z.tid] = true
	}
	s.cur, s.curDec = nil, -1
	if len(enabled) == 1 {
		if asleep[enabled[0]] {
			return 0, sigPathEnd{"asleep"}
		}
		return enabled[0], nil
	}
	x.res.SchedPoints++
	if x.replaying() {
		d := x.dec[x.pos]
		if d.kind != decSched {
			panic("internal: re-execution diverged at a schedule decision" + s.m.where())
		}
		s.cur, s.curDec = d.node, x.pos
		x.pos++
		s.points++
		s.sleepOf(d.node, int(d.val))
		return int(d.val), nil
	}
	if len(x.forced) > 0 {
		o := x.forced[0]
		if o.kind != decSched {
			panic("internal: forced prefix diverged at a schedule decision" + s.m.where())
		}
		x.forced = x.forced[1:]
		s.cur, s.curDec = o.node, len(x.dec)
		x.push(decision{kind: decSched, cond: s.choice(enabled, int(o.val)), val: o.val, taken: true, node: o.node})
		s.sleepOf(o.node, int(o.val))
		if len(x.forced) == 0 {
			x.eval = nil
			x.model()
		}
		return int(o.val), nil
	}
	t := -1
	for _, e := range enabled {
		if asleep[e] {
			continue
		}
		if e == s.last && s.inRow < unfair {
			t = e
			break
		}
		if t < 0 || t <= s.last && e > s.last {
			t = e
		}
	}
	if t < 0 {
		return 0, sigPathEnd{"asleep"}
	}
	n := &schedNode{enabled: enabled, order: []int{t}, sleepAt: map[int][]int{}, last: s.last, pre: s.pre}
	for _, z := range s.sleep {
		n.sleep = append(n.sleep, z.tid)
	}
	n.sleepAt[t] = append([]int{}, n.sleep...)
	if x.full {
		for _, e := range enabled {
			s.request(n, len(x.dec), e)
		}
	}
	s.cur, s.curDec = n, len(x.dec)
	x.push(decision{kind: decSched, cond: s.choice(enabled, t), val: uint64(t), taken: true, node: n})
	return t, nil
}

// choice is the condition on the schedule variable of this point under which t runs next.
func (s *sched) choice(enabled []int, t int) *smt.Term {
	c := s.m.C
	v := c.Var(fmt.Sprintf("sched#%d:16", s.points), 16)
	s.points++
	return c.Eq(v, c.Const(16, uint64(t)))
}

// sleepOf puts to sleep the threads that need not run right after t at node n.
func (s *sched) sleepOf(n *schedNode, t int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	s.sleep = nil
	for _, z := range n.sleepAt[t] {
		g := s.m.gs[z]
		s.sleep = append(s.sleep, sleeper{z, s.m.pendAcc(g, g.pend)})
	}
}

// fingerprint identifies the equivalence class of the schedule.
func (s *sched) fingerprint() string {
	h := fnv.New64a()
	var l []string
	for i, e := range s.ev {
		c := s.clks[i]
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		l = append(l, fmt.Sprint(e.tid, e.n, c, e.desc))
	}
	sort.Strings(l)
	for _, x := range l {
		h.Write([]byte(x))
		h.Write([]byte{0})
	}
	return fmt.Sprintf("%x", h.Sum64())
}

func (s *sched) trace() []string {
	var out []string
	for _, e := range s.ev {
		out = append(out, e.desc)
	}
	return out
}

func (m *Machine) noteAlloc(o *Object, fr *Frame, in ssa.Instruction) {}
func (m *Machine) noteChan(c *ChanObj, fr *Frame, in ssa.Instruction) {}
