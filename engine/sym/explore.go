package sym

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

type decKind uint8

const (
	decBranch decKind = iota
	decEq
	decAssume
	decCheck
	decSched // which goroutine runs next
)

// decision is one entry of the current path: a fork, a fixed value, an assumption or a discharged check.
type decision struct {
	kind  decKind
	cond  *smt.Term // what the path asserts when taken
	taken bool
	alt   bool // the other side is still to be tried
	val   uint64
	node  *schedNode
}

// outcome is the portable form of a decision.
type outcome struct {
	kind  decKind
	taken bool
	val   uint64
	node  *schedNode
}

// Input is one nondeterministic value drawn by the harness.
type Input struct {
	Name  string      `json:"name"`
	Kind  string      `json:"kind"`
	Value interface{} `json:"value"`
	terms []*smt.Term
	w     uint8
}

// Violation is a failed assertion, an uncaught panic or a deadlock with the values that cause it.
type Violation struct {
	Harness string   `json:"harness"`
	Kind    string   `json:"kind"`
	Msg     string   `json:"msg"`
	Stack   []string `json:"stack"`
	Inputs  []Input  `json:"inputs"`
	Trace   []string `json:"trace,omitempty"`
	// Replayed: a second, concrete execution ended the same way
	Replayed bool `json:"replayed"`

	values map[string]uint64
	script []int
}

// Result summarises the exploration of one harness.
type Result struct {
	Harness    string         `json:"harness"`
	Paths      int            `json:"paths"`
	Assumed    int            `json:"paths_assumed_away"`
	Checks     int            `json:"assertions_discharged"`
	Queries    int            `json:"queries"`
	Sat        int            `json:"sat"`
	Unsat      int            `json:"unsat"`
	UnknownQ   int            `json:"unknown"`
	Truncated  map[string]int `json:"truncated,omitempty"`
	Violations []*Violation   `json:"violations,omitempty"`
	Covered    map[string]int `json:"covered,omitempty"`
	Functions  map[string]int `json:"-"`
	SolverTime time.Duration  `json:"-"`
	Wall       time.Duration  `json:"-"`
	Steps      int64          `json:"instructions"`
	TimedOut   bool           `json:"timed_out,omitempty"`
	Samples    []Sample       `json:"-"`
	// SchedPoints counts the schedule decisions taken, Replayed the paths re-executed concretely with the same end.
	SchedPoints int
	Racing      int // plain accesses made visible operations because they race
	Replayed    int
	Classes     map[string]int
	Pruned      int // schedules cut because an equivalent one is explored elsewhere
}

// Sample is one explored path: values that drive it and the cover points it passes.
type Sample struct {
	Inputs []Input  `json:"inputs"`
	Covers []string `json:"covers,omitempty"`
	Trace  []string `json:"trace,omitempty"`

	values map[string]uint64
	script []int
}

// Explorer drives one machine over the paths of a harness.
type Explorer struct {
	m      *Machine
	s      *smt.Solver
	dec    []decision
	pos    int
	forced []outcome
	stack  []*smt.Term // asserted in the solver, one scope each
	levels []int
	eval   *smt.Evaluator
	known  map[*smt.Term]bool
	facts  map[*smt.Term]iv
	inputs []*Input
	names  map[string]int
	covers []string
	res    *Result
	shared *sharedQueue
	limit  time.Time
	vars   []*smt.Term
	varSet map[*smt.Term]bool
	fan    int

	useSched bool
	one      bool
	vis      map[ssa.Instruction]bool // plain accesses that are visible operations
	preempt  int
	races    int
	full     bool              // every interleaving, for testing the reduction
	fixed    map[string]uint64 // values of a recorded path being re-executed
	script   []int             // its schedule
}

type sharedQueue struct {
	mu      sync.Mutex
	cond    *sync.Cond
	q       [][]outcome
	idle    int
	workers int
	stop    bool
	found   int
	paths   int
	racing  map[ssa.Instruction]bool // accesses found to race, which the next exploration makes visible
	maxViol int
}

func (q *sharedQueue) take() ([]outcome, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	q.idle++
	for len(q.q) == 0 && !q.stop && q.idle < q.workers {
		q.cond.Wait()
	}
	if len(q.q) == 0 || q.stop {
		q.stop = true
		q.cond.Broadcast()
		return nil, false
	}
	q.idle--
	p := q.q[len(q.q)-1]
	q.q = q.q[:len(q.q)-1]
	return p, true
}

func (q *sharedQueue) stopped() bool {
	q.mu.Lock()
	defer q.mu.Unlock()
	return q.stop
}

func (q *sharedQueue) hungry() bool {
	q.mu.Lock()
	defer q.mu.Unlock()
	return q.idle > len(q.q)
}

func (q *sharedQueue) give(p []outcome) {
	q.mu.Lock()
	q.q = append(q.q, p)
	q.mu.Unlock()
	q.cond.Signal()
}

// fresh returns a new variable of that width, named after name.
func (x *Explorer) fresh(name string, w uint8) *smt.Term {
	k := x.names[name]
	x.names[name] = k + 1
	n := name
	if k > 0 {
		n = fmt.Sprintf("%s#%d", name, k)
	}
	full := fmt.Sprintf("%s:%d", n, w)
	if x.fixed != nil {
		if w == 0 {
			return x.m.C.Bool(x.fixed[full] != 0)
		}
		return x.m.C.Const(w, x.fixed[full])
	}
	v := x.m.C.Var(full, w)
	if !x.varSet[v] {
		x.varSet[v] = true
		x.vars = append(x.vars, v)
	}
	return v
}

// sync brings the solver to the first n decisions, keeping the scopes that are still right.
func (x *Explorer) sync(n int) {
	k := 0
	for k < n && k < len(x.stack) && x.stack[k] == x.asserted(k) {
		k++
	}
	if k < len(x.stack) {
		x.stack = x.stack[:k]
		x.s.PopTo(x.level())
	}
	for ; k < n; k++ {
		c := x.asserted(k)
		l := x.level()
		if !c.IsTrue() {
			x.s.Push()
			x.s.Assert(c)
			l++
		}
		x.stack = append(x.stack, c)
		x.levels = append(x.levels[:k], l)
	}
}

// level is the solver's scope with the decisions on the stack.
func (x *Explorer) level() int {
	if len(x.stack) == 0 {
		return 0
	}
	return x.levels[len(x.stack)-1]
}

// asserted is what the solver is told about decision k.
func (x *Explorer) asserted(k int) *smt.Term {
	d := &x.dec[k]
	switch {
	case d.kind == decCheck:
		return x.m.C.True
	case d.taken:
		return d.cond
	}
	return x.m.C.BNot(d.cond)
}

// query asks whether the first n decisions are consistent with extra.
func (x *Explorer) query(n int, extra *smt.Term) (smt.Result, *smt.Evaluator) {
	if extra.IsFalse() {
		return smt.Unsat, nil
	}
	if time.Now().After(x.limit) {
		panic(sigAbort{})
	}
	x.sync(n)
	x.s.Push()
	x.s.Assert(extra)
	t0 := time.Now()
	r, err := x.s.Check()
	if d := time.Since(t0); x.m.P.Debug && d > 300*time.Millisecond {
		str := extra.String()
		if len(str) > 600 {
			str = str[:600]
		}
		fmt.Printf("slow query %v %v dec=%d%s: %s\n", d, r, n, x.m.where(), str)
	}
	if err != nil {
		panic(fmt.Sprintf("solver: %v", err))
	}
	var ev *smt.Evaluator
	if r == smt.Sat {
		mod, err := x.s.Values(x.vars)
		if err != nil {
			panic(fmt.Sprintf("solver: %v", err))
		}
		ev = smt.NewEval(mod)
	}
	x.s.PopTo(x.level())
	return r, ev
}

func (x *Explorer) learn(c *smt.Term, v bool) {
	x.known[c] = v
	x.known[x.m.C.BNot(c)] = !v
	x.note(c, v)
}

// model makes sure the current path has a model.
func (x *Explorer) model() *smt.Evaluator {
	if x.eval == nil {
		r, ev := x.query(len(x.dec), x.m.C.True)
		switch r {
		case smt.Unsat:
			panic(sigPathEnd{"infeasible"})
		case smt.Unknown:
			panic(sigBound{"solver gave no answer"})
		}
		x.eval = ev
	}
	return x.eval
}

func (x *Explorer) replaying() bool { return x.pos < len(x.dec) }

// branch decides a condition, exploring both sides eventually.
func (m *Machine) branch(c *smt.Term) bool {
	if c.IsConst() {
		return c.K == 1
	}
	if m.initDepth > 0 {
		m.unsupported("symbolic branch during initialisation")
	}
	x := m.X
	if v, ok := x.decided(c); ok {
		return v
	}
	if x.replaying() {
		d := x.dec[x.pos]
		if d.kind != decBranch || d.cond != c {
			panic(fmt.Sprintf("internal: re-execution diverged at decision %d: %v vs %v%s", x.pos, d.cond, c, m.where()))
		}
		x.pos++
		x.learn(c, d.taken)
		return d.taken
	}
	var v bool
	alt := true
	if len(x.forced) > 0 {
		o := x.forced[0]
		x.forced = x.forced[1:]
		v, alt = o.taken, false
		x.push(decision{kind: decBranch, cond: c, taken: v})
		x.learn(c, v)
		if len(x.forced) == 0 {
			x.eval = nil
			x.model()
		}
		return v
	}
	v = x.model().Eval(c) == 1
	x.push(decision{kind: decBranch, cond: c, taken: v, alt: alt})
	x.learn(c, v)
	return v
}

func (x *Explorer) push(d decision) {
	x.dec = append(x.dec, d)
	x.pos = len(x.dec)
}

// concretize fixes a term to a value, exploring every feasible one.
func (m *Machine) concretize(t *smt.Term) uint64 {
	if t.IsConst() {
		return t.K
	}
	if m.initDepth > 0 {
		m.unsupported("symbolic value during initialisation")
	}
	x := m.X
	for n := 0; ; n++ {
		if r := x.rangeOf(t, ivDepth); r.lo == r.hi {
			return m.C.Const(t.W, uint64(r.lo)).K
		}
		if n > m.P.MaxFan {
			panic(sigBound{fmt.Sprintf("more than %d values", m.P.MaxFan) + m.where()})
		}
		if x.replaying() {
			d := x.dec[x.pos]
			if d.kind != decEq {
				panic("internal: re-execution diverged at a value" + m.where())
			}
			x.pos++
			x.learn(d.cond, d.taken)
			if d.taken {
				return d.val
			}
			continue
		}
		if len(x.forced) > 0 {
			o := x.forced[0]
			x.forced = x.forced[1:]
			c := m.C.Eq(t, m.C.Const(t.W, o.val))
			x.push(decision{kind: decEq, cond: c, taken: o.taken, val: o.val})
			x.learn(c, o.taken)
			if len(x.forced) == 0 {
				x.eval = nil
				x.model()
			}
			if o.taken {
				return o.val
			}
			continue
		}
		v := x.model().Eval(t)
		c := m.C.Eq(t, m.C.Const(t.W, v))
		if c.IsTrue() {
			return v
		}
		x.push(decision{kind: decEq, cond: c, taken: true, alt: true, val: v})
		x.learn(c, true)
		return v
	}
}

// choose forks over 0..n-1.
func (m *Machine) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if m.initDepth > 0 {
		return 0
	}
	v := m.X.fresh(name, 16)
	m.assume(m.C.Ult(v, m.C.Const(16, uint64(n))))
	return int(m.concretize(v))
}

// assume restricts the path.
func (m *Machine) assume(c *smt.Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(sigPathEnd{"assume"})
	}
	x := m.X
	if v, ok := x.decided(c); ok {
		if !v {
			panic(sigPathEnd{"assume"})
		}
		return
	}
	if x.replaying() {
		d := x.dec[x.pos]
		if d.kind != decAssume || d.cond != c {
			panic("internal: re-execution diverged at an assumption" + m.where())
		}
		x.pos++
		x.learn(c, true)
		return
	}
	if len(x.forced) > 0 {
		o := x.forced[0]
		if o.kind != decAssume {
			panic("internal: forced prefix diverged at an assumption" + m.where())
		}
		x.forced = x.forced[1:]
		x.push(decision{kind: decAssume, cond: c, taken: true})
		x.learn(c, true)
		if len(x.forced) == 0 {
			x.eval = nil
			x.model()
		}
		return
	}
	if x.model().Eval(c) != 1 {
		r, ev := x.query(len(x.dec), c)
		switch r {
		case smt.Unsat:
			panic(sigPathEnd{"assume"})
		case smt.Unknown:
			panic(sigBound{"solver gave no answer"})
		}
		x.eval = ev
	}
	x.push(decision{kind: decAssume, cond: c, taken: true})
	x.learn(c, true)
}

// assert discharges c on this path or reports a violation.
func (m *Machine) assert(c *smt.Term, msg string) {
	x := m.X
	if c.IsTrue() {
		x.res.Checks++
		return
	}
	if v, ok := x.decided(c); ok && v {
		return
	}
	if x.replaying() && x.dec[x.pos].kind == decCheck {
		x.pos++
		x.learn(c, true)
		return
	}
	if len(x.forced) > 0 {
		if x.forced[0].kind != decCheck {
			panic("internal: forced prefix diverged at a check" + m.where())
		}
		x.forced = x.forced[1:]
		x.push(decision{kind: decCheck, cond: c, taken: true})
		x.learn(c, true)
		if len(x.forced) == 0 {
			x.eval = nil
			x.model()
		}
		return
	}
	bad := m.C.BNot(c)
	ev := x.model()
	if ev.Eval(c) == 1 {
		r, e2 := x.query(len(x.dec), bad)
		switch r {
		case smt.Unsat:
			x.res.Checks++
			x.push(decision{kind: decCheck, cond: c, taken: true})
			x.learn(c, true)
			return
		case smt.Unknown:
			x.trunc("solver gave no answer to an assertion: " + msg)
			x.push(decision{kind: decCheck, cond: c, taken: true})
			x.learn(c, true)
			return
		}
		ev = e2
	}
	x.violation(ev, "assertion", msg)
	panic(sigPathEnd{"violation"})
}

func (x *Explorer) trunc(why string) {
	if x.res.Truncated == nil {
		x.res.Truncated = map[string]int{}
	}
	x.res.Truncated[why]++
}

func (x *Explorer) inputsUnder(ev *smt.Evaluator) []Input {
	var out []Input
	for _, in := range x.inputs {
		c := *in
		switch in.Kind {
		case "bytes", "string":
			b := make([]int, len(in.terms))
			for i, t := range in.terms {
				b[i] = int(ev.Eval(t))
			}
			c.Value = b
		default:
			v := ev.Eval(in.terms[0])
			t := x.m.C.Const(in.terms[0].W, v)
			if in.Kind == "int" {
				c.Value = t.Signed()
			} else {
				c.Value = int64(v)
			}
		}
		out = append(out, c)
	}
	return out
}

// record of the current path, for re-execution
func (x *Explorer) record(ev *smt.Evaluator) (map[string]uint64, []int) {
	v := map[string]uint64{}
	for _, t := range x.vars {
		v[t.Name] = ev.Eval(t)
	}
	sc := []int{}
	for _, d := range x.dec {
		if d.kind == decSched {
			sc = append(sc, int(d.val))
		}
	}
	return v, sc
}

func (x *Explorer) sample() Sample {
	s := Sample{Inputs: x.inputsUnder(x.eval), Covers: append([]string{}, x.covers...)}
	s.values, s.script = x.record(x.eval)
	if x.m.S != nil {
		s.Trace = x.m.S.trace()
	}
	return s
}

func (x *Explorer) violation(ev *smt.Evaluator, kind, msg string) {
	if x.races == 1 && kind != "race" {
		return
	}
	v := &Violation{Harness: x.res.Harness, Kind: kind, Msg: msg, Inputs: x.inputsUnder(ev)}
	if x.m.cur != nil {
		v.Stack = x.m.stack(x.m.cur)
	}
	if kind == "panic" {
		v.Stack = x.m.panicAt
	}
	v.values, v.script = x.record(ev)
	if x.m.S != nil {
		v.Trace = x.m.S.trace()
	}
	x.res.Violations = append(x.res.Violations, v)
	x.shared.mu.Lock()
	x.shared.found++
	if x.shared.found >= x.shared.maxViol {
		x.shared.stop = true
		x.shared.cond.Broadcast()
	}
	x.shared.mu.Unlock()
}

// panicText renders a panic value.
func (m *Machine) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%v", v)
	}
	switch x := i.V.(type) {
	case Str:
		if x.T == nil {
			return x.S
		}
		return "(symbolic string)"
	case *smt.Term:
		return x.String()
	}
	if i.T != nil {
		return "value of type " + i.T.String()
	}
	return "nil"
}

// backtrack moves to the next unexplored path; false when none is left.
func (x *Explorer) backtrack() bool {
	for i := len(x.dec) - 1; i >= 0; i-- {
		d := &x.dec[i]
		if !d.alt {
			continue
		}
		d.alt = false
		flip := d.cond
		if d.taken {
			flip = x.m.C.BNot(flip)
		}
		r, ev := x.query(i, flip)
		switch r {
		case smt.Unsat:
			continue
		case smt.Unknown:
			x.trunc("solver gave no answer to a branch")
			continue
		}
		x.dec = x.dec[:i+1]
		x.dec[i].taken = !x.dec[i].taken
		x.eval = ev
		return true
	}
	return false
}

// donate hands the shallowest open alternative to an idle worker.
func (x *Explorer) donate() {
	for i := range x.dec {
		d := &x.dec[i]
		if !d.alt {
			continue
		}
		d.alt = false
		var p []outcome
		for _, e := range x.dec[:i] {
			p = append(p, e.outcome())
		}
		p = append(p, outcome{kind: d.kind, taken: !d.taken, val: d.val})
		x.shared.give(p)
		return
	}
}

// reset prepares the machine for another execution.
func (m *Machine) reset() {
	m.uniquePath = map[string]Ptr{}
	for i := len(m.journal) - 1; i >= 0; i-- {
		m.journal[i]()
	}
	m.journal = m.journal[:0]
	m.epoch++
	m.gs, m.cur = nil, nil
	m.steps = 0
	m.alloc = m.constInt(0)
	m.sync = map[syncKey]*syncState{}
	m.timers = map[syncKey]*G{}
	m.mainDone = false
	x := m.X
	x.pos = 0
	x.known = map[*smt.Term]bool{}
	x.facts = map[*smt.Term]iv{}
	x.inputs = nil
	x.names = map[string]int{}
	x.covers = nil
}

// runPath executes entry once along the current decisions.
func (x *Explorer) runPath(entry *ssa.Function) {
	m := x.m
	m.reset()
	main := &G{id: 0, name: "main"}
	main.hb.set(0, 1)
	m.gs = []*G{main}
	m.cur = main
	m.S = nil
	if x.useSched {
		m.S = newSched(x)
	}
	m.pushFrame(main, entry, nil, nil, nil)
	var sig interface{}
	if x.useSched {
		sig = m.scheduleSym(main)
	} else {
		sig = m.schedule(main)
	}
	x.res.Steps += int64(m.steps)
	count := true
	switch s := sig.(type) {
	case nil:
	case sigPathEnd:
		count = s.why == "done"
		switch s.why {
		case "assume":
			x.res.Assumed++
		case "asleep":
			x.res.Pruned++
		}
	case sigBound:
		x.trunc("bound: " + s.why)
	case sigUnsupported:
		x.trunc("unsupported: " + s.why)
	case sigCrash:
		if ev := x.confirm(); ev != nil {
			msg := m.panicText(s.v)
			x.violation(ev, "panic", msg)
		}
	case sigRace:
		if ev := x.confirm(); ev != nil {
			x.violation(ev, "race", s.msg)
		}
	case sigDeadlock:
		if ev := x.confirm(); ev != nil {
			x.violation(ev, "deadlock", s.msg)
		}
	case sigAbort:
		panic(s)
	}
	if count {
		x.res.Paths++
		if x.res.Classes != nil && m.S != nil {
			k := fmt.Sprint(m.S.fingerprint(), x.choices())
			if x.res.Classes[k]++; m.P.Debug && x.res.Classes[k] == 1 {
				fmt.Printf("class %s %s\n   %s\n", k, x.covers, strings.Join(m.S.trace(), "\n   "))
			}
		}
		for _, c := range x.covers {
			x.res.Covered[c]++
		}
		if len(x.res.Samples) < 3 || (x.res.Paths%97 == 0 && len(x.res.Samples) < 40) {
			if sig == nil && len(x.forced) == 0 && x.eval != nil {
				x.res.Samples = append(x.res.Samples, x.sample())
			}
		}
	}
}

// choices lists the data decisions of the path.
func (x *Explorer) choices() string {
	var l []string
	for _, d := range x.dec {
		if d.kind == decBranch || (d.kind == decEq && d.taken) {
			if t := fmt.Sprint(d.cond, d.taken); !strings.Contains(t, "select") {
				l = append(l, t)
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// confirm returns a model of the current path, nil if there is none.
func (x *Explorer) confirm() *smt.Evaluator {
	r, ev := x.query(len(x.dec), x.m.C.True)
	if r == smt.Sat {
		return ev
	}
	return nil
}

type sigDeadlock struct{ msg string }

// schedule runs goroutines deterministically until main returns.
func (m *Machine) schedule(main *G) interface{} {
	for {
		progress := false
		for i := 0; i < len(m.gs); i++ {
			g := m.gs[i]
			if g.done || g.idle {
				continue
			}
			if g.sleep {
				continue
			}
			before := m.steps
			hadWait := g.wait
			sig := m.runG(g)
			switch sig.(type) {
			case nil:
				g.done = true
				progress = true
				if g == main {
					return nil
				}
			case sigBlock:
				if m.steps-before > 1 || (hadWait == nil && m.steps-before > 0 && g.wait != nil && !g.parked) {
					progress = true
				}
				g.parked = g.wait == nil
				if g.wait != nil && hadWait == nil {
					// newly waiting: others may pair with it
					progress = true
				}
			case sigYield:
				progress = true
			default:
				return sig
			}
		}
		if progress {
			continue
		}
		// nothing moves: wake whoever waits for quiescence, then sleepers
		woke := false
		for _, g := range m.gs {
			if g.idle && !g.done {
				g.idle = false
				woke = true
				break
			}
		}
		if woke {
			continue
		}
		for _, g := range m.gs {
			if g.sleep && !g.done {
				g.sleep = false
				woke = true
				break
			}
		}
		if woke {
			continue
		}
		var where []string
		for _, g := range m.gs {
			if !g.done && len(g.frames) > 0 {
				where = append(where, strings.Join(m.stack(g), " < "))
			}
		}
		m.cur = main
		return sigDeadlock{"all goroutines are blocked: " + strings.Join(where, " || ")}
	}
}

// Options of an exploration.
type Options struct {
	Workers  int
	Timeout  time.Duration
	QueryCap time.Duration
	MaxViol  int
	MaxPaths int
	Replay   bool // re-execute concretely what was found
	Sched    bool // schedules are symbolic too
	Preempt  int  // bound on preemptions, -1 for none
	Full     bool // no reduction
	One      bool // a single schedule
	Classes  bool // collect the equivalence classes of schedules
	Races    int  // 0: report data races and everything else, 1: only data races, 2: everything but data races
}

// tooBig is set when the process holds so much memory that exploring ends.
var tooBig atomic.Bool

func init() {
	go func() {
		for range time.Tick(2 * time.Second) {
			var st runtime.MemStats
			runtime.ReadMemStats(&st)
			if st.HeapAlloc > 16<<30 {
				tooBig.Store(true)
			}
		}
	}()
}

// Explore checks every path of the harness entry. Where data races are not to be reported, the accesses that race become
// visible operations, so that what they lead to is found, and the exploration starts again.
func Explore(p *Program, entry *ssa.Function, o Options) *Result {
	start := time.Now()
	vis := map[ssa.Instruction]bool{}
	var sum *Result
	for {
		r, racing := explore(p, entry, o, start, vis)
		if sum != nil {
			r.Queries += sum.Queries
			r.Sat += sum.Sat
			r.Unsat += sum.Unsat
			r.UnknownQ += sum.UnknownQ
			r.SolverTime += sum.SolverTime
		}
		if len(racing) == 0 || len(r.Violations) > 0 || r.TimedOut {
			r.Wall = time.Since(start)
			r.Racing = len(vis)
			return r
		}
		sum = r
		n := map[ssa.Instruction]bool{}
		for i := range vis {
			n[i] = true
		}
		for i := range racing {
			n[i] = true
		}
		vis = n
	}
}

func explore(p *Program, entry *ssa.Function, o Options, start time.Time, vis map[ssa.Instruction]bool) (*Result, map[ssa.Instruction]bool) {
	if o.MaxViol == 0 {
		o.MaxViol = 1
	}
	q := &sharedQueue{workers: o.Workers, maxViol: o.MaxViol}
	q.cond = sync.NewCond(&q.mu)
	q.q = [][]outcome{{}}
	results := make([]*Result, o.Workers)
	var wg sync.WaitGroup
	for w := 0; w < o.Workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			res := &Result{Harness: entry.Name(), Covered: map[string]int{}}
			results[w] = res
			if o.Classes {
				res.Classes = map[string]int{}
			}
			var x *Explorer
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(sigAbort); ok {
						res.TimedOut = true
					} else {
						if x != nil {
							x.trunc(fmt.Sprintf("engine: %v", r))
						} else {
							res.Truncated = map[string]int{fmt.Sprintf("engine: %v", r): 1}
						}
						if p.Debug || os.Getenv("GOSYM_DEBUG") != "" {
							debug.PrintStack()
						}
					}
					q.mu.Lock()
					q.stop = true
					q.cond.Broadcast()
					q.mu.Unlock()
				}
				if x != nil && x.s != nil {
					res.Queries, res.Sat, res.Unsat, res.UnknownQ = x.s.Queries, x.s.Sats, x.s.Unsats, x.s.Unknown
					res.SolverTime = x.s.Time
					x.s.Close()
					res.Functions = map[string]int{}
					for f, n := range x.m.execd {
						res.Functions[f.String()] += n
					}
				}
			}()
			for {
				prefix, ok := q.take()
				if !ok {
					return
				}
				if x == nil {
					m := NewMachine(p, entry)
					s, err := smt.NewSolver(o.QueryCap)
					if err != nil {
						panic(err)
					}
					x = &Explorer{m: m, s: s, res: res, shared: q, limit: start.Add(o.Timeout), varSet: map[*smt.Term]bool{}, useSched: o.Sched, one: o.One, vis: vis, preempt: o.Preempt, full: o.Full, races: o.Races}
					m.X = x
				}
				x.dec = nil
				x.forced = prefix
				x.eval = nil
				if len(prefix) == 0 {
					x.eval = smt.NewEval(smt.Model{})
				}
				for {
					x.runPath(entry)
					x.forced = nil
					if q.stopped() {
						return
					}
					if q.hungry() {
						x.donate()
					}
					if !x.backtrack() {
						break
					}
					if time.Now().After(x.limit) || tooBig.Load() {
						panic(sigAbort{})
					}
				}
			}
		}()
	}
	wg.Wait()
	tot := &Result{Harness: entry.Name(), Covered: map[string]int{}, Functions: map[string]int{}, Truncated: map[string]int{}}
	for _, r := range results {
		if r == nil {
			continue
		}
		tot.Paths += r.Paths
		tot.Assumed += r.Assumed
		tot.Checks += r.Checks
		tot.Queries += r.Queries
		tot.Sat += r.Sat
		tot.Unsat += r.Unsat
		tot.UnknownQ += r.UnknownQ
		tot.Steps += r.Steps
		tot.SchedPoints += r.SchedPoints
		tot.Pruned += r.Pruned
		tot.SolverTime += r.SolverTime
		tot.TimedOut = tot.TimedOut || r.TimedOut
		tot.Violations = append(tot.Violations, r.Violations...)
		for k, v := range r.Covered {
			tot.Covered[k] += v
		}
		for k, v := range r.Functions {
			tot.Functions[k] += v
		}
		for k, v := range r.Truncated {
			tot.Truncated[k] += v
		}
		tot.Samples = append(tot.Samples, r.Samples...)
		for k, v := range r.Classes {
			if tot.Classes == nil {
				tot.Classes = map[string]int{}
			}
			tot.Classes[k] += v
		}
	}
	sort.Slice(tot.Violations, func(i, j int) bool { return tot.Violations[i].Msg < tot.Violations[j].Msg })
	if o.Sched || o.Replay {
		for _, v := range tot.Violations {
			k, msg, _ := replay(p, entry, o, vis, v.values, v.script)
			v.Replayed = k == v.Kind && msg == v.Msg
		}
		for i, s := range tot.Samples {
			if i == 12 {
				break
			}
			k, _, cov := replay(p, entry, o, vis, s.values, s.script)
			if k == "" && strings.Join(cov, " ") == strings.Join(s.Covers, " ") {
				tot.Replayed++
			}
		}
	}
	return tot, q.racing
}

// replay re-executes one recorded path on a fresh machine with concrete values and the recorded schedule.
func replay(p *Program, entry *ssa.Function, o Options, vis map[ssa.Instruction]bool, values map[string]uint64, script []int) (kind, msg string, covers []string) {
	defer func() {
		if r := recover(); r != nil {
			kind, msg = "engine", fmt.Sprint(r)
		}
	}()
	m := NewMachine(p, entry)
	s, err := smt.NewSolver(10 * time.Second)
	if err != nil {
		return "engine", err.Error(), nil
	}
	defer s.Close()
	q := &sharedQueue{workers: 1, maxViol: 1}
	q.cond = sync.NewCond(&q.mu)
	res := &Result{Harness: entry.Name(), Covered: map[string]int{}}
	if values == nil {
		values = map[string]uint64{}
	}
	x := &Explorer{m: m, s: s, res: res, shared: q, limit: time.Now().Add(time.Minute), varSet: map[*smt.Term]bool{}, useSched: o.Sched, one: o.One, races: o.Races, vis: vis, preempt: -1,
		fixed: values, script: append([]int{}, script...)}
	x.eval = smt.NewEval(smt.Model{})
	m.X = x
	x.runPath(entry)
	if len(res.Violations) > 0 {
		return res.Violations[0].Kind, res.Violations[0].Msg, x.covers
	}
	if len(res.Truncated) > 0 || res.Paths == 0 {
		return "engine", fmt.Sprint(res.Truncated), x.covers
	}
	return "", "", x.covers
}
