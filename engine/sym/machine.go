package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"gosym/smt"
)

// Control-flow signals raised as Go panics inside the engine.
type (
	sigUnsupported struct{ why string }
	sigBlock       struct{}
	sigPathEnd     struct{ why string } // path infeasible or finished
	sigGoPanic     struct{ v Value }
	sigBound       struct{ why string }
	sigAbort       struct{} // stop the whole exploration
	sigYield       struct{} // reschedule, instruction will be retried
)

// G is a goroutine.
type G struct {
	armed  bool // a timer that has not fired
	id     int
	frames []*Frame
	wait   *commReq // pending channel operation, when blocked on one
	done   bool
	parked bool // blocked on something else
	idle   bool // waits for all others
	name   string
	comm   *commResult
	sleep  bool
	start  *ssa.Function
	boot   func() // first call, when it is not an ordinary function

	// schedule exploration
	pend    *pendOp
	granted bool
	since   int
	steps   int32
	vc      vclock // dependence order
	hb      vclock // happens-before of the memory model
}

// Frame is one activation.
type Frame struct {
	fn        *ssa.Function
	info      *fnInfo
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	defers    []deferred
	panicking bool
	panicVal  Value
	recovered bool
	goexit    bool
	deferOf   *Frame
	ret       func(m *Machine, v Value) // receives the result; nil discards
	call      ssa.Instruction
}

type deferred struct {
	fn   Value // *Closure
	args []Value
}

type fnInfo struct {
	slots map[ssa.Value]int
	n     int
}

// Machine executes SSA. Each worker owns one.
type Machine struct {
	local  string // package of the harness
	caller *G     // who runs an atomic harness step
	P      *Program
	C      *smt.Ctx
	X      *Explorer

	unique, uniquePath map[string]Ptr // interned values
	S                  *sched         // schedule exploration, nil otherwise
	layouts            map[types.Type]*layout
	infos              map[*ssa.Function]*fnInfo
	consts             map[*ssa.Const]Value
	globals            map[*ssa.Global]*Object
	inited             map[*ssa.Package]bool
	fnVals             map[*ssa.Function]*Closure
	implC              map[implKey]bool
	methC              map[methKey]*ssa.Function
	intrC              map[*ssa.Function]*override
	initDep            int
	journal            []func()
	epoch              int
	ids                int
	baseIDs            int
	initDepth          int

	gs        []*G
	cur       *G
	steps     int
	allocated int
	alloc     *smt.Term // bytes allocated on this path
	sync      map[syncKey]*syncState
	lastMain  *G
	sizes     types.Sizes
	execd     map[*ssa.Function]int // functions executed, with instruction counts
	mainDone  bool
	timers    map[syncKey]*G
	rtypes    *typeutil.Map
	ptrs      *typeutil.Map
	rtypeOf   map[*Object]types.Type
	panicAt   []string // stack of the panic being propagated
}

type implKey struct{ t, i types.Type }
type methKey struct {
	t types.Type
	n string
}

// syncKey names a synchronisation object by its address.
type syncKey struct {
	obj *Object
	off int
}

type syncState struct {
	locked  bool
	readers int
	count   int
	waiting int
}

// NewMachine returns a machine for p.
func NewMachine(p *Program, entry *ssa.Function) *Machine {
	m := &Machine{
		P: p, C: smt.NewCtx(), local: pkgPath(entry),
		layouts: map[types.Type]*layout{}, infos: map[*ssa.Function]*fnInfo{},
		consts: map[*ssa.Const]Value{}, globals: map[*ssa.Global]*Object{},
		inited: map[*ssa.Package]bool{}, fnVals: map[*ssa.Function]*Closure{},
		implC: map[implKey]bool{}, methC: map[methKey]*ssa.Function{}, intrC: map[*ssa.Function]*override{},
		sizes: types.SizesFor("gc", "amd64"), execd: map[*ssa.Function]int{},
		epoch: 1, unique: map[string]Ptr{}, uniquePath: map[string]Ptr{},
	}
	m.alloc = m.constInt(0)
	return m
}

func (m *Machine) nextID() int { m.ids++; return m.ids }

func (m *Machine) unsupported(why string) {
	panic(sigUnsupported{why + m.where()})
}

// where describes the current position.
func (m *Machine) where() string {
	if m.cur == nil || len(m.cur.frames) == 0 {
		return ""
	}
	fr := m.cur.frames[len(m.cur.frames)-1]
	return " in " + fr.fn.String() + " at " + m.pos(fr)
}

func (m *Machine) pos(fr *Frame) string {
	p := token.NoPos
	if fr.pc < len(fr.block.Instrs) {
		p = fr.block.Instrs[fr.pc].Pos()
		for i := fr.pc; i >= 0 && p == token.NoPos; i-- {
			p = fr.block.Instrs[i].Pos()
		}
	}
	if p == token.NoPos {
		p = fr.fn.Pos()
	}
	ps := m.P.SSA.Fset.Position(p)
	return fmt.Sprintf("%s:%d", m.P.shortFile(ps.Filename), ps.Line)
}

// Stack renders the current goroutine's stack.
func (m *Machine) stack(g *G) []string {
	var out []string
	for i := len(g.frames) - 1; i >= 0; i-- {
		fr := g.frames[i]
		out = append(out, fr.fn.String()+" "+m.pos(fr))
	}
	return out
}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.infos[fn]; ok {
		return fi
	}
	if fn.Pkg != nil { // waits while another worker builds it
		fn.Pkg.Build()
	}
	fi := &fnInfo{slots: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.slots[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	m.infos[fn] = fi
	return fi
}

// global returns the storage of a package variable, initialising its package on first use.
func (m *Machine) global(g *ssa.Global) *Object {
	if g.Pkg != nil && !m.inited[g.Pkg] {
		m.initPackage(g.Pkg)
	}
	if o, ok := m.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	m.initDepth++
	o := m.newObject(t, 1)
	m.initDepth--
	o.base = true
	o.site = g.String()
	m.globals[g] = o
	return o
}

// initPackage runs a package's initialiser concretely; what cannot be computed becomes Poison.
func (m *Machine) initPackage(p *ssa.Package) {
	m.inited[p] = true
	if m.P.skipInit(p.Pkg.Path()) {
		return
	}
	p.Build()
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	saveG, saveGs, saveSteps, saveAlloc := m.cur, m.gs, m.steps, m.alloc
	saveSync := m.sync
	m.initDepth++
	defer func() {
		m.initDepth--
		m.cur, m.gs, m.steps, m.alloc = saveG, saveGs, saveSteps, saveAlloc
		m.sync = saveSync
	}()
	if m.sync == nil {
		m.sync = map[syncKey]*syncState{}
	}
	g := &G{id: -1}
	m.cur, m.gs = g, []*G{g}
	m.steps = 0
	m.pushFrame(g, init, nil, nil, nil)
	base := g.frames[0]
	for len(g.frames) > 0 {
		sig := m.runSlice(g)
		if len(g.frames) == 0 {
			return
		}
		if sig == nil {
			continue
		}
		switch sig.(type) {
		case sigUnsupported, sigGoPanic, sigBlock, sigBound:
			if m.P.Debug {
				fmt.Printf("init %s: %v\n", p.Pkg.Path(), sig)
			}
		default:
			panic(sig)
		}
		why := fmt.Sprintf("init of %s: %v", p.Pkg.Path(), sig)
		// find the innermost init-like frame and poison the instruction it is executing
		for len(g.frames) > 1 {
			top := g.frames[len(g.frames)-1]
			if isInitFn(top.fn) {
				break
			}
			g.frames = g.frames[:len(g.frames)-1]
		}
		fr := g.frames[len(g.frames)-1]
		_ = base
		in := fr.block.Instrs[fr.pc]
		switch in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return:
			// give up on this initialiser function
			g.frames = g.frames[:len(g.frames)-1]
			if len(g.frames) == 0 {
				return
			}
			fr = g.frames[len(g.frames)-1]
			fr.pc++
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			fr.env[fr.info.slots[v]] = m.poisonOf(v.Type(), why)
		}
		fr.pc++
		g.wait, g.parked = nil, false
	}
}

func (m *Machine) poisonOf(t types.Type, why string) Value {
	if tt, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tt.Len())
		for i := range r {
			r[i] = m.poisonOf(tt.At(i).Type(), why)
		}
		return r
	}
	if isAgg(t) {
		n := m.leaves(t)
		a := &Agg{L: make([]Value, n)}
		for i := range a.L {
			a.L[i] = Poison{why}
		}
		return a
	}
	return Poison{why}
}

func isInitFn(f *ssa.Function) bool {
	return f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

// fnVal returns the function value of a declared function.
func (m *Machine) fnVal(fn *ssa.Function) *Closure {
	if c, ok := m.fnVals[fn]; ok {
		return c
	}
	c := &Closure{Fn: fn, id: -len(m.fnVals) - 1}
	m.fnVals[fn] = c
	return c
}

// val evaluates an operand.
func (m *Machine) val(fr *Frame, v ssa.Value) Value {
	if i, ok := fr.info.slots[v]; ok {
		r := fr.env[i]
		if p, isP := r.(Poison); isP {
			m.unsupported("use of a value that could not be computed (" + p.Why + ")")
		}
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		if c, ok := m.consts[v]; ok {
			return c
		}
		c := m.constVal(v)
		m.consts[v] = c
		return c
	case *ssa.Global:
		return Ptr{Obj: m.global(v)}
	case *ssa.Function:
		return m.fnVal(v)
	case *ssa.Builtin:
		return &Closure{Built: v}
	}
	m.unsupported(fmt.Sprintf("internal: operand %T %v", v, v))
	return nil
}

func (m *Machine) term(fr *Frame, v ssa.Value) *smt.Term {
	x := m.val(fr, v)
	t, ok := x.(*smt.Term)
	if !ok {
		m.unsupported(fmt.Sprintf("internal: %T where an integer was expected (%v)", x, v))
	}
	return t
}

func (m *Machine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	u, ok := under(t).(*types.Basic)
	if !ok {
		// type parameter instantiated etc.
		m.unsupported("constant of type " + t.String())
	}
	if w, _, isInt := intWidth(u); isInt {
		if w == 0 {
			return m.C.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return m.C.Const(w, uint64(i))
		}
		i, _ := constant.Uint64Val(v)
		return m.C.Const(w, i)
	}
	if u.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return Str{S: string(rune(i))}
		}
		return Str{S: constant.StringVal(c.Value)}
	}
	if u.Info()&types.IsFloat != 0 {
		f, _ := constant.Float64Val(c.Value)
		return Float(f)
	}
	return Poison{"constant of type " + t.String()}
}

func (m *Machine) setReg(fr *Frame, v ssa.Value, x Value) { fr.env[fr.info.slots[v]] = x }

// pushFrame starts an activation of fn on g.
func (m *Machine) pushFrame(g *G, fn *ssa.Function, args []Value, free []Value, ret func(*Machine, Value)) *Frame {
	if len(g.frames) > m.P.MaxDepth {
		panic(sigBound{"call depth " + fmt.Sprint(m.P.MaxDepth) + m.where()})
	}
	fi := m.info(fn)
	if fn.Blocks == nil {
		m.unsupported("no body for " + fn.String())
	}
	fr := &Frame{fn: fn, info: fi, env: make([]Value, fi.n), block: fn.Blocks[0], ret: ret}
	if len(args) != len(fn.Params) {
		m.unsupported(fmt.Sprintf("internal: %d arguments for %s", len(args), fn))
	}
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], free)
	g.frames = append(g.frames, fr)
	m.execd[fn]++
	return fr
}

// runtimeError builds a run-time panic value.
func (m *Machine) runtimeError(msg string) Value {
	if t := m.P.runtimeErr; t != nil {
		return Iface{T: t, V: Str{S: msg}}
	}
	return Iface{T: types.Typ[types.String], V: Str{S: "runtime error: " + msg}}
}

// check panics (in the program) with msg unless ok.
func (m *Machine) check(ok *smt.Term, msg string) {
	if ok.IsTrue() {
		return
	}
	if !m.branch(ok) {
		panic(sigGoPanic{m.runtimeError(msg)})
	}
}

// runSlice executes g until it blocks, ends, or something must be handled by the caller.
func (m *Machine) runSlice(g *G) (sig interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case sigUnsupported, sigBlock, sigPathEnd, sigGoPanic, sigBound, sigAbort, sigYield, sigCrash, sigRace:
				sig = r
			default:
				panic(r)
			}
		}
	}()
	if g.boot != nil {
		g.boot()
		g.boot = nil
	}
	for len(g.frames) > 0 {
		m.step(g)
	}
	return nil
}

// runG runs g, turning run-time panics into unwinding; it returns the signal that stopped it (nil: ended).
func (m *Machine) runG(g *G) interface{} {
	m.cur = g
	for {
		sig := m.runSlice(g)
		if gp, ok := sig.(sigGoPanic); ok {
			m.panicAt = m.stack(g)
			if len(g.frames) == 0 {
				return sigCrash{gp.v}
			}
			fr := g.frames[len(g.frames)-1]
			fr.panicking = true
			fr.panicVal = gp.v
			fr.recovered = false
			continue
		}
		return sig
	}
}

type sigCrash struct{ v Value }

// unwind runs the top frame's next deferred call or pops it. A non-nil result is an uncaught panic.
func (m *Machine) unwind(g *G) *sigCrash {
	for {
		fr := g.frames[len(g.frames)-1]
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			m.callDeferred(g, fr, d)
			return nil
		}
		if fr.recovered || !fr.panicking {
			// resume in the recover block
			fr.panicking = false
			fr.recovered = false
			if fr.fn.Recover != nil {
				fr.prev, fr.block, fr.pc = fr.block, fr.fn.Recover, 0
				return nil
			}
			m.popFrame(g, m.zero(resultType(fr.fn)))
			return nil
		}
		// propagate
		v, exit := fr.panicVal, fr.goexit
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 {
			return &sigCrash{v}
		}
		up := g.frames[len(g.frames)-1]
		if fr.deferOf == up {
			// a deferred call panicked: replaces the panic in progress
			up.recovered = false
		}
		up.panicking, up.panicVal, up.goexit = true, v, exit
		up.recovered = false
	}
}

func resultType(fn *ssa.Function) types.Type { return resultOf(fn.Signature) }

func resultOf(sig *types.Signature) types.Type {
	switch r := sig.Results(); r.Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return r.At(0).Type()
	default:
		return r
	}
}

// callDeferred pushes the call of d on behalf of fr, which keeps unwinding or running its defers afterwards.
func (m *Machine) callDeferred(g *G, fr *Frame, d deferred) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(sigBlock); ok { // an intrinsic must wait: call it again later
				fr.defers = append(fr.defers, d)
			}
			panic(r)
		}
	}()
	after := func(m *Machine, _ Value) {}
	n := len(g.frames)
	done := m.invoke(g, d.fn.(*Closure), d.args, after, nil)
	if !done && len(g.frames) > n {
		g.frames[len(g.frames)-1].deferOf = fr
	} else if done && fr.panicking {
		// builtin or intrinsic finished at once: continue unwinding via a step on fr
		return
	}
}

// popFrame returns v from the top frame.
func (m *Machine) popFrame(g *G, v Value) {
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if fr.ret != nil {
		fr.ret(m, v)
	}
}

// invoke calls a function value. It reports true when the call completed at once (result delivered to ret).
func (m *Machine) invoke(g *G, c *Closure, args []Value, ret func(*Machine, Value), at ssa.Instruction) bool {
	if c == nil {
		panic(sigGoPanic{m.runtimeError("invalid memory address or nil pointer dereference")})
	}
	if c.Built != nil {
		v := m.builtin(nil, c.Built, args, nil)
		ret(m, v)
		return true
	}
	fn := c.Fn
	ov := m.override(fn)
	if ov != nil {
		if ov.model != nil {
			m.pushFrame(g, ov.model, args, nil, ret).call = at
			return false
		}
		n := len(g.frames)
		v := ov.fn(m, &Call{G: g, Fn: fn, Args: args, Ret: ret})
		if len(g.frames) > n { // the intrinsic pushed a frame that will deliver the result
			return false
		}
		if _, ok := v.(delivered); ok {
			return true
		}
		ret(m, v)
		return true
	}
	m.pushFrame(g, fn, args, c.Free, ret).call = at
	return false
}

type delivered struct{}

// Call is what an intrinsic sees.
type Call struct {
	G    *G
	Fn   *ssa.Function
	Args []Value
	Ret  func(*Machine, Value)
}

type override struct {
	fn    func(m *Machine, c *Call) Value
	model *ssa.Function
	recv  bool
}

// override finds the intrinsic or model replacing fn, if any.
func (m *Machine) override(fn *ssa.Function) *override {
	if o, ok := m.intrC[fn]; ok {
		return o
	}
	o := m.P.overrideFor(m.local, fn)
	m.intrC[fn] = o
	return o
}

func pkgPath(fn *ssa.Function) string {
	if fn == nil || fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

// born is the epoch of a new object: one made while initialising has not been touched in any run.
func (m *Machine) born() int {
	if m.initDepth > 0 {
		return 0
	}
	return m.epoch
}
