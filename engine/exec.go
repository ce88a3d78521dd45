package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Intr func(c *Ctx, args []Value) Value

type Ctx struct {
	ex   *Exec
	st   *State
	th   *Thread
	fr   *Frame
	in   ssa.Instruction
	call *ssa.CallCommon
	fn   *ssa.Function
	jerr string

	codec                string // serialiser of structured texts: "" is JSON
	useNumber, firstOnly bool
}

// control-flow signals raised inside an instruction
type forkReq struct {
	opts  []*Term
	sched bool
}
type blockReq struct{ r blockReason }
type parkReq struct{}
type goPanic struct {
	val Value
	msg string
}
type pathEnd struct {
	kind string // done, assume, inconclusive, violation
	why  string
}
type pushed struct{} // a frame was pushed; the instruction completes on its return

type Violation struct {
	Harness string
	Label   string
	Kind    string // assert, panic, deadlock, nontermination, race
	Msg     string
	St      *State
	Cond    *Term // negated assertion
	Model   Model
	Inputs  map[string]interface{}
	Sched   string
	Pos     string
}

type Cfg struct {
	Preempt    int
	MaxSteps   int
	MaxStates  int
	TimeBudget time.Duration
	AsyncTimer int // number of timer firings allowed at arbitrary points
	MapOrder   bool
	Races      bool // report map races as violations
	NonTermOK  bool
	MaxIter    int
	Deadlock   bool
	MaxConc    int
	MaxVis     int
	MaxFires   int
	MaxThreads int
	SymJSON    bool
	RandFail   bool
}

type Exec struct {
	P         *Program
	T         *Terms
	S         *Solver
	fns       map[*ssa.Function]*FnInfo
	intr      map[string]Intr
	visIntr   map[string]bool
	redirect  map[string]string
	zeros     map[types.Type]Value
	consts    map[*ssa.Const]Value
	cfg       Cfg
	buckets   [][]*State
	nqueued   int
	visited   map[[2]uint64]int32
	harness   string
	viol      []*Violation
	inconc    map[string]int
	fnUsed    map[string]bool
	reached   map[string]bool
	asserts   map[string]int
	initDone  map[*ssa.Package]bool
	needInit  map[*ssa.Package]bool
	initMode  bool
	globObj   map[*ssa.Global]int32
	stats     Stats
	deadline  time.Time
	racy      map[ssa.Instruction]bool
	newRacy   map[ssa.Instruction]bool
	raceMode  bool
	raceSeen  map[string]*RaceInfo
	methods   map[string]*ssa.Function
	samples   []*State
	sampleN   int
	concrete  Model // concrete replay mode
	conv      map[string]types.Type
	blobs     map[string]*Blob
	truncated string
	stopFirst bool
	violSeen  map[string]bool
	debug     bool
	uninitG   map[*ssa.Global]string
	callStats map[string]int
	base      *State
	knownLbl  map[string]bool
	typeKeys  map[types.Type]string
	keys      map[*ssa.Function]string
	fnByName  map[string]*ssa.Function
	noBody    map[string]int
	typeObjs  map[string]int32
	objType   map[int32]types.Type
	typePool  []int32
	trivial   int
	rrounds   int
}

type Stats struct {
	Paths, Instrs, States, Merged, Transitions, Forks int
	AssertQ                                         int
	Wall                                              time.Duration
	MaxThreads                                        int
}

func NewExec(P *Program, cfg Cfg) *Exec {
	T := NewTerms()
	ex := &Exec{P: P, T: T, S: NewSolver(T, 20000), fns: map[*ssa.Function]*FnInfo{}, zeros: map[types.Type]Value{},
		consts: map[*ssa.Const]Value{}, cfg: cfg, visited: map[[2]uint64]int32{}, inconc: map[string]int{}, fnUsed: map[string]bool{},
		reached: map[string]bool{}, asserts: map[string]int{}, initDone: map[*ssa.Package]bool{}, needInit: map[*ssa.Package]bool{},
		racy: map[ssa.Instruction]bool{}, newRacy: map[ssa.Instruction]bool{}, raceSeen: map[string]*RaceInfo{}, methods: map[string]*ssa.Function{},
		blobs: map[string]*Blob{}, violSeen: map[string]bool{}, uninitG: map[*ssa.Global]string{}, callStats: map[string]int{}, typeKeys: map[types.Type]string{}, keys: map[*ssa.Function]string{}, fnByName: map[string]*ssa.Function{}, noBody: map[string]int{}, typeObjs: map[string]int32{}, objType: map[int32]types.Type{}, globObj: map[*ssa.Global]int32{}}
	ex.intr = map[string]Intr{}
	ex.visIntr = map[string]bool{}
	ex.redirect = map[string]string{}
	registerIntrinsics(ex)
	return ex
}

func newState() *State {
	g := newGen()
	return &State{gen: g, globals: map[*ssa.Global]int32{}, labels: map[string]int{}, reach: map[string]bool{}, now: 1000000}
}

// ---- values of types

func under(t types.Type) types.Type { return t.Underlying() }

func basicSort(b *types.Basic) (Sort, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	case types.Float32:
		return SF32, true
	case types.Float64, types.UntypedFloat:
		return SF64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (ex *Exec) zero(t types.Type) Value {
	if v, ok := ex.zeros[t]; ok {
		return v
	}
	v := ex.zero0(t)
	ex.zeros[t] = v
	return v
}

func (ex *Exec) zero0(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if s, ok := basicSort(u); ok {
			return ex.T.Const(s, 0)
		}
		if u.Kind() == types.Complex128 || u.Kind() == types.Complex64 {
			return Poison{"complex"}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = ex.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<20 {
			return Poison{"huge array"}
		}
		a := make(ArrV, u.Len())
		if len(a) > 0 {
			z := ex.zero(u.Elem())
			for i := range a {
				a[i] = z
			}
		}
		return a
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = ex.zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		return Poison{"type parameter"}
	}
	unsupported("zero of %v", t)
	return nil
}

func (ex *Exec) constant(c *ssa.Const) Value {
	if v, ok := ex.consts[c]; ok {
		return v
	}
	var v Value
	if c.Value == nil {
		v = ex.zero(c.Type())
	} else {
		v = ex.constVal(c.Value, c.Type())
	}
	ex.consts[c] = v
	return v
}

func (ex *Exec) constVal(cv constant.Value, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ex.T.Bool(constant.BoolVal(cv))
		case u.Info()&types.IsString != 0:
			if cv.Kind() == constant.String {
				return Str{s: constant.StringVal(cv)}
			}
			i, _ := constant.Int64Val(cv)
			return Str{s: string(rune(i))}
		case u.Info()&types.IsInteger != 0:
			s, _ := basicSort(u)
			cv = constant.ToInt(cv)
			if i, ok := constant.Int64Val(cv); ok {
				return ex.T.Const(s, uint64(i))
			}
			i, _ := constant.Uint64Val(cv)
			return ex.T.Const(s, i)
		case u.Info()&types.IsFloat != 0:
			s, _ := basicSort(u)
			f, _ := constant.Float64Val(constant.ToFloat(cv))
			return ex.T.FConst(s, f)
		}
	case *types.Interface:
		return Iface{}
	}
	return Poison{fmt.Sprintf("constant of type %v", t)}
}

func (ex *Exec) get(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constant(x)
	case *ssa.Global:
		return Ptr{obj: ex.globObj1(x)}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.FreeVar:
		for i, f := range fr.fi.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
		panic("free var")
	case *ssa.Builtin:
		return x
	}
	r := fr.regs[fr.fi.idx[v]]
	if p, ok := r.(Poison); ok && !ex.initMode {
		unsupported("poisoned value: %s", p.why)
	}
	return r
}

func (ex *Exec) globObj1(g *ssa.Global) int32 {
	if id, ok := ex.globObj[g]; ok {
		return id
	}
	// not initialised yet: ask for the package to be initialised before the run
	if g.Pkg != nil && !ex.initDone[g.Pkg] {
		ex.needInit[g.Pkg] = true
		panic(restart{})
	}
	panic(unsupportedErr{"global without object " + g.String()})
}

type restart struct{}

// ---- decisions inside an instruction

// decide resolves a condition, forking the path when both outcomes are possible.
func (c *Ctx) decide(cond *Term) bool {
	if cond.isConst() {
		return cond.c == 1
	}
	th := c.th
	if th.decPos < len(th.dec) {
		d := th.dec[th.decPos]
		th.decPos++
		return d == 0
	}
	ex := c.ex
	pc := c.st.pcList()
	n := ex.T.Not(cond)
	for p := c.st.pc; p != nil; p = p.prev {
		if p.t == cond {
			th.dec = append(th.dec, 0)
			th.decPos++
			return true
		}
		if p.t == n {
			th.dec = append(th.dec, 1)
			th.decPos++
			return false
		}
	}
	if ex.initMode {
		unsupported("symbolic branch during initialisation")
	}
	ex.pastDeadline()
	r1, _ := ex.S.CheckWith(pc, cond)
	if r1 == Unsat {
		th.dec = append(th.dec, 1)
		th.decPos++
		return false
	}
	r2, _ := ex.S.CheckWith(pc, n)
	if r2 == Unsat {
		th.dec = append(th.dec, 0)
		th.decPos++
		return true
	}
	if r1 == Unknown || r2 == Unknown {
		panic(pathEnd{"inconclusive", "solver unknown on branch"})
	}
	panic(forkReq{opts: []*Term{cond, n}})
}

// choose forks n ways over a fresh choice variable.
func (c *Ctx) choose(n int, what string) int {
	c.st.nondet = true
	if n <= 1 {
		return 0
	}
	th := c.th
	if th.decPos < len(th.dec) {
		d := th.dec[th.decPos]
		th.decPos++
		return d
	}
	if c.ex.initMode {
		unsupported("choice during initialisation")
	}
	v := c.ex.T.Var(16, fmt.Sprintf("%s_%d", what, c.st.nchoice))
	c.st.nchoice++
	opts := make([]*Term, n)
	for i := range opts {
		opts[i] = c.ex.T.Eq(v, c.ex.T.Const(16, uint64(i)))
	}
	panic(forkReq{opts: opts, sched: true})
}

// concretize enumerates the feasible values of t.
func (c *Ctx) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.c
	}
	th := c.th
	ex := c.ex
	if ex.initMode {
		unsupported("symbolic value during initialisation")
	}
	// decisions: index into the list of feasible values, recomputed deterministically
	vals := ex.feasible(c.st, t)
	if th.decPos < len(th.dec) {
		// after the fork the path condition pins the value
		th.decPos++
		if len(vals) != 1 {
			unsupported("concretize: %d values after fork", len(vals))
		}
		return vals[0]
	}
	if len(vals) == 0 {
		panic(pathEnd{"assume", "infeasible"})
	}
	if len(vals) == 1 {
		th.dec = append(th.dec, 0)
		th.decPos++
		return vals[0]
	}
	opts := make([]*Term, len(vals))
	for i, v := range vals {
		opts[i] = ex.T.Eq(t, ex.T.Const(t.sort, v))
	}
	panic(forkReq{opts: opts})
}

func (ex *Exec) feasible(st *State, t *Term) []uint64 {
	lim := ex.cfg.MaxConc
	if lim == 0 {
		lim = 64
	}
	v := ex.feasibleUpTo(st, t, lim)
	if v == nil {
		panic(pathEnd{"inconclusive", fmt.Sprintf("more than %d values for a symbolic index or length", lim)})
	}
	return v
}

// feasibleUpTo lists the values of t, or nil when there are more than lim.
func (ex *Exec) feasibleUpTo(st *State, t *Term, lim int) []uint64 {
	for p := st.pc; p != nil; p = p.prev {
		if p.t.op == OEq && p.t.a[0] == t && p.t.a[1].isConst() {
			return []uint64{p.t.a[1].c}
		}
	}
	pc := st.pcList()
	vals := []uint64{}
	block := ex.T.True
	for {
		q := block
		if q.isTrue() {
			// get any model
			q = ex.T.Or(ex.T.Eq(t, ex.T.Const(t.sort, 0)), ex.T.Not(ex.T.Eq(t, ex.T.Const(t.sort, 0))))
			if q.isTrue() {
				q = ex.T.Ule(ex.T.Const(t.sort, 0), t)
			}
		}
		ex.pastDeadline()
		cs := append(ex.S.slice(pc, t), block)
		r, m := ex.S.Check(cs)
		if r == Unknown {
			panic(pathEnd{"inconclusive", "solver unknown while enumerating values"})
		}
		if r == Unsat {
			break
		}
		v := ex.T.Eval(t, m, map[int32]uint64{})
		vals = append(vals, v)
		if len(vals) > lim {
			return nil
		}
		block = ex.T.And(block, ex.T.Not(ex.T.Eq(t, ex.T.Const(t.sort, v))))
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	return vals
}

// pinRegs replaces the registers of a looping frame whose value the path condition determines by that constant.
func (ex *Exec) pinRegs(c *Ctx, fr *Frame) {
	if ex.initMode || c.st.pc == nil {
		return
	}
	pc := c.st.pcList()
	for i, r := range fr.regs {
		t, ok := r.(*Term)
		if !ok || t.isConst() {
			continue
		}
		cs := ex.S.slice(pc, t)
		if len(cs) == 0 {
			continue
		}
		res, m := ex.S.Check(cs)
		if res != Sat {
			continue
		}
		v := ex.T.Const(t.sort, ex.T.Eval(t, m, map[int32]uint64{}))
		if res, _ := ex.S.Check(append(append([]*Term(nil), cs...), ex.T.Not(ex.T.Eq(t, v)))); res == Unsat {
			fr.regs[i] = v
		}
	}
}

// pastDeadline ends the path when the time budget is used up.
func (ex *Exec) pastDeadline() {
	if !ex.initMode && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
		panic(pathEnd{"inconclusive", "time budget inside a path"})
	}
}

func (ex *Exec) goPanicf(c *Ctx, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	panic(goPanic{val: ex.runtimeError(msg), msg: msg})
}

func (ex *Exec) runtimeError(msg string) Value {
	// runtime.errorString implements error
	if p := ex.P.pkgs["runtime"]; p != nil {
		if t := p.Type("errorString"); t != nil {
			return Iface{t: t.Type(), v: Str{s: msg}}
		}
	}
	return Iface{t: types.Typ[types.String], v: Str{s: "runtime error: " + msg}}
}

// ---- the main loop

func (ex *Exec) push(st *State) {
	b := st.preempt
	for len(ex.buckets) <= b {
		ex.buckets = append(ex.buckets, nil)
	}
	ex.buckets[b] = append(ex.buckets[b], st)
	ex.nqueued++
}

func (ex *Exec) pop() *State {
	for i, b := range ex.buckets {
		if n := len(b); n > 0 {
			st := b[n-1]
			b[n-1] = nil
			ex.buckets[i] = b[:n-1]
			ex.nqueued--
			return st
		}
	}
	return nil
}

// memHigh is set while the live heap is beyond the memory budget.
var memHigh atomic.Bool

func watchMemory(limit uint64) {
	live := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	cycles := []metrics.Sample{{Name: "/gc/cycles/total:gc-cycles"}}
	last := uint64(0)
	for {
		time.Sleep(500 * time.Millisecond)
		metrics.Read(live)
		metrics.Read(cycles)
		// one harness is stopped per GC cycle that finds too much alive
		if c := cycles[0].Value.Uint64(); c != last {
			last = c
			memHigh.Store(live[0].Value.Uint64() > limit)
		}
	}
}

func (ex *Exec) explore() {
	for {
		st := ex.pop()
		if st == nil {
			return
		}
		if time.Now().After(ex.deadline) {
			ex.truncated = fmt.Sprintf("time budget reached with %d states queued", ex.nqueued+1)
			return
		}
		if ex.cfg.MaxStates > 0 && ex.stats.States > ex.cfg.MaxStates {
			ex.truncated = fmt.Sprintf("state budget reached with %d states queued", ex.nqueued+1)
			return
		}
		if memHigh.Load() && ex.stats.States > 20000 && memHigh.CompareAndSwap(true, false) {
			ex.truncated = fmt.Sprintf("memory budget reached with %d states queued", ex.nqueued+1)
			return
		}
		ex.runPath(st)
		if ex.stopFirst && len(ex.viol) > 0 {
			return
		}
	}
}

func (ex *Exec) endPath(st *State, e pathEnd) {
	switch e.kind {
	case "inconclusive":
		ex.inconc[e.why]++
	case "done":
		ex.stats.Paths++
		for l := range st.reach {
			ex.reached[l] = true
		}
		ex.sampleN++
		// reservoir of completed paths for native validation (deterministic: every 2^k-th path)
		if len(ex.samples) < 8 {
			ex.samples = append(ex.samples, st)
		} else if ex.sampleN%(1+ex.sampleN/8) == 0 {
			ex.samples[ex.sampleN%8] = st
		}
	}
}

func (ex *Exec) runPath(st *State) {
	for {
		e, ok := ex.runSome(st)
		if ok {
			if e.kind != "merged" {
				ex.endPath(st, e)
			}
			return
		}
	}
}

// runSome executes until the path ends (true) or returns false to be called again.
func (ex *Exec) runSome(st *State) (end pathEnd, ended bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end, ended = x, true
			case unsupportedErr:
				if ex.initMode {
					panic(r)
				}
				where := ""
				if st.cur < len(st.threads) {
					th := st.threads[st.cur]
					for i := len(th.frames) - 1; i >= 0 && i >= len(th.frames)-9; i-- {
						where += " < " + th.frames[i].fi.name
					}
				}
				end, ended = pathEnd{"inconclusive", "unsupported: " + x.why + where}, true
			case restart:
				panic(r)
			default:
				if ex.debug || ex.initMode {
					if ex.debug {
						fmt.Println(string(debug.Stack()))
					}
				}
				if ex.initMode {
					panic(unsupportedErr{fmt.Sprint("engine: ", r)})
				}
				where := ""
				if st.cur < len(st.threads) {
					th := st.threads[st.cur]
					for i := len(th.frames) - 1; i >= 0 && i >= len(th.frames)-9; i-- {
						where += " < " + th.frames[i].fi.name
					}
				}
				end, ended = pathEnd{"inconclusive", fmt.Sprint("engine: ", r, where)}, true
			}
		}
	}()
	for {
		th := st.threads[st.cur]
		if th.status != TRun {
			if e, ok := ex.schedule(st); ok {
				return e, true
			}
			continue
		}
		th = st.mutThread(st.cur)
		fr := st.mutFrame(th, len(th.frames)-1)
		in := fr.fi.fn.Blocks[fr.block].Instrs[fr.ip]
		th.vis = !ex.initMode && st.atomicDepth == 0 && len(st.threads) > 1 && ex.isVisible(st, th, fr, in)
		if th.vis && !th.granted {
			if e, ok := ex.schedule(st); ok {
				return e, true
			}
			continue
		}
		st.steps++
		ex.stats.Instrs++
		if st.steps > ex.cfg.MaxSteps {
			if ex.cfg.NonTermOK {
				return pathEnd{"inconclusive", "step bound"}, true
			}
			ex.report(st, "nontermination", "no termination within the step bound", ex.posOf(in, fr), nil)
			return pathEnd{"violation", "step bound"}, true
		}
		if st.steps&0xffff == 0 && time.Now().After(ex.deadline) {
			return pathEnd{"inconclusive", "time budget inside a path"}, true
		}
		if e, ok := ex.step(st, th, fr, in); ok {
			return e, true
		}
		if len(st.threads[0].frames) == 0 && !ex.initMode {
			return pathEnd{"done", ""}, true
		}
		if ex.initMode && len(st.threads[st.cur].frames) == 0 {
			return pathEnd{"done", ""}, true
		}
	}
}

func (ex *Exec) posOf(in ssa.Instruction, fr *Frame) string {
	if in != nil {
		for _, p := range []token.Pos{in.Pos()} {
			if p.IsValid() {
				return shortPos(ex.P.prog.Fset.Position(p))
			}
		}
		// nearest instruction with a position
		if b := in.Block(); b != nil {
			for _, o := range b.Instrs {
				if o.Pos().IsValid() {
					return shortPos(ex.P.prog.Fset.Position(o.Pos()))
				}
			}
		}
		if f := in.Parent(); f != nil && f.Pos().IsValid() {
			return shortPos(ex.P.prog.Fset.Position(f.Pos()))
		}
	}
	return "?"
}

func shortPos(p token.Position) string {
	f := p.Filename
	if i := strings.Index(f, "/repo/"); i == 0 {
		f = f[len("/repo/"):]
	} else if i := strings.LastIndex(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// step executes one instruction.
func (ex *Exec) step(st *State, th *Thread, fr *Frame, in ssa.Instruction) (end pathEnd, ended bool) {
	th.decPos = 0
	c := &Ctx{ex: ex, st: st, th: th, fr: fr, in: in}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkReq:
				ex.stats.Forks++
				for i := len(x.opts) - 1; i >= 0; i-- {
					s := st
					if i > 0 {
						s = st.clone()
					}
					t := s.mutThread(s.cur)
					t.dec = append(append([]int(nil), t.dec...), i)
					if x.sched {
						s.addSched(x.opts[i])
					} else {
						s.addPC(x.opts[i])
					}
					if i > 0 {
						ex.push(s)
					}
				}
			case blockReq:
				th.status = TBlocked
				th.block = x.r
				th.granted = false
				th.dec = th.dec[:0]
			case parkReq:
				th.status = TParked
				th.granted = false
				th.dec = th.dec[:0]
			case goPanic:
				if ex.initMode && false {
					panic(r)
				}
				th.dec = th.dec[:0]
				if th.vis {
					th.granted = false
				}
				end, ended = ex.startPanic(st, th, x, in)
			case pushed:
				// callee frame on top; result is stored when it returns
				th.dec = th.dec[:0]
				if th.vis {
					th.granted = false
				}
			default:
				panic(r)
			}
		}
	}()
	ex.exec(c)
	// completed
	if th.vis {
		th.granted = false
	}
	if len(th.dec) > 0 {
		th.dec = th.dec[:0]
	}
	return pathEnd{}, false
}

func (c *Ctx) set(v Value) {
	c.fr.regs[c.fr.fi.idx[c.in.(ssa.Value)]] = v
	c.fr.ip++
}

func (ex *Exec) jump(fr *Frame, to int) {
	from := fr.block
	b := fr.fi.fn.Blocks[to]
	// phis are evaluated simultaneously
	pi := -1
	for k, p := range b.Preds {
		if p.Index == from {
			pi = k
			break
		}
	}
	var vals []Value
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Value
		if e := ph.Edges[pi]; e != nil {
			if _, ok := fr.fi.idx[e]; ok {
				v = fr.regs[fr.fi.idx[e]]
			} else {
				v = ex.get(fr, e)
			}
		}
		vals = append(vals, v)
		n++
	}
	for i := 0; i < n; i++ {
		fr.regs[fr.fi.idx[b.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	if to <= from {
		fr.iters++
	}
	fr.prev = from
	fr.block = to
	fr.ip = n
}

func (ex *Exec) exec(c *Ctx) {
	st, fr := c.st, c.fr
	T := ex.T
	switch in := c.in.(type) {
	case *ssa.DebugRef:
		fr.ip++
	case *ssa.UnOp:
		x := ex.get(fr, in.X)
		switch in.Op {
		case token.MUL:
			p := x.(Ptr)
			if p.obj == 0 {
				ex.goPanicf(c, "invalid memory address or nil pointer dereference")
			}
			ex.access(c, p, false)
			c.set(ex.fixCell(st.load(p), in.Type()))
		case token.NOT:
			c.set(T.Not(x.(*Term)))
		case token.SUB:
			t := x.(*Term)
			if t.sort.isFP() {
				c.set(T.FNeg(t))
			} else {
				c.set(T.Neg(t))
			}
		case token.XOR:
			c.set(T.BNot(x.(*Term)))
		case token.ARROW:
			v := ex.chanRecv(c, x.(ChanRef), in.CommaOk, under(in.X.Type()).(*types.Chan).Elem())
			c.set(v)
		default:
			unsupported("unop %v", in.Op)
		}
	case *ssa.BinOp:
		c.set(ex.binop(c, in.Op, ex.get(fr, in.X), ex.get(fr, in.Y), in.X.Type(), in.Y.Type()))
	case *ssa.Call:
		ex.call(c, &in.Call, fr.fi.idx[in])
	case *ssa.ChangeInterface:
		c.set(ex.get(fr, in.X))
	case *ssa.ChangeType:
		c.set(ex.get(fr, in.X))
	case *ssa.Convert:
		c.set(ex.convert(c, ex.get(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		c.set(ex.convert(c, ex.get(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.SliceToArrayPointer:
		s := ex.get(fr, in.X).(Slice)
		n := int(under(under(in.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		if s.len < n {
			ex.goPanicf(c, "cannot convert slice to array pointer")
		}
		if s.off != 0 {
			unsupported("slice to array pointer with offset")
		}
		c.set(s.arr)
	case *ssa.MakeInterface:
		c.set(Iface{t: in.X.Type(), v: ex.get(fr, in.X)})
	case *ssa.Extract:
		c.set(ex.get(fr, in.Tuple).(TupleV)[in.Index])
	case *ssa.Slice:
		c.set(ex.slice(c, in))
	case *ssa.Return:
		var r Value
		switch len(in.Results) {
		case 0:
			r = TupleV{}
		case 1:
			r = ex.get(fr, in.Results[0])
		default:
			t := make(TupleV, len(in.Results))
			for i, x := range in.Results {
				t[i] = ex.get(fr, x)
			}
			r = t
		}
		ex.ret(st, c.th, r)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			ex.runDefer(c, d, func() { fr.defers = append(fr.defers, d) })
			return
		}
		fr.ip++
	case *ssa.Panic:
		v := ex.get(fr, in.X)
		panic(goPanic{val: v, msg: ex.showPanic(v)})
	case *ssa.Send:
		ex.chanSend(c, ex.get(fr, in.Chan).(ChanRef), ex.get(fr, in.X))
		fr.ip++
	case *ssa.Store:
		p := ex.get(fr, in.Addr).(Ptr)
		if p.obj == 0 {
			ex.goPanicf(c, "invalid memory address or nil pointer dereference")
		}
		ex.access(c, p, true)
		var v Value
		if ex.initMode {
			v = ex.getRaw(fr, in.Val)
		} else {
			v = ex.get(fr, in.Val)
		}
		st.store(p, v)
		fr.ip++
	case *ssa.If:
		cond := ex.get(fr, in.Cond).(*Term)
		b := fr.fi.fn.Blocks[fr.block]
		if !cond.isConst() {
			fr.nsym++
			if fr.nsym >= 12 && fr.nsym%12 == 0 {
				ex.pinRegs(c, fr)
				cond = ex.get(fr, in.Cond).(*Term)
			}
		}
		if c.decide(cond) {
			ex.jump(fr, b.Succs[0].Index)
		} else {
			ex.jump(fr, b.Succs[1].Index)
		}
	case *ssa.Jump:
		ex.jump(fr, fr.fi.fn.Blocks[fr.block].Succs[0].Index)
	case *ssa.Defer:
		d := DeferRec{call: &in.Call, pos: in}
		if in.Call.IsInvoke() {
			d.fn = ex.get(fr, in.Call.Value)
		} else if _, ok := in.Call.Value.(*ssa.Builtin); ok {
			d.fn = in.Call.Value
		} else {
			d.fn = ex.get(fr, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, ex.get(fr, a))
		}
		fr.defers = append(fr.defers, d)
		fr.ip++
	case *ssa.Go:
		ex.spawnCall(c, &in.Call)
		fr.ip++
	case *ssa.MakeChan:
		n := c.concretize(ex.get(fr, in.Size).(*Term))
		id := st.alloc(&ChanV{cap: int(n)}, "")
		c.set(ChanRef{id})
	case *ssa.Alloc:
		et := under(in.Type()).(*types.Pointer).Elem()
		z := ex.zero(et)
		if a, ok := z.(ArrV); ok {
			z = append(ArrV(nil), a...)
		}
		id := st.alloc(z, "")
		c.set(Ptr{obj: id})
	case *ssa.MakeSlice:
		ln := ex.get(fr, in.Len).(*Term)
		cp := ex.get(fr, in.Cap).(*Term)
		ln, cp = T.Resize(ln, 64, isSigned(in.Len.Type())), T.Resize(cp, 64, isSigned(in.Cap.Type()))
		if c.decide(T.Or(T.Slt(ln, T.Const(64, 0)), T.Slt(cp, ln))) {
			ex.goPanicf(c, "makeslice: len out of range")
		}
		if !ln.isConst() && !cp.isConst() {
			// Allocation of unbounded symbolic size: cut very large sizes (stated bound)
			if c.decide(T.Slt(T.Const(64, 64), cp)) {
				panic(pathEnd{"inconclusive", "allocation of a symbolic size above 64"})
			}
		}
		n := int(c.concretize(ln))
		m := int(c.concretize(cp))
		if m > 1<<20 {
			unsupported("huge make")
		}
		c.set(ex.mkSlice(st, under(in.Type()).(*types.Slice).Elem(), n, m))
	case *ssa.MakeMap:
		id := st.alloc(&MapV{}, "")
		c.set(MapRef{id})
	case *ssa.Range:
		x := ex.get(fr, in.X)
		switch m := x.(type) {
		case Str:
			id := st.alloc(&IterV{isStr: true, str: m}, "")
			c.set(IterRef{id})
		case MapRef:
			it := &IterV{m: m}
			if m.obj != 0 {
				ex.access(c, Ptr{obj: m.obj}, false)
				for _, e := range st.obj(m.obj).v.(*MapV).ents {
					it.todo = append(it.todo, e.k)
				}
			}
			id := st.alloc(it, "")
			c.set(IterRef{id})
		default:
			unsupported("range over %T", x)
		}
	case *ssa.Next:
		c.set(ex.next(c, in))
	case *ssa.FieldAddr:
		p := ex.get(fr, in.X).(Ptr)
		if p.obj == 0 {
			ex.goPanicf(c, "invalid memory address or nil pointer dereference")
		}
		c.set(p.field(in.Field))
	case *ssa.Field:
		c.set(ex.get(fr, in.X).(StructV)[in.Field])
	case *ssa.IndexAddr:
		c.set(ex.indexAddr(c, in))
	case *ssa.Index:
		x := ex.get(fr, in.X)
		i := T.Resize(ex.get(fr, in.Index).(*Term), 64, isSigned(in.Index.Type()))
		switch a := x.(type) {
		case ArrV:
			ex.bound(c, i, len(a))
			c.set(a[c.concretize(i)])
		case Str:
			c.set(ex.strIndex(c, a, i))
		default:
			unsupported("index %T", x)
		}
	case *ssa.Lookup:
		x := ex.get(fr, in.X)
		switch m := x.(type) {
		case Str:
			i := T.Resize(ex.get(fr, in.Index).(*Term), 64, isSigned(in.Index.Type()))
			c.set(ex.strIndex(c, m, i))
		case MapRef:
			v, ok := ex.mapGet(c, m, ex.get(fr, in.Index))
			if !ok {
				v = ex.zero(under(in.X.Type()).(*types.Map).Elem())
			}
			if in.CommaOk {
				c.set(TupleV{v, T.Bool(ok)})
			} else {
				c.set(v)
			}
		default:
			unsupported("lookup %T", x)
		}
	case *ssa.MapUpdate:
		ex.mapSet(c, ex.get(fr, in.Map).(MapRef), ex.get(fr, in.Key), ex.get(fr, in.Value))
		fr.ip++
	case *ssa.TypeAssert:
		c.set(ex.typeAssert(c, in))
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.bind = append(cl.bind, ex.get(fr, b))
		}
		c.set(cl)
	case *ssa.Phi:
		panic("phi reached")
	case *ssa.Select:
		ex.selectOp(c, in)
	default:
		unsupported("instruction %T", in)
	}
}

func (ex *Exec) getRaw(fr *Frame, v ssa.Value) Value {
	if i, ok := fr.fi.idx[v]; ok {
		return fr.regs[i]
	}
	return ex.get(fr, v)
}

// fixCell: sync cells are only ever accessed through intrinsics; a plain load of a
// struct containing one copies the cell as is.
func (ex *Exec) fixCell(v Value, t types.Type) Value { return v }

func (ex *Exec) mkSlice(st *State, elem types.Type, n, m int) Slice {
	a := make(ArrV, m)
	if m > 0 {
		z := ex.zero(elem)
		for i := range a {
			a[i] = z
		}
	}
	if m == 0 {
		// distinct non-nil empty slice
	}
	id := st.alloc(a, "")
	return Slice{arr: Ptr{obj: id}, len: n, cap: m}
}

func (ex *Exec) bytesSlice(st *State, b []*Term) Slice {
	a := make(ArrV, len(b))
	for i := range b {
		a[i] = b[i]
	}
	id := st.alloc(a, "")
	return Slice{arr: Ptr{obj: id}, len: len(b), cap: len(b)}
}

func (ex *Exec) sliceElems(st *State, s Slice) []Value {
	if s.blob != nil {
		ex.materializeSlice(st, &s)
	}
	if s.len == 0 {
		return nil
	}
	arr := getPath(st.obj(s.arr.obj).v, s.arr.path).(ArrV)
	return arr[s.off : s.off+s.len]
}

func (ex *Exec) sliceBytes(st *State, s Slice) []*Term {
	es := ex.sliceElems(st, s)
	r := make([]*Term, len(es))
	for i, e := range es {
		r[i] = e.(*Term)
	}
	return r
}

func (ex *Exec) bound(c *Ctx, i *Term, n int) {
	T := ex.T
	if !c.decide(T.Ult(i, T.Const(64, uint64(n)))) {
		ex.goPanicf(c, "index out of range [%s] with length %d", T.Show(i, 2), n)
	}
}

func (ex *Exec) strIndex(c *Ctx, s Str, i *Term) Value {
	if s.blob != nil {
		ex.materialize(&s)
	}
	ex.bound(c, i, s.length())
	if i.isConst() {
		return ex.strByte(s, int(i.c))
	}
	// read at a symbolic offset: an ite chain
	n := s.length()
	r := ex.strByte(s, n-1)
	for k := n - 2; k >= 0; k-- {
		r = ex.T.Ite(ex.T.Eq(i, ex.T.Const(64, uint64(k))), ex.strByte(s, k), r)
	}
	return r
}

func (ex *Exec) indexAddr(c *Ctx, in *ssa.IndexAddr) Value {
	st, fr, T := c.st, c.fr, ex.T
	x := ex.get(fr, in.X)
	i := T.Resize(ex.get(fr, in.Index).(*Term), 64, isSigned(in.Index.Type()))
	switch a := x.(type) {
	case Slice:
		if a.blob != nil {
			ex.materializeSlice(st, &a)
		}
		ex.bound(c, i, a.len)
		return a.arr.field(a.off + int(c.concretize(i)))
	case Ptr:
		if a.obj == 0 {
			ex.goPanicf(c, "invalid memory address or nil pointer dereference")
		}
		n := int(under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		ex.bound(c, i, n)
		return a.field(int(c.concretize(i)))
	}
	unsupported("indexaddr %T", x)
	return nil
}

func (ex *Exec) slice(c *Ctx, in *ssa.Slice) Value {
	st, fr, T := c.st, c.fr, ex.T
	x := ex.get(fr, in.X)
	var lo, hi, mx *Term
	g := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return T.Resize(ex.get(fr, v).(*Term), 64, isSigned(v.Type()))
	}
	lo, hi, mx = g(in.Low), g(in.High), g(in.Max)
	chk := func(n, capn int, what string) (int, int, int) {
		if lo == nil {
			lo = T.Const(64, 0)
		}
		if hi == nil {
			hi = T.Const(64, uint64(n))
		}
		m := T.Const(64, uint64(capn))
		if mx != nil {
			if !c.decide(T.Ule(mx, m)) {
				ex.goPanicf(c, "slice bounds out of range [::%s] with capacity %d", T.Show(mx, 2), capn)
			}
			m = mx
		}
		if !c.decide(T.Ule(hi, m)) {
			ex.goPanicf(c, "slice bounds out of range [:%s] with %s %s", T.Show(hi, 2), what, T.Show(m, 2))
		}
		if !c.decide(T.Ule(lo, hi)) {
			ex.goPanicf(c, "slice bounds out of range [%s:%s]", T.Show(lo, 2), T.Show(hi, 2))
		}
		return int(c.concretize(lo)), int(c.concretize(hi)), int(c.concretize(m))
	}
	switch s := x.(type) {
	case Str:
		if s.blob != nil {
			if lo == nil && hi == nil {
				return s
			}
			ex.materialize(&s)
		}
		l, h, _ := chk(s.length(), s.length(), "length")
		if s.sym == nil {
			return Str{s: s.s[l:h]}
		}
		return mkStr(s.sym[l:h])
	case Slice:
		if s.blob != nil {
			if lo == nil && hi == nil {
				return s
			}
			ex.materializeSlice(st, &s)
		}
		l, h, m := chk(s.len, s.cap, "capacity")
		if s.arr.obj == 0 {
			return Slice{}
		}
		return Slice{arr: s.arr, off: s.off + l, len: h - l, cap: m - l}
	case Ptr:
		if s.obj == 0 {
			ex.goPanicf(c, "invalid memory address or nil pointer dereference")
		}
		n := int(under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		l, h, m := chk(n, n, "capacity")
		return Slice{arr: s, off: l, len: h - l, cap: m - l}
	}
	unsupported("slice of %T", x)
	return nil
}

// ---- maps

// mapKey fixes the value of a small symbolic integer key of a map with several entries (one fork instead of one
// comparison per entry).
func (ex *Exec) mapKey(c *Ctx, mv *MapV, k Value) Value {
	t, ok := k.(*Term)
	if !ok || t.isConst() || len(mv.ents) < 2 || !t.sort.isBV() || umax(t) > 1<<16 || ex.initMode {
		return k
	}
	if c.th.decPos >= len(c.th.dec) && ex.feasibleUpTo(c.st, t, 64) == nil {
		return k
	}
	return ex.T.Const(t.sort, c.concretize(t))
}

func (ex *Exec) mapGet(c *Ctx, m MapRef, k Value) (Value, bool) {
	ex.checkHashable(c, k)
	if m.obj == 0 {
		return nil, false
	}
	ex.access(c, Ptr{obj: m.obj}, false)
	mv := c.st.obj(m.obj).v.(*MapV)
	k = ex.mapKey(c, mv, k)
	for _, e := range mv.ents {
		if c.decide(ex.equal(c, e.k, k)) {
			return e.v, true
		}
	}
	return nil, false
}

func (ex *Exec) checkHashable(c *Ctx, k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		ex.goPanicf(c, "hash of unhashable type %v", i.t)
	}
}

func (ex *Exec) mapSet(c *Ctx, m MapRef, k, v Value) {
	if m.obj == 0 {
		panic(goPanic{val: ex.plainError("assignment to entry in nil map"), msg: "assignment to entry in nil map"})
	}
	ex.checkHashable(c, k)
	ex.access(c, Ptr{obj: m.obj}, true)
	mv := c.st.obj(m.obj).v.(*MapV)
	k = ex.mapKey(c, mv, k)
	for i, e := range mv.ents {
		if c.decide(ex.equal(c, e.k, k)) {
			n := &MapV{ents: append([]MapEnt(nil), mv.ents...)}
			n.ents[i].v = v
			o := c.st.mutObj(m.obj)
			o.v = n
			if o.shared {
				c.st.share(v)
			}
			return
		}
	}
	n := &MapV{ents: append(append([]MapEnt(nil), mv.ents...), MapEnt{k, v})}
	o := c.st.mutObj(m.obj)
	o.v = n
	if o.shared {
		c.st.share(k)
		c.st.share(v)
	}
}

func (ex *Exec) plainError(s string) Value {
	if p := ex.P.pkgs["runtime"]; p != nil {
		if t := p.Type("plainError"); t != nil {
			return Iface{t: t.Type(), v: Str{s: s}}
		}
	}
	return Iface{t: types.Typ[types.String], v: Str{s: s}}
}

func (ex *Exec) mapDelete(c *Ctx, m MapRef, k Value) {
	if m.obj == 0 {
		return
	}
	ex.access(c, Ptr{obj: m.obj}, true)
	mv := c.st.obj(m.obj).v.(*MapV)
	k = ex.mapKey(c, mv, k)
	for i, e := range mv.ents {
		if c.decide(ex.equal(c, e.k, k)) {
			n := &MapV{}
			n.ents = append(n.ents, mv.ents[:i]...)
			n.ents = append(n.ents, mv.ents[i+1:]...)
			c.st.mutObj(m.obj).v = n
			return
		}
	}
}

func (ex *Exec) next(c *Ctx, in *ssa.Next) Value {
	st, T := c.st, ex.T
	it := ex.get(c.fr, in.Iter).(IterRef)
	iv := st.obj(it.obj).v.(*IterV)
	tt := in.Type().(*types.Tuple)
	if iv.isStr {
		n := iv.str.length()
		if iv.str.blob != nil {
			s := iv.str
			ex.materialize(&s)
			n = s.length()
			cp := *iv
			cp.str = s
			iv = &cp
		}
		if iv.pos >= n {
			return TupleV{T.False, T.Int(64, 0), T.Int(32, 0)}
		}
		r, w := ex.decodeRune(c, iv.str, iv.pos)
		cp := *iv
		cp.pos += w
		st.mutObj(it.obj).v = &cp
		return TupleV{T.True, T.Int(64, int64(iv.pos)), r}
	}
	fin := func() Value {
		var kz, vz Value = T.Int(64, 0), T.Int(64, 0)
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			kz = ex.zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			vz = ex.zero(tt.At(2).Type())
		}
		return TupleV{T.False, kz, vz}
	}
	if iv.m.obj == 0 {
		return fin()
	}
	ex.access(c, Ptr{obj: iv.m.obj}, false)
	mv := st.obj(iv.m.obj).v.(*MapV)
	var cand []int
	var vals []Value
	for i, k := range iv.todo {
		for _, e := range mv.ents {
			if sameVal(e.k, k) {
				cand = append(cand, i)
				vals = append(vals, e.v)
				break
			}
		}
	}
	if len(cand) == 0 {
		cp := *iv
		cp.todo = nil
		st.mutObj(it.obj).v = &cp
		return fin()
	}
	pick := 0
	if len(cand) > 1 && ex.cfg.MapOrder {
		pick = c.choose(len(cand), "maporder")
	}
	k := iv.todo[cand[pick]]
	cp := *iv
	cp.todo = nil
	for j, i := range cand {
		if j != pick {
			cp.todo = append(cp.todo, iv.todo[i])
		}
	}
	st.mutObj(it.obj).v = &cp
	return TupleV{T.True, k, vals[pick]}
}

// sameVal: syntactic identity of values
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case Str:
		y, ok := b.(Str)
		if !ok || len(x.sym) != len(y.sym) || x.s != y.s || x.blob != y.blob {
			return false
		}
		for i := range x.sym {
			if x.sym[i] != y.sym[i] {
				return false
			}
		}
		return true
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case ArrV:
		y, ok := b.(ArrV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		if x.t == nil {
			return true
		}
		return types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	case *Closure, Slice, TupleV, Poison:
		return false
	}
	return a == b
}

// ---- equality

func (ex *Exec) equal(c *Ctx, a, b Value) *Term {
	T := ex.T
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.sort.isFP() {
			return T.FCmp(OFEq, x, y)
		}
		return T.Eq(x, y)
	case Str:
		return ex.strEq(c, x, b.(Str))
	case Ptr:
		y := b.(Ptr)
		return T.Bool(x == y)
	case MapRef:
		return T.Bool(x == b.(MapRef))
	case ChanRef:
		return T.Bool(x == b.(ChanRef))
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return T.Bool(x == y)
		}
		unsupported("func comparison")
	case Slice:
		y := b.(Slice)
		if x.arr.obj == 0 && x.blob == nil || y.arr.obj == 0 && y.blob == nil {
			return T.Bool((x.arr.obj == 0 && x.blob == nil) == (y.arr.obj == 0 && y.blob == nil))
		}
		unsupported("slice comparison")
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsupported("iface vs %T", b)
		}
		if x.t == nil || y.t == nil {
			return T.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return T.False
		}
		if !types.Comparable(x.t) {
			ex.goPanicf(c, "comparing uncomparable type %v", x.t)
		}
		return ex.equal(c, x.v, y.v)
	case StructV:
		y := b.(StructV)
		r := T.True
		for i := range x {
			r = T.And(r, ex.equal(c, x[i], y[i]))
		}
		return r
	case ArrV:
		y := b.(ArrV)
		r := T.True
		for i := range x {
			r = T.And(r, ex.equal(c, x[i], y[i]))
		}
		return r
	case *MutexV, *WGV:
		return T.True
	case *ssa.Builtin:
		return T.Bool(a == b)
	}
	unsupported("equality of %T", a)
	return nil
}

func (ex *Exec) strEq(c *Ctx, a, b Str) *Term {
	T := ex.T
	if a.blob != nil || b.blob != nil {
		return ex.blobEq(c, a, b)
	}
	if a.length() != b.length() {
		return T.False
	}
	if a.sym == nil && b.sym == nil {
		return T.Bool(a.s == b.s)
	}
	r := T.True
	for i := 0; i < a.length(); i++ {
		r = T.And(r, T.Eq(ex.strByte(a, i), ex.strByte(b, i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// ---- operators

func (ex *Exec) binop(c *Ctx, op token.Token, a, b Value, ta, tb types.Type) Value {
	T := ex.T
	switch op {
	case token.EQL:
		return ex.equal2(c, a, b, ta, tb)
	case token.NEQ:
		return T.Not(ex.equal2(c, a, b, ta, tb))
	}
	if sa, ok := a.(Str); ok {
		sb := b.(Str)
		switch op {
		case token.ADD:
			return ex.strCat(sa, sb)
		case token.LSS:
			return ex.strLess(sa, sb)
		case token.GTR:
			return ex.strLess(sb, sa)
		case token.LEQ:
			return T.Not(ex.strLess(sb, sa))
		case token.GEQ:
			return T.Not(ex.strLess(sa, sb))
		}
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsupported("binop %v on %T,%T", op, a, b)
	}
	if x.sort.isFP() {
		switch op {
		case token.ADD:
			return T.FBin(OFAdd, x, y)
		case token.SUB:
			return T.FBin(OFSub, x, y)
		case token.MUL:
			return T.FBin(OFMul, x, y)
		case token.QUO:
			return T.FBin(OFDiv, x, y)
		case token.LSS:
			return T.FCmp(OFLt, x, y)
		case token.LEQ:
			return T.FCmp(OFLe, x, y)
		case token.GTR:
			return T.FCmp(OFLt, y, x)
		case token.GEQ:
			return T.FCmp(OFLe, y, x)
		}
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return T.And(x, y)
		case token.OR, token.LOR:
			return T.Or(x, y)
		}
		unsupported("bool binop %v", op)
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return T.Add(x, y)
	case token.SUB:
		return T.Sub(x, y)
	case token.MUL:
		return T.Mul(x, y)
	case token.QUO, token.REM:
		if c.decide(T.Eq(y, T.Const(y.sort, 0))) {
			ex.goPanicf(c, "integer divide by zero")
		}
		if op == token.QUO {
			if sg {
				return T.bin(OSDiv, x, y)
			}
			return T.bin(OUDiv, x, y)
		}
		if sg {
			return T.bin(OSRem, x, y)
		}
		return T.bin(OURem, x, y)
	case token.AND:
		return T.BAnd(x, y)
	case token.OR:
		return T.BOr(x, y)
	case token.XOR:
		return T.BXor(x, y)
	case token.AND_NOT:
		return T.BAnd(x, T.BNot(y))
	case token.SHL, token.SHR:
		sy := isSigned(tb)
		if sy && c.decide(T.Slt(y, T.Const(y.sort, 0))) {
			ex.goPanicf(c, "negative shift amount")
		}
		w := int(x.sort)
		var yy *Term
		if int(y.sort) > w {
			// saturate
			big := T.Ule(T.Const(y.sort, uint64(w)), y)
			yy = T.Ite(big, T.Const(x.sort, uint64(w)), T.Resize(y, w, false))
			if w < 8 {
				unsupported("narrow shift")
			}
		} else {
			yy = T.Resize(y, w, false)
		}
		if op == token.SHL {
			return T.Shift(OShl, x, yy)
		}
		if sg {
			return T.Shift(OAshr, x, yy)
		}
		return T.Shift(OLshr, x, yy)
	case token.LSS:
		if sg {
			return T.Slt(x, y)
		}
		return T.Ult(x, y)
	case token.LEQ:
		if sg {
			return T.Sle(x, y)
		}
		return T.Ule(x, y)
	case token.GTR:
		if sg {
			return T.Slt(y, x)
		}
		return T.Ult(y, x)
	case token.GEQ:
		if sg {
			return T.Sle(y, x)
		}
		return T.Ule(y, x)
	}
	unsupported("binop %v", op)
	return nil
}

// equal2 handles interface/concrete mixes.
func (ex *Exec) equal2(c *Ctx, a, b Value, ta, tb types.Type) *Term {
	_, ia := under(ta).(*types.Interface)
	_, ib := under(tb).(*types.Interface)
	if ia && !ib {
		b = Iface{t: tb, v: b}
	} else if ib && !ia {
		a = Iface{t: ta, v: a}
	}
	return ex.equal(c, a, b)
}

func (ex *Exec) strLess(a, b Str) *Term {
	T := ex.T
	if a.concrete() && b.concrete() {
		return T.Bool(a.s < b.s)
	}
	// lexicographic from the end
	n := min(a.length(), b.length())
	r := T.Bool(a.length() < b.length())
	for i := n - 1; i >= 0; i-- {
		x, y := ex.strByte(a, i), ex.strByte(b, i)
		r = T.Or(T.Ult(x, y), T.And(T.Eq(x, y), r))
	}
	return r
}

func (ex *Exec) convert(c *Ctx, v Value, from, to types.Type) Value {
	T := ex.T
	fu, tu := under(from), under(to)
	switch t := tu.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			if tm, ok := v.(*Term); ok {
				if tm.isConst() && tm.c == 0 {
					return Ptr{}
				}
				unsupported("uintptr to pointer")
			}
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				if x.blob != nil {
					return Str{blob: x.blob}
				}
				es := ex.sliceElems(c.st, x)
				if el, ok := under(fu.(*types.Slice).Elem()).(*types.Basic); ok && el.Kind() == types.Int32 {
					var bs []*Term
					for _, e := range es {
						bs = append(bs, ex.encodeRune(c, e.(*Term))...)
					}
					return mkStr(bs)
				}
				bs := make([]*Term, len(es))
				for i := range es {
					bs[i] = es[i].(*Term)
				}
				return mkStr(bs)
			case *Term:
				return mkStr(ex.encodeRune(c, T.Resize(x, 32, isSigned(from))))
			}
		}
		ts, ok := basicSort(t)
		if !ok {
			unsupported("convert to %v", to)
		}
		x, isT := v.(*Term)
		if !isT {
			if p, ok := v.(Ptr); ok && t.Kind() == types.Uintptr {
				// only ever used for hashing / alignment; give object identity
				return T.Const(64, uint64(p.obj)<<20)
			}
			unsupported("convert %T to %v", v, to)
		}
		switch {
		case x.sort.isFP() && ts.isFP():
			return T.FToF(x, ts)
		case x.sort.isFP():
			return T.FToInt(x, int(ts), isSigned(to))
		case ts.isFP():
			return T.IntToF(x, ts, isSigned(from))
		default:
			return T.Resize(x, int(ts), isSigned(from))
		}
	case *types.Slice:
		if s, ok := v.(Str); ok {
			el := under(t.Elem()).(*types.Basic)
			if el.Kind() == types.Int32 {
				if s.blob != nil {
					ex.materialize(&s)
				}
				var rs []*Term
				for i := 0; i < s.length(); {
					r, w := ex.decodeRune(c, s, i)
					rs = append(rs, r.(*Term))
					i += w
				}
				return ex.bytesSlice(c.st, rs)
			}
			if s.blob != nil {
				return Slice{blob: s.blob}
			}
			if s.length() == 0 {
				return ex.mkSlice(c.st, t.Elem(), 0, 0)
			}
			return ex.bytesSlice(c.st, ex.strBytes(s))
		}
		return v
	case *types.Pointer:
		return v
	case *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array, *types.Interface:
		return v
	}
	unsupported("convert %v -> %v", from, to)
	return nil
}

// decodeRune decodes one rune of s at i, forking on the byte classes.
func (ex *Exec) decodeRune(c *Ctx, s Str, i int) (Value, int) {
	T := ex.T
	b0 := ex.strByte(s, i)
	k := func(v uint64) *Term { return T.Const(8, v) }
	if c.decide(T.Ult(b0, k(0x80))) {
		return T.Resize(b0, 32, false), 1
	}
	rerr := T.Const(32, 0xFFFD)
	n := s.length()
	cont := func(j int) bool {
		if j >= n {
			return false
		}
		b := ex.strByte(s, j)
		return c.decide(T.And(T.Ule(k(0x80), b), T.Ule(b, k(0xBF))))
	}
	ext := func(b *Term, m uint64) *Term { return T.Resize(T.BAnd(b, k(m)), 32, false) }
	sh := func(t *Term, n uint64) *Term { return T.Shift(OShl, t, T.Const(32, n)) }
	if !c.decide(T.Ule(k(0xC2), b0)) || !c.decide(T.Ule(b0, k(0xF4))) {
		return rerr, 1
	}
	if c.decide(T.Ult(b0, k(0xE0))) {
		if !cont(i + 1) {
			return rerr, 1
		}
		return T.BOr(sh(ext(b0, 0x1F), 6), ext(ex.strByte(s, i+1), 0x3F)), 2
	}
	if c.decide(T.Ult(b0, k(0xF0))) {
		if !cont(i + 1) {
			return rerr, 1
		}
		b1 := ex.strByte(s, i+1)
		bad := T.Or(T.And(T.Eq(b0, k(0xE0)), T.Ult(b1, k(0xA0))), T.And(T.Eq(b0, k(0xED)), T.Ult(k(0x9F), b1)))
		if c.decide(bad) || !cont(i+2) {
			return rerr, 1
		}
		return T.BOr(T.BOr(sh(ext(b0, 0x0F), 12), sh(ext(b1, 0x3F), 6)), ext(ex.strByte(s, i+2), 0x3F)), 3
	}
	if !cont(i + 1) {
		return rerr, 1
	}
	b1 := ex.strByte(s, i+1)
	bad := T.Or(T.And(T.Eq(b0, k(0xF0)), T.Ult(b1, k(0x90))), T.And(T.Eq(b0, k(0xF4)), T.Ult(k(0x8F), b1)))
	if c.decide(bad) || !cont(i+2) || !cont(i+3) {
		return rerr, 1
	}
	return T.BOr(T.BOr(sh(ext(b0, 0x07), 18), sh(ext(b1, 0x3F), 12)), T.BOr(sh(ext(ex.strByte(s, i+2), 0x3F), 6), ext(ex.strByte(s, i+3), 0x3F))), 4
}

func (ex *Exec) encodeRune(c *Ctx, r *Term) []*Term {
	T := ex.T
	if r.isConst() {
		s := string(rune(r.sval()))
		var o []*Term
		for i := 0; i < len(s); i++ {
			o = append(o, T.Const(8, uint64(s[i])))
		}
		return o
	}
	k := func(v uint64) *Term { return T.Const(32, v) }
	lo := func(t *Term) *Term { return T.Resize(t, 8, false) }
	shr := func(t *Term, n uint64) *Term { return T.Shift(OLshr, t, k(n)) }
	or8 := func(t *Term, v uint64) *Term { return T.BOr(lo(t), T.Const(8, v)) }
	if c.decide(T.Ult(r, k(0x80))) {
		return []*Term{lo(r)}
	}
	if c.decide(T.Ult(r, k(0x800))) {
		return []*Term{or8(shr(r, 6), 0xC0), T.BOr(T.BAnd(lo(r), T.Const(8, 0x3F)), T.Const(8, 0x80))}
	}
	bad := T.Or(T.Ult(k(0x10FFFF), r), T.And(T.Ule(k(0xD800), r), T.Ule(r, k(0xDFFF))))
	if c.decide(bad) {
		return []*Term{T.Const(8, 0xEF), T.Const(8, 0xBF), T.Const(8, 0xBD)}
	}
	m := func(t *Term) *Term { return T.BOr(T.BAnd(lo(t), T.Const(8, 0x3F)), T.Const(8, 0x80)) }
	if c.decide(T.Ult(r, k(0x10000))) {
		return []*Term{or8(shr(r, 12), 0xE0), m(shr(r, 6)), m(r)}
	}
	return []*Term{or8(shr(r, 18), 0xF0), m(shr(r, 12)), m(shr(r, 6)), m(r)}
}

// ---- type assertions

func (ex *Exec) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (ex *Exec) typeAssert(c *Ctx, in *ssa.TypeAssert) Value {
	T := ex.T
	x := ex.get(c.fr, in.X)
	i, isI := x.(Iface)
	if !isI {
		unsupported("type assert on %T", x)
	}
	ok := false
	var v Value
	if it, isIf := under(in.AssertedType).(*types.Interface); isIf {
		if i.t != nil && ex.implements(i.t, it) {
			ok = true
			v = i
		}
	} else if i.t != nil && types.Identical(i.t, in.AssertedType) {
		ok = true
		v = i.v
	}
	if in.CommaOk {
		if !ok {
			v = ex.zero(in.AssertedType)
		}
		return TupleV{v, T.Bool(ok)}
	}
	if !ok {
		ex.goPanicf(c, "interface conversion: interface is %v, not %v", i.t, in.AssertedType)
	}
	return v
}

type ssaInstr = ssa.Instruction
