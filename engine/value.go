package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Ptr, Slice, Str, StructV, ArrV, Iface, *Closure, MapRef, ChanRef, TupleV,
// IterRef, Poison, and the sync cells (*MutexV, *WGV, *TimerV ...).
type Value interface{}

type Ptr struct {
	obj  int32
	path string // two bytes per component
}

type Slice struct {
	arr           Ptr
	off, len, cap int
	blob          *Blob
}

type Str struct {
	s    string
	sym  []*Term // if non-nil, symbolic bytes
	blob *Blob
}

type StructV []Value
type ArrV []Value
type TupleV []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	intr string // intrinsic closure, by name
}

type MapRef struct{ obj int32 }
type ChanRef struct{ obj int32 }
type IterRef struct{ obj int32 }
type Poison struct{ why string }

// heap cell contents
type MapEnt struct{ k, v Value }
type MapV struct {
	ents []MapEnt
}
type Waiter struct {
	th   int // thread
	val  Value
	vc   VC
	sel  int // select case index or -1
}
type BufEl struct {
	v  Value
	vc VC
}
type ChanV struct {
	cap    int
	buf    []BufEl
	closed bool
	recvq  []Waiter
	sendq  []Waiter
	vc     VC
}
type IterV struct {
	isStr   bool
	str     Str
	pos     int
	m       MapRef
	todo    []Value // keys not yet visited (snapshot)
	started bool
}

type MutexV struct {
	w       bool // write-locked
	owner   int
	r       int // readers
	ww      int // waiting writers
	vc      VC
}
type WGV struct {
	n  int
	vc VC
}
type AtomicAnyV struct {
	v  Value
	vc VC
}

type Blob struct {
	kind string // json, msgpack, jwt, fmt
	n    *JNode
	key  string // canonical text used for identity when fully concrete
	id   int
	lenT *Term
}

func pathOf(p string) []int {
	var r []int
	for i := 0; i+1 < len(p); i += 2 {
		r = append(r, int(p[i])<<8|int(p[i+1]))
	}
	return r
}
func (p Ptr) field(i int) Ptr {
	if i > 65535 || i < 0 {
		unsupported("index too large in path")
	}
	return Ptr{p.obj, p.path + string([]byte{byte(i >> 8), byte(i)})}
}

type unsupportedErr struct{ why string }

func unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}

// ---- heap

type Gen struct{ _ int }

type Obj struct {
	gen    *Gen
	v      Value
	shared bool
	site   string
	acc    map[string]*Acc
	svc    map[string]VC // vector clocks carried by sync operations, per path
}

const chunkBits = 6
const chunkSize = 1 << chunkBits

type chunk struct {
	gen *Gen
	o   [chunkSize]*Obj
}

type Heap struct {
	gen    *Gen // owner of the chunks slice
	chunks []*chunk
	n      int32
}

// ---- threads

type DeferRec struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	pos  ssa.Instruction
}

type Frame struct {
	gen        *Gen
	fi         *FnInfo
	regs       []Value
	block      int
	prev       int
	ip         int
	free       []Value
	defers     []DeferRec
	panicking  bool
	panicVal   Value
	panicPos   string
	recovered  bool
	rundefer   bool // recovered: run the remaining defers, then the recover block
	isDefer    bool // this frame is a deferred call
	retReg     int  // register in the caller
	callAdv    bool // advance caller ip on return
	onRet      func(ex *Exec, st *State, th *Thread, rets Value)
	dec        []int
	iters      int
	nsym       int // symbolic branches taken in this frame
}

type ThStatus int

const (
	TRun ThStatus = iota
	TBlocked // waiting on a predicate (re-evaluated)
	TParked  // waiting to be completed by a counterpart
	TDone
)

type Thread struct {
	gen     *Gen
	id      int
	name    string
	nchild  int
	frames  []*Frame
	status  ThStatus
	block   blockReason
	granted bool // may execute its visible operation
	vis     bool // the instruction being executed is a visible operation
	dec     []int
	decPos  int
	wake    Value // value handed over by a counterpart
	vc      VC
	system  bool
	waitSel []int
}

type blockReason struct {
	kind string // mutex, rmutex, wg, sleep, cond, chan
	p    Ptr
	obj  int32
	deadline int64
}

type VC []int32

func (v VC) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v VC) join(o VC) VC {
	le := true
	for i, x := range o {
		if x > v.get(i) {
			le = false
			break
		}
	}
	if le {
		return v
	}
	n := make(VC, max(len(v), len(o)))
	copy(n, v)
	for i, x := range o {
		if x > n[i] {
			n[i] = x
		}
	}
	return n
}
func (v VC) inc(i int) VC {
	n := make(VC, max(len(v), i+1))
	copy(n, v)
	n[i]++
	return n
}

type TimerEnt struct {
	id     int
	when   int64
	period int64
	ptr    Ptr // *time.Timer / *time.Ticker object
	f      Value
	arg    Value
	ch     ChanRef
	sleepTh int // thread to wake (sleep), or -1
	vc     VC
}

type TraceEv struct {
	th   string
	what string
	in   ssa.Instruction
}

type traceNode struct {
	prev *traceNode
	ev   TraceEv
	n    int
}

type pcNode struct {
	prev *pcNode
	t    *Term
	n    int
	sched bool
}

type State struct {
	gen     *Gen
	heap    Heap
	globals map[*ssa.Global]int32 // shared across states unless copied
	globGen *Gen
	threads []*Thread
	cur     int
	pc      *pcNode
	trace   *traceNode
	preempt int
	now     int64
	timers  []TimerEnt
	timerN  int
	tfires  int
	labels  map[string]int
	labGen  *Gen
	inputs  *inputNode
	steps   int
	depth   int
	atomicDepth int
	obs     *obsNode
	reach   map[string]bool
	nchoice int
	blobN   int
	fresh   int
	visOps  int
	nondet  bool // a map order or select choice was made
	schedDec []int // decisions for the current scheduling point
	uuidN   int
	events  *obsNode
	oblig   int
	switches int
	faults  int
	nsched  int
	asyncFired int
	tspawn  int
	spin    spinState
}

// spinState detects a thread that runs in a cycle without changing anything.
type spinState struct {
	run     int       // visible operations of the current thread since it was switched to
	ckRun   int       // checkpoint: run number, code position and state hash
	ckFn    *FnInfo
	ckBlock int
	ckIP    int
	ckHash  [2]uint64
	unfair  bool   // a select chose among several ready cases since the checkpoint
	flags   uint64 // threads found spinning
	free    bool   // the next switch costs no preemption
}

type inputNode struct {
	prev *inputNode
	name string
	kind string
	t    []*Term
	str  bool
}

type obsNode struct {
	prev  *obsNode
	label string
	v     Value
	typ   types.Type
}

func newGen() *Gen { return &Gen{} }

// clone makes an independent copy; both the original and the copy get new generations.
func (st *State) clone() *State {
	st.gen = newGen()
	n := *st
	n.gen = newGen()
	n.threads = append([]*Thread(nil), st.threads...)
	n.timers = append([]TimerEnt(nil), st.timers...)
	n.schedDec = append([]int(nil), st.schedDec...)
	return &n
}

func (st *State) mutThread(i int) *Thread {
	t := st.threads[i]
	if t.gen != st.gen {
		c := *t
		c.gen = st.gen
		c.frames = append([]*Frame(nil), t.frames...)
		c.dec = append([]int(nil), t.dec...)
		st.threads[i] = &c
		t = &c
	}
	return t
}

func (st *State) mutFrame(t *Thread, i int) *Frame {
	f := t.frames[i]
	if f.gen != st.gen {
		c := *f
		c.gen = st.gen
		c.regs = append([]Value(nil), f.regs...)
		c.defers = append([]DeferRec(nil), f.defers...)
		t.frames[i] = &c
		f = &c
	}
	return f
}

func (st *State) obj(id int32) *Obj {
	if id <= 0 || id > st.heap.n {
		panic(fmt.Sprintf("bad object id %d", id))
	}
	return st.heap.chunks[id>>chunkBits].o[id&(chunkSize-1)]
}

func (st *State) mutObj(id int32) *Obj {
	h := &st.heap
	if h.gen != st.gen {
		h.chunks = append([]*chunk(nil), h.chunks...)
		h.gen = st.gen
	}
	c := h.chunks[id>>chunkBits]
	if c.gen != st.gen {
		nc := *c
		nc.gen = st.gen
		h.chunks[id>>chunkBits] = &nc
		c = &nc
	}
	o := c.o[id&(chunkSize-1)]
	if o.gen != st.gen {
		no := *o
		no.gen = st.gen
		if a, ok := o.v.(ArrV); ok {
			no.v = append(ArrV(nil), a...)
		}
		if o.acc != nil {
			no.acc = make(map[string]*Acc, len(o.acc))
			for k, v := range o.acc {
				no.acc[k] = v
			}
		}
		c.o[id&(chunkSize-1)] = &no
		o = &no
	}
	return o
}

func (st *State) alloc(v Value, site string) int32 {
	h := &st.heap
	if h.n == 0 {
		h.n = 0
	}
	id := h.n + 1
	h.n = id
	if h.gen != st.gen {
		h.chunks = append([]*chunk(nil), h.chunks...)
		h.gen = st.gen
	}
	ci := int(id >> chunkBits)
	for len(h.chunks) <= ci {
		h.chunks = append(h.chunks, &chunk{gen: st.gen})
	}
	c := h.chunks[ci]
	if c.gen != st.gen {
		nc := *c
		nc.gen = st.gen
		h.chunks[ci] = &nc
		c = &nc
	}
	c.o[id&(chunkSize-1)] = &Obj{gen: st.gen, v: v, site: site}
	return id
}

func getPath(v Value, path string) Value {
	for i := 0; i+1 < len(path); i += 2 {
		k := int(path[i])<<8 | int(path[i+1])
		switch x := v.(type) {
		case StructV:
			v = x[k]
		case ArrV:
			if k >= len(x) {
				unsupported("path index beyond array")
			}
			v = x[k]
		case Poison:
			unsupported("poisoned value: %s", x.why)
		default:
			unsupported("getPath into %T", v)
		}
	}
	return v
}

func setPath(v Value, path string, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	k := int(path[0])<<8 | int(path[1])
	switch x := v.(type) {
	case StructV:
		c := append(StructV(nil), x...)
		c[k] = setPath(x[k], path[2:], nv)
		return c
	case ArrV:
		c := append(ArrV(nil), x...)
		c[k] = setPath(x[k], path[2:], nv)
		return c
	}
	unsupported("setPath into %T", v)
	return nil
}

func (st *State) load(p Ptr) Value {
	o := st.obj(p.obj)
	v := getPath(o.v, p.path)
	if a, ok := v.(ArrV); ok && p.path == "" {
		return append(ArrV(nil), a...)
	}
	if ps, ok := v.(Poison); ok {
		unsupported("poisoned value: %s", ps.why)
	}
	return v
}

func (st *State) store(p Ptr, v Value) {
	o := st.mutObj(p.obj)
	if a, ok := v.(ArrV); ok && p.path == "" {
		o.v = append(ArrV(nil), a...)
		if o.shared {
			st.share(v)
		}
		return
	}
	if a, ok := o.v.(ArrV); ok && len(p.path) >= 2 {
		k := int(p.path[0])<<8 | int(p.path[1])
		if k >= len(a) {
			unsupported("store beyond array")
		}
		a[k] = setPath(a[k], p.path[2:], v)
	} else {
		o.v = setPath(o.v, p.path, v)
	}
	if o.shared {
		st.share(v)
	}
}

// share marks everything reachable from v as reachable by several threads.
func (st *State) share(v Value) {
	switch x := v.(type) {
	case Ptr:
		st.shareObj(x.obj)
	case Slice:
		st.shareObj(x.arr.obj)
	case MapRef:
		st.shareObj(x.obj)
	case ChanRef:
		st.shareObj(x.obj)
	case IterRef:
		st.shareObj(x.obj)
	case StructV:
		for _, e := range x {
			st.share(e)
		}
	case ArrV:
		for _, e := range x {
			if _, ok := e.(*Term); ok {
				continue
			}
			st.share(e)
		}
	case TupleV:
		for _, e := range x {
			st.share(e)
		}
	case Iface:
		st.share(x.v)
	case *Closure:
		if x != nil {
			for _, e := range x.bind {
				st.share(e)
			}
		}
	case *MapV:
		for _, e := range x.ents {
			st.share(e.k)
			st.share(e.v)
		}
	case *ChanV:
		for _, e := range x.buf {
			st.share(e.v)
		}
		for _, w := range x.sendq {
			st.share(w.val)
		}
	case *AtomicAnyV:
		st.share(x.v)
	case *IterV:
		st.share(x.m)
		for _, k := range x.todo {
			st.share(k)
		}
	}
}

func (st *State) shareObj(id int32) {
	if id == 0 {
		return
	}
	o := st.obj(id)
	if o.shared {
		return
	}
	o = st.mutObj(id)
	o.shared = true
	st.share(o.v)
}

func (st *State) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{prev: st.pc, t: t, n: n}
}
func (st *State) addSched(t *Term) {
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{prev: st.pc, t: t, n: n, sched: true}
}
func (st *State) pcList() []*Term {
	var r []*Term
	for p := st.pc; p != nil; p = p.prev {
		r = append(r, p.t)
	}
	return r
}
func (st *State) pcData() []*Term {
	var r []*Term
	for p := st.pc; p != nil; p = p.prev {
		if !p.sched {
			r = append(r, p.t)
		}
	}
	return r
}

func (st *State) tr(th, what string, in ssa.Instruction) {
	n := 1
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &traceNode{st.trace, TraceEv{th, what, in}, n}
}

// ---- strings

func strConst(s string) Str { return Str{s: s} }
func (s Str) length() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}
func (s Str) concrete() bool { return s.sym == nil && s.blob == nil }
func (ex *Exec) strByte(s Str, i int) *Term {
	if s.blob != nil {
		ex.materialize(&s)
	}
	if s.sym != nil {
		return s.sym[i]
	}
	return ex.T.Const(8, uint64(s.s[i]))
}
func (ex *Exec) strBytes(s Str) []*Term {
	if s.blob != nil {
		ex.materialize(&s)
	}
	if s.sym != nil {
		return s.sym
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = ex.T.Const(8, uint64(s.s[i]))
	}
	return r
}
func mkStr(b []*Term) Str {
	all := true
	for _, t := range b {
		if !t.isConst() {
			all = false
			break
		}
	}
	if all {
		x := make([]byte, len(b))
		for i, t := range b {
			x[i] = byte(t.c)
		}
		return Str{s: string(x)}
	}
	return Str{sym: b}
}
func (ex *Exec) strCat(a, b Str) Str {
	if a.blob == nil && a.sym == nil && a.s == "" {
		return b
	}
	if b.blob == nil && b.sym == nil && b.s == "" {
		return a
	}
	if a.blob != nil || b.blob != nil {
		return Str{blob: ex.newBlob("fmt", catNode(strNode(a), strNode(b)))}
	}
	if a.sym == nil && b.sym == nil {
		return Str{s: a.s + b.s}
	}
	x := append([]*Term(nil), ex.strBytes(a)...)
	return mkStr(append(x, ex.strBytes(b)...))
}

func (s Str) show() string {
	if s.blob != nil {
		return "<" + s.blob.kind + ">"
	}
	if s.sym != nil {
		var b strings.Builder
		for _, t := range s.sym {
			if t.isConst() {
				b.WriteByte(byte(t.c))
			} else {
				b.WriteByte('?')
			}
		}
		return b.String()
	}
	return s.s
}
