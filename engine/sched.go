package main

import (
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- races

type accOne struct {
	th    int
	clk   int32
	in    ssa.Instruction
}
type Acc struct {
	w     accOne
	hasW  bool
	reads []accOne
}
type RaceInfo struct {
	A, B  string
	isMap bool
}

// access records a memory access by user code and detects races (vector clocks).
func (ex *Exec) access(c *Ctx, p Ptr, write bool) {
	st := c.st
	if len(st.threads) < 2 || ex.initMode || !c.fr.fi.user || st.atomicDepth > 0 {
		return
	}
	o := st.obj(p.obj)
	if !o.shared {
		return
	}
	th := c.th
	key := p.path
	_, isMap := o.v.(*MapV)
	me := accOne{th.id, th.vc.get(th.id), c.in}
	o = st.mutObj(p.obj)
	if o.acc == nil {
		o.acc = map[string]*Acc{}
	}
	a := o.acc[key]
	n := &Acc{}
	if a != nil {
		*n = *a
		n.reads = append([]accOne(nil), a.reads...)
	}
	race := func(x accOne) {
		if x.th == th.id || th.vc.get(x.th) >= x.clk {
			return
		}
		ex.noteRace(c, x.in, c.in, isMap)
	}
	if n.hasW {
		race(n.w)
	}
	for k, e := range o.acc {
		// an access to a whole value and one to a part of it
		if len(k) == len(key) || !(strings.HasPrefix(k, key) || strings.HasPrefix(key, k)) {
			continue
		}
		if e.hasW {
			race(e.w)
		}
		if write {
			for _, r := range e.reads {
				race(r)
			}
		}
	}
	if write {
		for _, r := range n.reads {
			race(r)
		}
		n.w, n.hasW = me, true
		n.reads = nil
	} else {
		done := false
		for i := range n.reads {
			if n.reads[i].th == th.id {
				n.reads[i] = me
				done = true
			}
		}
		if !done {
			n.reads = append(n.reads, me)
		}
	}
	o.acc[key] = n
}

func (ex *Exec) noteRace(c *Ctx, a, b ssa.Instruction, isMap bool) {
	if !ex.racy[a] {
		ex.newRacy[a] = true
	}
	if !ex.racy[b] {
		ex.newRacy[b] = true
	}
	pa, pb := ex.posOf(a, nil), ex.posOf(b, nil)
	if pa > pb {
		pa, pb = pb, pa
	}
	k := pa + "|" + pb
	if ex.raceSeen[k] == nil {
		ex.raceSeen[k] = &RaceInfo{pa, pb, isMap}
	}
	if isMap && ex.cfg.Races {
		ex.report(c.st, "race", "concurrent map access between "+pa+" and "+pb, pb, nil)
	}
}

func (st *State) acquire(th *Thread, p Ptr) {
	o := st.obj(p.obj)
	if v, ok := o.svc[p.path]; ok {
		th.vc = th.vc.join(v)
	}
}
func (st *State) release(th *Thread, p Ptr) {
	if len(st.threads) < 2 {
		// still needed: a later thread inherits the creator's clock, so nothing is lost
		return
	}
	o := st.mutObj(p.obj)
	n := make(map[string]VC, len(o.svc)+1)
	for k, v := range o.svc {
		n[k] = v
	}
	n[p.path] = n[p.path].join(th.vc)
	o.svc = n
	th.vc = th.vc.inc(th.id)
}

// ---- visibility

var syncPkgs = map[string]bool{"sync": true, "sync/atomic": true, "context": true, "golang.org/x/sync/errgroup": true, "time": true,
	"internal/sync": true, modPath + "/verifsym": true}

var quietCalls = map[string]bool{"Unlock": true, "RUnlock": true, "Value": true, "Deadline": true, "Done": true}

func (ex *Exec) isVisible(st *State, th *Thread, fr *Frame, in ssa.Instruction) bool {
	if !fr.fi.user {
		return false
	}
	get := func(v ssa.Value) Value {
		if i, ok := fr.fi.idx[v]; ok {
			return fr.regs[i]
		}
		switch v.(type) {
		case *ssa.FreeVar:
			return ex.get(fr, v)
		case *ssa.Global:
			return ex.get(fr, v)
		}
		return nil
	}
	shared := func(v ssa.Value) bool { return ex.sharedVal(st, get(v)) }
	switch x := in.(type) {
	case *ssa.Send:
		return shared(x.Chan)
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return shared(x.X)
		}
		if x.Op == token.MUL && ex.racy[in] {
			return shared(x.X)
		}
	case *ssa.Store:
		if ex.racy[in] {
			return shared(x.Addr)
		}
	case *ssa.MapUpdate, *ssa.Lookup, *ssa.Next, *ssa.Range:
		return ex.racy[in]
	case *ssa.Select:
		for _, s := range x.States {
			if shared(s.Chan) {
				return true
			}
		}
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			return ex.visibleCall(st, d.call, func(v ssa.Value) Value {
				if v == d.call.Value {
					return d.fn
				}
				for i, a := range d.call.Args {
					if a == v {
						return d.args[i]
					}
				}
				return nil
			})
		}
	case *ssa.Call:
		if racyBuiltin(&x.Call) && ex.racy[in] {
			return true
		}
		return ex.visibleCall(st, &x.Call, get)
	}
	return false
}

func racyBuiltin(cc *ssa.CallCommon) bool {
	b, ok := cc.Value.(*ssa.Builtin)
	return ok && (b.Name() == "len" || b.Name() == "delete" || b.Name() == "append" || b.Name() == "copy" || b.Name() == "clear")
}

func (ex *Exec) visibleCall(st *State, cc *ssa.CallCommon, get func(ssa.Value) Value) bool {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "close" {
			return ex.sharedVal(st, get(cc.Args[0]))
		}
		return false
	}
	var fn *ssa.Function
	if cc.IsInvoke() {
		i, ok := get(cc.Value).(Iface)
		if !ok || i.t == nil {
			return false
		}
		n, ok := derefNamed(i.t)
		if !ok || n.Obj().Pkg() == nil || !syncPkgs[n.Obj().Pkg().Path()] {
			return false
		}
		if quietCalls[cc.Method.Name()] {
			return false
		}
		return ex.sharedVal(st, i.v)
	}
	fn = cc.StaticCallee()
	if fn == nil {
		cl, ok := get(cc.Value).(*Closure)
		if !ok || cl == nil || cl.fn == nil {
			return false
		}
		fn = cl.fn
		if syncPkgs[fnPkgPath(fn)] {
			for _, b := range cl.bind {
				if ex.sharedVal(st, b) {
					return true
				}
			}
		}
	}
	if !syncPkgs[fnPkgPath(fn)] {
		return false
	}
	if fn.Name() == "Yield" && fnPkgPath(fn) == modPath+"/verifsym" {
		return true
	}
	if fnPkgPath(fn) == modPath+"/verifsym" {
		return false
	}
	if quietCalls[fn.Name()] && !(fn.Name() == "Done" && fn.Signature.Recv() != nil && strings.Contains(fn.Signature.Recv().Type().String(), "WaitGroup")) {
		return false
	}
	for _, a := range cc.Args {
		if ex.sharedVal(st, get(a)) {
			return true
		}
	}
	return false
}

func (ex *Exec) sharedVal(st *State, v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x.obj != 0 && st.obj(x.obj).shared
	case ChanRef:
		return x.obj != 0 && st.obj(x.obj).shared
	case MapRef:
		return x.obj != 0 && st.obj(x.obj).shared
	case Iface:
		return x.t != nil && ex.sharedVal(st, x.v)
	case *Closure:
		if x != nil {
			for _, b := range x.bind {
				if ex.sharedVal(st, b) {
					return true
				}
			}
		}
	}
	return false
}

// ---- scheduling

func (ex *Exec) intAt(st *State, p Ptr) int64 {
	t, ok := getPath(st.obj(p.obj).v, p.path).(*Term)
	if !ok || !t.isConst() {
		unsupported("sync word is not concrete")
	}
	return t.sval()
}

func (ex *Exec) enabled(st *State, th *Thread) bool {
	switch th.status {
	case TRun:
		return true
	case TBlocked:
		switch th.block.kind {
		case "mutex":
			return ex.intAt(st, th.block.p.field(0)) == 0
		case "wlock":
			return ex.intAt(st, th.block.p.field(1)) == 0 && ex.intAt(st, th.block.p.field(2)) == 0
		case "rlock":
			return ex.intAt(st, th.block.p.field(1)) == 0 && !ex.writerWaiting(st, th.block.p)
		case "wg":
			return ex.intAt(st, th.block.p) == 0
		case "sema":
			return ex.intAt(st, th.block.p) > 0
		case "cond":
			return ex.intAt(st, th.block.p) != th.block.deadline
		case "quiesce":
			return false
		}
	}
	return false
}

func (ex *Exec) writerWaiting(st *State, p Ptr) bool {
	for _, t := range st.threads {
		if t.status == TBlocked && t.block.kind == "wlock" && t.block.p == p {
			return true
		}
	}
	return false
}

// atYield: the thread is at a verifsym.Yield; switching there is not a preemption.
func atYield(th *Thread) bool {
	if len(th.frames) == 0 {
		return false
	}
	fr := th.frames[len(th.frames)-1]
	c, ok := fr.fi.fn.Blocks[fr.block].Instrs[fr.ip].(*ssa.Call)
	if !ok {
		return false
	}
	fn := c.Call.StaticCallee()
	return fn != nil && fn.Name() == "Yield" && fnPkgPath(fn) == modPath+"/verifsym"
}

// schedule picks the next thread; every other choice is queued.
func (ex *Exec) schedule(st *State) (pathEnd, bool) {
	cur := st.threads[st.cur]
	var en []int
	for i, t := range st.threads {
		if ex.enabled(st, t) {
			en = append(en, i)
		}
	}
	curOK := ex.enabled(st, cur)
	spinning := false
	if curOK {
		pure, hit := ex.spinCheck(st, cur)
		if hit && st.spin.unfair {
			return pathEnd{"merged", "unfair select"}, true
		}
		if hit {
			if !pure {
				st.spin.flags = 0
			}
			st.spin.flags |= 1 << uint(st.cur&63)
			st.spin.run, st.spin.ckFn = 0, nil
			st.spin.free = true
			curOK = false
			spinning = true
			var rest []int
			for _, i := range en {
				if st.spin.flags>>uint(i&63)&1 == 0 {
					rest = append(rest, i)
				}
			}
			en = rest
		} else if st.spin.free {
			curOK = false
		}
	} else {
		st.spin.flags = 0
	}
	if len(en) == 0 {
		if spinning {
			st.spin.flags = 0
		}
		// a thread waiting for quiescence goes first, then time advances
		for i, t := range st.threads {
			if t.status == TBlocked && t.block.kind == "quiesce" {
				t = st.mutThread(i)
				t.status = TRun
				t.block = blockReason{}
				f := st.mutFrame(t, len(t.frames)-1)
				f.ip++
				st.cur = i
				t.granted = true
				// everything that happened before is ordered before what follows
				for _, o := range st.threads {
					t.vc = t.vc.join(o.vc)
				}
				return pathEnd{}, false
			}
		}
		if len(st.timers) == 0 {
			if !ex.cfg.Deadlock || ex.cfg.NonTermOK && spinning {
				return pathEnd{"done", "stuck"}, true
			}
			desc := ex.stuckDesc(st)
			ex.report(st, "deadlock", "no thread can make progress: "+desc, "", nil)
			return pathEnd{"violation", "deadlock"}, true
		}
		var cand []int
		best := int64(math.MaxInt64)
		for i, t := range st.timers {
			if t.when < best {
				best = t.when
				cand = []int{i}
			} else if t.when == best {
				cand = append(cand, i)
			}
		}
		if ex.dedupe(st, -1) {
			return pathEnd{"merged", ""}, true
		}
		st.tfires++
		lim := ex.cfg.MaxFires
		if lim == 0 {
			lim = 400
		}
		if st.tfires > lim {
			return pathEnd{"inconclusive", "timer firing bound"}, true
		}
		ex.stats.Transitions += len(cand)
		for k := len(cand) - 1; k >= 0; k-- {
			s := st
			if k > 0 {
				s = st.clone()
			}
			if len(cand) > 1 {
				ex.addSchedVar(s, k)
			}
			ex.fire(s, cand[k])
			s.spin.free = spinning
			if k > 0 {
				ex.push(s)
			}
		}
		return pathEnd{}, false
	}
	var opts []int
	if curOK {
		opts = append(opts, st.cur)
		if st.preempt < ex.cfg.Preempt || atYield(cur) {
			for _, i := range en {
				if i != st.cur {
					opts = append(opts, i)
				}
			}
		}
	} else {
		opts = en
		if st.atomicDepth > 0 {
			opts = en[:1] // set-up code: one order of the other goroutines
		}
	}
	var topts []int
	if st.atomicDepth == 0 && ex.cfg.AsyncTimer > st.asyncFired && len(st.timers) > 0 {
		// time may pass before any further step: the earliest timer fires now
		best := int64(math.MaxInt64)
		for _, t := range st.timers {
			if t.when < best {
				best = t.when
			}
		}
		for i, t := range st.timers {
			if t.when == best && t.sleepTh < 0 || t.when == best && ex.cfg.AsyncTimer > 0 {
				topts = append(topts, i)
			}
		}
	}
	st.spin.free = false
	if len(opts)+len(topts) == 1 {
		t := st.mutThread(opts[0])
		t.status = TRun
		t.granted = true
		if st.cur != opts[0] {
			st.switches++
			st.spin.run, st.spin.ckFn = 0, nil
		}
		st.cur = opts[0]
		return pathEnd{}, false
	}
	if ex.dedupe(st, st.cur) {
		return pathEnd{"merged", ""}, true
	}
	st.visOps++
	if ex.cfg.MaxVis > 0 && st.visOps > ex.cfg.MaxVis {
		return pathEnd{"inconclusive", "schedule length bound"}, true
	}
	ex.stats.Transitions += len(opts) + len(topts)
	n := len(opts) + len(topts)
	sv := ex.T.Var(16, fmt.Sprintf("sched_%d", st.nsched))
	st.nsched++
	for k := n - 1; k >= 0; k-- {
		s := st
		if k > 0 {
			s = st.clone()
		}
		s.addSched(ex.T.Eq(sv, ex.T.Const(16, uint64(k))))
		if k < len(opts) {
			i := opts[k]
			if curOK && i != s.cur && !atYield(cur) {
				s.preempt++
			}
			t := s.mutThread(i)
			t.status = TRun
			t.granted = true
			if s.cur != i {
				s.spin.run, s.spin.ckFn = 0, nil
			}
			s.cur = i
			s.switches++
		} else {
			s.asyncFired++
			s.tfires++
			ex.fire(s, topts[k-len(opts)])
		}
		if k > 0 {
			ex.push(s)
		}
	}
	return pathEnd{}, false
}

// spinCheck reports whether the current thread has come back to a state it was in since it was
// last switched to (pure: the cycle covers its whole run).
func (ex *Exec) spinCheck(st *State, th *Thread) (pure, hit bool) {
	sp := &st.spin
	sp.run++
	f := th.frames[len(th.frames)-1]
	set := func() {
		sp.ckRun, sp.ckFn, sp.ckBlock, sp.ckIP, sp.unfair = sp.run, f.fi, f.block, f.ip, false
		sp.ckHash = ex.stateHash(st, st.cur)
	}
	if sp.ckFn == f.fi && sp.ckBlock == f.block && sp.ckIP == f.ip {
		if ex.stateHash(st, st.cur) == sp.ckHash {
			return sp.ckRun == 1, true
		}
	}
	if sp.run == 1 && sp.flags != 0 || sp.run >= 12 && (sp.ckFn == nil || sp.run >= 2*sp.ckRun) {
		set()
	}
	return false, false
}

func (ex *Exec) addSchedVar(s *State, k int) {
	v := ex.T.Var(16, fmt.Sprintf("sched_%d", s.nsched))
	s.nsched++
	s.addSched(ex.T.Eq(v, ex.T.Const(16, uint64(k))))
}

func (ex *Exec) stuckDesc(st *State) string {
	var b []string
	for _, t := range st.threads {
		if t.status == TDone || len(t.frames) == 0 {
			continue
		}
		pos := ""
		for i := len(t.frames) - 1; i >= 0; i-- {
			f := t.frames[i]
			if f.fi.user {
				pos = ex.posOf(f.fi.fn.Blocks[f.block].Instrs[f.ip], f)
				break
			}
		}
		b = append(b, t.name+" at "+pos)
	}
	return strings.Join(b, "; ")
}

// ---- timers

func (ex *Exec) fire(st *State, i int) {
	t := st.timers[i]
	ts := append([]TimerEnt(nil), st.timers...)
	if t.when > st.now {
		st.now = t.when
	}
	if t.period > 0 {
		ts[i].when = t.when + t.period
	} else {
		ts = append(ts[:i], ts[i+1:]...)
	}
	st.timers = ts
	switch {
	case t.sleepTh >= 0:
		th := st.mutThread(t.sleepTh)
		th.status = TRun
		fr := st.mutFrame(th, len(th.frames)-1)
		fr.ip++
	case t.ch.obj != 0:
		ex.tryDeliver(st, t.ch, ex.timeValue(st.now), t.vc)
	case t.f != nil:
		ex.spawn(st, nil, "timer", t.f.(*Closure), nil, t.vc)
	}
}

// ---- thread creation

func (ex *Exec) spawn(st *State, parent *Thread, nm string, cl *Closure, args []Value, vc VC) *Thread {
	name := nm
	if parent != nil {
		parent.nchild++
		name = fmt.Sprintf("%s.%d", parent.name, parent.nchild)
	} else {
		st.tspawn++
		name = fmt.Sprintf("%s%d", nm, st.tspawn)
	}
	id := len(st.threads)
	th := &Thread{gen: st.gen, id: id, name: name}
	th.vc = vc.inc(id)
	for _, a := range args {
		st.share(a)
	}
	for _, b := range cl.bind {
		st.share(b)
	}
	st.threads = append(st.threads, th)
	fi := ex.fnInfo(cl.fn)
	if cl.fn.Blocks == nil {
		unsupported("go statement on external function %s", fi.name)
	}
	ex.noteFn(fi)
	fr := &Frame{gen: st.gen, fi: fi, regs: make([]Value, fi.nregs), free: cl.bind, retReg: -1}
	copy(fr.regs, args)
	th.frames = []*Frame{fr}
	if len(st.threads) > ex.stats.MaxThreads {
		ex.stats.MaxThreads = len(st.threads)
	}
	lim := ex.cfg.MaxThreads
	if lim == 0 {
		lim = 24
	}
	if len(st.threads) > lim {
		panic(pathEnd{"inconclusive", "thread bound"})
	}
	return th
}

// ---- canonical state hash

type hasher struct {
	ex    *Exec
	st    *State
	buf   []byte
	num   map[int32]int
	queue []int32
}

func (h *hasher) u(x uint64) { h.buf = binary.AppendUvarint(h.buf, x) }
func (h *hasher) i(x int64)  { h.buf = binary.AppendVarint(h.buf, x) }
func (h *hasher) s(x string) { h.u(uint64(len(x))); h.buf = append(h.buf, x...) }
func (h *hasher) ref(id int32) {
	if id == 0 {
		h.u(0)
		return
	}
	b := h.ex.base
	if b != nil && id <= b.heap.n && b.obj(id) == h.st.obj(id) {
		h.u(1)
		h.u(uint64(id))
		return
	}
	n, ok := h.num[id]
	if !ok {
		n = len(h.num)
		h.num[id] = n
		h.queue = append(h.queue, id)
	}
	h.u(uint64(n) + 2)
}

func (h *hasher) ty(t types.Type) {
	if t == nil {
		h.u(0)
		return
	}
	h.s(h.ex.typeKey(t))
}

func (ex *Exec) typeKey(t types.Type) string {
	if s, ok := ex.typeKeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	ex.typeKeys[t] = s
	return s
}

func (h *hasher) val(v Value) {
	switch x := v.(type) {
	case nil:
		h.u(0)
	case *Term:
		h.u(1)
		h.u(uint64(x.id))
	case Ptr:
		h.u(2)
		h.ref(x.obj)
		h.s(x.path)
	case Slice:
		h.u(3)
		if x.blob != nil {
			h.u(1)
			h.s(h.ex.blobKey(x.blob))
		} else {
			h.u(0)
			h.ref(x.arr.obj)
			h.s(x.arr.path)
			h.u(uint64(x.off))
			h.u(uint64(x.len))
			h.u(uint64(x.cap))
		}
	case Str:
		h.u(4)
		if x.blob != nil {
			h.s(h.ex.blobKey(x.blob))
		} else if x.sym != nil {
			h.u(uint64(len(x.sym)))
			for _, t := range x.sym {
				h.u(uint64(t.id))
			}
		} else {
			h.s(x.s)
		}
	case StructV:
		h.u(5)
		for _, e := range x {
			h.val(e)
		}
	case ArrV:
		h.u(6)
		h.u(uint64(len(x)))
		for _, e := range x {
			h.val(e)
		}
	case TupleV:
		h.u(7)
		for _, e := range x {
			h.val(e)
		}
	case Iface:
		h.u(8)
		h.ty(x.t)
		if x.t != nil {
			h.val(x.v)
		}
	case *Closure:
		h.u(9)
		if x == nil {
			h.u(0)
			return
		}
		if x.fn != nil {
			h.s(x.fn.String())
		}
		h.s(x.intr)
		for _, b := range x.bind {
			h.val(b)
		}
	case MapRef:
		h.u(10)
		h.ref(x.obj)
	case ChanRef:
		h.u(11)
		h.ref(x.obj)
	case IterRef:
		h.u(12)
		h.ref(x.obj)
	case *MapV:
		h.u(13)
		h.u(uint64(len(x.ents)))
		for _, e := range x.ents {
			h.val(e.k)
			h.val(e.v)
		}
	case *ChanV:
		h.u(14)
		h.u(uint64(len(x.buf)))
		for _, e := range x.buf {
			h.val(e.v)
		}
		if x.closed {
			h.u(1)
		} else {
			h.u(0)
		}
		for _, w := range x.recvq {
			h.s(h.st.threads[w.th].name)
			h.i(int64(w.sel))
		}
		h.u(99)
		for _, w := range x.sendq {
			h.s(h.st.threads[w.th].name)
			h.i(int64(w.sel))
			h.val(w.val)
		}
	case *IterV:
		h.u(15)
		h.u(uint64(x.pos))
		h.ref(x.m.obj)
		h.val(x.str)
		for _, k := range x.todo {
			h.val(k)
		}
	case Poison:
		h.u(16)
	case *ssa.Builtin:
		h.u(17)
		h.s(x.Name())
	default:
		panic(fmt.Sprintf("hash of %T", v))
	}
}

func (ex *Exec) stateHash(st *State, cur int) [2]uint64 {
	h := &hasher{ex: ex, st: st, num: map[int32]int{}}
	idx := make([]int, len(st.threads))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return st.threads[idx[a]].name < st.threads[idx[b]].name })
	if cur >= 0 {
		h.s(st.threads[cur].name)
	}
	for _, i := range idx {
		t := st.threads[i]
		if t.status == TDone {
			// a finished thread only matters through its name counter
			continue
		}
		h.s(t.name)
		h.u(uint64(t.status))
		h.u(uint64(t.nchild))
		if t.granted {
			h.u(1)
		} else {
			h.u(0)
		}
		h.s(t.block.kind)
		h.val(t.block.p)
		h.i(t.block.deadline)
		for _, f := range t.frames {
			h.s(f.fi.name)
			h.u(uint64(f.block))
			h.u(uint64(f.ip))
			fl := uint64(0)
			if f.panicking {
				fl |= 1
			}
			if f.recovered {
				fl |= 2
			}
			if f.rundefer {
				fl |= 4
			}
			if f.isDefer {
				fl |= 8
			}
			h.u(fl)
			if f.panicking {
				h.val(f.panicVal)
			}
			if f.block < len(f.fi.fn.Blocks) {
				for _, r := range ex.liveAt(f.fi, f.block, f.ip) {
					h.val(f.regs[r])
				}
			}
			for _, v := range f.free {
				h.val(v)
			}
			h.u(uint64(len(f.defers)))
			for _, d := range f.defers {
				h.val(d.fn)
				for _, a := range d.args {
					h.val(a)
				}
			}
		}
		h.u(0xfe)
	}
	// mutated base objects are roots
	if b := ex.base; b != nil {
		for ci := range b.heap.chunks {
			if b.heap.chunks[ci] == st.heap.chunks[ci] {
				continue
			}
			for k := 0; k < chunkSize; k++ {
				id := int32(ci<<chunkBits + k)
				if id == 0 || id > b.heap.n {
					continue
				}
				if b.heap.chunks[ci].o[k] != st.heap.chunks[ci].o[k] {
					h.ref(id)
					h.u(uint64(id))
				}
			}
		}
	}
	for _, t := range st.timers {
		h.i(t.when)
		h.i(t.period)
		h.val(t.ptr)
		h.val(t.ch)
		h.val(t.f)
		if t.sleepTh >= 0 {
			h.s(st.threads[t.sleepTh].name)
		}
	}
	for len(h.queue) > 0 {
		id := h.queue[0]
		h.queue = h.queue[1:]
		h.val(st.obj(id).v)
	}
	h.i(st.now)
	h.u(uint64(st.asyncFired))
	h.u(uint64(st.faults))
	var ls []string
	for k, v := range st.labels {
		ls = append(ls, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ls)
	for _, l := range ls {
		h.s(l)
	}
	var pcs []int32
	for p := st.pc; p != nil; p = p.prev {
		if !p.sched {
			pcs = append(pcs, p.t.id)
		}
	}
	sort.Slice(pcs, func(a, b int) bool { return pcs[a] < pcs[b] })
	for _, x := range pcs {
		h.u(uint64(x))
	}
	var rs []string
	for r := range st.reach {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	for _, l := range rs {
		h.s(l)
	}
	m := md5.Sum(h.buf)
	return [2]uint64{binary.LittleEndian.Uint64(m[:8]), binary.LittleEndian.Uint64(m[8:])}
}

// dedupe reports whether an equal state was already explored with at least as many preemptions left.
func (ex *Exec) dedupe(st *State, cur int) bool {
	ex.stats.States++
	k := ex.stateHash(st, cur)
	if p, ok := ex.visited[k]; ok && int(p) <= st.preempt {
		ex.stats.Merged++
		return true
	}
	ex.visited[k] = int32(st.preempt)
	return false
}
