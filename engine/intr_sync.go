package main

import (
	"go/types"
)

func registerSync(ex *Exec) {
	T := ex.T
	I := ex.intr
	void := TupleV{}
	set := func(c *Ctx, p Ptr, v int64) {
		old := getPath(c.st.obj(p.obj).v, p.path).(*Term)
		c.st.store(p, T.Const(old.sort, uint64(v)))
	}
	get := func(c *Ctx, p Ptr) int64 { return ex.intAt(c.st, p) }
	// sync.Mutex {state int32; sema uint32}
	I["(*sync.Mutex).Lock"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		ex.nilDeref(c, p)
		if get(c, p.field(0)) != 0 {
			panic(blockReq{blockReason{kind: "mutex", p: p}})
		}
		set(c, p.field(0), 1)
		c.st.acquire(c.th, p)
		return void
	}
	I["(*sync.Mutex).TryLock"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		ex.nilDeref(c, p)
		if get(c, p.field(0)) != 0 {
			return T.False
		}
		set(c, p.field(0), 1)
		c.st.acquire(c.th, p)
		return T.True
	}
	I["(*sync.Mutex).Unlock"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		ex.nilDeref(c, p)
		if get(c, p.field(0)) == 0 {
			ex.fatal(c, "sync: unlock of unlocked mutex")
		}
		set(c, p.field(0), 0)
		c.st.release(c.th, p)
		return void
	}
	// sync.RWMutex {w Mutex; writerSem, readerSem uint32; ...}: field 1 = writer, field 2 = readers
	I["(*sync.RWMutex).Lock"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		ex.nilDeref(c, p)
		if get(c, p.field(1)) != 0 || get(c, p.field(2)) != 0 {
			panic(blockReq{blockReason{kind: "wlock", p: p}})
		}
		set(c, p.field(1), 1)
		c.st.acquire(c.th, p)
		return void
	}
	I["(*sync.RWMutex).TryLock"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		if get(c, p.field(1)) != 0 || get(c, p.field(2)) != 0 {
			return T.False
		}
		set(c, p.field(1), 1)
		c.st.acquire(c.th, p)
		return T.True
	}
	I["(*sync.RWMutex).Unlock"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		ex.nilDeref(c, p)
		if get(c, p.field(1)) == 0 {
			ex.fatal(c, "sync: Unlock of unlocked RWMutex")
		}
		set(c, p.field(1), 0)
		c.st.release(c.th, p)
		return void
	}
	I["(*sync.RWMutex).RLock"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		ex.nilDeref(c, p)
		if get(c, p.field(1)) != 0 || !c.th.granted && ex.writerWaiting(c.st, p) {
			panic(blockReq{blockReason{kind: "rlock", p: p}})
		}
		if get(c, p.field(1)) != 0 || ex.writerWaiting(c.st, p) {
			panic(blockReq{blockReason{kind: "rlock", p: p}})
		}
		set(c, p.field(2), get(c, p.field(2))+1)
		c.st.acquire(c.th, p)
		return void
	}
	I["(*sync.RWMutex).TryRLock"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		if get(c, p.field(1)) != 0 || ex.writerWaiting(c.st, p) {
			return T.False
		}
		set(c, p.field(2), get(c, p.field(2))+1)
		c.st.acquire(c.th, p)
		return T.True
	}
	I["(*sync.RWMutex).RUnlock"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		ex.nilDeref(c, p)
		if get(c, p.field(2)) == 0 {
			ex.fatal(c, "sync: RUnlock of unlocked RWMutex")
		}
		set(c, p.field(2), get(c, p.field(2))-1)
		c.st.release(c.th, p)
		return void
	}
	// sync.WaitGroup {noCopy; state atomic.Uint64; sema}
	wgp := func(c *Ctx, p Ptr) Ptr {
		ex.nilDeref(c, p)
		t := ex.P.pkgs["sync"].Type("WaitGroup").Type()
		i := fieldIndex(t, "state")
		at := under(t).(*types.Struct).Field(i).Type()
		return p.field(i).field(fieldIndex(at, "v"))
	}
	I["(*sync.WaitGroup).Add"] = func(c *Ctx, a []Value) Value {
		p := wgp(c, a[0].(Ptr))
		n := get(c, p) + int64(c.concretize(a[1].(*Term)))
		if n < 0 {
			panic(goPanic{val: Iface{t: types.Typ[types.String], v: Str{s: "sync: negative WaitGroup counter"}}, msg: "sync: negative WaitGroup counter"})
		}
		set(c, p, n)
		c.st.release(c.th, p)
		return void
	}
	I["(*sync.WaitGroup).Done"] = func(c *Ctx, a []Value) Value {
		p := wgp(c, a[0].(Ptr))
		n := get(c, p) - 1
		if n < 0 {
			panic(goPanic{val: Iface{t: types.Typ[types.String], v: Str{s: "sync: negative WaitGroup counter"}}, msg: "sync: negative WaitGroup counter"})
		}
		set(c, p, n)
		c.st.release(c.th, p)
		return void
	}
	I["(*sync.WaitGroup).Wait"] = func(c *Ctx, a []Value) Value {
		p := wgp(c, a[0].(Ptr))
		if get(c, p) != 0 {
			panic(blockReq{blockReason{kind: "wg", p: p}})
		}
		c.st.acquire(c.th, p)
		return void
	}
	// sync.Cond: notify generation counter kept in notify.wait (field 0 of notifyList)
	condp := func(p Ptr) Ptr {
		t := ex.P.pkgs["sync"].Type("Cond").Type()
		return p.field(fieldIndex(t, "notify")).field(0)
	}
	_ = condp
	// sync.Pool
	I["(*sync.Pool).Get"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		t := ex.P.pkgs["sync"].Type("Pool").Type()
		f, _ := c.st.load(p.field(fieldIndex(t, "New"))).(*Closure)
		if f == nil {
			return Iface{}
		}
		reg := c.fr.fi.idx[valueOf(c)]
		ex.pushFrame(c, f.fn, f.bind, nil, reg)
		panic(pushed{})
	}
	I["(*sync.Pool).Put"] = func(c *Ctx, a []Value) Value { return void }

	// sync/atomic
	for _, k := range []struct {
		n string
		s Sort
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		I["sync/atomic.Load"+k.n] = func(c *Ctx, a []Value) Value { return ex.atomicLoad(c, a[0].(Ptr)) }
		I["sync/atomic.Store"+k.n] = func(c *Ctx, a []Value) Value { ex.atomicStore(c, a[0].(Ptr), a[1]); return void }
		I["sync/atomic.Add"+k.n] = func(c *Ctx, a []Value) Value {
			p := a[0].(Ptr)
			v := T.Add(ex.atomicLoad(c, p).(*Term), a[1].(*Term))
			ex.atomicStore(c, p, v)
			return v
		}
		I["sync/atomic.And"+k.n] = func(c *Ctx, a []Value) Value {
			p := a[0].(Ptr)
			old := ex.atomicLoad(c, p).(*Term)
			ex.atomicStore(c, p, T.BAnd(old, a[1].(*Term)))
			return old
		}
		I["sync/atomic.Or"+k.n] = func(c *Ctx, a []Value) Value {
			p := a[0].(Ptr)
			old := ex.atomicLoad(c, p).(*Term)
			ex.atomicStore(c, p, T.BOr(old, a[1].(*Term)))
			return old
		}
		I["sync/atomic.Swap"+k.n] = func(c *Ctx, a []Value) Value {
			p := a[0].(Ptr)
			old := ex.atomicLoad(c, p)
			ex.atomicStore(c, p, a[1])
			return old
		}
		I["sync/atomic.CompareAndSwap"+k.n] = func(c *Ctx, a []Value) Value { return ex.atomicCAS(c, a) }
	}
	I["sync/atomic.LoadPointer"] = func(c *Ctx, a []Value) Value { return ex.atomicLoad(c, a[0].(Ptr)) }
	I["sync/atomic.StorePointer"] = func(c *Ctx, a []Value) Value { ex.atomicStore(c, a[0].(Ptr), a[1]); return void }
	I["sync/atomic.SwapPointer"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		old := ex.atomicLoad(c, p)
		ex.atomicStore(c, p, a[1])
		return old
	}
	I["sync/atomic.CompareAndSwapPointer"] = func(c *Ctx, a []Value) Value { return ex.atomicCAS(c, a) }
	I["(*sync/atomic.Value).Load"] = func(c *Ctx, a []Value) Value { return ex.atomicLoad(c, a[0].(Ptr).field(0)) }
	I["(*sync/atomic.Value).Store"] = func(c *Ctx, a []Value) Value {
		v := a[1].(Iface)
		if v.t == nil {
			panic(goPanic{val: Iface{t: types.Typ[types.String], v: Str{s: "sync/atomic: store of nil value into Value"}}, msg: "sync/atomic: store of nil value into Value"})
		}
		old := ex.atomicLoad(c, a[0].(Ptr).field(0)).(Iface)
		if old.t != nil && !types.Identical(old.t, v.t) {
			panic(goPanic{val: Iface{t: types.Typ[types.String], v: Str{s: "sync/atomic: store of inconsistently typed value into Value"}}, msg: "sync/atomic: store of inconsistently typed value into Value"})
		}
		ex.atomicStore(c, a[0].(Ptr).field(0), v)
		return void
	}
	I["(*sync/atomic.Value).Swap"] = func(c *Ctx, a []Value) Value {
		old := ex.atomicLoad(c, a[0].(Ptr).field(0))
		ex.atomicStore(c, a[0].(Ptr).field(0), a[1])
		return old
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(c *Ctx, a []Value) Value {
		return ex.atomicCAS(c, []Value{a[0].(Ptr).field(0), a[1], a[2]})
	}
}

func (ex *Exec) fatal(c *Ctx, msg string) {
	ex.report(c.st, "panic", "fatal error: "+msg, ex.posOf(c.in, c.fr), nil)
	panic(pathEnd{"violation", msg})
}

func (ex *Exec) atomicLoad(c *Ctx, p Ptr) Value {
	ex.nilDeref(c, p)
	c.st.acquire(c.th, p)
	return c.st.load(p)
}

func (ex *Exec) atomicStore(c *Ctx, p Ptr, v Value) {
	ex.nilDeref(c, p)
	c.st.acquire(c.th, p)
	c.st.store(p, v)
	c.st.release(c.th, p)
}

func (ex *Exec) atomicCAS(c *Ctx, a []Value) Value {
	p := a[0].(Ptr)
	cur := ex.atomicLoad(c, p)
	if c.decide(ex.equal(c, cur, a[1])) {
		ex.atomicStore(c, p, a[2])
		return ex.T.True
	}
	return ex.T.False
}
