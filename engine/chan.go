package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (st *State) mutChan(id int32) *ChanV {
	o := st.mutObj(id)
	c := *o.v.(*ChanV)
	c.buf = append([]BufEl(nil), c.buf...)
	c.recvq = append([]Waiter(nil), c.recvq...)
	c.sendq = append([]Waiter(nil), c.sendq...)
	o.v = &c
	return &c
}

// park puts the current thread to sleep; its instruction is completed by the counterpart.
func (ex *Exec) park(c *Ctx) {
	if ex.initMode {
		unsupported("blocking during initialisation")
	}
	panic(parkReq{})
}

// complete finishes the parked channel operation of a waiter.
func (ex *Exec) complete(st *State, w Waiter, v Value, ok bool, vc VC) {
	th := st.mutThread(w.th)
	fr := st.mutFrame(th, len(th.frames)-1)
	in := fr.fi.fn.Blocks[fr.block].Instrs[fr.ip]
	th.status = TRun
	th.granted = false
	th.dec = nil
	th.vc = th.vc.join(vc)
	switch x := in.(type) {
	case *ssa.UnOp:
		et := under(x.X.Type()).(*types.Chan).Elem()
		if v == nil {
			v = ex.zero(et)
		}
		if x.CommaOk {
			fr.regs[fr.fi.idx[x]] = TupleV{v, ex.T.Bool(ok)}
		} else {
			fr.regs[fr.fi.idx[x]] = v
		}
		fr.ip++
	case *ssa.Send:
		fr.ip++
	case *ssa.Select:
		fr.regs[fr.fi.idx[x]] = ex.selResult(x, w.sel, v, ok)
		fr.ip++
		ex.unpark(st, w.th, fr, x)
	default:
		panic("parked at a non-channel instruction")
	}
}

// unpark removes a thread's remaining waiters after its select completed.
func (ex *Exec) unpark(st *State, th int, fr *Frame, sel *ssa.Select) {
	for _, s := range sel.States {
		r, ok := ex.get(fr, s.Chan).(ChanRef)
		if !ok || r.obj == 0 {
			continue
		}
		ch := st.obj(r.obj).v.(*ChanV)
		has := false
		for _, w := range ch.recvq {
			has = has || w.th == th
		}
		for _, w := range ch.sendq {
			has = has || w.th == th
		}
		if !has {
			continue
		}
		m := st.mutChan(r.obj)
		m.recvq = dropWaiter(m.recvq, th)
		m.sendq = dropWaiter(m.sendq, th)
	}
}

func dropWaiter(q []Waiter, th int) []Waiter {
	var n []Waiter
	for _, w := range q {
		if w.th != th {
			n = append(n, w)
		}
	}
	return n
}

func (ex *Exec) selResult(x *ssa.Select, idx int, v Value, ok bool) Value {
	r := TupleV{ex.T.Int(64, int64(idx)), ex.T.Bool(ok)}
	for i, s := range x.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		et := under(s.Chan.Type()).(*types.Chan).Elem()
		if i == idx && v != nil {
			r = append(r, v)
		} else {
			r = append(r, ex.zero(et))
		}
	}
	return r
}

func recvReady(ch *ChanV) bool { return len(ch.buf) > 0 || ch.closed || len(ch.sendq) > 0 }
func sendReady(ch *ChanV) bool { return ch.closed || len(ch.recvq) > 0 || len(ch.buf) < ch.cap }

// doRecv performs a receive that is known to be ready.
func (ex *Exec) doRecv(c *Ctx, id int32) (Value, bool) {
	st := c.st
	m := st.mutChan(id)
	th := c.th
	if len(m.buf) > 0 {
		e := m.buf[0]
		m.buf = m.buf[1:]
		th.vc = th.vc.join(e.vc)
		// receiving frees a slot: later senders are ordered after this receive
		m.vc = m.vc.join(th.vc)
		th.vc = th.vc.inc(th.id)
		if len(m.sendq) > 0 {
			w := m.sendq[0]
			m.sendq = m.sendq[1:]
			m.buf = append(m.buf, BufEl{w.val, w.vc})
			ex.complete(st, w, nil, false, m.vc)
		}
		return e.v, true
	}
	if len(m.sendq) > 0 {
		w := m.sendq[0]
		m.sendq = m.sendq[1:]
		th.vc = th.vc.join(w.vc)
		ex.complete(st, w, nil, false, th.vc)
		th.vc = th.vc.inc(th.id)
		return w.val, true
	}
	if m.closed {
		th.vc = th.vc.join(m.vc)
		return nil, false
	}
	panic("doRecv not ready")
}

func (ex *Exec) doSend(c *Ctx, id int32, v Value) {
	st, th := c.st, c.th
	if st.obj(id).v.(*ChanV).closed {
		panic(goPanic{val: ex.plainError("send on closed channel"), msg: "send on closed channel"})
	}
	if st.obj(id).shared {
		st.share(v)
	}
	m := st.mutChan(id)
	if len(m.recvq) > 0 {
		w := m.recvq[0]
		m.recvq = m.recvq[1:]
		st.share(v)
		ex.complete(st, w, v, true, th.vc)
		th.vc = th.vc.inc(th.id)
		return
	}
	m.buf = append(m.buf, BufEl{v, th.vc.join(m.vc)})
	if len(m.buf) == m.cap {
		// nothing
	}
	th.vc = th.vc.inc(th.id)
}

func (ex *Exec) chanRecv(c *Ctx, r ChanRef, commaOk bool, et types.Type) Value {
	if r.obj == 0 {
		ex.park(c)
	}
	ch := c.st.obj(r.obj).v.(*ChanV)
	if !recvReady(ch) {
		m := c.st.mutChan(r.obj)
		m.recvq = append(m.recvq, Waiter{th: c.th.id, sel: -1})
		ex.park(c)
	}
	v, ok := ex.doRecv(c, r.obj)
	if v == nil {
		v = ex.zero(et)
	}
	if commaOk {
		return TupleV{v, ex.T.Bool(ok)}
	}
	return v
}

func (ex *Exec) chanSend(c *Ctx, r ChanRef, v Value) {
	if r.obj == 0 {
		ex.park(c)
	}
	ch := c.st.obj(r.obj).v.(*ChanV)
	if !sendReady(ch) {
		if c.st.obj(r.obj).shared {
			c.st.share(v)
		}
		m := c.st.mutChan(r.obj)
		m.sendq = append(m.sendq, Waiter{th: c.th.id, val: v, vc: c.th.vc, sel: -1})
		c.th.vc = c.th.vc.inc(c.th.id)
		ex.park(c)
	}
	ex.doSend(c, r.obj, v)
}

// tryDeliver is a non-blocking send by the runtime (timers).
func (ex *Exec) tryDeliver(st *State, r ChanRef, v Value, vc VC) bool {
	ch := st.obj(r.obj).v.(*ChanV)
	if len(ch.recvq) > 0 {
		m := st.mutChan(r.obj)
		w := m.recvq[0]
		m.recvq = m.recvq[1:]
		ex.complete(st, w, v, true, vc)
		return true
	}
	if len(ch.buf) < ch.cap {
		m := st.mutChan(r.obj)
		m.buf = append(m.buf, BufEl{v, vc})
		return true
	}
	return false
}

func (ex *Exec) closeChan(c *Ctx, r ChanRef) {
	if r.obj == 0 {
		panic(goPanic{val: ex.plainError("close of nil channel"), msg: "close of nil channel"})
	}
	st := c.st
	m := st.mutChan(r.obj)
	if m.closed {
		panic(goPanic{val: ex.plainError("close of closed channel"), msg: "close of closed channel"})
	}
	m.closed = true
	m.vc = m.vc.join(c.th.vc)
	vc := m.vc
	rq, sq := m.recvq, m.sendq
	m.recvq, m.sendq = nil, nil
	for _, w := range rq {
		ex.complete(st, w, nil, false, vc)
	}
	for _, w := range sq {
		// the sender re-executes and panics
		th := st.mutThread(w.th)
		th.status = TRun
		th.granted = false
		if w.sel >= 0 {
			fr := st.mutFrame(th, len(th.frames)-1)
			if s, ok := fr.fi.fn.Blocks[fr.block].Instrs[fr.ip].(*ssa.Select); ok {
				ex.unpark(st, w.th, fr, s)
			}
		}
	}
	c.th.vc = c.th.vc.inc(c.th.id)
}

func (ex *Exec) selectOp(c *Ctx, in *ssa.Select) {
	st, fr := c.st, c.fr
	var ready []int
	chans := make([]ChanRef, len(in.States))
	for i, s := range in.States {
		chans[i] = ex.get(fr, s.Chan).(ChanRef)
		if chans[i].obj == 0 {
			continue
		}
		ch := st.obj(chans[i].obj).v.(*ChanV)
		if s.Dir == types.RecvOnly && recvReady(ch) || s.Dir == types.SendOnly && sendReady(ch) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !in.Blocking {
			c.set(ex.selResult(in, -1, nil, false))
			return
		}
		for i, s := range in.States {
			if chans[i].obj == 0 {
				continue
			}
			var v Value
			if s.Dir == types.SendOnly {
				v = ex.get(fr, s.Send)
				if st.obj(chans[i].obj).shared {
					st.share(v)
				}
			}
			m := st.mutChan(chans[i].obj)
			w := Waiter{th: c.th.id, val: v, vc: c.th.vc, sel: i}
			if s.Dir == types.RecvOnly {
				m.recvq = append(m.recvq, w)
			} else {
				m.sendq = append(m.sendq, w)
			}
		}
		c.th.vc = c.th.vc.inc(c.th.id)
		ex.park(c)
	}
	k := ready[c.choose(len(ready), "select")]
	if len(ready) > 1 {
		st.spin.unfair = true
	}
	if in.States[k].Dir == types.RecvOnly {
		v, ok := ex.doRecv(c, chans[k].obj)
		c.set(ex.selResult(in, k, v, ok))
		return
	}
	ex.doSend(c, chans[k].obj, ex.get(fr, in.States[k].Send))
	c.set(ex.selResult(in, k, nil, false))
}
