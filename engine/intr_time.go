package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func valueOf(c *Ctx) ssa.Value {
	v, ok := c.in.(ssa.Value)
	if !ok {
		unsupported("intrinsic with callback used in a defer")
	}
	return v
}

// virtual epoch: 2026-01-01T00:00:00Z
const epochSec = 1767225600
const unixToInternal = 62135596800
const wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400

func (ex *Exec) timeValue(now int64) Value {
	T := ex.T
	abs := int64(epochSec)*1e9 + now
	sec, ns := abs/1e9, abs%1e9
	wsec := uint64(sec + unixToInternal - wallToInternal)
	wall := uint64(1)<<63 | wsec<<30 | uint64(ns)
	return StructV{T.Const(64, wall), T.Int(64, now+1), Ptr{}}
}

func registerTime(ex *Exec) {
	T := ex.T
	I := ex.intr
	I["time.Now"] = func(c *Ctx, a []Value) Value { return ex.timeValue(c.st.now) }
	I["time.runtimeNano"] = func(c *Ctx, a []Value) Value { return T.Int(64, c.st.now+1) }
	I["time.runtimeNow"] = func(c *Ctx, a []Value) Value { return T.Int(64, c.st.now+1) }
	I["time.Since"] = func(c *Ctx, a []Value) Value {
		t := a[0].(StructV)
		if t[0].(*Term).isConst() && t[0].(*Term).c>>63 == 1 {
			return T.Sub(T.Int(64, c.st.now+1), t[1].(*Term))
		}
		return runBody{}
	}
	I["time.Until"] = func(c *Ctx, a []Value) Value {
		t := a[0].(StructV)
		if t[0].(*Term).isConst() && t[0].(*Term).c>>63 == 1 {
			return T.Sub(t[1].(*Term), T.Int(64, c.st.now+1))
		}
		return runBody{}
	}
	timerT := func() types.Type { return ex.P.pkgs["time"].Type("Timer").Type() }
	// func newTimer(when, period int64, f func(any, uintptr, int64), arg any, cp unsafe.Pointer) *Timer
	I["time.newTimer"] = func(c *Ctx, a []Value) Value {
		when := int64(c.concretize(a[0].(*Term)))
		period := int64(c.concretize(a[1].(*Term)))
		z := append(StructV(nil), ex.zero(timerT()).(StructV)...)
		z[fieldIndex(timerT(), "initTimer")] = T.True
		id := c.st.alloc(z, "timer")
		p := Ptr{obj: id}
		e := TimerEnt{when: when - 1, period: period, ptr: p, sleepTh: -1, vc: c.th.vc}
		f := a[2].(*Closure)
		arg := a[3].(Iface)
		switch f.fn.Name() {
		case "sendTime":
			e.ch = arg.v.(ChanRef)
		case "goFunc":
			e.f = arg.v.(*Closure)
		default:
			unsupported("timer callback %s", f.fn.Name())
		}
		// remember the target for Reset
		st := c.st
		st.mutObj(id)
		st.shareObj(id)
		ex.setTimerMeta(st, p, e)
		st.timers = append(append([]TimerEnt(nil), st.timers...), e)
		c.th.vc = c.th.vc.inc(c.th.id)
		return p
	}
	I["time.stopTimer"] = func(c *Ctx, a []Value) Value {
		return T.Bool(ex.dropTimer(c.st, a[0].(Ptr)))
	}
	I["time.resetTimer"] = func(c *Ctx, a []Value) Value {
		p := a[0].(Ptr)
		when := int64(c.concretize(a[1].(*Term)))
		period := int64(c.concretize(a[2].(*Term)))
		was := ex.dropTimer(c.st, p)
		e := ex.timerMeta(c.st, p)
		e.when, e.period, e.vc = when-1, period, c.th.vc
		c.st.timers = append(append([]TimerEnt(nil), c.st.timers...), e)
		c.th.vc = c.th.vc.inc(c.th.id)
		return T.Bool(was)
	}
}

func (ex *Exec) dropTimer(st *State, p Ptr) bool {
	for i, t := range st.timers {
		if t.sleepTh < 0 && t.ptr == p {
			n := append([]TimerEnt(nil), st.timers[:i]...)
			st.timers = append(n, st.timers[i+1:]...)
			return true
		}
	}
	return false
}

// The callback target of a timer is kept in a companion object whose id is timer id + 1.
func (ex *Exec) setTimerMeta(st *State, p Ptr, e TimerEnt) {
	var v Value = TupleV{e.ch, (*Closure)(nil)}
	if e.f != nil {
		v = TupleV{e.ch, e.f}
	}
	id := st.alloc(v, "timermeta")
	if id != p.obj+1 {
		panic("timer meta allocation")
	}
	st.shareObj(id)
}

func (ex *Exec) timerMeta(st *State, p Ptr) TimerEnt {
	t := st.obj(p.obj + 1).v.(TupleV)
	e := TimerEnt{ptr: p, sleepTh: -1, ch: t[0].(ChanRef)}
	if f := t[1].(*Closure); f != nil {
		e.f = f
	}
	return e
}
