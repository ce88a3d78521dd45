package actors

import (
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifsym"
)

const ms = int64(time.Millisecond)

// Firing times for every combination of delay and interval, callbacks that succeed, fail or panic.
//verif: preempt=0/1
func VerifC08_Schedule() {
	a := vh.Runtime("a", "T", nil)
	due := int64([]int{0, 1, 7, 30}[verifsym.Choice("due", 4)])
	iv := int64([]int{0, 1, 10, 25}[verifsym.Choice("interval", 4)])
	out := verifsym.Choice("outcome", 3)
	start := verifsym.Now()
	var at []int64
	args := verifsym.Int("args")
	t := a.OnTimer(due, iv, func(x interface{}) error {
		at = append(at, verifsym.Now()-start)
		verifsym.Assert(x.(int) == args, "callback gets its arguments")
		if out == 1 {
			return vh.ErrHandler
		}
		if out == 2 {
			panic("boom")
		}
		return nil
	}, args)
	verifsym.Assert(t.IsActive(), "active after registration")
	horizon := int64(verifsym.Size(62, 102))
	verifsym.Advance(time.Duration(horizon)*time.Millisecond + time.Microsecond)
	verifsym.Quiesce()
	want := 0
	if horizon >= due {
		want = 1
		if iv > 0 {
			want += int((horizon - due) / iv)
		}
	}
	if verifsym.Symbolic() { // real clocks drift
		verifsym.Assert(len(at) == want, "number of firings")
		for i := range at {
			verifsym.Assert(at[i] == due*ms+int64(i)*iv*ms, "firing time")
		}
	} else {
		verifsym.Assert(iv == 1 || len(at) >= want-1 && len(at) <= want+8, "number of firings")
	}
	if iv == 0 {
		verifsym.Assert(!t.IsActive() && !t.Stop(), "a one-shot timer is done after firing")
	} else {
		verifsym.Assert(t.IsActive(), "an interval timer stays active")
	}
	m := vh.Msg("none")
	verifsym.Assert(a.Received(m) == nil, "actor still accepts")
	m.GetWg().Wait()
	verifsym.Reach("end")
}

// Cancellation on the actor's turn is final, whatever is already on its way.
//verif: preempt=1/2 async=2/3
func VerifC08_CancelOnTurn() {
	a := vh.Runtime("a", "T", nil)
	n, cancelled := 0, false
	var t core.ITimer
	due := int64(verifsym.Choice("due", 2) * 10)
	iv := int64(verifsym.Choice("interval", 2) * 10)
	t = a.OnTimer(due, iv, func(interface{}) error {
		verifsym.Assert(!cancelled, "no callback after cancellation returned")
		n++
		return nil
	}, nil)
	vh.On(a, "cancel", func(*msg.Wrapper) error {
		a.CancelTimer(t)
		cancelled = true
		verifsym.Assert(!t.IsActive(), "inactive after cancellation")
		return nil
	})
	m := vh.Msg("cancel")
	a.Received(m)
	m.GetWg().Wait()
	verifsym.Advance(35 * time.Millisecond)
	verifsym.Reach("end")
}

// A firing that was queued while the actor was busy does not run once that turn cancelled the timer.
//verif: preempt=0/1
func VerifC08_CancelQueued() {
	a := vh.Runtime("a", "T", nil)
	cancelled, how := false, verifsym.Choice("how", 2)
	var t core.ITimer
	started := make(chan bool, 1)
	vh.On(a, "busy", func(*msg.Wrapper) error {
		started <- true
		time.Sleep(time.Duration(verifsym.IntRange("busy", 0, 3)) * 10 * time.Millisecond)
		if how == 0 {
			a.CancelTimer(t)
		} else {
			t.Stop()
		}
		cancelled = true
		return nil
	})
	hold := make(chan bool)
	vh.On(a, "hold", func(*msg.Wrapper) error { <-hold; return nil })
	a.Received(vh.Msg("hold"))
	m := vh.Msg("busy")
	a.Received(m)
	due := int64(verifsym.Choice("due", 2) * 5)
	iv := int64(verifsym.Choice("interval", 2) * 8)
	t = a.OnTimer(due, iv, func(interface{}) error {
		verifsym.Assert(!cancelled, "no callback after cancellation returned")
		return nil
	}, nil)
	close(hold)
	<-started
	m.GetWg().Wait()
	verifsym.Advance(35 * time.Millisecond)
	verifsym.Quiesce()
	verifsym.Reach("end")
}

// A callback that cancels its own timer is the last one.
//verif: preempt=1/2
func VerifC08_CancelSelf() {
	a := vh.Runtime("a", "T", nil)
	n := 0
	var t core.ITimer
	due := int64(5)
	last := 1 + verifsym.Choice("last", 2)
	t = a.OnTimer(due, 10, func(interface{}) error {
		n++
		if n == last {
			a.CancelTimer(t)
		}
		return nil
	}, nil)
	verifsym.Advance(60 * time.Millisecond)
	verifsym.Assert(n <= last, "no callback after the one that cancelled")
	verifsym.Reach("end")
}

// Callbacks never overlap handlers or each other.
//verif: preempt=2/3 async=1
func VerifC08_NoOverlap() {
	a := vh.Runtime("a", "T", nil)
	inside := 0
	body := func() {
		verifsym.Assert(inside == 0, "never overlaps")
		inside++
		verifsym.Yield()
		inside--
	}
	vh.On(a, "e", func(*msg.Wrapper) error { body(); return nil })
	a.OnTimer(0, 0, func(interface{}) error { body(); return nil }, nil)
	a.OnTimer(1, 0, func(interface{}) error { body(); return nil }, nil)
	m := vh.Msg("e")
	a.Received(m)
	m.GetWg().Wait()
	verifsym.Advance(5 * time.Millisecond)
	verifsym.Quiesce()
	verifsym.Reach("end")
}

// No sequence of register, cancel, stop, reset and shutdown crashes or hangs.
//verif: preempt=0 async=0/1 states=400000
func VerifC08_AnySequence() {
	a := vh.Runtime("a", "T", nil)
	var ts []core.ITimer
	fired := 0
	n := verifsym.Size(3, 4)
	for i := 0; i < n; i++ {
		op := 0
		if i > 0 {
			op = verifsym.Choice("op", 6)
		}
		if op == 0 {
			ts = append(ts, a.OnTimer(int64(verifsym.Choice("due", 2)*2), int64(verifsym.Choice("iv", 2)*3), func(interface{}) error { fired++; return nil }, nil))
			continue
		}
		t := ts[len(ts)-1]
		switch op {
		case 1:
			a.CancelTimer(t)
			verifsym.Assert(!t.IsActive(), "inactive after cancel")
		case 2:
			was := t.IsActive()
			r := t.Stop()
			verifsym.Assert(!r || was, "Stop reports whether it stopped an active timer")
			verifsym.Assert(!t.IsActive(), "inactive after stop")
		case 3:
			ok := t.Reset(time.Duration(verifsym.Choice("new", 2)) * 5 * time.Millisecond)
			verifsym.Assert(ok == (t.Interval() > 0), "Reset succeeds iff there is an interval")
		case 4:
			verifsym.Advance(4 * time.Millisecond)
		case 5:
			a.CancelTimer(nil)
			verifsym.Assert(t.Execute() == nil, "execute runs the callback")
		}
	}
	a.Exit()
	verifsym.Reach("end")
}

// Registering from outside while callbacks of earlier timers cancel themselves.
//verif: preempt=2/3 async=1
func VerifC08_ConcurrentRegister() {
	a := vh.Runtime("a", "T", nil)
	hold := make(chan core.ITimer, 1)
	hold <- a.OnTimer(0, 0, func(interface{}) error {
		a.CancelTimer(<-hold)
		return nil
	}, nil)
	a.OnTimer(1, 0, func(interface{}) error { return nil }, nil)
	verifsym.Advance(5 * time.Millisecond)
	a.Exit()
	verifsym.Reach("end")
}

// NewTimerInfo announces the first trigger.
func VerifC08_NextTrigger() {
	due := time.Duration(verifsym.Int64("due"))
	iv := time.Duration(verifsym.Int64("iv"))
	verifsym.Assume(due >= 0 && due < time.Hour && iv >= 0 && iv < time.Hour)
	t := actor.NewTimerInfo(due, iv, nil, nil)
	verifsym.Assert(t.IsActive() && t.Interval() == iv, "active with its interval")
}

// After a reset on the actor's turn the timer fires once per new interval, also when it had been stopped.
//verif: preempt=0/1
func VerifC08_Reset() {
	a := vh.Runtime("a", "T", nil)
	iv := []int64{0, 10}[verifsym.Choice("interval", 2)]
	niv := []int64{0, 4, 7, 10, 25}[verifsym.Choice("new interval", 5)]
	stop := verifsym.Choice("stopped", 2) == 1
	inside := verifsym.Choice("from the callback", 2) == 1
	verifsym.Assume(!(iv == 10 && niv == 10)) // the same interval: left as it is
	at := int64(15)                           // when it is reset
	if inside {
		at = 10
	}
	var fired []int64
	var t core.ITimer
	start := verifsym.Now()
	reset := func() {
		if stop {
			verifsym.Assert(t.Stop() == (iv > 0), "stopped, unless it was done")
		}
		ok := t.Reset(time.Duration(niv * ms))
		verifsym.Assert(ok == (iv+niv > 0), "reset, if there is an interval")
	}
	t = a.OnTimer(10, iv, func(interface{}) error {
		fired = append(fired, verifsym.Now()-start)
		if inside && len(fired) == 1 {
			reset()
		}
		return nil
	}, nil)
	vh.On(a, "reset", func(*msg.Wrapper) error { reset(); return nil })
	verifsym.Advance(15 * time.Millisecond)
	if !inside {
		m := vh.Msg("reset")
		a.Received(m)
		m.GetWg().Wait()
	}
	verifsym.Advance(60*time.Millisecond + time.Microsecond)
	verifsym.Quiesce()
	if niv == 0 {
		niv = iv
	}
	want := []int64{10 * ms}
	if niv > 0 {
		for x := at + niv; x <= 75; x += niv {
			want = append(want, x*ms)
		}
	}
	if verifsym.Symbolic() { // real clocks drift
		verifsym.Assert(len(fired) == len(want), "number of firings")
		for i := range fired {
			verifsym.Assert(fired[i] == want[i], "firing time")
		}
	}
	verifsym.Assert(t.IsActive() == (niv > 0), "active while it has an interval")
	verifsym.Reach("end")
}

// More firings pile up behind a busy actor than it can keep: afterwards the timer goes on.
//verif: preempt=0 native=off maporder=0 time=60 fires=4000 steps=20000000
func VerifC08_Backlog() {
	a := vh.Runtime("a", "T", nil)
	hold := make(chan bool)
	vh.On(a, "hold", func(*msg.Wrapper) error { <-hold; return nil })
	m := vh.Msg("hold")
	a.Received(m)
	verifsym.Quiesce()
	var n [1]int
	for i := range n {
		a.OnTimer(1, 1, func(interface{}) error { n[i]++; return nil }, nil)
	}
	verifsym.Advance(time.Duration(1100) * time.Millisecond)
	verifsym.Assert(n[0] == 0, "the actor is busy")
	close(hold)
	m.GetWg().Wait()
	verifsym.Quiesce()
	before := n
	verifsym.Advance(10*time.Millisecond + time.Microsecond)
	for i := range n {
		verifsym.Assert(n[i] >= before[i]+10, "the timer goes on")
	}
	verifsym.Reach("end")
}
