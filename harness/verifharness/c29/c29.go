package c29

import (
	"errors"
	"time"

	"github.com/pojol/braid/lib/timer"
	"github.com/pojol/braid/verifsym"
)

const ms = int64(time.Millisecond)

var errRun = errors.New("run failed")

// Runs and reports for every delay, interval and outcome of the first runs.
//
//verif: preempt=0/1
func VerifC29_Pace() {
	s := timer.Init()
	due := []int64{0, 7, 30, -5}[verifsym.Choice("due", 4)]
	iv := []int64{10, 25, 1}[verifsym.Choice("interval", 3)]
	data := verifsym.Int("data")
	start := verifsym.Now()
	var at []int64
	reported, failed := 0, 0
	s.SetExceptionHandler(func(ctx *timer.TimerContext, err error) {
		verifsym.Assert(err != nil && ctx.TimerID == "t", "reported with the task's context")
		reported++
	})
	before, after := 0, 0
	hooks := verifsym.Choice("hooks", 2) == 1
	if hooks {
		s.SetOnBeforeHandler(func(*timer.TimerContext) error {
			before++
			if before&1 == 1 {
				return errRun // only IsEnd skips a run
			}
			return nil
		})
		s.SetOnEndHandler(func(*timer.TimerContext) error { after++; return nil })
	}
	panics := 0
	_, err := s.NewTickTask("t", true, due, iv, func(ctx *timer.TimerContext) error {
		at = append(at, verifsym.Now()-start)
		verifsym.Assert(ctx.TimerID == "t" && ctx.TimerData.(int) == data, "context of the task")
		if len(at) > verifsym.Size(2, 3) {
			return nil
		}
		switch verifsym.Choice("outcome", 3) {
		case 1:
			failed++
			return errRun
		case 2:
			failed++
			panics++
			panic("boom")
		}
		return nil
	}, data)
	verifsym.Assert(err == nil, "task created")
	verifsym.Quiesce()
	verifsym.Assert(len(at) == 0, "not started yet")
	s.StartTask("t")
	start = verifsym.Now()
	if verifsym.Choice("again", 2) == 1 {
		s.StartTask("t") // running already: no effect
	}
	horizon := int64(62)
	verifsym.Advance(time.Duration(horizon)*time.Millisecond + time.Microsecond)
	verifsym.Quiesce()
	n := len(at)
	if due < 0 {
		due = 0
	}
	if verifsym.Symbolic() { // real clocks drift
		want := 1 + int((horizon-due)/iv)
		verifsym.Assert(n == want, "number of runs")
		for i := range at {
			verifsym.Assert(at[i] == (due+int64(i)*iv)*ms, "time of the run")
		}
	} else {
		verifsym.Assert(n >= 1 && (iv == 1 || n <= 1+int((horizon+200)/iv)), "number of runs")
	}
	verifsym.Assert(reported == failed, "every failing run is reported once")
	if hooks && verifsym.Symbolic() {
		verifsym.Assert(before == n && after == n-panics, "hooks run around each run")
	}
	verifsym.Reach("end")
}

// A run that the before hook ends is skipped, whichever runs these are.
//
//verif: preempt=0
func VerifC29_Ended() {
	s := timer.Init()
	n, runs, want := 0, 0, 0
	ends := verifsym.Byte("ends")
	s.SetOnBeforeHandler(func(ctx *timer.TimerContext) error {
		ctx.IsEnd = ends>>n&1 == 1
		want += verifsym.B2I(ends>>n&1 == 0)
		n++
		return nil
	})
	s.SetExceptionHandler(func(*timer.TimerContext, error) { verifsym.Fail("nothing fails") })
	s.NewTickTask("t", true, 0, 10, func(ctx *timer.TimerContext) error {
		verifsym.Assert(ends>>(n-1)&1 == 0, "an ended run is skipped")
		runs++
		return nil
	}, nil)
	s.StartTask("t")
	verifsym.Advance(time.Duration(verifsym.Size(35, 65)) * time.Millisecond)
	stop(s)
	verifsym.Quiesce()
	verifsym.Assert(runs == want, "the other runs are not")
	verifsym.Reach("end")
}

// Stopping at any moment, then possibly starting again.
//
//verif: preempt=0/1
func VerifC29_Stop() {
	s := timer.Init()
	due := []int64{0, 10}[verifsym.Choice("due", 2)]
	n := 0
	s.NewTickTask("t", true, due, 10, func(*timer.TimerContext) error {
		n++
		if verifsym.Choice("outcome", 2) == 1 {
			panic("boom")
		}
		return nil
	}, nil)
	s.SetExceptionHandler(func(*timer.TimerContext, error) {})
	s.StartTask("t")
	wait := verifsym.IntRange("wait", 0, 3)
	verifsym.Advance(time.Duration(wait)*10*time.Millisecond + time.Duration(verifsym.Choice("off", 2)*3)*time.Millisecond)
	verifsym.Quiesce()
	stop(s)
	m := n
	verifsym.Advance(35 * time.Millisecond)
	verifsym.Assert(n == m, "no run after the stop")
	stop(s) // stopped already: no effect
	if verifsym.Choice("restart", 2) == 1 {
		verifsym.Reach("restarted")
		s.StartTask("t")
		verifsym.Advance(time.Duration(due)*time.Millisecond + 25*time.Millisecond)
		verifsym.Quiesce()
		if verifsym.Symbolic() {
			verifsym.Assert(n == m+3, "a restarted task runs at the same pace")
		}
		stop(s)
		m = n
		verifsym.Advance(35 * time.Millisecond)
		verifsym.Assert(n == m, "no run after the second stop")
	}
	verifsym.Reach("end")
}

func stop(s *timer.TimerService) {
	switch verifsym.Choice("stop", 3) {
	case 0:
		s.StopTask("t")
	case 1:
		verifsym.Assert(s.Stop("t") == nil, "stop of a known task succeeds")
	default:
		s.StopAllTask()
	}
}

// A stop racing with the ticks: at most the run already due completes.
//
//verif: preempt=2/3 async=2/3
func VerifC29_StopRace() {
	s := timer.Init()
	n := 0
	due := int64(verifsym.Choice("due", 2) * 10)
	s.NewTickTask("t", true, due, 10, func(*timer.TimerContext) error {
		n++
		return nil
	}, nil)
	s.StartTask("t")
	s.StopTask("t")
	m := 0
	verifsym.Atomic(func() { m = n })
	verifsym.Advance(time.Millisecond)
	verifsym.Quiesce()
	verifsym.Assert(n <= m+1, "at most the run already due")
	m = n
	verifsym.Advance(50 * time.Millisecond)
	verifsym.Quiesce()
	verifsym.Assert(n == m, "no run after the stop")
	verifsym.Reach("end")
}

// Runs never overlap, also across a stop and a new start, and a task may stop itself.
//
//verif: preempt=1/2 async=1/2
func VerifC29_NoOverlap() {
	s := timer.Init()
	inside, n := 0, 0
	self := verifsym.Choice("self stop", 2) == 1
	s.NewTickTask("t", true, 0, 10, func(*timer.TimerContext) error {
		verifsym.Assert(inside == 0, "runs never overlap")
		inside++
		n++
		verifsym.Yield()
		if self && n == 2 {
			s.StopTask("t")
		}
		inside--
		return nil
	}, nil)
	s.StartTask("t")
	if verifsym.Choice("restart", 2) == 1 {
		verifsym.Yield()
		s.StopTask("t")
		s.StartTask("t")
		verifsym.Reach("restarted")
	}
	verifsym.Advance(25 * time.Millisecond)
	verifsym.Quiesce()
	verifsym.Assert(inside == 0, "nothing left inside")
	verifsym.Reach("end")
}

// Tasks that are unknown, disabled, or have no usable interval.
//
//verif: preempt=0
func VerifC29_Edge() {
	s := timer.Init()
	n := 0
	h := func(*timer.TimerContext) error { n++; return nil }
	iv := int64(verifsym.Int64("interval"))
	verifsym.Assume(iv <= 0 || iv == 5)
	run := verifsym.Choice("enabled", 2) == 1
	t, err := s.NewTickTask("t", run, 0, iv, h, nil)
	verifsym.Assert((err == nil) == (iv == 5) && (err != nil || t.TimerID() == "t"), "only a positive interval makes a task")
	s.StopTask("t")
	s.StopTask("nobody")
	s.StartTask("nobody")
	verifsym.Assert(s.Stop("nobody") != nil, "an unknown task is reported")
	if verifsym.Choice("all", 2) == 1 {
		s.StartAllTask()
	} else {
		s.StartTask("t")
	}
	verifsym.Advance(12 * time.Millisecond)
	verifsym.Quiesce()
	want := 0
	if err == nil && run {
		want = 3
	}
	verifsym.Assert(n == want || !verifsym.Symbolic(), "runs exactly if it exists and is enabled")
	s.RemoveTask("t")
	verifsym.Assert(s.Stop("t") != nil, "a removed task is unknown")
	verifsym.Reach("end")
}

// The registry may be used from several goroutines.
//
//verif: preempt=2/3
func VerifC29_Registry() {
	s := timer.Init()
	h := func(*timer.TimerContext) error { return nil }
	s.NewTickTask("a", true, 50, 50, h, nil)
	done := make(chan bool)
	go func() {
		s.NewTickTask("b", true, 50, 50, h, nil)
		done <- true
	}()
	switch verifsym.Choice("op", 5) {
	case 0:
		s.StartAllTask()
	case 1:
		s.StopAllTask()
	case 2:
		s.StartTask("a")
	case 3:
		s.StopTask("a")
	default:
		s.Stop("b")
	}
	<-done
	verifsym.Reach("end")
}

// Two goroutines starting and stopping one task.
//
//verif: preempt=2/3
func VerifC29_StartRace() {
	s := timer.Init()
	n := 0
	s.NewTickTask("t", true, 0, 10, func(*timer.TimerContext) error { n++; return nil }, nil)
	done := make(chan bool)
	op := verifsym.Choice("op", 2)
	go func() {
		if op == 0 {
			s.StartTask("t")
		} else {
			s.StopTask("t")
		}
		done <- true
	}()
	s.StartTask("t")
	<-done
	verifsym.Advance(15 * time.Millisecond)
	verifsym.Quiesce()
	if op == 0 {
		verifsym.Assert(n == 2, "one start takes effect")
	} else {
		verifsym.Assert(n == 0 || n == 1 || n == 2, "stopped or not")
	}
	verifsym.Reach("end")
}
