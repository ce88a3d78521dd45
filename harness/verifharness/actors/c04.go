package actors

import (
	"time"

	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifsym"
)

const closeLimit = 10 * time.Second

// shutdown races Exit against senders: everything accepted is handled before Exit returns, nothing
// runs afterwards, and later deliveries are refused.  Runs in which the ten second limit passes are
// only required to return and to refuse.
func shutdown(senders, each, before, exits int) {
	a := vh.Runtime("a", "T", nil)
	exited := false
	handled, accepted := 0, 0
	acc := make([]int, senders+1)
	start := int64(0)
	inTime := func() bool { return start == 0 || verifsym.Now()-start < int64(closeLimit) }
	vh.On(a, "ok", func(mw *msg.Wrapper) error {
		ex := exited
		verifsym.Assert(!(ex && inTime()), "no handler runs after Exit returned")
		verifsym.Yield()
		ex = exited
		verifsym.Assert(!(ex && inTime()), "no handler still running when Exit returned")
		handled++
		return nil
	})
	send := func(s int) {
		if a.Received(vh.Msg("ok")) == nil {
			acc[s]++
		}
	}
	for i := 0; i < before; i++ {
		send(senders)
	}
	verifsym.Assert(acc[senders] == before, "running actor accepts")
	done := make(chan bool, senders+exits)
	for s := 0; s < senders; s++ {
		go func() {
			for i := 0; i < each; i++ {
				send(s)
			}
			done <- true
		}()
	}
	start = verifsym.Now()
	for e := 1; e < exits; e++ {
		go func() {
			a.Exit()
			done <- true
		}()
	}
	a.Exit()
	exited = true
	atExit := handled
	verifsym.Reach("exit returned")
	for s := 0; s < senders+exits-1; s++ {
		<-done
	}
	verifsym.Assert(a.Received(vh.Msg("ok")) != nil, "delivery after Exit is refused")
	verifsym.Quiesce()
	for _, n := range acc {
		accepted += n
	}
	if inTime() {
		verifsym.Reach("within the limit")
		verifsym.Assert(handled == accepted, "every accepted message is handled")
		verifsym.Assert(atExit == accepted, "handled before Exit returned")
	}
}

// Two messages queued, then Exit.
//verif: preempt=2/3
func VerifC04_Queued() { shutdown(0, 0, 2, 1) }

// One sender racing with Exit.
//verif: preempt=2/3
func VerifC04_Racing() { shutdown(1, 1, 0, 1) }

// One message queued, one sender racing with Exit.
//verif: preempt=2/3
func VerifC04_QueuedRacing() { shutdown(1, verifsym.Size(1, 2), 1, 1) }

// Two senders racing with Exit.
//verif: preempt=2/3
func VerifC04_TwoRacing() { shutdown(2, 1, 0, 1) }

// Exit called twice at the same time: both return, neither crashes.
//verif: preempt=2/3
func VerifC04_TwoExits() { shutdown(0, 0, 1, 2) }

// The limit may expire at any point.
//verif: preempt=1/2 async=1
func VerifC04_Limit() { shutdown(0, 0, 1, 1) }

// Timers registered before the shutdown do not fire after it.
//verif: preempt=1/2 async=1/2
func VerifC04_Timer() {
	a := vh.Runtime("a", "T", nil)
	exited := false
	start := int64(0)
	a.OnTimer(10, 10, func(interface{}) error {
		ex := exited
		verifsym.Assert(!(ex && verifsym.Now()-start < int64(closeLimit)), "no timer callback after Exit returned")
		verifsym.Yield()
		ex = exited
		verifsym.Assert(!(ex && verifsym.Now()-start < int64(closeLimit)), "no timer callback still running when Exit returned")
		return nil
	}, nil)
	if verifsym.Bool("wait") {
		verifsym.Advance(25 * time.Millisecond)
	}
	start = verifsym.Now()
	a.Exit()
	exited = true
	verifsym.Advance(40 * time.Millisecond)
	verifsym.Reach("end")
}

// A handler (or a timer callback) that does not end: the limit ends the shutdown, later deliveries
// are refused all the same.
//verif: preempt=1/2
func VerifC04_Stuck() {
	a := vh.Runtime("a", "T", nil)
	hold := make(chan bool)
	started := 0
	queued := verifsym.Choice("queued", 2)
	if verifsym.Choice("timer", 2) == 0 {
		vh.On(a, "ok", func(mw *msg.Wrapper) error {
			started++
			<-hold
			return nil
		})
	} else {
		a.OnTimer(0, 0, func(interface{}) error {
			started++
			<-hold
			return nil
		}, nil)
		queued--
	}
	for i := -1; i < queued; i++ {
		verifsym.Assert(a.Received(vh.Msg("ok")) == nil, "accepted")
	}
	verifsym.Advance(time.Millisecond)
	verifsym.Assert(started == 1, "busy")
	start := verifsym.Now()
	a.Exit()
	took := verifsym.Now() - start
	verifsym.Assert(!verifsym.Symbolic() || took == int64(closeLimit), "the limit ends it")
	verifsym.Assert(a.Received(vh.Msg("ok")) != nil, "delivery after Exit is refused")
	close(hold)
	verifsym.Quiesce()
	verifsym.Assert(a.Received(vh.Msg("ok")) != nil, "still refused")
	verifsym.Reach("end")
}
