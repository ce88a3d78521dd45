package c14

import (
	"context"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/models/grpcm"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()

// One node, one actor whose handler may block; several senders.
func local(senders, each int) {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	blocked := verifsym.Choice("handler blocks", 2) == 1
	hold := make(chan bool)
	got := make([]int, senders*each)
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(_ core.ActorContext, mw *msg.Wrapper) error {
			if blocked {
				<-hold
			}
			got[mw.Req.Body[0]]++
			return nil
		})
	}
	var sys core.ISystem
	verifsym.Setup(func() {
		sys = w.Node("n1", "10.0.0.1")
		vn.Register(sys, "t", "a")
		verifsym.Quiesce()
	})
	target := []string{"a", "?", "~"}[verifsym.Choice("target", 3)]
	start := verifsym.Now()
	done := make(chan bool, senders)
	for s := 0; s < senders; s++ {
		go func() {
			for i := 0; i < each; i++ {
				mw := vn.Msg("")
				mw.Req.Body = []byte{byte(s*each + i)}
				if sys.Send(target, "t", "ev", mw) != nil {
					verifsym.Fail("accepted")
				}
			}
			done <- true
		}()
	}
	for s := 0; s < senders; s++ {
		<-done // although no handler may ever end
	}
	verifsym.Assert(!verifsym.Symbolic() || verifsym.Now() == start, "no waiting")
	verifsym.Reach("sent")
	close(hold)
	verifsym.Quiesce()
	for _, n := range got {
		verifsym.Assert(n == 1, "each message is handled exactly once")
	}
}

//verif: preempt=2/3
func VerifC14_One() { local(1, 2) }

//verif: preempt=2/3
func VerifC14_Two() { local(2, 1) }

//verif: preempt=1/2
func VerifC14_Many() { local(2, 2) }

// A handler sends to other actors, to its own actor and with the message it is handling.
//
//verif: preempt=1/2
func VerifC14_FromHandler() {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	hold := make(chan bool)
	same := verifsym.Choice("same message", 2) == 1
	target := []string{"a", "b", "c"}[verifsym.Choice("target", 3)]
	var n [3]int
	returned := false
	w.Setup = func(a core.IActor) {
		id := a.ID()
		vn.On(a, "go", func(c core.ActorContext, mw *msg.Wrapper) error {
			m := mw
			if !same {
				m = vn.Msg("")
			}
			err := c.Send(target, "t", "ev", m)
			verifsym.Assert((err == nil) == (target != "c"), "refused exactly if there is no such actor")
			returned = true
			return nil
		})
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			<-hold
			n[id[0]-'a']++
			return nil
		})
	}
	var sys core.ISystem
	verifsym.Setup(func() {
		sys = w.Node("n1", "10.0.0.1")
		vn.Register(sys, "t", "a")
		vn.Register(sys, "t", "b")
		verifsym.Quiesce()
	})
	verifsym.Assert(sys.Send("a", "t", "go", vn.Msg("")) == nil, "accepted")
	verifsym.Quiesce()
	verifsym.Assert(returned, "sending does not wait")
	close(hold)
	verifsym.Quiesce()
	for i, x := range n {
		verifsym.Assert(x == verifsym.B2I(target != "c" && int(target[0]-'a') == i), "handled once, by the target")
	}
	verifsym.Reach("end")
}

// An actor that is shut down refuses.
//
//verif: preempt=2/3
func VerifC14_Refused() {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	n := 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(_ core.ActorContext, mw *msg.Wrapper) error {
			n++
			return nil
		})
	}
	var sys core.ISystem
	var a core.IActor
	verifsym.Setup(func() {
		sys = w.Node("n1", "10.0.0.1")
		a, _ = vn.Register(sys, "t", "a")
		verifsym.Quiesce()
	})
	target := []string{"a", "~"}[verifsym.Choice("target", 2)]
	go a.Exit()
	ok := 0
	for i := 0; i < 2; i++ {
		if sys.Send(target, "t", "ev", vn.Msg("")) == nil {
			ok++
		}
	}
	verifsym.Quiesce()
	verifsym.Assert(n == ok, "handled exactly as often as accepted")
	verifsym.Assert(sys.Send(target, "t", "ev", vn.Msg("")) != nil, "refused")
	mw := vn.Msg("")
	mw.Req.Header.OrgActorID = "a"
	verifsym.Assert(sys.Send(target, "t", "ev", mw) != nil, "refused")
	verifsym.Quiesce()
	verifsym.Assert(n == ok, "and not handled")
	verifsym.Reach("end")
}

// Between nodes: the handler of the other node may block for ever; the first message also opens the connection.
//
//verif: preempt=1/2 native=off
func VerifC14_Remote() {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	blocked := verifsym.Choice("handler blocks", 2) == 1
	hold := make(chan bool)
	var got [3]int
	val := verifsym.Byte("value")
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(_ core.ActorContext, mw *msg.Wrapper) error {
			if blocked {
				<-hold
			}
			verifsym.Assert(mw.Req.Body[1] == val, "intact")
			verifsym.Assert(mw.Ctx.Err() == nil, "its context does not end with the request")
			mw.Res.Body = mw.Req.Body // nobody waits for it
			got[mw.Req.Body[0]]++
			return nil
		})
	}
	var sys core.ISystem
	verifsym.Setup(func() {
		sys = w.NodeAt("n1", "127.0.0.1", 27141)
		vn.Register(w.NodeAt("n2", "127.0.0.1", 27142), "t", "a")
		verifsym.Quiesce()
	})
	target := []string{"a", "?", "~"}[verifsym.Choice("target", 3)]
	out := grpcm.Outcome(verifsym.Choice("network", 3))
	bad := verifsym.Choice("message", 2)
	k := -1
	grpcm.Fault = func(string, string) grpcm.Outcome {
		k++
		if k == bad {
			return out
		}
		return grpcm.OK
	}
	start := verifsym.Now()
	for i := 0; i < 2; i++ {
		mw := vn.Msg("")
		mw.Req.Body = []byte{byte(i), val}
		err := sys.Send(target, "t", "ev", mw)
		verifsym.Assert((err == nil) == (i != bad || out == grpcm.OK), "an error exactly if the transport failed")
	}
	verifsym.Assert(verifsym.Now() == start, "no waiting")
	verifsym.Reach("sent")
	close(hold)
	verifsym.Quiesce()
	for i := 0; i < 2; i++ {
		verifsym.Assert(got[i] == verifsym.B2I(i != bad || out != grpcm.Lost), "handled once if it arrived")
	}
}

// The other node refuses.
//
//verif: preempt=1/2
func VerifC14_RemoteRefused() {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	n := 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(_ core.ActorContext, mw *msg.Wrapper) error {
			n++
			return nil
		})
	}
	var sys core.ISystem
	var a core.IActor
	verifsym.Setup(func() {
		sys = w.NodeAt("n1", "127.0.0.1", 27143)
		a, _ = vn.Register(w.NodeAt("n2", "127.0.0.1", 27144), "t", "a")
		verifsym.Quiesce()
	})
	mw := vn.Msg("")
	if verifsym.Choice("why", 2) == 0 {
		a.Exit()
	} else {
		mw.Req.Header.OrgActorID = "a"
	}
	target := []string{"a", "?", "~"}[verifsym.Choice("target", 3)]
	verifsym.Assert(sys.Send(target, "t", "ev", mw) != nil, "an error")
	verifsym.Quiesce()
	verifsym.Assert(n == 0, "not handled")
	verifsym.Reach("end")
}

// The sender's context ends before or while it sends: the result still tells whether the message was queued.
//
//verif: preempt=2/3
func VerifC14_ContextEnded() {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	n := 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(_ core.ActorContext, mw *msg.Wrapper) error {
			n++
			return nil
		})
	}
	var sys core.ISystem
	verifsym.Setup(func() {
		sys = w.Node("n1", "10.0.0.1")
		vn.Register(sys, "t", "a")
		verifsym.Quiesce()
	})
	target := []string{"a", "?", "~"}[verifsym.Choice("target", 3)]
	c, cancel := context.WithCancel(ctx)
	if verifsym.Choice("when", 2) == 0 {
		cancel()
	} else {
		go cancel()
	}
	err := sys.Send(target, "t", "ev", vh.MsgCtx(c, ""))
	verifsym.Quiesce()
	verifsym.Assert(n == verifsym.B2I(err == nil), "handled once exactly if it was accepted")
	cancel()
	verifsym.Reach("end")
}

// Any number of messages may wait for a busy actor.
//
//verif: preempt=0 native=off maporder=0 time=60 steps=80000000
func VerifC14_Backlog() {
	const many = 1100
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	hold := make(chan bool)
	n := 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(_ core.ActorContext, mw *msg.Wrapper) error {
			if n == 0 {
				<-hold
			}
			n++
			return nil
		})
	}
	var sys core.ISystem
	verifsym.Setup(func() {
		sys = w.Node("n1", "10.0.0.1")
		vn.Register(sys, "t", "a")
		verifsym.Quiesce()
	})
	sent := 0
	go func() {
		for sent < many && sys.Send("a", "t", "ev", vn.Msg("")) == nil {
			sent++
		}
	}()
	verifsym.Quiesce()
	verifsym.Assert(sent == many, "all accepted without waiting")
	verifsym.Assert(n == 0, "the actor is busy")
	close(hold)
	verifsym.Quiesce()
	verifsym.Assert(n == many, "all handled")
	verifsym.Reach("end")
}
