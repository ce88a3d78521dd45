package c03

import (
	"context"
	"errors"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

const callLimit = int64(5e9)

// tree runs one call whose handlers call further actors with the same message; shape[x] lists the actors x calls.
func tree(shape [3][]int, outcomes bool) {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	ids := []string{"a", "b", "c"}
	var started, finished, want, out [3]int // by actor: handlers of one actor never overlap
	var val [3]byte
	order := []int{0}
	for len(order) > 0 {
		x := order[0]
		want[x]++
		order = append(order[1:], shape[x]...)
	}
	written := make([]byte, 3)
	w.Setup = func(a core.IActor) {
		id := int(a.ID()[0] - 'a')
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			started[id]++
			for _, to := range shape[id] {
				if c.Call(ids[to], "t", "ev", mw) != nil {
					verifsym.Fail("nested call refused")
				}
			}
			verifsym.Yield()
			written[id] += val[id]
			if id == 0 {
				mw.Res.Body = written
			}
			finished[id]++
			switch out[id] {
			case 1:
				return vh.ErrHandler
			case 2:
				panic("handler panics")
			}
			return nil
		})
	}
	sys := w.Node("n1", "10.0.0.1")
	for i, id := range ids {
		if want[i] > 0 {
			val[i] = verifsym.Byte("value " + id)
			if outcomes {
				out[i] = verifsym.Choice("outcome "+id, 3)
			}
			vn.Register(sys, "t", id)
		}
	}
	mw := vn.Msg("ev")
	h := mw.Req.Header // whatever the message was used for before
	h.PrevActorType, h.Token, h.TargetActorID = verifsym.String("prev", 1), verifsym.String("token", 1), verifsym.String("target", 1)
	if verifsym.Choice("origin", 2) == 1 {
		h.OrgActorID, h.OrgActorType = "other", "t"
	}
	err := sys.Call("a", "t", "ev", mw)
	verifsym.Assert(err == nil && mw.Err == nil, "the call succeeds")
	verifsym.Assert(started == want && finished == want, "every handler of the tree has finished")
	ok := true
	for i := range ids {
		ok = verifsym.And(ok, mw.Res.Body[i] == val[i]*byte(want[i]))
	}
	verifsym.Assert(ok, "what they wrote is visible")
	verifsym.Quiesce()
	verifsym.Assert(started == want, "each handler ran once")
	verifsym.Reach("end")
}

//verif: preempt=2/3
func VerifC03_Single() { tree([3][]int{}, true) }

//verif: preempt=2/3
func VerifC03_Chain2() { tree([3][]int{{1}}, true) }

//verif: preempt=1/2
func VerifC03_Chain3() { tree([3][]int{{1}, {2}}, false) }

//verif: preempt=1/2
func VerifC03_Fan() { tree([3][]int{{1, 2}}, false) }

// Two messages to one nested actor from the same handler.
//
//verif: preempt=1/2
func VerifC03_Twice() { tree([3][]int{{1, 1}}, false) }

// node with the actors a and b; handlers of "slow" take as long as wait says.
func pair(h func(id string, c core.ActorContext, mw *msg.Wrapper) error) core.ISystem {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	w.Setup = func(a core.IActor) {
		id := a.ID()
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error { return h(id, c, mw) })
	}
	sys := w.Node("n1", "10.0.0.1")
	vn.Register(sys, "t", "a")
	vn.Register(sys, "t", "b")
	return sys
}

// The caller's context ends at any moment.
//
//verif: preempt=2/3
func VerifC03_Cancel() {
	nested := verifsym.Choice("nested", 2) == 1
	var done [2]bool
	finished := func() bool { return done[0] && (done[1] || !nested) }
	sys := pair(func(id string, c core.ActorContext, mw *msg.Wrapper) error {
		if nested && id == "a" {
			if c.Call("b", "t", "ev", mw) != nil {
				verifsym.Fail("nested call accepted")
			}
		}
		verifsym.Yield()
		done[id[0]-'a'] = true
		return nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	mw := vh.MsgCtx(ctx, "ev")
	cancelled := false
	go func() {
		cancelled = true
		cancel()
	}()
	err := sys.Call("a", "t", "ev", mw)
	if err == nil {
		verifsym.Reach("success")
		verifsym.Assert(finished(), "success only after the whole tree")
		verifsym.Assert(mw.Err == nil, "without error")
	} else {
		verifsym.Reach("cancelled")
		verifsym.Assert(cancelled, "an error only because the context ended")
		verifsym.Assert(errors.Is(mw.Err, err) || mw.Err == err, "the message carries it too")
	}
	verifsym.Quiesce()
	verifsym.Assert(finished(), "the handlers still finish")
}

// A handler that never ends.
//
//verif: preempt=1/2
func VerifC03_Blocked() {
	deep := verifsym.Choice("deep", 2) == 1
	hold := make(chan bool)
	sys := pair(func(id string, c core.ActorContext, mw *msg.Wrapper) error {
		if deep && id == "a" {
			return c.Call("b", "t", "ev", mw)
		}
		<-hold
		return nil
	})
	how := verifsym.Choice("how", 3) // nothing else, cancelled, deadline
	ctx, cancel := context.WithCancel(context.Background())
	switch how {
	case 1:
		go cancel()
	case 2:
		ctx, cancel = context.WithTimeout(context.Background(), 2e9)
	}
	mw := vh.MsgCtx(ctx, "ev")
	start := verifsym.Now()
	err := sys.Call("a", "t", "ev", mw)
	took := verifsym.Now() - start
	if how == 0 {
		verifsym.Assert(mw.Err != nil, "the limit is reported in the message")
		verifsym.Assert(!verifsym.Symbolic() || took == callLimit, "after five seconds")
	} else {
		verifsym.Assert(err != nil, "an error when the context ends")
		verifsym.Assert(!verifsym.Symbolic() || took == int64(how-1)*2e9, "as soon as it ends")
	}
	cancel()
	close(hold)
	verifsym.Quiesce()
	verifsym.Reach("end")
}

// The five second limit, the context's own deadline and the handler race.
//
//verif: preempt=1/2 async=2
func VerifC03_Limit() {
	finished := 0
	sys := pair(func(id string, c core.ActorContext, mw *msg.Wrapper) error {
		verifsym.Yield()
		finished++
		return nil
	})
	ctx := context.Background()
	if verifsym.Choice("deadline", 2) == 1 {
		c, cancel := context.WithTimeout(ctx, 3e9)
		defer cancel()
		ctx = c
	}
	mw := vh.MsgCtx(ctx, "ev")
	err := sys.Call("a", "t", "ev", mw)
	fin, e2 := finished, mw.Err
	if err == nil && e2 == nil {
		verifsym.Reach("success")
		verifsym.Assert(fin == 1, "success only after the handler")
	} else {
		verifsym.Reach("late")
	}
	verifsym.Quiesce()
	verifsym.Assert(finished == 1, "the handler runs once")
}

// A message refused by one actor (shut down, or its own origin) can be delivered to another one.
//
//verif: preempt=2/3
func VerifC03_RefusedThenRetried() {
	finished := 0
	sys := pair(func(id string, c core.ActorContext, mw *msg.Wrapper) error {
		verifsym.Yield()
		finished++
		return nil
	})
	mw := vn.Msg("ev")
	if verifsym.Choice("why", 2) == 0 {
		a, _ := sys.FindActor(context.Background(), "a")
		a.Exit()
	} else {
		mw.Req.Header.OrgActorID = "a"
	}
	verifsym.Assert(sys.Call("a", "t", "ev", mw) != nil, "refused")
	verifsym.Assert(finished == 0, "not handled")
	err := sys.Call("b", "t", "ev", mw)
	verifsym.Assert(err == nil && mw.Err == nil, "accepted")
	verifsym.Assert(finished == 1, "and handled before the call returns")
	verifsym.Quiesce()
	verifsym.Assert(finished == 1, "once")
	verifsym.Reach("end")
}

// One message used for two calls in a row.
//
//verif: preempt=2/3
func VerifC03_Again() {
	finished := 0
	sys := pair(func(id string, c core.ActorContext, mw *msg.Wrapper) error {
		verifsym.Yield()
		finished++
		return nil
	})
	mw := vn.Msg("ev")
	to := []string{"a", "b"}[verifsym.Choice("to", 2)]
	verifsym.Assert(sys.Call("a", "t", "ev", mw) == nil && finished == 1, "first call")
	verifsym.Assert(sys.Call(to, "t", "ev", mw) == nil && finished == 2, "second call")
	verifsym.Quiesce()
	verifsym.Reach("end")
}

// A handler calls another actor with a message of its own: that call waits, whoever makes it.
//
//verif: preempt=2/3
func VerifC03_OwnMessage() {
	finished, seen := 0, false
	how := verifsym.Choice("how", 2)
	var sys core.ISystem
	sys = pair(func(id string, c core.ActorContext, mw *msg.Wrapper) error {
		if id == "a" {
			own := vn.Msg("ev")
			if how == 0 {
				verifsym.Assert(c.Call("b", "t", "ev", own) == nil && own.Err == nil, "the inner call succeeds")
			} else {
				verifsym.Assert(sys.Call("b", "t", "ev", own) == nil && own.Err == nil, "the inner call succeeds")
			}
			seen = finished == 1 && len(own.Res.Body) == 1 && own.Res.Body[0] == 7
			return nil
		}
		verifsym.Yield()
		mw.Res.Body = []byte{7}
		finished++
		return nil
	})
	mw := vn.Msg("ev")
	verifsym.Assert(sys.Call("a", "t", "ev", mw) == nil && mw.Err == nil, "the outer call succeeds")
	verifsym.Assert(seen, "the inner call returned after its handler")
	verifsym.Quiesce()
	verifsym.Assert(finished == 1, "once")
	verifsym.Reach("end")
}

// A handler builds its own message from the context of the one it handles: it belongs to the same tree, so the
// inner call only queues and the outer one waits for it.
//
//verif: preempt=2/3
func VerifC03_BuiltFromContext() {
	var finished [2]int
	sys := pair(func(id string, c core.ActorContext, mw *msg.Wrapper) error {
		if id == "a" {
			own := msg.NewBuilder(mw.Ctx).Build()
			verifsym.Assert(c.Call("b", "t", "ev", own) == nil && own.Err == nil, "the inner call is accepted")
			verifsym.Yield()
		}
		verifsym.Yield()
		finished[id[0]-'a']++
		return nil
	})
	mw := vn.Msg("ev")
	start := verifsym.Now()
	verifsym.Assert(sys.Call("a", "t", "ev", mw) == nil && mw.Err == nil, "the outer call succeeds")
	verifsym.Assert(!verifsym.Symbolic() || verifsym.Now() == start, "without any limit passing")
	verifsym.Assert(finished == [2]int{1, 1}, "after both handlers")
	verifsym.Reach("end")
}

// The message carries the error of an earlier use.
//
//verif: preempt=2/3
func VerifC03_EarlierError() {
	finished := 0
	sys := pair(func(id string, c core.ActorContext, mw *msg.Wrapper) error {
		verifsym.Yield()
		mw.Res.Body = []byte{5}
		finished++
		return nil
	})
	mw := vn.Msg("ev")
	mw.Err = vh.ErrHandler
	err := sys.Call("a", "t", "ev", mw)
	verifsym.Assert(err == nil, "the call succeeds")
	verifsym.Assert(finished == 1 && len(mw.Res.Body) == 1 && mw.Res.Body[0] == 5, "after the handler finished")
	verifsym.Reach("end")
}
