package c07

import (
	"context"
	"errors"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

var errCall = errors.New("call failed")

// answer is the callee's behaviour.
const (
	answers   = iota // responds
	fails            // the call returns an error
	limit            // the call returns without error but the message carries one
	hangs            // never returns
	honours          // returns an error when the context ends
	behaviours
)

// caller is an actor issuing reentrant calls against a stub system.
func caller(n int, how func(i int) int, val func(i int) byte, hold chan bool) (core.IActor, *vh.Sys) {
	sys := &vh.Sys{}
	sys.OnCall = func(id, ty, ev string, mw *msg.Wrapper) error {
		i := int(mw.Req.Body[0])
		switch how(i) {
		case answers:
			mw.Res = &router.Message{Header: &router.Header{}, Body: []byte{val(i)}}
			return nil
		case fails:
			return errCall
		case limit:
			mw.Err = errCall
			return nil
		case honours:
			<-mw.Ctx.Done()
			return mw.Ctx.Err()
		}
		<-hold
		return nil
	}
	return vh.Runtime("a", "t", sys), sys
}

// One reentrant call issued by a handler, any outcome, with and without its context being cancelled.
func one(ctxs int) {
	val, how := verifsym.Byte("value"), verifsym.Choice("callee", behaviours)
	hold := make(chan bool)
	a, _ := caller(1, func(int) int { return how }, func(int) byte { return val }, hold)
	ctx := context.Background()
	var cancel func()
	ends := false // the context may end
	switch verifsym.Choice("context", ctxs) {
	case 1:
		ctx, cancel = context.WithCancel(ctx)
		ends = true
	case 2:
		ctx, cancel = context.WithTimeout(ctx, 1e9)
		ends = true
	}
	n, then := 0, 0
	var res *msg.Wrapper
	rmw := vh.MsgCtx(ctx, "")
	own := rmw.Res
	returned, busy := false, false
	vh.On(a, "go", func(mw *msg.Wrapper) error {
		busy = true
		rmw.Req.Body = []byte{0}
		f := a.ReenterCall("b", "t", "ev", rmw)
		verifsym.Yield()
		verifsym.Assert(rmw.Res == own && rmw.Err == nil, "nothing arrives during the turn that issued it")
		f2 := f.Then(func(r *msg.Wrapper) {
			n++
			c := *r // as it was when the future completed
			res = &c
		})
		f2.Then(func(r *msg.Wrapper) { then++ })
		returned = true
		busy = false
		return nil
	})
	other := 0
	vh.On(a, "other", func(mw *msg.Wrapper) error {
		r, e := rmw.Res, rmw.Err
		verifsym.Yield()
		verifsym.Assert(rmw.Res == r && rmw.Err == e, "the response arrives on the actor's own turn")
		other++
		return nil
	})
	a.Received(vh.Msg("go"))
	if cancel != nil && verifsym.Choice("cancel", 2) == 1 {
		go cancel()
	}
	a.Received(vh.Msg("other"))
	verifsym.Quiesce()
	verifsym.Assert(returned && !busy, "issuing it does not block")
	verifsym.Assert(other == 1, "other messages are handled meanwhile")
	if how == hangs && !ends {
		verifsym.Assert(n == 0, "no answer yet")
		verifsym.Reach("pending")
		return
	}
	if cancel != nil {
		cancel()
		verifsym.Quiesce()
	}
	if how == honours && !ends {
		return
	}
	verifsym.Assert(n == 1 && then == 1, "the future completes exactly once")
	byCtx := res.Err != nil && (errors.Is(res.Err, context.Canceled) || errors.Is(res.Err, context.DeadlineExceeded))
	switch {
	case byCtx:
		verifsym.Assert(ends, "only if the context ended")
		verifsym.Reach("context")
	case how == answers:
		verifsym.Assert(res.Err == nil && res.Res != nil && len(res.Res.Body) == 1, "the callee's response")
		verifsym.Assert(res.Res.Body[0] == val, "unchanged")
		verifsym.Reach("answer")
	default:
		verifsym.Assert(errors.Is(res.Err, errCall), "the call's error")
		verifsym.Reach("error")
	}
	close(hold)
	verifsym.Quiesce()
	verifsym.Assert(n == 1 && then == 1, "and not again")
}

//verif: preempt=1/2
func VerifC07_One() { one(1) }

//verif: preempt=1/2
func VerifC07_Cancelled() { one(2) }

//verif: preempt=0/1 async=1/2
func VerifC07_Deadline() { one(3) }

// Two reentrant calls at the same time get their own answers.
//
//verif: preempt=1/2 states=400000
func VerifC07_Two() {
	var val [2]byte
	var how [2]int
	for i := range val {
		val[i], how[i] = verifsym.Byte("value"), verifsym.Choice("callee", 3)
	}
	a, _ := caller(2, func(i int) int { return how[i] }, func(i int) byte { return val[i] }, nil)
	var n [2]int
	var res [2]*msg.Wrapper
	vh.On(a, "go", func(mw *msg.Wrapper) error {
		i := int(mw.Req.Body[0])
		r := vh.Msg("")
		r.Req.Body = []byte{byte(i)}
		a.ReenterCall("b", "t", "ev", r).Then(func(r *msg.Wrapper) {
			n[i]++
			c := *r // as it was when the future completed
			res[i] = &c
		})
		return nil
	})
	for i := 0; i < 2; i++ {
		m := vh.Msg("go")
		m.Req.Body = []byte{byte(i)}
		a.Received(m)
	}
	verifsym.Quiesce()
	for i := range val {
		verifsym.Assert(n[i] == 1, "each future completes once")
		if how[i] == answers {
			verifsym.Assert(res[i].Err == nil && res[i].Res.Body[0] == val[i], "with its own response")
		} else {
			verifsym.Assert(errors.Is(res[i].Err, errCall), "with its own error")
		}
	}
	verifsym.Reach("end")
}

// Against a real node: responses, failing, panicking and blocked callees, unknown targets.
//
//verif: preempt=0/1
func VerifC07_Node() {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	how := verifsym.Choice("callee", 5)
	val := verifsym.Byte("value")
	hold := make(chan bool)
	n, other, runs := 0, 0, 0
	left := false
	same := verifsym.Choice("same message", 2) == 1
	var res *msg.Wrapper
	target := "b"
	if how == 4 {
		target = "nobody"
	}
	w.Setup = func(a core.IActor) {
		vn.On(a, "go", func(c core.ActorContext, mw *msg.Wrapper) error {
			r := mw // the message being handled, or a new one
			if !same {
				r = vn.Msg("")
			}
			r.Req.Body = []byte{val}
			c.ReenterCall(target, "t", "ev", r).Then(func(r *msg.Wrapper) {
				done := left
				verifsym.Assert(r.Err != nil || done, "a response only after the callee's handler")
				n++
				cp := *r // as it was when the future completed
				res = &cp
			})
			verifsym.Advance(1000) // the call starts while the handler is still running
			return nil
		})
		vn.On(a, "other", func(c core.ActorContext, mw *msg.Wrapper) error {
			other++
			return nil
		})
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			runs++
			verifsym.Advance(5000)
			defer func() { left = true }()
			switch how {
			case 1:
				return vh.ErrHandler
			case 2:
				panic("callee panics")
			case 3:
				<-hold
			}
			mw.Res.Body = []byte{mw.Req.Body[0] + 1}
			return nil
		})
	}
	sys := w.Node("n1", "10.0.0.1")
	vn.Register(sys, "t", "a")
	vn.Register(sys, "t", "b")
	verifsym.Assert(sys.Call("a", "t", "go", vn.Msg("go")) == nil, "the handler returns")
	verifsym.Assert(sys.Call("a", "t", "other", vn.Msg("other")) == nil && other == 1, "other messages are handled meanwhile")
	verifsym.Advance(6e9)
	verifsym.Quiesce()
	verifsym.Assert(n == 1, "the future completes exactly once")
	switch how {
	case 0:
		verifsym.Assert(res.Err == nil && len(res.Res.Body) == 1 && res.Res.Body[0] == val+1, "the response")
		verifsym.Assert(runs == 1, "of the one handler")
	case 1, 2:
		verifsym.Assert(res.Err == nil && len(res.Res.Body) == 0 && runs == 1, "an empty response")
	case 3:
		verifsym.Assert(res.Err != nil, "the limit is an error")
		close(hold)
		verifsym.Quiesce()
		verifsym.Assert(n == 1, "not completed again")
	case 4:
		verifsym.Assert(res.Err != nil && runs == 0, "no such actor")
	}
	verifsym.Reach("end")
}
