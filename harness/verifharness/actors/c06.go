package actors

import (
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifsym"
)

type cbRec struct {
	n   int
	got *msg.Wrapper
}

// future races completers against registrations of callbacks; everything must run exactly once
// with the result of the single effective completion, and the chained futures complete after it.
func future(completers, thens int, chain bool) {
	f := actor.NewFuture()
	res := make([]*msg.Wrapper, completers)
	for i := range res {
		res[i] = &msg.Wrapper{}
	}
	recs := make([]cbRec, thens)
	chained := make([]cbRec, thens)
	nexts := make([]core.IFuture, thens)
	done := make(chan bool, completers+thens)
	for i := 0; i < completers; i++ {
		go func() {
			f.Complete(res[i])
			verifsym.Assert(f.IsCompleted(), "completed after Complete returns")
			done <- true
		}()
	}
	for j := 0; j < thens; j++ {
		go func() {
			nexts[j] = f.Then(func(mw *msg.Wrapper) {
				recs[j].n++
				recs[j].got = mw
			})
			if chain {
				nexts[j].Then(func(mw *msg.Wrapper) {
					verifsym.Assert(recs[j].n == 1, "chained callback runs after the callback itself")
					chained[j].n++
					chained[j].got = mw
				})
			}
			done <- true
		}()
	}
	for i := 0; i < completers+thens; i++ {
		<-done
	}
	verifsym.Quiesce()
	verifsym.Assert(f.IsCompleted(), "completed")
	var first *msg.Wrapper
	for j := range recs {
		verifsym.Assert(recs[j].n == 1, "callback runs exactly once")
		if first == nil {
			first = recs[j].got
		}
		verifsym.Assert(recs[j].got == first, "all callbacks get the same result")
		verifsym.Assert(nexts[j].IsCompleted(), "the returned future completes")
		if chain {
			verifsym.Assert(chained[j].n == 1, "callback of the returned future runs exactly once")
			verifsym.Assert(chained[j].got == first, "returned future completes with the same result")
		}
	}
	known := false
	for _, r := range res {
		known = verifsym.Or(known, r == first)
	}
	verifsym.Assert(known, "result is one that was completed with")
	// later completions and registrations
	f.Complete(&msg.Wrapper{})
	var late cbRec
	f.Then(func(mw *msg.Wrapper) { late.n++; late.got = mw })
	verifsym.Quiesce()
	verifsym.Assert(late.n == 1 && late.got == first, "late callback runs once with the first result")
	verifsym.Reach("end")
}

//verif: preempt=2/3
func VerifC06_OneCompleterTwoThens() { future(1, 2, false) }

//verif: preempt=2/3
func VerifC06_TwoCompletersOneThen() { future(2, 1, false) }

//verif: preempt=2/3
func VerifC06_Chained() { future(1, 1, true) }

// Sequential histories of Complete and Then with symbolic choices.
//verif: preempt=0/1
func VerifC06_Histories() {
	f := actor.NewFuture()
	n := verifsym.Size(3, 5)
	var first *msg.Wrapper
	recs := make([]cbRec, n)
	nexts := make([]core.IFuture, n)
	for i := 0; i < n; i++ {
		verifsym.Assert(f.IsCompleted() == (first != nil), "completed iff Complete was called")
		if verifsym.Bool("complete") {
			r := vh.Msg("r")
			f.Complete(r)
			if first == nil {
				first = r
			}
		} else {
			nexts[i] = f.Then(func(mw *msg.Wrapper) { recs[i].n++; recs[i].got = mw })
		}
	}
	verifsym.Quiesce()
	for i := range recs {
		if nexts[i] == nil {
			continue
		}
		if first == nil {
			verifsym.Assert(recs[i].n == 0 && !nexts[i].IsCompleted(), "nothing runs before completion")
			continue
		}
		verifsym.Assert(recs[i].n == 1 && recs[i].got == first, "callback ran once with the first result")
		verifsym.Assert(nexts[i].IsCompleted(), "returned future completed")
	}
	verifsym.Reach("end")
}

// A completion without a result counts as any other.
//verif: preempt=2/3
func VerifC06_Nil() {
	f := actor.NewFuture()
	var recs [3]cbRec
	then := func(i int) core.IFuture {
		return f.Then(func(mw *msg.Wrapper) { recs[i].n++; recs[i].got = mw })
	}
	n0 := then(0)
	go func() {
		f.Complete(nil)
		f.Complete(vh.Msg("later"))
	}()
	n1 := then(1)
	verifsym.Quiesce()
	verifsym.Assert(f.IsCompleted(), "completed")
	n2 := then(2)
	f.Complete(vh.Msg("latest"))
	verifsym.Quiesce()
	for _, r := range recs {
		verifsym.Assert(r.n == 1 && r.got == nil, "each callback once with the first result")
	}
	verifsym.Assert(n0.IsCompleted() && n1.IsCompleted() && n2.IsCompleted(), "the returned futures complete")
	verifsym.Reach("end")
}

// A callback uses the future it was called by.
//verif: preempt=1/2
func VerifC06_FromCallback() {
	f := actor.NewFuture()
	r := vh.Msg("r")
	var outer, inner cbRec
	var next core.IFuture
	reg := func() {
		f.Then(func(mw *msg.Wrapper) {
			verifsym.Assert(f.IsCompleted(), "completed when its callbacks run")
			f.Complete(vh.Msg("later"))
			next = f.Then(func(mw *msg.Wrapper) { inner.n++; inner.got = mw })
			outer.n++
			outer.got = mw
		})
	}
	late := verifsym.Choice("late", 2) == 1
	if !late {
		reg()
	}
	f.Complete(r)
	if late {
		reg()
	}
	verifsym.Quiesce()
	verifsym.Assert(outer.n == 1 && outer.got == r, "the callback ran once")
	verifsym.Assert(inner.n == 1 && inner.got == r, "so did the one it registered")
	verifsym.Assert(next.IsCompleted(), "and its future completed")
	verifsym.Reach("end")
}

// A callback that waits for another one does not keep it from running, nor the completion from returning.
//
//verif: preempt=1/2
func VerifC06_Waiting() {
	f := actor.NewFuture()
	r := vh.Msg("r")
	gate := make(chan bool)
	waiter, opener := cbRec{}, cbRec{}
	regW := func() { f.Then(func(mw *msg.Wrapper) { <-gate; waiter.n++; waiter.got = mw }) }
	regO := func() { f.Then(func(mw *msg.Wrapper) { close(gate); opener.n++; opener.got = mw }) }
	when := verifsym.Choice("completed", 3)
	complete := func(i int) {
		if when == i {
			f.Complete(r)
		}
	}
	complete(0)
	if verifsym.Choice("order", 2) == 0 {
		regW()
		complete(1)
		regO()
	} else {
		regO()
		complete(1)
		regW()
	}
	complete(2)
	verifsym.Quiesce()
	verifsym.Assert(waiter.n == 1 && waiter.got == r && opener.n == 1 && opener.got == r, "both ran once with the result")
	verifsym.Reach("end")
}
