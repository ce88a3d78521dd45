package actors

import (
	"context"
	"errors"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifsym"
)

// Order, early stop and returned error of a chain, for every number of steps and every failing set.
func VerifC09_ChainOrder() {
	max := verifsym.Size(2, 4)
	nb, na := verifsym.Choice("before", max+1), verifsym.Choice("after", max+1)
	total := nb + 1 + na
	errs := make([]error, total)
	fail := make([]bool, total)
	for i := range errs {
		errs[i] = errors.New("step")
		fail[i] = verifsym.Bool("fail")
	}
	var ran []int
	state := verifsym.Choice("message", 4) // its own state decides nothing
	m := vh.Msg("e")
	switch state {
	case 1:
		m.Err = vh.ErrHandler
	case 2:
		ctx, cancel := context.WithCancel(m.Ctx)
		cancel()
		m.Ctx = ctx
	}
	step := func(i int) actor.EventHandler {
		return func(mw *msg.Wrapper) error {
			ran = append(ran, i)
			verifsym.Assert(mw == m, "with the message")
			if state == 3 {
				mw.Err = vh.ErrHandler
			}
			if fail[i] {
				return errs[i]
			}
			return nil
		}
	}
	ch := &actor.DefaultChain{Handler: step(nb)}
	for i := 0; i < nb; i++ {
		ch.Before = append(ch.Before, step(i))
	}
	for i := 0; i < na; i++ {
		ch.After = append(ch.After, step(nb+1+i))
	}
	err := ch.Execute(m)
	var want error
	n := total
	for i := range fail {
		if fail[i] {
			want = errs[i]
			n = i + 1
			break
		}
	}
	verifsym.Assert(len(ran) == n, "stops at the first failing step and only there")
	for i := range ran {
		verifsym.Assert(ran[i] == i, "before, handler, after in order")
	}
	verifsym.Assert(err == want, "reports the failing step's error")
	if want == nil {
		verifsym.Reach("all succeed")
	} else {
		verifsym.Reach("failure")
	}
}

// Registering an event twice is refused and the first registration stays in force, for all names.
//verif: preempt=0
func VerifC09_DuplicateEvent() {
	a := vh.Runtime("a", "T", nil)
	var hits []int
	reg := func(ev string, tag int) error {
		return a.OnEvent(ev, func(core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(*msg.Wrapper) error { hits = append(hits, tag); return nil }}
		})
	}
	e1, e2 := verifsym.String("e1", 2), verifsym.String("e2", 2)
	verifsym.Assert(reg(e1, 1) == nil, "first registration accepted")
	err := reg(e2, 2)
	verifsym.Assert((err != nil) == (e1 == e2), "second registration refused iff same name")
	verifsym.Assert(verifsym.Implies(e1 == e2, reg(e2, 3) != nil), "third registration refused as well")
	m1, m2 := vh.Msg(e1), vh.Msg(e2)
	a.Received(m1)
	a.Received(m2)
	m1.GetWg().Wait()
	m2.GetWg().Wait()
	verifsym.Assert(len(hits) == 2 && hits[0] == 1, "first registration in force")
	if e1 == e2 {
		verifsym.Reach("same")
		verifsym.Assert(hits[1] == 1, "first registration in force after refusal")
	} else {
		verifsym.Reach("different")
		verifsym.Assert(hits[1] == 2, "second event has its own handler")
	}
}

// The context passed to the chain constructor is the actor's own context.
func VerifC09_Context() {
	id := verifsym.String("id", 3)
	a := vh.Runtime(id, "T", nil)
	var got core.ActorContext
	a.OnEvent("e", func(c core.ActorContext) core.IChain { got = c; return &actor.DefaultChain{} })
	verifsym.Assert(got == a.Context(), "chain constructor gets the actor's context")
	verifsym.Assert(got.ID() == id && got.Type() == "T", "context names the actor")
}

// Registered from two goroutines: one of them is refused, the other one's handler is in force.
//verif: preempt=2/3
func VerifC09_Race() {
	a := vh.Runtime("a", "T", nil)
	won, hit := -1, -1
	for i := 0; i < 2; i++ {
		go func() {
			if a.OnEvent("e", func(core.ActorContext) core.IChain {
				return &actor.DefaultChain{Handler: func(*msg.Wrapper) error { hit = i; return nil }}
			}) == nil {
				verifsym.Assert(won == -1, "only one is accepted")
				won = i
			}
		}()
	}
	verifsym.Quiesce()
	verifsym.Assert(won >= 0, "one is accepted")
	m := vh.Msg("e")
	a.Received(m)
	m.GetWg().Wait()
	verifsym.Assert(hit == won, "and in force")
	verifsym.Reach("end")
}
