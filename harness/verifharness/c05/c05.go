package c05

import (
	"context"
	"errors"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

// idle is a runtime that is not running: deliveries stay in its mailbox.
func idle(id, ty string, sys core.ISystem) *actor.Runtime {
	return vh.Runtime(id, ty, sys)
}

// Any origin, any id: exactly the origin's own id is refused.
//
//verif: preempt=0
func VerifC05_Received() {
	id, org := verifsym.String("id", verifsym.Size(3, 6)), verifsym.String("origin", verifsym.Size(3, 6))
	a := idle(id, "t", nil)
	n := 0
	vh.On(a, "ev", func(mw *msg.Wrapper) error {
		n++
		return nil
	})
	mw := vn.Msg("ev")
	mw.Req.Header.OrgActorID = org
	mw.Req.Header.OrgActorType = verifsym.String("type", 1)
	mw.Req.Header.PrevActorType = verifsym.String("prev", 1)
	err := a.Received(mw)
	verifsym.Quiesce()
	self := verifsym.And(org != "", org == id)
	if err != nil {
		verifsym.Assert(self, "only the origin is refused")
		verifsym.Assert(errors.Is(err, node.ErrSelfCall), "with the self call error")
		verifsym.Assert(n == 0 && mw.GetWg().Count() == 0, "and not handled or counted")
		verifsym.Reach("refused")
	} else {
		verifsym.Assert(!self, "the origin is refused")
		verifsym.Assert(n == 1, "handled")
		verifsym.Reach("accepted")
	}
	verifsym.Assert(mw.Req.Header.OrgActorID == org, "the origin stays")
}

// The header after an actor with any id and type called with any header.
//
//verif: preempt=0
func VerifC05_Stamp() {
	const k = 2
	id, ty := verifsym.String("id", k), verifsym.String("ty", k)
	org, orgty, prev := verifsym.String("origin", k), verifsym.String("origin type", k), verifsym.String("prev", k)
	mw := vn.Msg("")
	mw.Req.Header.OrgActorID, mw.Req.Header.OrgActorType, mw.Req.Header.PrevActorType = org, orgty, prev
	mw.Req.Header.Token = "token"
	seen := 0
	sys := &vh.Sys{OnCall: func(tid, tty, ev string, w *msg.Wrapper) error {
		seen++
		h := w.Req.Header
		verifsym.Assert(tid == "target" && tty == "ttype" && ev == "event", "passed on")
		if org == "" {
			verifsym.Assert(verifsym.And(h.OrgActorID == id, h.OrgActorType == ty), "the first actor is the origin")
		} else {
			verifsym.Assert(verifsym.And(h.OrgActorID == org, h.OrgActorType == orgty), "the origin stays")
		}
		verifsym.Assert(h.PrevActorType == ty, "the latest hop")
		verifsym.Assert(h.Token == "token", "the rest is not touched")
		return nil
	}}
	a := idle(id, ty, sys)
	switch verifsym.Choice("how", 4) {
	case 0:
		a.Call("target", "ttype", "event", mw)
	case 1:
		a.ReenterCall("target", "ttype", "event", mw)
	case 2:
		a.Context().Call("target", "ttype", "event", mw)
	case 3:
		a.Context().ReenterCall("target", "ttype", "event", mw)
	}
	verifsym.Quiesce()
	verifsym.Assert(seen == 1, "called once")
	verifsym.Reach("end")
}

// A message travels over any path of actors.  Ids are prefixes of each other.
//
//verif: preempt=0
func VerifC05_Path() {
	fredis.Install()
	w := vn.NewWorld()
	ids := []string{"a", "aa", "aab"}
	tys := []string{"t", "tt", "a"}
	for _, t := range tys {
		w.Type(t, 1, 0, false)
	}
	hops := verifsym.Size(3, 4)
	path := make([]int, hops)
	for i := range path {
		path[i] = verifsym.Choice("hop", 3)
	}
	handled, refused := 0, 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			k := handled
			handled++
			h := mw.Req.Header
			verifsym.Assert(c.ID() == ids[path[k]], "delivered to its target")
			if k > 0 {
				verifsym.Assert(h.OrgActorID == ids[path[0]] && h.OrgActorType == tys[path[0]], "the first actor is the origin")
				verifsym.Assert(h.PrevActorType == tys[path[k-1]], "the latest hop")
			} else {
				verifsym.Assert(h.OrgActorID == "", "no actor issued it")
			}
			if k+1 < hops {
				to := path[k+1]
				err := c.Call(ids[to], tys[to], "ev", mw)
				if to == path[0] {
					verifsym.Assert(errors.Is(err, node.ErrSelfCall), "calls back to the origin are refused")
					refused++
				} else {
					verifsym.Assert(err == nil, "other calls are not")
				}
			}
			return nil
		})
	}
	sys := w.Node("n1", "10.0.0.1")
	for i := range ids {
		vn.Register(sys, tys[i], ids[i])
	}
	mw := vn.Msg("ev")
	// an actor calling itself would be the origin: the outside starts with the first hop
	err := sys.Call(ids[path[0]], tys[path[0]], "ev", mw)
	verifsym.Quiesce()
	want := hops
	for i := 1; i < hops; i++ {
		if path[i] == path[0] {
			want = i
			break
		}
	}
	verifsym.Assert(err == nil && handled == want, "handled by every actor up to the refusal")
	verifsym.Assert(refused == verifsym.B2I(want < hops), "refused once")
	verifsym.Reach("end")
}

// Sends and reentrant calls back to the origin.
//
//verif: preempt=0
func VerifC05_Back() {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	how := verifsym.Choice("how", 3)
	sym := []string{"a", "?", "~"}[verifsym.Choice("target", 1)]
	var res *msg.Wrapper
	na := 0
	w.Setup = func(a core.IActor) {
		id := a.ID()
		vn.On(a, "go", func(c core.ActorContext, mw *msg.Wrapper) error { return c.Call("b", "t", "ev", mw) })
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			if id == "a" {
				na++
				return nil
			}
			var err error
			switch how {
			case 0:
				err = c.Call(sym, "t", "ev", mw)
			case 1:
				err = c.Send(sym, "t", "ev", mw)
			case 2:
				c.ReenterCall(sym, "t", "ev", mw).Then(func(r *msg.Wrapper) { res = r })
				return nil
			}
			verifsym.Assert(errors.Is(err, node.ErrSelfCall), "refused")
			return nil
		})
	}
	sys := w.Node("n1", "10.0.0.1")
	vn.Register(sys, "t", "a")
	vn.Register(sys, "t", "b")
	verifsym.Assert(sys.Call("a", "t", "go", vh.MsgCtx(context.Background(), "go")) == nil, "accepted")
	verifsym.Quiesce()
	verifsym.Assert(na == 0, "the origin does not get its own message")
	if how == 2 {
		verifsym.Assert(res != nil && errors.Is(res.Err, node.ErrSelfCall), "the future says so")
	}
	verifsym.Reach("end")
}

// A message with any header sent by an actor arrives with that header: plain sends stamp nothing.
//
//verif: preempt=0
func VerifC05_SendStampsNothing() {
	const k = 2
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	how := verifsym.Choice("how", 3)
	org, orgty, prev := verifsym.String("origin", k), verifsym.String("origin type", k), verifsym.String("prev", k)
	fresh := vn.Msg("")
	fresh.Req.Header.OrgActorID, fresh.Req.Header.OrgActorType, fresh.Req.Header.PrevActorType = org, orgty, prev
	seen := 0
	var sent error
	w.Setup = func(a core.IActor) {
		vn.On(a, "go", func(c core.ActorContext, mw *msg.Wrapper) error {
			sent = c.Send([]string{"b", "?", "~"}[how], "t", "ev", fresh)
			return nil
		})
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			h := mw.Req.Header
			verifsym.Assert(verifsym.And(h.OrgActorID == org, verifsym.And(h.OrgActorType == orgty, h.PrevActorType == prev)), "as it was")
			seen++
			return nil
		})
	}
	sys := w.Node("n1", "10.0.0.1")
	vn.Register(sys, "t", "b")
	w.Type("s", 1, 0, false)
	vn.Register(sys, "s", "a")
	verifsym.Assume(org != "b")
	verifsym.Assert(sys.Call("a", "s", "go", vn.Msg("go")) == nil, "accepted")
	verifsym.Quiesce()
	verifsym.Assert(sent == nil && seen == 1, "sent")
	h := fresh.Req.Header
	verifsym.Assert(verifsym.And(h.OrgActorID == org, verifsym.And(h.OrgActorType == orgty, h.PrevActorType == prev)), "still as it was")
	verifsym.Reach("end")
}
