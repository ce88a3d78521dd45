package c15

import (
	"context"
	"errors"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/models/grpcm"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()

// pair is two nodes with actor a on the first and b, c on the second.
func pair(w *vn.World, port int) (n1, n2 core.ISystem) {
	fredis.Install()
	w.Type("t", 1, 0, false)
	w.Type("u", 1, 0, false)
	verifsym.Setup(func() {
		n1, n2 = w.NodeAt("n1", "127.0.0.1", port), w.NodeAt("n2", "127.0.0.1", port+1)
		vn.Register(n1, "t", "a")
		vn.Register(n2, "u", "b")
		vn.Register(n2, "u", "c")
		verifsym.Quiesce()
	})
	return
}

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verifsym.And(ok, a[i] == b[i])
	}
	return ok
}

// Header fields, custom data, body and response of any content.
func content(max int, target string, port int) {
	w := vn.NewWorld()
	n := 0
	// one field of any length, the others of one byte
	which, k := verifsym.Choice("field", 9), -1
	b := func(name string) []byte {
		k++
		if k == which {
			return verifsym.Bytes(name, max)
		}
		return []byte{verifsym.Byte(name)}
	}
	body, custom, rbody, rcustom := b("body"), b("custom"), b("response body"), b("response custom")
	id, org, orgty, tok, rtok := string(b("id")), string(b("origin")), string(b("origin type")), string(b("token")), string(b("response token"))
	ts, rts := verifsym.Int64("timestamp"), verifsym.Int64("response timestamp")
	verifsym.Assume(ts >= 0 && ts < 1<<20 && rts >= 0 && rts < 1<<20)
	verifsym.Assume(org != "b" && org != "c")
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			n++
			h := mw.Req.Header
			verifsym.Assert(verifsym.And(same([]byte(h.ID), []byte(id)), same([]byte(h.Token), []byte(tok))), "id and token arrive")
			verifsym.Assert(verifsym.And(same([]byte(h.OrgActorID), []byte(org)), same([]byte(h.OrgActorType), []byte(orgty))), "the origin arrives")
			verifsym.Assert(h.Timestamp == ts && h.Event == "ev" && h.TargetActorType == "u", "the rest of the header arrives")
			verifsym.Assert(same(h.Custom, custom), "custom data arrives")
			verifsym.Assert(same(mw.Req.Body, body), "the body arrives")
			mw.Res.Body = rbody
			mw.Res.Header.Custom = rcustom
			mw.Res.Header.Token = rtok
			mw.Res.Header.Timestamp = rts
			return nil
		})
	}
	n1, _ := pair(w, port)
	mw := vn.Msg("ev")
	mw.Req.Body = body
	h := mw.Req.Header
	h.ID, h.OrgActorID, h.OrgActorType, h.Token, h.Timestamp, h.Custom = id, org, orgty, tok, ts, custom
	err := n1.Call(target, "u", "ev", mw)
	verifsym.Assert(err == nil && n == 1 && mw.Err == nil, "one handler invocation")
	verifsym.Assert(same(mw.Res.Body, rbody), "the response body returns")
	verifsym.Assert(verifsym.And(same(mw.Res.Header.Custom, rcustom), same([]byte(mw.Res.Header.Token), []byte(rtok))), "the response header returns")
	verifsym.Assert(mw.Res.Header.Timestamp == rts, "with its timestamp")
	verifsym.Assert(same(mw.Req.Body, body), "the request is kept")
	verifsym.Reach("end")
}

//verif: preempt=0 native=conc
func VerifC15_Content() { content(verifsym.Size(2, 4), "b", 27151) }

//verif: preempt=0 native=conc
func VerifC15_ContentBySymbol() {
	content(1, []string{"?", "~"}[verifsym.Choice("symbol", 2)], 27153)
}

// A long body.
//
//verif: preempt=0 native=conc
func VerifC15_Long() {
	w := vn.NewWorld()
	lens := []int{0, 1, 127, 128, 129, 300}
	l := lens[verifsym.Choice("length", len(lens))]
	k := 0
	if l > 0 {
		k = verifsym.Choice("position", 3) * (l - 1) / 2
	}
	v := verifsym.Byte("value")
	body := make([]byte, l)
	for i := range body {
		body[i] = byte(i)
	}
	if l > 0 {
		body[k] = v
	}
	n := 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			n++
			verifsym.Assert(same(mw.Req.Body, body), "the body arrives")
			mw.Res.Body = append(append([]byte(nil), mw.Req.Body...), 7)
			return nil
		})
	}
	n1, _ := pair(w, 27155)
	mw := vn.Msg("ev")
	mw.Req.Body = body
	verifsym.Assert(n1.Call("b", "u", "ev", mw) == nil && n == 1, "one handler invocation")
	verifsym.Assert(same(mw.Res.Body, append(append([]byte(nil), body...), 7)), "the response returns")
	verifsym.Reach("end")
}

// The transport fails at the first or the second call.
//
//verif: preempt=1/2 native=off
func VerifC15_Transport() {
	w := vn.NewWorld()
	n := 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			n++
			mw.Res.Body = []byte{1}
			return nil
		})
	}
	n1, _ := pair(w, 27157)
	out := grpcm.Outcome(verifsym.Choice("network", 4))
	bad, k := verifsym.Choice("call", 2), -1
	grpcm.Fault = func(string, string) grpcm.Outcome {
		k++
		if k == bad {
			return out
		}
		return grpcm.OK
	}
	dial, used := verifsym.Choice("dial", 2) == 1, verifsym.Choice("used before", 2) == 1
	grpcm.Dial = func(string) error {
		if dial {
			dial = false
			return errors.New("cannot dial")
		}
		return nil
	}
	if dial {
		mw := vn.Msg("")
		verifsym.Assert(n1.Call("b", "u", "ev", mw) != nil && n == 0, "no connection: an error")
	}
	for i := 0; i < 2; i++ {
		mw := vn.Msg("")
		if used {
			mw.Err = vh.ErrHandler // from an earlier use
		}
		before := n
		err := n1.Call("b", "u", "ev", mw)
		verifsym.Assert((err == nil) == (i != bad || out == grpcm.OK), "an error exactly if the transport failed")
		if err == nil {
			verifsym.Assert(len(mw.Res.Body) == 1 && n == before+1, "the response otherwise")
		} else {
			verifsym.Assert(n <= before+1, "at most one delivery")
		}
	}
	verifsym.Reach("end")
}

// The other node cannot deliver.
//
//verif: preempt=1/2
func VerifC15_Undeliverable() {
	w := vn.NewWorld()
	n := 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			n++
			mw.Res.Body = []byte{1}
			return nil
		})
	}
	n1, n2 := pair(w, 27161)
	mw := vn.Msg("")
	target := "b"
	switch verifsym.Choice("why", 4) {
	case 0: // shut down
		b, _ := n2.FindActor(ctx, "b")
		b.Exit()
	case 1: // its own message
		mw.Req.Header.OrgActorID = "b"
	case 2: // the record outlived the actor: n2 restarted without it
		verifsym.Assert(n2.Unregister("b", "u") == nil, "removed")
		target = "b"
		fredis.Current().PutText("braid.addressbook.id", "b", `{"actor_id":"b","actor_ty":"u","node":"n2","service":"","ip":"127.0.0.1","port":27162}`)
	case 3: // nobody there at all
		fredis.Current().PutText("braid.addressbook.id", "x", `{"actor_id":"x","actor_ty":"u","node":"n9","service":"","ip":"127.0.0.1","port":27169}`)
		target = "x"
	}
	err := n1.Call(target, "u", "ev", mw)
	verifsym.Assert(err != nil, "an error")
	verifsym.Assert(n == 0, "no handler ran")
	verifsym.Reach("end")
}

// What the handler does is no transport matter: errors and panics do not become delivery errors, what it wrote returns.
//
//verif: preempt=0/1 native=conc
func VerifC15_Handler() {
	w := vn.NewWorld()
	how := verifsym.Choice("how", 6)
	n := 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			n++
			switch how {
			case 4: // no header
				mw.Res = &router.Message{Body: []byte{1}}
				return nil
			case 5: // no body
				mw.Res.Header.Token = "t"
				mw.Res.Body = nil
				return nil
			case 1:
				mw.Res.Body = []byte{1}
				return vh.ErrHandler
			case 2:
				mw.Res.Body = []byte{1}
				panic("handler panics")
			case 3:
				mw.Res = &router.Message{Header: &router.Header{}, Body: []byte{1}}
				return nil
			}
			mw.Res.Body = []byte{1}
			return nil
		})
	}
	n1, _ := pair(w, 27163)
	mw := vn.Msg("")
	err := n1.Call("b", "u", "ev", mw)
	verifsym.Assert(err == nil && n == 1, "one handler invocation")
	if how == 5 {
		verifsym.Assert(len(mw.Res.Body) == 0 && mw.Res.Header.Token == "t", "what it wrote")
	} else {
		verifsym.Assert(len(mw.Res.Body) == 1 && mw.Res.Body[0] == 1, "what it wrote")
		verifsym.Assert((mw.Res.Header == nil) == (how == 4), "no other header")
	}
	verifsym.Reach("end")
}

// The caller's context ends while the handler runs, or before.
//
//verif: preempt=1/2
func VerifC15_Context() {
	w := vn.NewWorld()
	hold := make(chan bool)
	n := 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			n++
			<-hold
			mw.Res.Body = []byte{1}
			return nil
		})
	}
	n1, _ := pair(w, 27165)
	c, cancel := context.WithCancel(ctx)
	how := verifsym.Choice("how", 3)
	if how == 2 {
		c, cancel = context.WithTimeout(ctx, 1e9)
	}
	mw := vh.MsgCtx(c, "")
	if how == 0 {
		cancel()
	}
	if how == 1 {
		go cancel()
	}
	err := n1.Call("b", "u", "ev", mw)
	verifsym.Assert(err != nil, "an error")
	close(hold)
	verifsym.Quiesce()
	verifsym.Assert(n <= 1, "at most one delivery")
	cancel()
	verifsym.Reach("end")
}

// An actor calls through another node; calls back to the origin are refused there, too.
//
//verif: preempt=0/1 native=conc
func VerifC15_Chain() {
	w := vn.NewWorld()
	back := verifsym.Choice("back", 2) == 1
	val := verifsym.Byte("value")
	na := 0
	w.Setup = func(a core.IActor) {
		id := a.ID()
		vn.On(a, "go", func(c core.ActorContext, mw *msg.Wrapper) error {
			err := c.Call("b", "u", "ev", mw)
			verifsym.Assert(err == nil, "called")
			return err
		})
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			h := mw.Req.Header
			if id == "a" {
				na++
				return nil
			}
			verifsym.Assert(h.OrgActorID == "a" && h.OrgActorType == "t", "the origin arrives")
			if id == "b" {
				to, ty := "c", "u"
				if back {
					to, ty = "a", "t"
				}
				err := c.Call(to, ty, "ev", mw)
				if back {
					verifsym.Assert(err != nil, "refused by the origin's node")
				} else {
					verifsym.Assert(err == nil, "called")
				}
				return nil
			}
			mw.Res.Body = []byte{mw.Req.Body[0] + 1}
			return nil
		})
	}
	n1, _ := pair(w, 27167)
	mw := vn.Msg("")
	mw.Req.Body = []byte{val}
	err := n1.Call("a", "t", "go", mw)
	verifsym.Assert(err == nil && na == 0, "the origin does not get its own message")
	if !back {
		verifsym.Assert(len(mw.Res.Body) == 1 && mw.Res.Body[0] == val+1, "the response comes back all the way")
	}
	verifsym.Reach("end")
}
