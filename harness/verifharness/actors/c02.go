// Package actors checks core/actor: mailbox processing, shutdown, timers, futures, chains.
package actors

import (
	"context"
	"time"

	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifsym"
)

type rec struct{ sender, seq int }

type probe struct {
	got    []rec
	inside int
	sum    int
}

func (p *probe) enter(mw *msg.Wrapper) rec {
	verifsym.Assert(p.inside == 0, "handlers never overlap")
	p.inside++
	verifsym.Yield()
	r := rec{int(mw.Req.Body[0]), int(mw.Req.Body[1])}
	p.got = append(p.got, r)
	p.inside--
	return r
}

var kinds = []string{"ok", "err", "panic", "none"}

func probed() (*actor.Runtime, *probe) {
	a := vh.Runtime("a", "T", nil)
	p := &probe{}
	vh.On(a, "ok", func(mw *msg.Wrapper) error { p.enter(mw); return nil })
	errs := []error{vh.ErrHandler, context.DeadlineExceeded, context.Canceled}
	vh.On(a, "err", func(mw *msg.Wrapper) error { return errs[p.enter(mw).seq%3] })
	vh.On(a, "panic", func(mw *msg.Wrapper) error { p.enter(mw); panic("boom") })
	return a, p
}

// sendAll runs one goroutine per sender; each message is sent with its own wait group and, at the
// end, every one of them is waited for.
func sendAll(a *actor.Runtime, evs [][]string) {
	done := make(chan bool, 8)
	for s := range evs {
		go func() {
			var ms []*msg.Wrapper
			for i, ev := range evs[s] {
				m := vh.Msg(ev)
				m.Req.Body = []byte{byte(s), byte(i)}
				verifsym.Assert(a.Received(m) == nil, "running actor accepts")
				ms = append(ms, m)
			}
			for _, m := range ms {
				m.GetWg().Wait()
			}
			done <- true
		}()
	}
	for range evs {
		<-done
	}
}

func judge(p *probe, evs [][]string) {
	next := make([]int, len(evs))
	skip := func(s int) {
		for next[s] < len(evs[s]) && evs[s][next[s]] == "none" {
			next[s]++
		}
	}
	for _, r := range p.got {
		skip(r.sender)
		verifsym.Assert(r.seq == next[r.sender], "handled once, in sender order")
		next[r.sender] = r.seq + 1
	}
	for s := range evs {
		skip(s)
		verifsym.Assert(next[s] == len(evs[s]), "every accepted message handled")
	}
}

// Two senders, mailbox of one actor.
//verif: preempt=2/3 async=0
func VerifC02_TwoSenders() {
	a, p := probed()
	evs := [][]string{{"ok", "ok"}, []string{"ok", "ok"}[:verifsym.Size(1, 2)]}
	sendAll(a, evs)
	judge(p, evs)
	verifsym.Reach("judged")
}

// Every handler outcome in every position, messages queued behind it.
//verif: preempt=1/2 maporder=0
func VerifC02_Outcomes() {
	a, p := probed()
	evs := [][]string{{kinds[verifsym.Choice("k", 4)], kinds[verifsym.Choice("k", 4)], kinds[verifsym.Choice("k", 4)]}}
	sendAll(a, evs)
	judge(p, evs)
	verifsym.Reach("judged")
}

// Any event name and any payload: dispatch is by exact name and the payload arrives unchanged.
//verif: preempt=1
func VerifC02_AnyEvent() {
	a := vh.Runtime("a", "T", nil)
	hit := make([]int, 3)
	var body []byte
	reg := []string{"", "ab", "abc"}
	for i, ev := range reg {
		vh.On(a, ev, func(mw *msg.Wrapper) error {
			hit[i]++
			body = mw.Req.Body
			return nil
		})
	}
	ev := verifsym.String("ev", 4)
	b := verifsym.Bytes("body", verifsym.Size(3, 6))
	m := vh.Msg(ev)
	m.Req.Body = b
	verifsym.Assert(a.Received(m) == nil, "accepted")
	m.GetWg().Wait()
	n := 0
	for i, r := range reg {
		want := verifsym.B2I(ev == r)
		verifsym.Assert(hit[i] == want, "handled by the handler registered for exactly this name")
		n += hit[i]
	}
	if n == 1 {
		verifsym.Reach("handled")
		verifsym.Assert(string(body) == string(b), "payload unchanged")
	} else {
		verifsym.Reach("unregistered")
	}
	m2 := vh.Msg("ab")
	verifsym.Assert(a.Received(m2) == nil, "accepted afterwards")
	m2.GetWg().Wait()
	verifsym.Assert(hit[1] == verifsym.B2I(ev == "ab")+1, "actor still running")
}

// An accepted message in any state: its context ended, already failed, without response, with any header. It is
// handled all the same, once, by the handler of its event, as is the one behind it.
//verif: preempt=1 maporder=0
func VerifC02_AnyState() {
	a, p := probed()
	only := verifsym.Choice("handlers", 2) == 1
	if only {
		a = vh.Runtime("b", "T", nil)
		vh.On(a, "ok", func(mw *msg.Wrapper) error { p.enter(mw); return nil })
	}
	ctx, cancel := context.WithCancel(context.Background())
	m := vh.MsgCtx(ctx, "ok")
	h := m.Req.Header
	h.ID, h.Token = verifsym.StringN("id", 1), verifsym.StringN("token", 1)
	h.OrgActorID, h.OrgActorType = verifsym.StringN("org", 1), verifsym.StringN("orgty", 1)
	h.TargetActorID, h.TargetActorType = verifsym.StringN("tar", 1), verifsym.StringN("tarty", 1)
	h.PrevActorType = verifsym.StringN("prev", 1)
	h.Timestamp = verifsym.Int64("time")
	h.Custom = []byte{verifsym.Byte("custom")}
	verifsym.Assume(h.OrgActorID != a.Id)
	m.Req.Body = []byte{0, 0, verifsym.Byte("b")}
	switch verifsym.Choice("state", 4) {
	case 1:
		cancel()
	case 2:
		m.Err = vh.ErrHandler
	case 3:
		m.Res = nil
	}
	last := vh.Msg("ok")
	last.Req.Body = []byte{0, 1}
	un := vh.Msg("nobody")
	verifsym.Assert(a.Received(m) == nil, "running actor accepts")
	verifsym.Assert(a.Received(un) == nil, "running actor accepts")
	verifsym.Assert(a.Received(last) == nil, "running actor accepts")
	if verifsym.Choice("end", 2) == 1 {
		cancel()
	}
	m.GetWg().Wait()
	un.GetWg().Wait()
	last.GetWg().Wait()
	verifsym.Assert(len(p.got) == 2, "each accepted message handled once, an unregistered event by nobody")
	if len(p.got) == 2 {
		verifsym.Assert(p.got[0].seq == 0 && p.got[1].seq == 1, "in order")
	}
	cancel()
	verifsym.Reach("judged")
}

// The same message delivered again is handled again.
//
//verif: preempt=2/3
func VerifC02_SameAgain() {
	a := vh.Runtime("a", "T", nil)
	n, val := 0, verifsym.Byte("value")
	vh.On(a, "e", func(mw *msg.Wrapper) error {
		verifsym.Assert(mw.Req.Body[0] == val, "payload unchanged")
		n++
		return nil
	})
	m := vh.Msg("e")
	m.Req.Body = []byte{val}
	verifsym.Assert(a.Received(m) == nil, "accepted")
	if verifsym.Choice("apart", 2) == 1 {
		m.GetWg().Wait()
		verifsym.Assert(n == 1, "handled")
	}
	verifsym.Assert(a.Received(m) == nil, "accepted again")
	m.GetWg().Wait()
	verifsym.Assert(n == 2, "handled once per delivery")
	verifsym.Reach("end")
}

// Many messages pile up behind a busy actor.
//
//verif: preempt=0 native=off maporder=0 time=60 steps=40000000 threads=1200
func VerifC02_Backlog() {
	const n = 1100
	a := vh.Runtime("a", "T", nil)
	hold := make(chan bool)
	vh.On(a, "hold", func(*msg.Wrapper) error { <-hold; return nil })
	next, inside := 0, false
	vh.On(a, "e", func(mw *msg.Wrapper) error {
		verifsym.Assert(!inside, "handlers never overlap")
		inside = true
		verifsym.Assert(int(mw.Req.Header.Timestamp) == next, "in order, once")
		next++
		if next < 4 {
			time.Sleep(time.Millisecond)
		}
		inside = false
		return nil
	})
	m := vh.Msg("hold")
	a.Received(m)
	verifsym.Quiesce()
	last := m
	sent := 0
	go func() {
		for ; sent < n; sent++ {
			last = vh.Msg("e")
			last.Req.Header.Timestamp = int64(sent)
			if a.Received(last) != nil {
				return
			}
		}
	}()
	verifsym.Quiesce()
	verifsym.Assert(sent == n, "accepted without waiting for the busy actor")
	verifsym.Assert(next == 0, "the actor is busy")
	close(hold)
	last.GetWg().Wait()
	verifsym.Assert(next == n, "all handled")
	verifsym.Reach("end")
}
