package c21

import (
	"context"
	"sync"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/pubsub"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()

type letter struct {
	ev   string
	body []byte
}

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verifsym.And(ok, a[i] == b[i])
	}
	return ok
}

// a letter of any content
func write(max int) letter {
	return letter{"e" + verifsym.String("event", max), verifsym.Bytes("body", max)}
}

// settle gives the readers time for a few polls.
func settle() { verifsym.Advance(45 * time.Millisecond) }

// box is what a channel delivers into.
type box struct {
	q *mpsc.Queue
	c *pubsub.Channel
}

func subscribe(ps *pubsub.Pubsub, topic, channel string, opts ...interface{}) *box {
	c, err := ps.GetOrCreateTopic(topic).Sub(ctx, channel, opts...)
	verifsym.Assert(err == nil && c != nil, "subscribed")
	b := &box{mpsc.New(), c}
	c.Arrived(b.q)
	return b
}

func (b *box) take() []letter {
	var ls []letter
	for {
		v := b.q.Pop()
		if v == nil {
			return ls
		}
		mw := v.(*msg.Wrapper)
		verifsym.Assert(mw.GetWg().Count() == 1, "accounted for")
		ls = append(ls, letter{mw.Req.Header.Event, mw.Req.Body})
	}
}

func match(got, want []letter) {
	verifsym.Assert(len(got) == len(want), "each message once")
	for i := range got {
		verifsym.Assert(verifsym.And(got[i].ev == want[i].ev, same(got[i].body, want[i].body)), "in order and unchanged")
	}
}

func publish(ps *pubsub.Pubsub, topic string, l letter) {
	verifsym.Assert(ps.GetOrCreateTopic(topic).Pub(ctx, l.ev, l.body) == nil, "published")
}

// One publisher, one channel, any content.
//
//verif: preempt=1/2 native=conc
func VerifC21_Content() {
	fredis.Install()
	ps := pubsub.BuildWithOption()
	b := subscribe(ps, "topic", "c1")
	ls := []letter{write(verifsym.Size(2, 4)), {"e", []byte{verifsym.Byte("second")}}}
	for _, l := range ls {
		publish(ps, "topic", l)
	}
	settle()
	match(b.take(), ls)
	verifsym.Reach("end")
}

// Events and bodies of some lengths, whatever they are.
//
//verif: preempt=0
func VerifC21_AnyText() {
	fredis.Install()
	ps := pubsub.BuildWithOption()
	b := subscribe(ps, "topic", "c1")
	n := []int{4, 5, 16}[verifsym.Choice("length", 3)]
	ls := []letter{
		{verifsym.StringN("event", n), []byte(verifsym.StringN("body", n))},
		{"e", []byte{verifsym.Byte("second")}},
	}
	for _, l := range ls {
		publish(ps, "topic", l)
	}
	settle()
	match(b.take(), ls)
	verifsym.Reach("end")
}

// Two channels of one topic each get every message.
//
//verif: preempt=1/2 native=conc
func VerifC21_TwoChannels() { channels(2, 2) }

//verif: preempt=0/1
func VerifC21_ThreeChannels() { channels(3, 1) }

func channels(k, n int) {
	fredis.Install()
	ps := pubsub.BuildWithOption()
	var bs []*box
	verifsym.Setup(func() {
		for _, c := range []string{"c1", "c2", "c3"}[:k] {
			bs = append(bs, subscribe(ps, "topic", c))
		}
		verifsym.Quiesce()
	})
	var ls []letter
	for i := 0; i < n; i++ {
		ls = append(ls, letter{"e", []byte{verifsym.Byte("body")}})
		publish(ps, "topic", ls[i])
	}
	settle()
	for _, b := range bs {
		match(b.take(), ls)
	}
	verifsym.Reach("end")
}

// A message is published every now and then.
//
//verif: preempt=0/1
func VerifC21_Pauses() {
	fredis.Install()
	ps := pubsub.BuildWithOption()
	var bs []*box
	for _, c := range []string{"c1", "c2"} {
		bs = append(bs, subscribe(ps, "topic", c))
	}
	var ls []letter
	for i := 0; i < 3; i++ {
		ls = append(ls, letter{"e", []byte{verifsym.Byte("body")}})
		publish(ps, "topic", ls[i])
		switch verifsym.Choice("pause", 3) {
		case 1:
			verifsym.Advance(10 * time.Millisecond)
		case 2:
			verifsym.Advance(15 * time.Millisecond)
		}
	}
	settle()
	for _, b := range bs {
		match(b.take(), ls)
	}
	verifsym.Reach("end")
}

// Two publishers: each one's messages in its order, both channels see the same order.
//
//verif: preempt=1/2
func VerifC21_Publishers() {
	fredis.Install()
	ps := pubsub.BuildWithOption()
	var b1, b2 *box
	verifsym.Setup(func() {
		b1, b2 = subscribe(ps, "topic", "c1"), subscribe(ps, "topic", "c2")
		verifsym.Quiesce()
	})
	v := verifsym.Byte("value")
	var wg sync.WaitGroup
	for p := 0; p < 2; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2-p; i++ {
				publish(ps, "topic", letter{"e", []byte{byte(p), byte(i), v}})
			}
		}()
	}
	wg.Wait()
	settle()
	g1, g2 := b1.take(), b2.take()
	verifsym.Assert(len(g1) == 3 && len(g2) == 3, "each message once")
	match(g1, g2)
	next := [2]byte{}
	for _, l := range g1 {
		p := l.body[0]
		verifsym.Assert(l.body[1] == next[p] && l.body[2] == v, "each publisher's in order")
		next[p]++
	}
	verifsym.Reach("end")
}

// Two subscribers of the same channel share its messages.
//
//verif: preempt=1/2
func VerifC21_Shared() {
	fredis.Install()
	ps, other := pubsub.BuildWithOption(), pubsub.BuildWithOption()
	if verifsym.Choice("same node", 2) == 1 {
		other = ps
	}
	var b1, b2, b3 *box
	verifsym.Setup(func() {
		b1, b2, b3 = subscribe(ps, "topic", "c1"), subscribe(other, "topic", "c1"), subscribe(other, "topic", "c2")
		verifsym.Quiesce()
	})
	v := verifsym.Byte("value")
	ls := []letter{{"e", []byte{0, v}}, {"e", []byte{1, v}}}
	for _, l := range ls {
		publish(ps, "topic", l)
	}
	settle()
	g1, g2 := b1.take(), b2.take()
	verifsym.Assert(len(g1)+len(g2) == 2, "each message once")
	seen := [2]int{}
	for _, l := range append(g1, g2...) {
		verifsym.Assert(l.body[1] == v, "unchanged")
		seen[l.body[0]]++
	}
	verifsym.Assert(seen == [2]int{1, 1}, "each message once")
	match(b3.take(), ls)
	verifsym.Reach("end")
}

// Two nodes create and subscribe the topic at the same time; only what was published arrives.
//
//verif: preempt=1/2
func VerifC21_Creation() {
	fredis.Install()
	p1, p2 := pubsub.BuildWithOption(), pubsub.BuildWithOption()
	var wg sync.WaitGroup
	wg.Add(1)
	var b2 *box
	mode := []string{pubsub.ReadModeLatest, pubsub.ReadModeBeginning}[verifsym.Choice("mode", 2)]
	go func() {
		defer wg.Done()
		b2 = subscribe(p2, "topic", "c2", pubsub.WithReadMode(mode))
	}()
	b1 := subscribe(p1, "topic", "c1")
	wg.Wait()
	l := letter{"e", []byte{verifsym.Byte("body")}}
	publish(p1, "topic", l)
	settle()
	match(b1.take(), []letter{l})
	match(b2.take(), []letter{l})
	verifsym.Reach("end")
}

// A later subscriber gets what is published from then on; from the beginning if it asks for it; and what its channel
// had not yet got, if the channel existed.
//
//verif: preempt=0/1 native=conc
func VerifC21_Later() {
	st := fredis.Install()
	p1, p2 := pubsub.BuildWithOption(), pubsub.BuildWithOption()
	a, b := letter{"e", []byte{verifsym.Byte("first")}}, letter{"e", []byte{verifsym.Byte("second")}}
	how := verifsym.Choice("how", 3)
	var opts []interface{}
	want := []letter{b}
	switch how {
	case 0:
		publish(p1, "topic", a)
	case 1:
		publish(p1, "topic", a)
		opts = []interface{}{pubsub.WithReadMode(pubsub.ReadModeBeginning)}
		want = []letter{a, b}
	case 2: // a node that has left had subscribed the channel
		p1.GetOrCreateTopic("topic")
		c := st.Client()
		verifsym.Assert(c.XGroupCreate(ctx, "topic", "c1", "$").Err() == nil, "channel exists")
		publish(p1, "topic", a)
		want = []letter{a, b}
	}
	x := subscribe(p2, "topic", "c1", opts...)
	settle()
	publish(p1, "topic", b)
	settle()
	match(x.take(), want)
	verifsym.Reach("end")
}

// Topics do not mix.
//
//verif: preempt=0/1
func VerifC21_Topics() {
	fredis.Install()
	ps := pubsub.BuildWithOption()
	b1, b2 := subscribe(ps, "t1", "c"), subscribe(ps, "t2", "c")
	a, b := letter{"e", []byte{verifsym.Byte("first")}}, letter{"e", []byte{verifsym.Byte("second")}}
	publish(ps, "t1", a)
	publish(ps, "t2", b)
	settle()
	match(b1.take(), []letter{a})
	match(b2.take(), []letter{b})
	verifsym.Reach("end")
}

// Publishing fails: an error, and at most one delivery.
//
//verif: preempt=0/1 native=conc
func VerifC21_Refused() {
	st := fredis.Install()
	ps := pubsub.BuildWithOption()
	b := subscribe(ps, "topic", "c1")
	l := letter{"e", []byte{verifsym.Byte("body")}}
	out := fredis.Outcome(verifsym.IntRange("outcome", 0, 2))
	n := 1
	if verifsym.Choice("no event", 2) == 1 {
		verifsym.Assert(ps.GetOrCreateTopic("topic").Pub(ctx, "", l.body) != nil, "an event is needed")
		n = 0
	} else {
		st.Fault = func(cmd string) fredis.Outcome {
			if cmd == "xadd" {
				return out
			}
			return fredis.OK
		}
		err := ps.GetOrCreateTopic("topic").Pub(ctx, l.ev, l.body)
		verifsym.Assert((err == nil) == (out == fredis.OK), "an error exactly if the store failed")
		if out == fredis.Refused {
			n = 0
		}
		st.Fault = nil
	}
	settle()
	match(b.take(), []letter{l}[:n])
	verifsym.Reach("end")
}

// The store refuses to read or to acknowledge once: nothing is lost or doubled.
//
//verif: preempt=0/1
func VerifC21_Reader() {
	st := fredis.Install()
	ps := pubsub.BuildWithOption()
	b1, b2 := subscribe(ps, "topic", "c1"), subscribe(ps, "topic", "c2")
	at, n := verifsym.IntRange("fails at", 0, 9), 0
	out := []fredis.Outcome{fredis.Refused, fredis.ReplyLost, fredis.HalfExecuted, fredis.HalfAnswered}[verifsym.Choice("how", 4)]
	ls := []letter{{"e", []byte{verifsym.Byte("first")}}, {"e", []byte{verifsym.Byte("second")}}}
	st.Fault = func(cmd string) fredis.Outcome {
		if cmd == "xadd" {
			return fredis.OK
		}
		n++
		if n-1 == at {
			if cmd == "xreadgroup" {
				return fredis.Refused
			}
			return out
		}
		return fredis.OK
	}
	for _, l := range ls {
		publish(ps, "topic", l)
	}
	settle()
	match(b1.take(), ls)
	match(b2.take(), ls)
	verifsym.Reach("end")
}

type node struct {
	sys core.ISystem
	got [2][]letter
}

// two nodes; actors of the first subscribe their channel while they are initialised.
func start(subs ...string) (*node, core.ISystem) {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	d := &node{}
	i := 0
	w.Setup = func(a core.IActor) {
		k := i
		i++
		if len(subs[k]) == 0 {
			return
		}
		err := a.Sub("topic", subs[k], func(core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
				verifsym.Atomic(func() { d.got[k] = append(d.got[k], letter{mw.Req.Header.Event, mw.Req.Body}) })
				return nil
			}}
		})
		verifsym.Assert(err == nil, "subscribed")
	}
	n1, n2 := w.Node("n1", "10.0.0.1"), w.Node("n2", "10.0.0.2")
	d.sys = n1
	for k := range subs {
		vn.Register(n1, "t", []string{"a", "b"}[k])
	}
	return d, n2
}

// From node to actors, whichever node publishes.
//
//verif: preempt=1/2
func VerifC21_Actors() {
	var d *node
	var n2 core.ISystem
	verifsym.Setup(func() {
		d, n2 = start("x", "y")
		verifsym.Quiesce()
	})
	from := []core.ISystem{d.sys, n2}[verifsym.Choice("from", 2)]
	v := verifsym.Byte("value")
	ls := []letter{{"x", []byte{v}}, {"y", []byte{v + 1}}, {"x", []byte{v + 2}}}
	for _, l := range ls {
		verifsym.Assert(from.Pub("topic", l.ev, l.body) == nil, "published")
	}
	settle()
	match(d.got[0], []letter{ls[0], ls[2]})
	match(d.got[1], []letter{ls[1]})
	verifsym.Reach("end")
}

// Nobody on this node has subscribed the topic.
//
//verif: preempt=0/1
func VerifC21_Nobody() {
	d, n2 := start("")
	v := verifsym.Byte("value")
	verifsym.Assert(d.sys.Pub("topic", "x", []byte{v}) == nil, "published")
	verifsym.Assert(n2.Pub("topic", "x", []byte{v}) == nil, "published")
	verifsym.Assert(n2.Pub("topic", "", []byte{v}) != nil, "an event is needed")
	verifsym.Reach("end")
}

// The channel has messages waiting when the actor comes up.
//
//verif: preempt=1/2
func VerifC21_Backlog() {
	var st *fredis.Store
	v := verifsym.Byte("value")
	l := letter{"x", []byte{v}}
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	var got []letter
	w.Setup = func(a core.IActor) {
		err := a.Sub("topic", "x", func(core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
				verifsym.Atomic(func() { got = append(got, letter{mw.Req.Header.Event, mw.Req.Body}) })
				return nil
			}}
		})
		verifsym.Assert(err == nil, "subscribed")
	}
	var n core.ISystem
	verifsym.Setup(func() {
		st = fredis.Install()
		n = w.Node("n1", "10.0.0.1")
		p := pubsub.BuildWithOption()
		p.GetOrCreateTopic("topic")
		verifsym.Assert(st.Client().XGroupCreate(ctx, "topic", "x", "$").Err() == nil, "channel exists")
		publish(p, "topic", l)
	})
	vn.Register(n, "t", "a")
	settle()
	match(got, []letter{l})
	verifsym.Reach("end")
}

// An actor is removed and comes back: what was published meanwhile and afterwards is delivered, each message once.
//
//verif: preempt=1/2
func VerifC21_Again() {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	var got []letter
	w.Setup = func(a core.IActor) {
		err := a.Sub("topic", "x", func(core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
				verifsym.Atomic(func() { got = append(got, letter{mw.Req.Header.Event, mw.Req.Body}) })
				return nil
			}}
		})
		verifsym.Assert(err == nil, "subscribed")
	}
	n := w.Node("n1", "10.0.0.1")
	vn.Register(n, "t", "a")
	v := verifsym.Byte("value")
	var ls []letter
	pub := func() {
		l := letter{"x", []byte{v + byte(len(ls))}}
		ls = append(ls, l)
		verifsym.Assert(n.Pub("topic", l.ev, l.body) == nil, "published")
	}
	if verifsym.Choice("before", 2) == 1 {
		pub()
	}
	verifsym.Assert(n.Unregister("a", "t") == nil, "removed")
	pub()
	if verifsym.Choice("pause", 2) == 1 {
		settle()
	}
	vn.Register(n, "t", "a")
	pub()
	settle()
	match(got, ls)
	verifsym.Reach("end")
}
