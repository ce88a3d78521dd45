package c22

import (
	"context"
	"time"

	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/pubsub"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/redis/go-redis/v9"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()

// settle gives the readers time for a few polls.
func settle() { verifsym.Advance(25 * time.Millisecond) }

func recorded(st *fredis.Store, topic string) bool { return st.Member(pubsub.BraidPubsubTopic, topic) }

func ttl() (time.Duration, time.Duration) {
	n := []time.Duration{0, 1, 90, 1 << 20}[verifsym.Choice("ttl", 4)]
	return n * time.Second, n * time.Second
}

// book is what should be there.
type book struct {
	st     *fredis.Store
	exists bool
	ttl    time.Duration
	subs   map[string][]*pubsub.Channel // open, by name
	msgs   int
}

func (b *book) check() {
	settle()
	verifsym.Assert(b.st.Has("topic") == b.exists, "the topic exists until it is closed unused")
	verifsym.Assert(recorded(b.st, "topic") == b.exists, "and is recorded")
	verifsym.Assert(b.st.TTL("topic") == b.ttl, "with the time to live given first")
	verifsym.Assert(b.st.Len("topic") == b.msgs, "what nobody has read stays")
	for _, c := range []string{"c1", "c2"} {
		n := len(b.subs[c])
		if n == 0 {
			n = -1
		}
		verifsym.Assert(b.st.Group("topic", c) == n, "a channel exists while it has subscribers")
	}
}

// Any history of a topic on one node.
func history(n int) {
	b := &book{st: fredis.Install(), subs: map[string][]*pubsub.Channel{}}
	ps := pubsub.BuildWithOption()
	var t *pubsub.Topic
	for i := 0; i < n; i++ {
		op := verifsym.Choice("op", 7)
		switch op {
		case 0, 1: // create
			var opts []pubsub.TopicOption
			d, want := time.Duration(0), time.Duration(0)
			if op == 1 {
				d, want = ttl()
				opts = append(opts, pubsub.WithTTL(d))
			}
			x := ps.GetOrCreateTopic("topic", opts...)
			verifsym.Assert(x != nil && (!b.exists || x == t), "an existing topic is the same")
			verifsym.Assert(ps.GetTopic("topic") == x, "the same")
			if !b.exists {
				b.exists, b.ttl = true, want
			}
			t = x
		case 2, 3: // subscribe
			verifsym.Assume(b.exists)
			ch := []string{"c1", "c2"}[op-2]
			verifsym.Assume(len(b.subs[ch]) < 2)
			c, err := t.Sub(ctx, ch)
			verifsym.Assert(err == nil, "subscribed")
			c.Arrived(mpsc.New())
			b.subs[ch] = append(b.subs[ch], c)
		case 4: // publish
			verifsym.Assume(b.exists)
			verifsym.Assert(t.Pub(ctx, "e", []byte("m")) == nil, "published")
			if len(b.subs["c1"])+len(b.subs["c2"]) == 0 {
				b.msgs++
			}
		case 5: // close a channel
			ch := "c1"
			if len(b.subs[ch]) == 0 {
				ch = "c2"
			}
			verifsym.Assume(len(b.subs[ch]) > 0)
			verifsym.Assert(b.subs[ch][0].Close() == nil, "closed")
			b.subs[ch] = b.subs[ch][1:]
		case 6: // close the topic
			verifsym.Assume(b.exists)
			verifsym.Assert(t.Close() == nil, "closed")
			if len(b.subs["c1"])+len(b.subs["c2"]) == 0 && b.msgs == 0 {
				b.exists, b.ttl, t = false, 0, nil
			}
		}
		b.check()
	}
	verifsym.Reach("end")
}

//verif: preempt=0
func VerifC22_Short() { history(verifsym.Size(4, 5)) }

// A second node finds the topic as it is.
//
//verif: preempt=0/1
func VerifC22_TwoNodes() {
	st := fredis.Install()
	p1, p2 := pubsub.BuildWithOption(), pubsub.BuildWithOption()
	d, want := ttl()
	other, _ := ttl()
	t1 := p1.GetOrCreateTopic("topic", pubsub.WithTTL(d))
	sub := verifsym.Choice("channel", 2) == 1
	var c *pubsub.Channel
	if sub {
		var err error
		c, err = t1.Sub(ctx, "c1")
		verifsym.Assert(err == nil, "subscribed")
		c.Arrived(mpsc.New())
	}
	if verifsym.Choice("message", 2) == 1 && !sub {
		verifsym.Assert(t1.Pub(ctx, "e", nil) == nil, "published")
		t2 := p2.GetOrCreateTopic("topic", pubsub.WithTTL(other))
		verifsym.Assert(t2.Close() == nil && st.Has("topic") && st.Len("topic") == 1, "a message keeps the topic")
	} else {
		t2 := p2.GetOrCreateTopic("topic", pubsub.WithTTL(other))
		verifsym.Assert(st.TTL("topic") == want && recorded(st, "topic"), "the first time to live stays")
		settle()
		verifsym.Assert(t2.Close() == nil, "closed")
		verifsym.Assert(st.Has("topic") == sub && recorded(st, "topic") == sub, "deleted unless a channel is left")
		if sub {
			verifsym.Assert(c.Close() == nil && t2.Close() == nil, "closed")
			verifsym.Assert(!st.Has("topic") && !recorded(st, "topic"), "deleted after its last channel")
		}
	}
	verifsym.Reach("end")
}

// Several messages at once: each leaves the topic when the last channel has read it, however the channels are interleaved.
//
//verif: preempt=1/2 native=conc
func VerifC22_Burst() {
	st := fredis.Install()
	ps := pubsub.BuildWithOption()
	t := ps.GetOrCreateTopic("topic")
	n, k := verifsym.Choice("messages", 4)+1, verifsym.Choice("channels", 2)+1
	read := 0 // by the second channel, before
	var cs []*pubsub.Channel
	sub := func() {
		c, err := t.Sub(ctx, []string{"c1", "c2"}[len(cs)], pubsub.WithReadMode(pubsub.ReadModeBeginning))
		verifsym.Assert(err == nil, "subscribed")
		c.Arrived(mpsc.New())
		cs = append(cs, c)
	}
	verifsym.Setup(func() {
		if k == 2 {
			// a channel that has not read anything yet
			verifsym.Assert(st.Client().XGroupCreate(ctx, "topic", "c2", "0").Err() == nil, "channel exists")
		}
		for i := 0; i < n; i++ {
			verifsym.Assert(t.Pub(ctx, "e", []byte{byte(i)}) == nil, "published")
		}
	})
	if k == 2 {
		if read = verifsym.Choice("read", n); read > 0 {
			r := st.Client().XReadGroup(ctx, &redis.XReadGroupArgs{Group: "c2", Consumer: "x", Streams: []string{"topic", ">"}, Count: int64(read), Block: -1})
			verifsym.Assert(r.Err() == nil && len(r.Val()[0].Messages) == read, "read")
			verifsym.Assert(st.Client().XGroupDelConsumer(ctx, "topic", "c2", "x").Err() == nil, "consumer gone")
		}
	}
	sub()
	settle()
	left := n - read
	if k == 1 {
		left = 0
	}
	verifsym.Assert(st.Len("topic") == left, "a message stays until every channel has read it")
	if k == 2 {
		sub()
		settle()
		verifsym.Assert(st.Len("topic") == 0, "and leaves when they have")
	}
	for _, c := range cs {
		verifsym.Assert(c.Close() == nil, "closed")
	}
	verifsym.Assert(t.Close() == nil && !st.Has("topic"), "the topic is unused")
	verifsym.Reach("end")
}

// A channel is closed while its subscriber is reading and messages arrive; the other subscriber keeps it.
//
//verif: preempt=1/2
func VerifC22_CloseReading() {
	st := fredis.Install()
	ps := pubsub.BuildWithOption()
	t := ps.GetOrCreateTopic("topic")
	two := verifsym.Choice("subscribers", 2) == 1
	var cs []*pubsub.Channel
	verifsym.Setup(func() {
		for i := 0; i < 1+verifsym.B2I(two); i++ {
			c, err := t.Sub(ctx, "c1")
			verifsym.Assert(err == nil, "subscribed")
			c.Arrived(mpsc.New())
			cs = append(cs, c)
		}
		verifsym.Quiesce()
	})
	if verifsym.Choice("message", 2) == 1 {
		verifsym.Assert(t.Pub(ctx, "e", nil) == nil, "published")
	}
	if verifsym.Choice("pause", 2) == 1 {
		verifsym.Advance(10 * time.Millisecond)
	}
	verifsym.Assert(cs[0].Close() == nil, "closed")
	settle()
	if two {
		verifsym.Assert(st.Group("topic", "c1") == 1, "the channel stays for the other subscriber")
		verifsym.Assert(cs[1].Close() == nil, "closed")
		settle()
	}
	verifsym.Assert(st.Group("topic", "c1") == -1, "no subscriber: no channel")
	verifsym.Reach("end")
}

// The store fails at one command of closing: nothing that is in use is lost, and closing again succeeds.
//
//verif: preempt=0
func VerifC22_CloseFails() {
	st := fredis.Install()
	ps := pubsub.BuildWithOption()
	t := ps.GetOrCreateTopic("topic")
	c1, err := t.Sub(ctx, "c1")
	verifsym.Assert(err == nil, "subscribed")
	c1.Arrived(mpsc.New())
	settle()
	used := verifsym.Choice("in use", 3) // by nothing, another subscriber, another channel
	if used > 0 {
		c2, err := t.Sub(ctx, []string{"c1", "c2"}[used-1])
		verifsym.Assert(err == nil, "subscribed")
		c2.Arrived(mpsc.New())
		settle()
	}
	at, n := verifsym.IntRange("fails at", 0, 6), 0
	how := []fredis.Outcome{fredis.Refused, fredis.ReplyLost, fredis.HalfExecuted, fredis.HalfAnswered}[verifsym.Choice("how", 4)]
	hit := false
	st.Fault = func(cmd string) fredis.Outcome {
		if cmd == "xreadgroup" {
			return fredis.OK
		}
		n++
		if n-1 == at {
			hit = true
			return how
		}
		return fredis.OK
	}
	e1 := c1.Close()
	e2 := t.Close()
	st.Fault = nil
	verifsym.Assert(hit || e1 == nil && e2 == nil, "errors only if the store fails")
	kept := func() {
		switch used {
		case 1:
			verifsym.Assert(st.Group("topic", "c1") >= 1, "the channel in use stays")
		case 2:
			verifsym.Assert(st.Group("topic", "c2") == 1, "the channel in use stays")
		}
		verifsym.Assert(used == 0 || st.Has("topic") && recorded(st, "topic"), "a topic in use stays")
	}
	kept()
	if e1 != nil {
		c1.Close() // an error if the first time only the answer was lost
	}
	if used > 0 || st.Has("topic") || e2 != nil {
		verifsym.Assert(t.Close() == nil, "closed")
	}
	kept()
	if used == 1 {
		verifsym.Assert(st.Group("topic", "c1") == 1, "one subscriber left")
	}
	if used == 2 {
		verifsym.Assert(st.Group("topic", "c1") == -1, "no subscriber: no channel")
	}
	if used == 0 {
		verifsym.Assert(st.Group("topic", "c1") == -1, "no subscriber: no channel")
		verifsym.Assert(!st.Has("topic"), "deleted")
	}
	verifsym.Reach("end")
}

// The store fails while a topic is created or subscribed: subscribing reports it or works.
//
//verif: preempt=0
func VerifC22_CreateFails() {
	st := fredis.Install()
	ps := pubsub.BuildWithOption()
	at, n := verifsym.IntRange("fails at", 0, 6), 0
	how := []fredis.Outcome{fredis.Refused, fredis.ReplyLost}[verifsym.Choice("how", 2)]
	hit := false
	st.Fault = func(cmd string) fredis.Outcome {
		if cmd == "xreadgroup" {
			return fredis.OK
		}
		n++
		if n-1 == at {
			hit = true
			return how
		}
		return fredis.OK
	}
	t := ps.GetOrCreateTopic("topic", pubsub.WithTTL(time.Hour))
	c, err := t.Sub(ctx, "c1")
	st.Fault = nil
	verifsym.Assert(hit || err == nil, "an error only if the store fails")
	if err == nil {
		verifsym.Assert(c != nil && st.Group("topic", "c1") >= 0, "the channel exists")
		q := mpsc.New()
		c.Arrived(q)
		verifsym.Assert(t.Pub(ctx, "e", nil) == nil, "published")
		settle()
		verifsym.Assert(q.Pop() != nil && q.Pop() == nil, "and works")
	} else {
		verifsym.Assert(c == nil, "no channel")
	}
	verifsym.Reach("end")
}

// Several goroutines of a node ask for a topic at once: there is one.
//
//verif: preempt=2/3
func VerifC22_Together() {
	st := fredis.Install()
	ps := pubsub.BuildWithOption()
	n := verifsym.Size(2, 3)
	got := make(chan *pubsub.Topic, n)
	for i := 0; i < n; i++ {
		go func() {
			if i == 1 {
				got <- ps.CreateTopic("topic", pubsub.WithTTL(time.Hour))
			} else {
				got <- ps.GetOrCreateTopic("topic", pubsub.WithTTL(time.Hour))
			}
		}()
	}
	t := <-got
	for i := 1; i < n; i++ {
		verifsym.Assert(<-got == t, "the same topic")
	}
	verifsym.Assert(t != nil && ps.GetTopic("topic") == t, "the same topic")
	verifsym.Assert(recorded(st, "topic") && st.TTL("topic") == time.Hour, "created")
	verifsym.Reach("end")
}

// A topic that another node closed, or that expired, can be used again.
//
//verif: preempt=0
func VerifC22_ClosedElsewhere() {
	st := fredis.Install()
	w := vn.NewWorld()
	n1, n2 := w.Node("n1", "10.0.0.1"), w.Node("n2", "10.0.0.2")
	c, err := n1.Sub("topic", "c1")
	verifsym.Assert(err == nil, "subscribed")
	verifsym.Assert(n2.Pub("topic", "e", nil) == nil, "published")
	c.Arrived(mpsc.New())
	settle()
	verifsym.Assert(c.Close() == nil, "closed")
	p := pubsub.BuildWithOption()
	verifsym.Assert(p.GetOrCreateTopic("topic").Close() == nil && !st.Has("topic"), "deleted")
	n := []string{"n1", "n2"}[verifsym.Choice("again", 2)]
	sys := n1
	if n == "n2" {
		sys = n2
	}
	d, want := ttl()
	if verifsym.Choice("publish", 2) == 1 {
		verifsym.Assert(sys.Pub("topic", "e", nil) == nil, "published")
		verifsym.Assert(recorded(st, "topic") && st.Len("topic") == 1, "created again")
	} else {
		c, err = sys.Sub("topic", "c1", pubsub.WithTTL(d))
		verifsym.Assert(err == nil && c != nil && st.Group("topic", "c1") >= 0, "can be subscribed again")
		verifsym.Assert(recorded(st, "topic") && st.TTL("topic") == want, "created again")
		q := mpsc.New()
		c.Arrived(q)
		verifsym.Assert(n1.Pub("topic", "e", nil) == nil, "published")
		settle()
		verifsym.Assert(q.Pop() != nil && q.Pop() == nil, "and works")
	}
	verifsym.Reach("end")
}

// The node's subscription hands the options on.
//
//verif: preempt=0
func VerifC22_System() {
	st := fredis.Install()
	w := vn.NewWorld()
	n1, n2 := w.Node("n1", "10.0.0.1"), w.Node("n2", "10.0.0.2")
	d, want := ttl()
	c, err := n1.Sub("topic", "c1", pubsub.WithTTL(d))
	verifsym.Assert(err == nil && c != nil, "subscribed")
	verifsym.Assert(st.TTL("topic") == want && recorded(st, "topic"), "the time to live of the first subscriber")
	_, err = n2.Sub("topic", "c2", pubsub.WithTTL(7*time.Second))
	verifsym.Assert(err == nil, "subscribed")
	_, err = n1.Sub("topic", "c3", pubsub.WithTTL(8*time.Second))
	verifsym.Assert(err == nil, "subscribed")
	verifsym.Assert(st.TTL("topic") == want, "stays")
	for _, c := range []string{"c1", "c2", "c3"} {
		verifsym.Assert(st.Group("topic", c) >= 0, "each channel exists")
	}
	verifsym.Reach("end")
}

// A topic is closed while somebody publishes or subscribes.
//
//verif: preempt=1/2
func VerifC22_ClosePublish() {
	st := fredis.Install()
	p1, p2 := pubsub.BuildWithOption(), pubsub.BuildWithOption()
	t1, t2 := p1.GetOrCreateTopic("topic"), p2.GetOrCreateTopic("topic")
	done := make(chan error)
	go func() { done <- t2.Pub(ctx, "e", nil) }()
	t1.Close()
	err := <-done
	verifsym.Assert(err != nil || st.Len("topic") == 1, "a published message is not deleted by closing the topic")
	verifsym.Reach("end")
}

//verif: preempt=1/2 nonterm=0
func VerifC22_CloseSubscribe() {
	st := fredis.Install()
	p1, p2 := pubsub.BuildWithOption(), pubsub.BuildWithOption()
	t1, t2 := p1.GetOrCreateTopic("topic"), p2.GetOrCreateTopic("topic")
	done := make(chan error)
	go func() {
		_, err := t2.Sub(ctx, "c1")
		done <- err
	}()
	t1.Close()
	err := <-done
	verifsym.Assert(err != nil || st.Group("topic", "c1") >= 0, "a new channel is not deleted by closing the topic")
	verifsym.Reach("end")
}

// The last subscriber leaves a channel while another one joins.
//
//verif: preempt=1/2 nonterm=0
func VerifC22_CloseJoin() {
	st := fredis.Install()
	ps := pubsub.BuildWithOption()
	t := ps.GetOrCreateTopic("topic")
	c, err := t.Sub(ctx, "c1")
	verifsym.Assert(err == nil, "subscribed")
	c.Arrived(mpsc.New())
	settle()
	done := make(chan error)
	start := make(chan bool, 10)
	st.Fault = func(cmd string) fredis.Outcome {
		if cmd == "xgroup" { // the reader is gone, the closing channel changes the store
			select {
			case start <- true:
			default:
			}
		}
		return fredis.OK
	}
	go func() {
		<-start
		_, err := t.Sub(ctx, "c1")
		done <- err
	}()
	verifsym.Assert(c.Close() == nil, "closed")
	err = <-done
	verifsym.Assert(err != nil || st.Group("topic", "c1") == 1, "the channel of a new subscriber stays")
	verifsym.Reach("end")
}

// Somebody has just created a channel and nobody reads it yet: the topic is in use.
//
//verif: preempt=0
func VerifC22_FreshChannel() {
	st := fredis.Install()
	ps := pubsub.BuildWithOption()
	t := ps.GetOrCreateTopic("topic")
	n := verifsym.Choice("channels", 3)
	for i := 0; i < n; i++ {
		verifsym.Assert(trdredis.XGroupCreate(ctx, "topic", []string{"c1", "c2"}[i], "0").Err() == nil, "created")
	}
	verifsym.Assert(t.Close() == nil, "closed, or left alone")
	verifsym.Assert(st.Has("topic") == (n > 0) && recorded(st, "topic") == (n > 0), "deleted only without a channel")
	for i := 0; i < n; i++ {
		verifsym.Assert(st.Group("topic", []string{"c1", "c2"}[i]) == 0, "the channel stays")
	}
	verifsym.Reach("end")
}
