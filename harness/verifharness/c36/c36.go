package c36

import (
	"context"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/models/grpcm"
	"github.com/pojol/braid/verifharness/models/sigm"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()
var ids = []string{"a", "b", "c"}

// world has two nodes: the first shuts down, the second stays with one actor z.
type world struct {
	db      *fredis.Store
	w       *vn.World
	n1, n2  core.ISystem
	k       int
	handled [4]int
	sum     int64
	busy    func(i int) // called in the handlers
}

func index(id string) int {
	for i, s := range ids {
		if s == id {
			return i
		}
	}
	return 3
}

func start(k, port int) *world {
	d := &world{db: fredis.Install(), w: vn.NewWorld(), k: k}
	wt := verifsym.IntRange("weight", 0, 1000)
	d.sum = int64(wt)
	d.w.Type("t", wt, 0, false)
	d.w.Setup = func(a core.IActor) {
		i := index(a.ID())
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			if d.busy != nil {
				d.busy(i)
			}
			verifsym.Yield()
			d.handled[i]++
			mw.Res.Body = append([]byte(nil), mw.Req.Body...)
			return nil
		})
	}
	verifsym.Setup(func() {
		if port == 0 {
			d.n1, d.n2 = d.w.Node("n1", "10.0.0.1"), d.w.Node("n2", "10.0.0.2")
		} else {
			d.n1, d.n2 = d.w.NodeAt("n1", "127.0.0.1", port), d.w.NodeAt("n2", "127.0.0.1", port+1)
		}
		for _, id := range ids[:k] {
			d.register(id)
		}
		_, err := vn.Register(d.n2, "t", "z")
		verifsym.Assert(err == nil, "registered")
		verifsym.Quiesce()
	})
	return d
}

func (d *world) register(id string) {
	_, err := vn.Register(d.n1, "t", id)
	verifsym.Assert(err == nil, "registered")
}

// exits counts the shutdowns of an actor.
func (d *world) exits(id string) int {
	n := 0
	verifsym.Atomic(func() {
		for _, e := range d.w.Exits {
			if e == id {
				n++
			}
		}
	})
	return n
}

// down checks the node after the group was waited for.
func (d *world) down(records bool) {
	for _, id := range ids[:d.k] {
		verifsym.Assert(d.exits(id) == 1, "every actor is shut down exactly once")
	}
	verifsym.Assert(d.exits("z") == 0, "the other node is left alone")
	_, err := d.n2.AddressBook().GetByID(ctx, "z")
	verifsym.Assert(err == nil, "the other node's records stay")
	if records {
		for _, id := range ids[:d.k] {
			_, err := d.n2.AddressBook().GetByID(ctx, id)
			verifsym.Assert(err != nil, "no record by id")
		}
		l, err := d.n2.AddressBook().GetByType(ctx, "t")
		verifsym.Assert(err == nil && len(l) == 1 && l[0].ActorId == "z", "no record by type")
		verifsym.Assert(!d.db.Has("{node:n1}"), "no record of the node's actors")
		verifsym.Assert(!d.db.HasField(def.RedisAddressbookNodesField, "n1"), "no record of the node")
	}
	v, _ := d.db.HInt("{node:n2}", "total_weight")
	verifsym.Assert(v == d.sum, "the other node's weight stays")
	n := d.handled
	for _, id := range ids[:d.k] {
		a, err := d.n1.FindActor(ctx, id)
		if err == nil {
			verifsym.Assert(a.Received(vn.Msg("ev")) != nil, "no actor accepts any more")
		}
		verifsym.Assert(d.n1.Send(id, "t", "ev", vn.Msg("")) != nil, "nothing is delivered any more")
	}
	verifsym.Quiesce()
	verifsym.Assert(n == d.handled, "nothing runs afterwards")
}

func (d *world) send(id string) {
	verifsym.Assert(d.n1.Send(id, "t", "ev", vn.Msg("")) == nil, "sent")
}

// A node with up to three actors that have messages pending.
//
//verif: preempt=1
func VerifC36_Pending() {
	d := start(verifsym.Choice("actors", verifsym.Size(3, 4)), 0)
	p := verifsym.Choice("messages", 3)
	for _, id := range ids[:d.k] {
		for i := 0; i < p; i++ {
			d.send(id)
		}
	}
	var wg sync.WaitGroup
	d.n1.Exit(&wg)
	wg.Wait()
	for i := range ids[:d.k] {
		verifsym.Assert(d.handled[i] == p, "what they had accepted is handled")
	}
	d.down(true)
	verifsym.Reach("end")
}

// Shutting down does not wait for the actors, the group does.
//
//verif: preempt=1/2
func VerifC36_Busy() {
	d := start(2, 0)
	hold := make(chan bool)
	slow := verifsym.Choice("slow", 2)
	d.busy = func(i int) {
		if i == slow {
			<-hold
		}
	}
	d.send(ids[slow])
	var wg sync.WaitGroup
	d.n1.Exit(&wg)
	verifsym.Quiesce()
	verifsym.Assert(d.exits("a") == 1 && d.exits("b") == 1, "both are being shut down")
	waited := false
	go func() {
		wg.Wait()
		waited = true
	}()
	verifsym.Quiesce()
	verifsym.Assert(!waited, "the group waits for the busy actor")
	close(hold)
	wg.Wait()
	verifsym.Assert(d.handled[slow] == 1, "its message is handled")
	d.down(true)
	verifsym.Reach("end")
}

// The store fails at any command of the shutdown.
//
//verif: preempt=0/1 native=conc
func VerifC36_Store() {
	d := start(verifsym.Choice("actors", 3), 0)
	for _, id := range ids[:d.k] {
		d.send(id)
	}
	at, n, lasting := verifsym.IntRange("fails at", 0, 12), 0, verifsym.Choice("lasting", 2) == 1
	hit := false
	how := []fredis.Outcome{fredis.Refused, fredis.ReplyLost, fredis.HalfExecuted, fredis.HalfAnswered}[verifsym.Choice("how", 4)]
	d.db.Fault = func(cmd string) fredis.Outcome {
		n++
		if n == at || lasting && n > at && at > 0 {
			hit = true
			return how
		}
		return fredis.OK
	}
	var wg sync.WaitGroup
	d.n1.Exit(&wg)
	wg.Wait()
	d.db.Fault = nil
	for i := range ids[:d.k] {
		verifsym.Assert(d.handled[i] == 1, "what they had accepted is handled")
	}
	d.down(!hit)
	verifsym.Reach("end")
}

// What an unregistration that failed at the store left behind goes with the node.
//
//verif: preempt=0/1
func VerifC36_Leftover() {
	d := start(verifsym.IntRange("actors", 1, 2), 0)
	at, n := verifsym.IntRange("fails at", 1, 4), 0
	d.db.Fault = func(string) fredis.Outcome {
		n++
		if n == at {
			return fredis.Refused
		}
		return fredis.OK
	}
	for _, id := range ids[:d.k] {
		d.n1.Unregister(id, "t")
	}
	d.db.Fault = nil
	verifsym.Quiesce()
	var wg sync.WaitGroup
	d.n1.Exit(&wg)
	wg.Wait()
	d.down(true)
	verifsym.Reach("end")
}

// Actors come and go while the node shuts down.
//
//verif: preempt=0/1
func VerifC36_Concurrent() { concurrent(2, verifsym.Choice("what", 5)) }

//verif: preempt=1/2
func VerifC36_ConcurrentRegister() { concurrent(1, 0) }

//verif: preempt=1/2
func VerifC36_ConcurrentActors() { concurrent(1, 1) }

//verif: preempt=1/2
func VerifC36_ConcurrentCall() { concurrent(1, 4) }

func concurrent(k, what int) {
	d := start(k, 0)
	var wg, other sync.WaitGroup
	other.Add(1)
	go func() {
		defer other.Done()
		switch what {
		case 0:
			vn.Register(d.n1, "t", "late")
		case 1:
			d.n1.Actors()
		case 2:
			d.n1.Unregister("late", "t")
		case 3:
			d.n1.FindActor(ctx, "a")
		case 4:
			mw := vn.Msg("ev")
			err := d.n1.Call("a", "t", "ev", mw)
			verifsym.Assert(err != nil || d.handled[0] == 1, "a call is handled or refused")
		}
	}()
	d.n1.Exit(&wg)
	wg.Wait()
	other.Wait()
	d.down(what != 0)
	verifsym.Reach("end")
}

// The list of a node's actors.
//
//verif: preempt=1/2
func VerifC36_Actors() {
	d := start(verifsym.Choice("actors", 4), 0)
	other := verifsym.Choice("other", 2)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		if other == 0 {
			d.n1.Unregister("a", "t")
		} else {
			vn.Register(d.n1, "t", "late")
		}
	}()
	l := d.n1.Actors()
	seen := [4]int{}
	for _, a := range l {
		seen[index(a.ID())]++
	}
	for i := range ids[:d.k] {
		verifsym.Assert(seen[i] == 1 || i == 0 && other == 0 && seen[0] == 0, "each registered actor once")
	}
	wg.Wait()
	l = d.n1.Actors()
	n := d.k
	if other == 1 {
		n++
	} else if d.k > 0 {
		n--
	}
	verifsym.Assert(len(l) == n, "all of them")
	verifsym.Reach("end")
}

// The acceptor is closed: a remote call gets its answer or an error, later ones get an error.
//
//verif: preempt=1/2 native=conc
func VerifC36_Acceptor() {
	d := start(1, 27201)
	v := verifsym.Byte("value")
	one := func() bool {
		mw := vn.Msg("ev")
		mw.Req.Body = []byte{v}
		err := d.n2.Call("a", "t", "ev", mw)
		if err == nil {
			verifsym.Assert(len(mw.Res.Body) == 1 && mw.Res.Body[0] == v, "the answer")
			verifsym.Assert(d.handled[0] > 0, "from its handler")
		}
		return err == nil
	}
	if verifsym.Choice("connected", 2) == 1 {
		verifsym.Assert(one(), "called")
	}
	var wg, other sync.WaitGroup
	other.Add(1)
	go func() {
		defer other.Done()
		one()
	}()
	d.n1.Exit(&wg)
	verifsym.Assert(!one(), "no call is accepted any more")
	wg.Wait()
	other.Wait()
	n := d.handled
	verifsym.Assert(!one(), "no call is accepted any more")
	verifsym.Assert(n == d.handled, "and none is handled")
	if verifsym.Symbolic() {
		verifsym.Assert(!grpcm.Open(":27201"), "the port is free again")
	}
	d.w.NodeAt("n3", "127.0.0.1", 27201)
	verifsym.Reach("end")
}

// Both nodes shut down while calling each other.
//
//verif: preempt=0/1
func VerifC36_Both() {
	d := start(1, 27203)
	var wg sync.WaitGroup
	wg.Add(4)
	go func() {
		defer wg.Done()
		d.n1.Call("z", "t", "ev", vn.Msg("ev"))
	}()
	go func() {
		defer wg.Done()
		d.n2.Call("a", "t", "ev", vn.Msg("ev"))
	}()
	var w1, w2 sync.WaitGroup
	go func() {
		defer wg.Done()
		d.n1.Exit(&w1)
	}()
	go func() {
		defer wg.Done()
		d.n2.Exit(&w2)
	}()
	wg.Wait()
	w1.Wait()
	w2.Wait()
	verifsym.Assert(d.exits("a") == 1 && d.exits("z") == 1, "both are shut down")
	verifsym.Assert(!d.db.Has("{node:n1}") && !d.db.Has("{node:n2}"), "no records")
	verifsym.Assert(d.db.HLen(def.RedisAddressbookIDField) == 0, "no records by id")
	verifsym.Reach("end")
}

// A process shuts down on each of the three signals, and returns when its actors have finished or after thirty seconds.
//
//verif: preempt=0/1 native=off
func VerifC36_Signal() {
	d := start(verifsym.Choice("actors", 3), 0)
	stuck := verifsym.Choice("stuck", 2) == 1
	if d.k == 0 {
		verifsym.Assume(!stuck)
	}
	hold := make(chan bool)
	finished := [4]bool{}
	d.w.Exit = func(a core.IActor) {
		if stuck && a.ID() == "a" {
			<-hold
		}
		finished[index(a.ID())] = true
	}
	for _, id := range ids[:d.k] {
		d.send(id)
	}
	var wg sync.WaitGroup
	wg.Add(1)
	returned := false
	t0 := verifsym.Now()
	go func() {
		defer wg.Done()
		d.w.Nodes[0].WaitClose()
		returned = true
		all := true
		for i := range ids[:d.k] {
			all = all && finished[i] && d.handled[i] == 1
		}
		verifsym.Assert(all || verifsym.Now()-t0 >= int64(30*time.Second), "waits for the actors")
		verifsym.Assert(verifsym.Now()-t0 <= int64(40*time.Second), "but no longer than thirty seconds")
	}()
	verifsym.Quiesce()
	verifsym.Assert(!returned && d.exits("a") == 0, "runs until it is told to stop")
	s := []os.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}[verifsym.Choice("signal", 3)]
	verifsym.Assert(sigm.Deliver(s), "listens for the signal")
	if verifsym.Choice("twice", 2) == 1 {
		sigm.Deliver(s)
	}
	wg.Wait()
	close(hold)
	verifsym.Quiesce()
	d.down(true)
	verifsym.Reach("end")
}
