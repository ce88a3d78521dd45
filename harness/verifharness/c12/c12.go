package c12

import (
	"context"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()

type world struct {
	st    *fredis.Store
	w     *vn.World
	nodes []core.ISystem
	names []string
	ws    map[string]int // weight of a type
}

// entry is an actor that should or should not be there.
type entry struct {
	id, ty string
	node   int // -1: none
}

func newWorld(nodes int) *world {
	d := &world{st: fredis.Install(), w: vn.NewWorld(), ws: map[string]int{}, names: []string{"n1", "n10"}}
	for _, t := range []string{"s", "t"} {
		d.ws[t] = verifsym.IntRange("weight "+t, 0, 1<<40)
		d.w.Type(t, d.ws[t], 0, false)
	}
	ips := []string{"10.0.0.1", "10.0.0.2"}
	for i := 0; i < nodes; i++ {
		d.nodes = append(d.nodes, d.w.Node(d.names[i], ips[i]))
	}
	return d
}

func (d *world) check(es []*entry) {
	for i, s := range d.nodes {
		sum := 0
		for _, e := range es {
			a, err := s.FindActor(ctx, e.id)
			verifsym.Assert((err == nil) == (e.node == i), "on the node exactly while registered there")
			if err == nil {
				verifsym.Assert(a.ID() == e.id && a.Type() == e.ty, "the right actor")
			}
			r, err := s.AddressBook().GetByID(ctx, e.id)
			verifsym.Assert((err == nil) == (e.node >= 0), "in the address book by id exactly while registered")
			if err == nil {
				verifsym.Assert(r.Node == d.names[e.node], "on the right node")
			}
			if e.node == i {
				sum += d.ws[e.ty]
			}
		}
		for _, t := range []string{"s", "t"} {
			n := 0
			for _, e := range es {
				n += verifsym.B2I(e.node >= 0 && e.ty == t)
			}
			l, err := s.AddressBook().GetByType(ctx, t)
			verifsym.Assert(err == nil && len(l) == n, "in the address book by type exactly while registered")
			for _, r := range l {
				hit := 0
				for _, e := range es {
					hit += verifsym.B2I(e.node >= 0 && e.ty == t && e.id == r.ActorId && r.Node == d.names[e.node])
				}
				verifsym.Assert(hit == 1, "each record is of a registered actor")
			}
		}
		got, _ := d.st.HInt("{node:"+d.names[i]+"}", "total_weight")
		verifsym.Assert(got == int64(sum), "the node's weight is that of its actors")
	}
}

func exits(w *vn.World, id string) (n int) {
	for _, e := range w.Exits {
		n += verifsym.B2I(e == id)
	}
	return
}

// Sequences of registrations and removals on two nodes.
//
//verif: preempt=0 time=120/500
func VerifC12_History() {
	d := newWorld(2)
	es := []*entry{{"a", "s", -1}, {"b", "s", -1}, {"c", "t", -1}}
	reg := func(n int, e *entry) core.IActor {
		a, err := vn.Register(d.nodes[n], e.ty, e.id)
		verifsym.Assert(err == nil, "the id can be registered")
		e.node = n
		return a
	}
	reg(0, es[0])
	steps := verifsym.Size(3, 4)
	for i := 0; i < steps; i++ {
		k := verifsym.Choice("op", 4)
		if k == 3 {
			break
		}
		e := es[k]
		if e.node < 0 {
			n := 0
			if k > 0 {
				n = verifsym.Choice("node", 2)
			}
			reg(n, e)
			continue
		}
		a, _ := d.nodes[e.node].FindActor(ctx, e.id)
		before := exits(d.w, e.id)
		verifsym.Assert(d.nodes[e.node].Unregister(e.id, e.ty) == nil, "removed")
		e.node = -1
		verifsym.Assert(exits(d.w, e.id) == before+1, "shut down once")
		verifsym.Assert(a.Received(vn.Msg("ev")) != nil, "a removed actor accepts nothing")
	}
	d.check(es)
	verifsym.Reach("end")
}

// Removing while other actors are registered and removed on the same node.
//
//verif: preempt=1/2 states=60000/250000 time=60/500
func VerifC12_Concurrent() {
	d := newWorld(1)
	es := []*entry{{"a", "s", 0}, {"b", "s", 0}, {"c", "t", -1}}
	s := d.nodes[0]
	for _, e := range es[:2] {
		_, err := vn.Register(s, e.ty, e.id)
		verifsym.Assert(err == nil, "registered")
	}
	what := verifsym.Choice("what", 4)
	go func() {
		verifsym.Assert(s.Unregister("a", "s") == nil, "removed")
		es[0].node = -1
	}()
	switch what {
	case 0: // another actor at the same time
		go func() {
			verifsym.Assert(s.Unregister("b", "s") == nil, "removed")
			es[1].node = -1
		}()
	case 1: // a registration at the same time
		go func() {
			_, err := vn.Register(s, "t", "c")
			verifsym.Assert(err == nil, "registered")
			es[2].node = 0
		}()
	case 2: // a send to it at the same time
		go func() { s.Send("a", "s", "ev", vn.Msg("ev")) }()
	case 3: // a wildcard call at the same time
		go func() { s.Call("?", "s", "ev", vn.Msg("ev")) }()
	}
	verifsym.Quiesce()
	d.check(es)
	_, err := vn.Register(s, "s", "a")
	verifsym.Assert(err == nil, "the id can be registered again")
	es[0].node = 0
	d.check(es)
	verifsym.Reach("end")
}

// The same actor removed twice at the same time.
//
//verif: preempt=2/3 states=60000
func VerifC12_Twice() {
	d := newWorld(1)
	es := []*entry{{"a", "s", 0}, {"b", "s", 0}}
	s := d.nodes[0]
	for _, e := range es {
		vn.Register(s, e.ty, e.id)
	}
	ok := 0
	for i := 0; i < 2; i++ {
		go func() {
			if s.Unregister("a", "s") == nil {
				ok++
			}
		}()
	}
	verifsym.Quiesce()
	verifsym.Assert(ok >= 1, "removed")
	es[0].node = -1
	d.check(es)
	verifsym.Reach("end")
}

// An actor whose type name was changed before it was registered, and removal naming another type.
func VerifC12_Types() {
	d := newWorld(1)
	s := d.nodes[0]
	_, err := vn.Register(s, "t", "b")
	verifsym.Assert(err == nil, "registered")
	b := s.Loader("s").(*actor.ActorLoaderBuilder)
	b.ID = "a"
	ty := []string{"s", "renamed", "t"}[verifsym.Choice("type", 3)]
	_, err = s.Register(ctx, b.WithType(ty))
	verifsym.Assert(err == nil, "registered")
	arg := []string{ty, "s", "t", "", "nowhere"}[verifsym.Choice("argument", 5)]
	verifsym.Assert(s.Unregister("a", arg) == nil, "removed")
	es := []*entry{{"a", "s", -1}, {"b", "t", 0}}
	d.check(es)
	l, err := s.AddressBook().GetByType(ctx, "renamed")
	verifsym.Assert(err == nil && len(l) == 0, "nothing left under its type")
	verifsym.Reach("end")
}

// A node that died leaves records; after a restart they are removed, with their weight, by name or when they are called.
//
//verif: preempt=0/1
func VerifC12_Restart() {
	d := newWorld(2)
	vn.Register(d.nodes[0], "s", "a")
	vn.Register(d.nodes[0], "t", "b")
	vn.Register(d.nodes[1], "t", "c")
	es := []*entry{{"b", "t", -1}, {"c", "t", 1}}
	s := d.w.Node("n1", "10.0.0.1")
	d.nodes[0] = s
	keep := d.ws["t"]
	switch verifsym.Choice("how", 4) {
	case 0:
		verifsym.Assert(s.Unregister("a", "s") == nil, "removed")
	case 1:
		verifsym.Assert(s.Call("a", "s", "ev", vn.Msg("ev")) != nil, "not there any more")
	case 2:
		verifsym.Assert(s.Send("a", "t", "ev", vn.Msg("ev")) != nil, "not there any more")
	case 3:
		verifsym.Assert(s.Call("?", "s", "ev", vn.Msg("ev")) != nil, "not there any more")
	}
	_, err := s.AddressBook().GetByID(ctx, "a")
	verifsym.Assert(err != nil, "not in the address book by id")
	l, err := s.AddressBook().GetByType(ctx, "s")
	verifsym.Assert(err == nil && len(l) == 0, "not in the address book by type")
	got, _ := d.st.HInt("{node:n1}", "total_weight")
	verifsym.Assert(got == int64(keep), "the weight of the other record is left")
	verifsym.Assert(s.Unregister("b", "t") == nil, "removed")
	d.check(es)
	_, err = vn.Register(s, "s", "a")
	verifsym.Assert(err == nil, "the id can be registered again")
	es = append(es, &entry{"a", "s", 0})
	d.check(es)
	verifsym.Reach("end")
}

// Removing what is not there changes nothing.
func VerifC12_Absent() {
	d := newWorld(2)
	vn.Register(d.nodes[0], "s", "a")
	switch verifsym.Choice("what", 4) {
	case 0:
		d.nodes[0].Unregister("b", "s")
	case 1:
		d.nodes[0].Unregister("", "s")
	case 2:
		verifsym.Assert(d.nodes[0].Unregister("b", "nowhere") != nil, "unknown type")
	case 3:
		d.nodes[1].Unregister("b", "t")
	}
	d.check([]*entry{{"a", "s", 0}, {"b", "s", -1}})
	verifsym.Reach("end")
}

// What the actor accepted before is handled before the removal returns.
//
//verif: preempt=2
func VerifC12_Drains() {
	d := newWorld(1)
	handled := 0
	d.w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(core.ActorContext, *msg.Wrapper) error { handled++; return nil })
	}
	s := d.nodes[0]
	vn.Register(s, "s", "a")
	accepted := 0
	for i := 0; i < 2; i++ {
		accepted += verifsym.B2I(s.Send("a", "s", "ev", vn.Msg("ev")) == nil)
	}
	verifsym.Assert(s.Unregister("a", "s") == nil, "removed")
	verifsym.Assert(accepted == 2 && handled == 2, "accepted messages are handled first")
	verifsym.Assert(s.Send("a", "s", "ev", vn.Msg("ev")) != nil, "and later ones refused")
	verifsym.Assert(s.Call("~", "s", "ev", vn.Msg("ev")) != nil, "by type as well")
	d.check([]*entry{{"a", "s", -1}})
	verifsym.Reach("end")
}
