package c17

import (
	"context"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifsym"
)

type rec struct {
	id, ty string
	owner  int // -1: not registered
	w      int
}

type world struct {
	st    *fredis.Store
	books []*addressbook.AddressBook
	recs  []*rec
}

var ctx = context.Background()

func newWorld(nodes int, recs ...*rec) *world {
	w := &world{st: fredis.Install()}
	names := []string{"n1", "n10", "n"}
	for i := 0; i < nodes; i++ {
		w.books = append(w.books, addressbook.New(core.AddressInfo{Node: names[i], Ip: "10.0.0.1", Port: 7000 + i}))
	}
	for _, r := range recs {
		r.owner = -1
		w.recs = append(w.recs, r)
	}
	return w
}

func (w *world) register(b int, r *rec, weight int) {
	err := w.books[b].Register(ctx, r.ty, r.id, weight)
	verifsym.Assert(err == nil, "registration succeeds")
	r.owner, r.w = b, weight
}

func (w *world) unregister(b int, r *rec) {
	err := w.books[b].Unregister(ctx, r.id, r.w)
	verifsym.Assert(err == nil, "removal succeeds")
	r.owner = -1
}

func (w *world) clear(b int) {
	verifsym.Assert(w.books[b].Clear(ctx) == nil, "clean-up succeeds")
	for _, r := range w.recs {
		if r.owner == b {
			r.owner = -1
		}
	}
}

func (w *world) same(a core.AddressInfo, r *rec) bool {
	b := w.books[r.owner]
	return a.ActorId == r.id && a.Node == b.NodeID && a.Ip == b.Ip && a.Port == b.Port
}

// check compares every view of every node with the expected set.
func (w *world) check(views ...int) {
	tys := map[string]bool{}
	var order []string
	for _, r := range w.recs {
		if !tys[r.ty] {
			tys[r.ty] = true
			order = append(order, r.ty)
		}
	}
	for _, v := range views {
		b := w.books[v]
		for _, r := range w.recs {
			a, err := b.GetByID(ctx, r.id)
			if r.owner < 0 {
				verifsym.Assert(err == addressbook.ErrUnknownActor, "an unregistered id is unknown")
				continue
			}
			verifsym.Assert(err == nil, "a registered id is found")
			verifsym.Assert(w.same(a, r), "lookup by id gives the registered address")
		}
		for _, ty := range order {
			l, err := b.GetByType(ctx, ty)
			verifsym.Assert(err == nil, "lookup by type")
			n := 0
			for _, r := range w.recs {
				if r.ty != ty || r.owner < 0 {
					continue
				}
				n++
				hits := 0
				for _, a := range l {
					hits += verifsym.B2I(w.same(a, r) && a.ActorTy == ty)
				}
				verifsym.Assert(hits == 1, "lookup by type lists each registered actor once")
			}
			verifsym.Assert(len(l) == n, "lookup by type lists nothing else")
			c, err := b.GetActorTypeCount(ctx, ty)
			verifsym.Assert(err == nil && c == int64(n), "type count")
			for i, o := range w.books {
				sum := 0
				for _, r := range w.recs {
					if r.ty == ty && r.owner == i {
						sum += r.w
					}
				}
				got, _ := w.st.HInt("{node:"+o.NodeID+"}", "actor:"+ty)
				verifsym.Assert(got == int64(sum), "weight recorded per type")
			}
		}
	}
	for i, o := range w.books {
		sum := 0
		for _, r := range w.recs {
			if r.owner == i {
				sum += r.w
			}
		}
		got, _ := w.st.HInt("{node:"+o.NodeID+"}", "total_weight")
		verifsym.Assert(got == int64(sum), "a node's weight is the sum over its actors")
	}
}

func weight() int { return verifsym.IntRange("w", -1<<40, 1<<40) }

// Every history of registrations, removals and clean-ups of two nodes over three actors of two types.
//
//verif: time=120/500
func VerifC17_History() {
	w := newWorld(2, &rec{id: "a", ty: "s"}, &rec{id: "b", ty: "s"}, &rec{id: "c\"<é", ty: "s2"})
	steps := verifsym.Size(4, 5)
	w.register(0, w.recs[0], weight())
	for s := 1; s < steps; s++ {
		k := verifsym.Choice("op", 3+2+2)
		switch {
		case k < 3:
			r := w.recs[k]
			if r.owner >= 0 {
				w.unregister(r.owner, r)
			} else {
				w.register(verifsym.Choice("node", 2), r, weight())
			}
		case k < 5:
			w.clear(k - 3)
		case k == 5:
			// nothing: shorter histories
			s = steps
		default:
			// a registered id is refused on the node that has it
			for _, r := range w.recs {
				if r.owner >= 0 {
					verifsym.Assert(w.books[r.owner].Register(ctx, r.ty, r.id, weight()) != nil, "a registered id is refused")
					break
				}
			}
			s = steps
		}
	}
	w.check(0, 1)
	verifsym.Reach("end")
}

// Any texts as ids and types.
func VerifC17_Texts() {
	sym := func(n string) string {
		s := verifsym.String(n, 2)
		verifsym.Assume(s != "")
		for i := 0; i < len(s); i++ {
			verifsym.Assume(s[i] < 128)
		}
		return s
	}
	r1, r2 := &rec{id: sym("id1"), ty: sym("ty1")}, &rec{id: sym("id2"), ty: sym("ty2")}
	verifsym.Assume(r1.id != r2.id)
	w := newWorld(2, r1, r2)
	w.register(0, r1, weight())
	w.register(verifsym.Choice("node", 2), r2, weight())
	switch verifsym.Choice("then", 3) {
	case 0:
		w.unregister(0, r1)
	case 1:
		w.clear(0)
	}
	w.check(0, 1)
	verifsym.Reach("end")
}

// A record found stale by another node (a restarted one) is removed from the books of the node it names.
func VerifC17_ForeignRemoval() {
	w := newWorld(2, &rec{id: "a", ty: "s"}, &rec{id: "b", ty: "s"})
	w.register(0, w.recs[0], weight())
	w.register(1, w.recs[1], weight())
	w.unregister(1, w.recs[0])
	w.check(1)
	verifsym.Reach("end")
}

// Bad parameters leave nothing behind.
func VerifC17_Bad() {
	w := newWorld(1, &rec{id: "a", ty: "s"})
	switch verifsym.Choice("bad", 4) {
	case 0:
		verifsym.Assert(w.books[0].Register(ctx, "", "a", weight()) != nil, "empty type refused")
	case 1:
		verifsym.Assert(w.books[0].Register(ctx, "s", "", weight()) != nil, "empty id refused")
	case 2:
		verifsym.Assert(w.books[0].Unregister(ctx, "a", weight()) != nil, "removing an unknown id")
	case 3:
		verifsym.Assert(w.books[0].Unregister(ctx, "", weight()) != nil, "removing an empty id")
	}
	_, err := w.books[0].GetByID(ctx, "")
	verifsym.Assert(err != nil, "looking up an empty id")
	w.check(0)
	verifsym.Assert(!w.st.Has("{node:n1}"), "no node record")
	verifsym.Reach("end")
}

// Two nodes working at the same time.
//
//verif: preempt=2/3 states=60000
func VerifC17_Concurrent() {
	w := newWorld(2, &rec{id: "a", ty: "s"}, &rec{id: "b", ty: "s"}, &rec{id: "c", ty: "s"})
	w.register(0, w.recs[0], 1)
	w.register(1, w.recs[1], 2)
	first := verifsym.Choice("first", 3)
	second := verifsym.Choice("second", 2)
	go func() {
		switch first {
		case 0:
			w.clear(0)
		case 1:
			w.unregister(0, w.recs[0])
		case 2:
			w.unregister(0, w.recs[0])
			w.register(0, w.recs[0], 5)
		}
	}()
	go func() {
		switch second {
		case 0:
			w.register(1, w.recs[2], 4)
			w.unregister(1, w.recs[1])
		case 1:
			w.clear(1)
		}
	}()
	verifsym.Quiesce()
	w.check(0, 1)
	verifsym.Reach("end")
}

// The same id registered twice at the same time on one node: one of them wins, and counts once.
//
//verif: preempt=2/3
func VerifC17_SameId() {
	w := newWorld(1, &rec{id: "a", ty: "s"})
	ok := 0
	ws := [2]int{3, 7}
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			if w.books[0].Register(ctx, "s", "a", ws[i]) == nil {
				ok++
				w.recs[0].owner, w.recs[0].w = 0, ws[i]
			}
		}()
	}
	verifsym.Quiesce()
	verifsym.Assert(ok == 1, "one registration of an id wins")
	w.check(0)
	w.unregister(0, w.recs[0])
	w.check(0)
	verifsym.Reach("end")
}

// The node whose record another node removed.
func VerifC17_OwnerView() {
	w := newWorld(2, &rec{id: "a", ty: "s"})
	w.register(0, w.recs[0], weight())
	w.unregister(1, w.recs[0])
	w.check(0)
	verifsym.Reach("end")
}

// Two nodes announce the same address (one is the other's successor): a clean-up tells them apart.
func VerifC17_SameAddress() {
	w := newWorld(2, &rec{id: "a", ty: "s"}, &rec{id: "b", ty: "s"})
	w.books[0] = addressbook.New(core.AddressInfo{Node: "n1", Ip: "10.0.0.1", Port: 7000})
	w.books[1] = addressbook.New(core.AddressInfo{Node: "n2", Ip: "10.0.0.1", Port: 7000})
	w.register(0, w.recs[0], weight())
	w.register(1, w.recs[1], weight())
	w.clear(verifsym.Choice("node", 2))
	w.check(0, 1)
	verifsym.Reach("end")
}
