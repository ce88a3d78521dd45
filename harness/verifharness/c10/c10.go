package c10

import (
	"context"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()

// there checks that the actor is findable on the node and in the address book.
func there(st *fredis.Store, sys core.ISystem, id, ty string) {
	a, err := sys.FindActor(ctx, id)
	verifsym.Assert(err == nil && a != nil && a.ID() == id && a.Type() == ty, "findable on the node")
	i, err := sys.AddressBook().GetByID(ctx, id)
	verifsym.Assert(err == nil && i.Node == "n1" && i.Ip == "10.0.0.1" && i.ActorId == id, "findable in the address book by id")
	l, err := sys.AddressBook().GetByType(ctx, ty)
	n := 0
	for _, e := range l {
		n += verifsym.B2I(e.ActorId == id && e.Node == "n1" && e.ActorTy == ty)
	}
	verifsym.Assert(err == nil && n == 1, "listed once under its type")
}

// gone checks that nothing is left of an id.
func gone(st *fredis.Store, sys core.ISystem, id, ty string) {
	_, err := sys.FindActor(ctx, id)
	verifsym.Assert(err != nil, "not on the node")
	_, err = sys.AddressBook().GetByID(ctx, id)
	verifsym.Assert(err != nil, "not in the address book")
	l, err := sys.AddressBook().GetByType(ctx, ty)
	for _, e := range l {
		verifsym.Assert(e.ActorId != id, "not listed under its type")
	}
	verifsym.Assert(err == nil, "types readable")
}

func total(st *fredis.Store) int64 {
	n, _ := st.HInt("{node:n1}", "total_weight")
	return n
}

// Registrations of one id at the same time.
//
//verif: preempt=2/3 states=60000
func VerifC10_Race() {
	st := fredis.Install()
	w := vn.NewWorld()
	wt := verifsym.IntRange("weight", 1, 1<<40)
	w.Type("s", wt, 0, false)
	w.Type("t", wt, 0, false)
	sys := w.Node("n1", "10.0.0.1")
	n := verifsym.Size(2, 3)
	other := []string{"s", "t"}[verifsym.Choice("other type", 2)]
	won, ty := 0, ""
	var got core.IActor
	for i := 0; i < n; i++ {
		t := "s"
		if i > 0 {
			t = other
		}
		go func() {
			a, err := vn.Register(sys, t, "a")
			verifsym.Assert((a == nil) == (err != nil), "an actor or an error")
			if err == nil {
				won++
				ty, got = t, a
			}
		}()
	}
	verifsym.Quiesce()
	verifsym.Assert(won == 1, "exactly one registration wins")
	there(st, sys, "a", ty)
	f, _ := sys.FindActor(ctx, "a")
	verifsym.Assert(f == got, "the winner is the one on the node")
	verifsym.Assert(len(w.Inits) == 1, "only one actor was started")
	verifsym.Assert(total(st) == int64(wt), "its weight counts once")
	_, err := vn.Register(sys, ty, "a")
	verifsym.Assert(err != nil, "still taken")
	verifsym.Reach("end")
}

// Different ids at the same time.
//
//verif: preempt=2
func VerifC10_Distinct() {
	st := fredis.Install()
	w := vn.NewWorld()
	w.Type("s", 2, 0, false)
	w.Type("t", 5, 0, false)
	sys := w.Node("n1", "10.0.0.1")
	ids, tys := []string{"a", "b"}, []string{"s", "t"}
	for i := range ids {
		i := i
		go func() {
			_, err := vn.Register(sys, tys[i], ids[i])
			verifsym.Assert(err == nil, "accepted")
			there(st, sys, ids[i], tys[i])
		}()
	}
	verifsym.Quiesce()
	there(st, sys, "a", "s")
	there(st, sys, "b", "t")
	verifsym.Assert(total(st) == 7 && len(sys.Actors()) == 2, "both counted")
	verifsym.Reach("end")
}

// A registration that fails leaves nothing new.
//
//verif: preempt=0
func VerifC10_Fail() {
	st := fredis.Install()
	w := vn.NewWorld()
	wt := verifsym.IntRange("weight", 1, 1<<40)
	w.Type("s", wt, 0, false)
	w.Type("l", wt, 1, false)
	w.Type("u", wt, 0, true)
	w.Type("x", wt, 0, false).Constructor = nil
	w.Type("", wt, 0, false)
	sys := w.Node("n1", "10.0.0.1")
	for _, t := range []string{"s", "l", "u"} {
		_, err := vn.Register(sys, t, t+"1")
		verifsym.Assert(err == nil, "set up")
	}
	before := total(st)
	ty, id := "s", "new"
	switch verifsym.Choice("fault", 7) {
	case 0:
		id = ""
	case 1:
		ty = ""
	case 2:
		id = "s1"
	case 3:
		ty = "l"
	case 4:
		ty = "u"
	case 5:
		ty = "x"
	case 6:
		ty = []string{"s", "s2"}[verifsym.Choice("limited", 2)]
		w.Type("s2", wt, 9, true)
		left := verifsym.Choice("after", 2)
		st.Fault = func(string) fredis.Outcome {
			if left > 0 && ty == "s2" {
				left--
				return fredis.OK
			}
			return fredis.Refused
		}
	}
	a, err := vn.Register(sys, ty, id)
	st.Fault = nil
	verifsym.Assert(a == nil && err != nil, "refused with an error")
	verifsym.Assert(total(st) == before, "weight unchanged")
	verifsym.Assert(len(w.Inits) == 3 && len(sys.Actors()) == 3, "no actor started")
	for _, t := range []string{"s", "l", "u"} {
		there(st, sys, t+"1", t)
	}
	if id == "new" {
		gone(st, sys, "new", ty)
		_, err = vn.Register(sys, "s", "new")
		verifsym.Assert(err == nil, "the id is still free")
		there(st, sys, "new", "s")
	}
	verifsym.Reach("end")
}

// A call that arrives while the actor is being registered does not undo the registration.
//
//verif: preempt=2/3 states=60000
func VerifC10_CallMeanwhile() {
	st := fredis.Install()
	w := vn.NewWorld()
	w.Type("s", 2, 0, false)
	handled := 0
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(core.ActorContext, *msg.Wrapper) error { handled++; return nil })
	}
	sys := w.Node("n1", "10.0.0.1")
	sym := []string{"a", "?"}[verifsym.Choice("address", 2)]
	send := verifsym.Choice("send", 2) == 1
	go func() {
		_, err := vn.Register(sys, "s", "a")
		verifsym.Assert(err == nil, "accepted")
	}()
	go func() {
		if send {
			sys.Send(sym, "s", "ev", vn.Msg("ev"))
		} else {
			sys.Call(sym, "s", "ev", vn.Msg("ev"))
		}
	}()
	verifsym.Quiesce()
	there(st, sys, "a", "s")
	verifsym.Assert(total(st) == 2, "its weight counts")
	verifsym.Reach("end")
}

// An actor registered by another actor's initialisation.
func VerifC10_Nested() {
	st := fredis.Install()
	w := vn.NewWorld()
	w.Type("s", 2, 0, true)
	w.Type("t", 5, 0, false)
	sys := w.Node("n1", "10.0.0.1")
	w.Setup = func(a core.IActor) {
		if a.ID() == "a" {
			_, err := vn.Register(sys, "t", "b")
			verifsym.Assert(err == nil, "nested registration")
			_, err = vn.Register(sys, "t", "a")
			verifsym.Assert(err != nil, "the id is taken already")
		}
	}
	_, err := vn.Register(sys, "s", "a")
	verifsym.Assert(err == nil, "registered")
	there(st, sys, "a", "s")
	there(st, sys, "b", "t")
	verifsym.Reach("end")
}


// A removal of the same id at the same time: the actor is there as a whole or not at all.
//
//verif: preempt=2/3 states=60000
func VerifC10_RemovalMeanwhile() {
	st := fredis.Install()
	w := vn.NewWorld()
	w.Type("s", 2, 0, false)
	w.Type("t", 5, 0, false)
	sys := w.Node("n1", "10.0.0.1")
	_, err := vn.Register(sys, "t", "b")
	verifsym.Assert(err == nil, "set up")
	before := verifsym.Choice("registered before", 2) == 1
	if before {
		vn.Register(sys, "s", "a")
	}
	var rerr, uerr error
	go func() { _, rerr = vn.Register(sys, "s", "a") }()
	go func() { uerr = sys.Unregister("a", "s") }()
	verifsym.Quiesce()
	if _, err := sys.FindActor(ctx, "a"); err == nil {
		verifsym.Reach("there")
		there(st, sys, "a", "s")
		verifsym.Assert(total(st) == 7, "its weight counts")
		verifsym.Assert(before || rerr == nil, "a refused registration leaves nothing")
	} else {
		verifsym.Reach("gone")
		gone(st, sys, "a", "s")
		verifsym.Assert(total(st) == 5, "its weight does not count")
		verifsym.Assert(uerr == nil || rerr != nil, "a successful registration stays until it is removed")
	}
	there(st, sys, "b", "t")
	_, err = vn.Register(sys, "s", "a")
	_, e2 := sys.FindActor(ctx, "a")
	verifsym.Assert(e2 == nil, "the id can be registered again")
	there(st, sys, "a", "s")
	verifsym.Reach("end")
}
