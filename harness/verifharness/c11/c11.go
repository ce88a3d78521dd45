package c11

import (
	"context"

	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()

// Any limit, any number of local and remote actors, unique or not.
//
//verif: preempt=0
func VerifC11_Limit() {
	fredis.Install()
	w := vn.NewWorld()
	c := w.Type("s", 1, 0, false)
	w.Type("t", 1, 0, false)
	n1, n2 := w.Node("n1", "10.0.0.1"), w.Node("n10", "10.0.0.2")
	local, remote := verifsym.Choice("local", 3), verifsym.Choice("remote", 3)
	ids := []string{"a", "b", "c", "d"}
	for i := 0; i < local; i++ {
		_, err := vn.Register(n1, "s", ids[i])
		verifsym.Assert(err == nil, "a type without restrictions is accepted")
	}
	for i := 0; i < remote; i++ {
		_, err := vn.Register(n2, "s", ids[i]+"r")
		verifsym.Assert(err == nil, "a type without restrictions is accepted")
	}
	others := verifsym.Choice("others", 2)
	if others > 0 {
		vn.Register(n1, "t", "o1")
		vn.Register(n2, "t", "o2")
	}
	limit := verifsym.IntRange("limit", 0, 1<<30)
	unique := verifsym.Choice("unique", 2) == 1
	c.GlobalQuantityLimit, c.NodeUnique = limit, unique
	_, err := vn.Register(n1, "s", "new")
	want := (limit == 0 || local+remote < limit) && !(unique && local > 0)
	verifsym.Assert((err == nil) == want, "accepted exactly below the limit and if unique on this node")
	n, e2 := n2.AddressBook().GetActorTypeCount(ctx, "s")
	verifsym.Assert(e2 == nil && n == int64(local+remote+verifsym.B2I(err == nil)), "the cluster's count")
	_, err = vn.Register(n1, "t", "other")
	verifsym.Assert(err == nil, "another type is not affected")
	verifsym.Reach("end")
}

// A place becomes free again.
//
//verif: preempt=0
func VerifC11_Freed() {
	fredis.Install()
	w := vn.NewWorld()
	unique := verifsym.Choice("unique", 2) == 1
	limit := 2
	if unique {
		limit = []int{0, 5}[verifsym.Choice("limit", 2)]
	}
	w.Type("s", 1, limit, unique)
	n1, n2 := w.Node("n1", "10.0.0.1"), w.Node("n10", "10.0.0.2")
	_, e1 := vn.Register(n1, "s", "a")
	_, e2 := vn.Register(n2, "s", "b")
	verifsym.Assert(e1 == nil && e2 == nil, "one on each node")
	_, e3 := vn.Register(n1, "s", "c")
	verifsym.Assert(e3 != nil, "no place left")
	who := verifsym.Choice("leaves", 2)
	if who == 0 {
		verifsym.Assert(n1.Unregister("a", "s") == nil, "removed")
	} else {
		verifsym.Assert(n2.Unregister("b", "s") == nil, "removed")
	}
	_, e4 := vn.Register(n1, "s", "c")
	verifsym.Assert((e4 == nil) == (!unique || who == 0), "the place that became free")
	verifsym.Reach("end")
}

// Actors of a unique type registered at the same time on one node and on another.
//
//verif: preempt=2/3 states=60000
func VerifC11_UniqueRace() {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("s", 1, []int{0, 9}[verifsym.Choice("limit", 2)], true)
	n1, n2 := w.Node("n1", "10.0.0.1"), w.Node("n10", "10.0.0.2")
	ids := []string{"a", "b"}
	ok := 0
	for i := range ids {
		i := i
		go func() {
			_, err := vn.Register(n1, "s", ids[i])
			if err == nil {
				ok++
			}
		}()
	}
	verifsym.Quiesce()
	verifsym.Assert(ok == 1, "exactly one of them is accepted")
	verifsym.Assert(len(n1.Actors()) == 1 && len(w.Inits) == 1, "one actor on the node")
	_, err := vn.Register(n2, "s", "c")
	verifsym.Assert(err == nil, "another node may have its own")
	verifsym.Reach("end")
}

// Removals on the same node at the same time do not take a place.
//
//verif: preempt=2/3 states=60000
func VerifC11_RemovalMeanwhile() {
	fredis.Install()
	w := vn.NewWorld()
	w.Type("s", 1, []int{0, 2}[verifsym.Choice("limit", 2)], true)
	w.Type("t", 1, 0, false)
	n1, n2 := w.Node("n1", "10.0.0.1"), w.Node("n10", "10.0.0.2")
	_, err := vn.Register(n1, "t", "b")
	verifsym.Assert(err == nil, "set up")
	_, err = vn.Register(n2, "s", "c")
	verifsym.Assert(err == nil, "another node's own")
	what := verifsym.Choice("removed", 3)
	go func() {
		switch what {
		case 0:
			n1.Unregister("ghost", "s")
		case 1:
			n1.Unregister("b", "t")
		case 2:
			n1.Unregister("b", "s")
		}
	}()
	_, err = vn.Register(n1, "s", "a")
	verifsym.Assert(err == nil, "accepted: none of its type on this node")
	verifsym.Quiesce()
	verifsym.Reach("end")
}
