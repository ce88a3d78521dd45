package c18

import (
	"context"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()

var nodes = []string{"n1", "n10", "n", "n1:"}

func book(i int) *addressbook.AddressBook {
	return addressbook.New(core.AddressInfo{Node: nodes[i], Ip: "10.0.0.1", Port: 7000 + i})
}

func key(i int) string { return "{node:" + nodes[i] + "}" }

// spoil gives node i any weight, no weight, or (if allowed) an unusable one; it tells whether it has one.
func spoil(st *fredis.Store, i int, kinds int) (int64, bool) {
	switch verifsym.Choice("weight kind", kinds) {
	case 0:
		w := verifsym.Int64("weight")
		st.PutInt(key(i), "total_weight", w)
		return w, true
	case 1:
		st.Remove(key(i))
	case 2:
		st.PutText(key(i), "total_weight", "many")
	}
	return 0, false
}

// A wildcard lookup over actors on several nodes with any weights.
//
//verif: time=100/500
func VerifC18_Wildcard() {
	st := fredis.Install()
	n := verifsym.Size(3, 3)
	ids := []string{"a", "b", "c", "d"}
	ws := make([]int64, n)
	ok := make([]bool, n)
	any := false
	for i := 0; i < n; i++ {
		verifsym.Assert(book(i).Register(ctx, "s", ids[i], 1) == nil, "registered")
		kinds := 1
		if i > 0 {
			kinds = 3
		}
		if i == 0 && verifsym.Choice("first unusable", 2) == 1 {
			st.Remove(key(0))
			continue
		}
		ws[i], ok[i] = spoil(st, i, kinds)
		any = any || ok[i]
	}
	if verifsym.Choice("junk", 2) == 1 {
		st.AddMember(def.RedisAddressbookTyField+"s", "{junk")
	}
	verifsym.Assert(book(3).Register(ctx, "s2", "z", 1) == nil, "registered")
	st.PutInt(key(3), "total_weight", verifsym.Int64("other weight"))

	a, err := book(3).GetWildcardActor(ctx, "s")
	verifsym.Assert((err == nil) == any, "an error exactly if there is no usable candidate")
	if err != nil {
		verifsym.Assert(a == core.AddressInfo{}, "no address with the error")
		verifsym.Reach("none")
		return
	}
	hit := -1
	for i := 0; i < n; i++ {
		if a.ActorId == ids[i] {
			hit = i
		}
	}
	verifsym.Assert(hit >= 0 && a.ActorTy == "s" && a.Node == nodes[hit] && a.Ip == "10.0.0.1" && a.Port == 7000+hit, "a registered actor of the type, at its address")
	verifsym.Assert(ok[hit], "on a node with a weight")
	for i := 0; i < n; i++ {
		if ok[i] {
			verifsym.Assert(ws[hit] <= ws[i], "no candidate lives on a less loaded node")
		}
	}
	verifsym.Reach("picked")
}

// No actor of the type.
func VerifC18_None() {
	st := fredis.Install()
	if verifsym.Choice("others", 2) == 1 {
		verifsym.Assert(book(0).Register(ctx, "s2", "z", 1) == nil, "registered")
	}
	a, err := book(0).GetWildcardActor(ctx, "s")
	verifsym.Assert(err != nil && a == core.AddressInfo{}, "no actor of the type")
	st.Fault = func(string) fredis.Outcome { return fredis.Refused }
	a, err = book(0).GetWildcardActor(ctx, "s2")
	verifsym.Assert(err != nil && a == core.AddressInfo{}, "store failure")
	a, err = book(0).GetLowWeightNodeForActor(ctx, "s2")
	verifsym.Assert(err != nil && a == core.AddressInfo{}, "store failure")
	verifsym.Reach("end")
}

// A low weight lookup over several nodes with any weights, in every iteration order.
//
//verif: time=100/500
func VerifC18_LowWeight() {
	st := fredis.Install()
	n := verifsym.Size(3, 3)
	ws := make([]int64, n)
	ok := make([]bool, n)
	any := false
	for i := 0; i < n; i++ {
		if verifsym.Choice("present", 2) == 0 {
			continue
		}
		verifsym.Assert(book(i).Register(ctx, "s", nodes[i]+"a", 1) == nil, "registered")
		ws[i], ok[i] = spoil(st, i, 2)
		any = any || ok[i]
	}
	a, err := book(3).GetLowWeightNodeForActor(ctx, "s")
	verifsym.Assert((err == nil) == any, "an error exactly if no node has a weight")
	if err != nil {
		verifsym.Assert(a == core.AddressInfo{}, "no address with the error")
		verifsym.Reach("none")
		return
	}
	hit := -1
	for i := 0; i < n; i++ {
		if a.Node == nodes[i] {
			hit = i
		}
	}
	verifsym.Assert(hit >= 0 && a.Ip == "10.0.0.1" && a.Port == 7000+hit, "a node's address")
	verifsym.Assert(ok[hit], "a node with a weight")
	for i := 0; i < n; i++ {
		if ok[i] {
			verifsym.Assert(ws[hit] <= ws[i], "no node is less loaded")
		}
	}
	verifsym.Reach("picked")
}

// The weights that count are those the registrations left.
func VerifC18_AfterHistory() {
	fredis.Install()
	w := [3]int{}
	for i := range w {
		w[i] = verifsym.IntRange("w", 1, 1<<40)
	}
	b0, b1 := book(0), book(1)
	b0.Register(ctx, "s", "a", w[0])
	b1.Register(ctx, "s", "b", w[1])
	b1.Register(ctx, "s2", "c", w[2])
	k := verifsym.Choice("then", 3)
	l0, l1 := w[0], w[1]+w[2]
	switch k {
	case 1:
		b1.Unregister(ctx, "c", w[2])
		l1 -= w[2]
	case 2:
		b0.Clear(ctx)
		b0.Register(ctx, "s", "a", w[2])
		l0 = w[2]
	}
	a, err := b0.GetWildcardActor(ctx, "s")
	verifsym.Assert(err == nil && (a.ActorId == "a" && l0 <= l1 || a.ActorId == "b" && l1 <= l0), "the actor on the less loaded node")
	a, err = b0.GetLowWeightNodeForActor(ctx, "s")
	verifsym.Assert(err == nil && (a.Node == "n1" && l0 <= l1 || a.Node == "n10" && l1 <= l0), "the less loaded node")
	verifsym.Reach("end")
}
