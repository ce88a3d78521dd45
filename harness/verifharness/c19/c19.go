package c19

import (
	"context"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/lib/dismutex"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()

type world struct {
	st   *fredis.Store
	a, b *addressbook.AddressBook
	hit  string // the command whose round trip failed
	how  fredis.Outcome
	wa   int // weight of a

	lasting bool
}

func setup() *world {
	w := &world{st: fredis.Install()}
	w.a = addressbook.New(core.AddressInfo{Node: "n1", Ip: "10.0.0.1", Port: 7001})
	w.b = addressbook.New(core.AddressInfo{Node: "n10", Ip: "10.0.0.1", Port: 7002})
	w.wa = verifsym.IntRange("weight of a", 1, 1<<30)
	verifsym.Assert(w.a.Register(ctx, "s", "a", w.wa) == nil && w.b.Register(ctx, "s", "b", 4) == nil && w.b.Register(ctx, "s2", "c", 1) == nil, "set up")
	return w
}

// arm makes one round trip of the next operation fail, any of them.
func (w *world) arm() {
	w.hit = ""
	w.st.Fault = func(cmd string) fredis.Outcome {
		if w.hit != "" {
			return fredis.OK
		}
		o := fredis.Outcome(verifsym.Choice("outcome "+cmd, 3+2*verifsym.B2I(cmd == "pipeline")))
		if o != fredis.OK {
			w.hit, w.how = cmd, o
		}
		return o
	}
}

// persistent makes the store fail from some round trip on.
func (w *world) persistent() {
	w.hit, w.lasting = "", true
	w.st.Fault = func(cmd string) fredis.Outcome {
		if w.hit == "" && verifsym.Choice("fails from here "+cmd, 2) == 1 {
			w.hit, w.how = cmd, fredis.Refused
		}
		if w.hit != "" {
			return fredis.Refused
		}
		return fredis.OK
	}
}

func (w *world) down() { w.st.Fault = func(string) fredis.Outcome { return fredis.Refused } }
func (w *world) up()   { w.st.Fault = nil }

// knows tells whether the node would name its own actor without asking the store.
func (w *world) knows(b *addressbook.AddressBook, id string) bool {
	w.down()
	defer w.up()
	i, err := b.GetByID(ctx, id)
	if err != nil {
		verifsym.Assert(i == core.AddressInfo{}, "a failed lookup returns no address")
	}
	return err == nil
}

func (w *world) fault() {
	if verifsym.Choice("persistent", 2) == 1 {
		w.persistent()
	} else {
		w.arm()
	}
}

func VerifC19_Register() {
	w := setup()
	w.fault()
	wx := verifsym.IntRange("weight of x", 0, 1<<30)
	err := w.a.Register(ctx, "s", "x", wx)
	w.up()
	verifsym.Assert((err != nil) == (w.hit != ""), "an error exactly if the store failed")
	verifsym.Assert(w.knows(w.a, "x") == (err == nil), "local knowledge follows the acknowledgement")
	verifsym.Assert(w.knows(w.a, "a"), "earlier registrations stay known")
	if err == nil {
		i, err := w.b.GetByID(ctx, "x")
		verifsym.Assert(err == nil && i.Node == "n1" && i.Ip == "10.0.0.1" && i.Port == 7001 && i.ActorId == "x" && i.ActorTy == "s", "visible to other nodes by id")
		n, err := w.b.GetActorTypeCount(ctx, "s")
		verifsym.Assert(err == nil && n == 3, "visible to other nodes in the count")
		l, err := w.b.GetByType(ctx, "s")
		verifsym.Assert(err == nil && len(l) == 3, "visible to other nodes by type")
		t, _ := w.st.HInt("{node:n1}", "total_weight")
		verifsym.Assert(t == int64(w.wa+wx), "weight counted")
		verifsym.Reach("ok")
	} else {
		if w.how == fredis.Refused {
			_, err := w.b.GetByID(ctx, "x")
			verifsym.Assert(err == addressbook.ErrUnknownActor, "a refused registration is not visible")
		}
		verifsym.Assert(w.a.Register(ctx, "s", "x", wx) == nil, "the id can be registered later")
		verifsym.Assert(w.knows(w.a, "x"), "and is then known")
		verifsym.Reach("failed")
	}
}

func VerifC19_Unregister() {
	w := setup()
	w.fault()
	err := w.a.Unregister(ctx, "a", w.wa)
	w.up()
	verifsym.Assert((err != nil) == (w.hit != ""), "an error exactly if the store failed")
	verifsym.Assert(w.knows(w.a, "a") == (err != nil), "local knowledge follows the acknowledgement")
	if err == nil {
		_, err := w.b.GetByID(ctx, "a")
		verifsym.Assert(err == addressbook.ErrUnknownActor, "gone for other nodes by id")
		n, err := w.b.GetActorTypeCount(ctx, "s")
		verifsym.Assert(err == nil && n == 1, "gone for other nodes from the count")
		t, _ := w.st.HInt("{node:n1}", "total_weight")
		verifsym.Assert(t == 0, "weight released")
		verifsym.Reach("ok")
	} else {
		if w.how == fredis.Refused {
			i, err := w.b.GetByID(ctx, "a")
			verifsym.Assert(err == nil && i.Node == "n1", "a refused removal leaves the record")
			verifsym.Assert(w.a.Unregister(ctx, "a", w.wa) == nil, "and can be repeated")
			verifsym.Assert(!w.knows(w.a, "a"), "with effect")
		}
		verifsym.Reach("failed")
	}
}

func VerifC19_Clear() {
	w := setup()
	w.fault()
	err := w.b.Clear(ctx)
	w.up()
	lock := w.hit == "set" || w.hit == "setnx" || w.hit == "eval" || w.hit == "evalsha"
	if w.hit == "" {
		verifsym.Assert(err == nil, "succeeds")
	} else if !lock {
		verifsym.Assert(err != nil, "a store failure is reported")
	}
	verifsym.Assert(w.knows(w.b, "b") == (err != nil) && w.knows(w.b, "c") == (err != nil), "local knowledge follows the acknowledgement")
	if err == nil {
		_, e1 := w.a.GetByID(ctx, "b")
		_, e2 := w.a.GetByID(ctx, "c")
		verifsym.Assert(e1 == addressbook.ErrUnknownActor && e2 == addressbook.ErrUnknownActor, "gone for other nodes")
		n, e3 := w.a.GetActorTypeCount(ctx, "s")
		m, e4 := w.a.GetActorTypeCount(ctx, "s2")
		verifsym.Assert(e3 == nil && n == 1 && e4 == nil && m == 0, "the other node's actor stays")
		i, e5 := w.b.GetByID(ctx, "a")
		verifsym.Assert(e5 == nil && i.Node == "n1", "and can be found")
		verifsym.Reach("ok")
	} else {
		verifsym.Reach("failed")
		if w.lasting || lock { // the mutex may not have been given back: it expires
			verifsym.Advance(dismutex.Expiry)
		}
		start := verifsym.Now()
		verifsym.Assert(w.b.Clear(ctx) == nil, "can be repeated")
		verifsym.Assert(!verifsym.Symbolic() || lock || verifsym.Now() == start, "without waiting for the first attempt's mutex")
		verifsym.Assert(!w.knows(w.b, "b") && !w.knows(w.b, "c"), "with effect")
		_, e1 := w.a.GetByID(ctx, "b")
		_, e2 := w.a.GetByID(ctx, "c")
		verifsym.Assert(e1 == addressbook.ErrUnknownActor && e2 == addressbook.ErrUnknownActor, "on every node")
	}
}

func VerifC19_Lookups() {
	w := setup()
	w.fault()
	switch verifsym.Choice("op", 6) {
	case 0:
		i, err := w.a.GetByID(ctx, "b")
		verifsym.Assert((err != nil) == (w.hit != ""), "an error exactly if the store failed")
		verifsym.Assert(err != nil && i == core.AddressInfo{} && err != addressbook.ErrUnknownActor || err == nil && i.Node == "n10" && i.ActorId == "b", "address or error")
	case 1:
		i, err := w.a.GetByID(ctx, "nobody")
		verifsym.Assert(i == core.AddressInfo{} && (err == addressbook.ErrUnknownActor) == (w.hit == "") && err != nil, "unknown only if the store said so")
	case 2:
		l, err := w.a.GetByType(ctx, "s")
		verifsym.Assert((err != nil) == (w.hit != "") && (err == nil && len(l) == 2 || err != nil && len(l) == 0), "all addresses or an error")
	case 3:
		n, err := w.a.GetActorTypeCount(ctx, "s")
		verifsym.Assert((err != nil) == (w.hit != "") && (err != nil || n == 2), "the count or an error")
	case 4:
		i, err := w.a.GetWildcardActor(ctx, "s")
		if w.hit == "" {
			verifsym.Assert(err == nil, "found")
		}
		if w.hit == "srandmember" {
			verifsym.Assert(err != nil, "a failed draw is reported")
		}
		verifsym.Assert(err != nil && i == core.AddressInfo{} || err == nil && (i.ActorId == "a" && i.Node == "n1" || i.ActorId == "b" && i.Node == "n10"), "a registered actor or an error")
	case 5:
		i, err := w.a.GetLowWeightNodeForActor(ctx, "s")
		verifsym.Assert((err != nil) == (w.hit != ""), "an error exactly if the store failed")
		verifsym.Assert(err != nil && i == core.AddressInfo{} || err == nil && (i.Node == "n1" && w.wa <= 5 || i.Node == "n10" && w.wa >= 5), "the least loaded node or an error")
	}
	verifsym.Reach("end")
}

// Records nobody can read are reported, not returned.
func VerifC19_Garbage() {
	w := setup()
	junk := []string{"", "{", "{\"port\":\"x\"}", "[]"}[verifsym.Choice("junk", 4)]
	w.st.PutText(def.RedisAddressbookIDField, "b", junk)
	i, err := w.a.GetByID(ctx, "b")
	verifsym.Assert(err != nil && i == core.AddressInfo{}, "an unreadable record is an error")
	verifsym.Assert(w.a.Unregister(ctx, "b", 4) != nil, "and cannot be removed silently")
	w.st.AddMember(def.RedisAddressbookTyField+"s", junk)
	l, err := w.a.GetByType(ctx, "s")
	verifsym.Assert(err != nil && len(l) == 0, "an unreadable member is an error")
	verifsym.Reach("end")
}
