package c13

import (
	"context"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifharness/models/grpcm"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
)

var ctx = context.Background()

const host = "127.0.0.1"

type got struct{ node, id, ty string }

type cluster struct {
	db     *fredis.Store
	n      [2]core.ISystem
	got    []got
	draws  int
	fail   string // the store refuses this command
	failed bool
	ev     string
	ty     string // the type asked for
}

// two nodes; actors of type t: a on n1, b on n2; of type u: c on n2.
func start(a, b, c bool) *cluster {
	k := &cluster{ev: "ev"}
	k.db = fredis.Install()
	k.db.Fault = func(cmd string) fredis.Outcome {
		if cmd == "srandmember" {
			k.draws++
		}
		if cmd == k.fail || k.fail == "*" {
			k.failed = true
			return fredis.Refused
		}
		return fredis.OK
	}
	w := vn.NewWorld()
	w.Type("t", 1, 0, false)
	w.Type("u", 1, 0, false)
	w.Setup = func(a core.IActor) {
		id, ty := a.ID(), a.Type()
		h := func(_ core.ActorContext, mw *msg.Wrapper) error {
			h := mw.Req.Header
			n := "n1"
			if id[0] != 'a' {
				n = "n2"
			}
			verifsym.Assert(h.Event == k.ev, "the event")
			verifsym.Assert(h.TargetActorType == k.ty, "the target type")
			verifsym.Assert(h.TargetActorID == id || n == "n1" && (h.TargetActorID == "?" || h.TargetActorID == "~"), "the target id")
			verifsym.Atomic(func() { k.got = append(k.got, got{n, id, ty}) })
			return nil
		}
		vn.On(a, "ev", h)
		vn.On(a, "ev2", h)
	}
	verifsym.Setup(func() { k.fill(w, a, b, c) })
	return k
}

func (k *cluster) fill(w *vn.World, a, b, c bool) {
	k.n[0], k.n[1] = w.NodeAt("n1", host, 27131), w.NodeAt("n2", host, 27132)
	reg := func(on bool, n int, ty, id string) {
		if on {
			_, err := vn.Register(k.n[n], ty, id)
			verifsym.Assert(err == nil, "registered")
		}
	}
	reg(a, 0, "t", "a")
	reg(b, 1, "t", "b")
	reg(c, 1, "u", "c")
	verifsym.Quiesce()
}

// issue sends or calls from n1.
func (k *cluster) issue(id, ty string) error {
	mw := vn.Msg("other")
	k.ty = ty
	if verifsym.Choice("used before", 2) == 1 { // the message has been somewhere else
		mw.Req.Header.TargetActorID, mw.Req.Header.TargetActorType = "z", "y"
	}
	var err error
	if verifsym.Choice("how", 2) == 0 {
		err = k.n[0].Call(id, ty, k.ev, mw)
	} else {
		err = k.n[0].Send(id, ty, k.ev, mw)
	}
	verifsym.Quiesce()
	return err
}

func (k *cluster) only(id string) bool { return len(k.got) == 1 && k.got[0].id == id }

// By id, for every population.
//
//verif: preempt=1/2
func VerifC13_ByID() {
	a, b, c := verifsym.Choice("a", 2) == 1, verifsym.Choice("b", 2) == 1, verifsym.Choice("c", 2) == 1
	k := start(a, b, c)
	if verifsym.Choice("event", 2) == 1 {
		k.ev = "ev2"
	}
	ids := []string{"a", "b", "c", "x", ""}
	id := ids[verifsym.Choice("id", len(ids))]
	ty := []string{"t", "u", "w"}[verifsym.Choice("type", 3)] // an id is enough
	if id == "a" && a && verifsym.Choice("store down", 2) == 1 {
		k.fail = "*"
	}
	err := k.issue(id, ty)
	there := (id == "a" && a) || (id == "b" && b) || (id == "c" && c)
	if there {
		verifsym.Assert(err == nil, "delivered")
		verifsym.Assert(k.only(id), "exactly once, to that actor")
		verifsym.Reach("delivered")
	} else {
		verifsym.Assert(err != nil, "an error")
		verifsym.Assert(len(k.got) == 0, "and no delivery")
		verifsym.Reach("unknown")
	}
	verifsym.Assert(k.draws == 0, "nothing was chosen by type")
}

// By symbol, for every population and any recorded node weights.
//
//verif: preempt=1/2
func VerifC13_BySymbol() {
	a, b, c := verifsym.Choice("a", 2) == 1, verifsym.Choice("b", 2) == 1, verifsym.Choice("c", 2) == 1
	k := start(a, b, c)
	w1, w2 := verifsym.IntRange("weight 1", 0, 1<<40), verifsym.IntRange("weight 2", 0, 1<<40)
	k.db.PutInt("{node:n1}", "total_weight", int64(w1))
	k.db.PutInt("{node:n2}", "total_weight", int64(w2))
	first := verifsym.Choice("symbol", 2) == 1
	sym := "?"
	if first {
		sym = "~"
	}
	ty := []string{"t", "u", "v", ""}[verifsym.Choice("type", 4)]
	err := k.issue(sym, ty)
	switch {
	case ty == "v" || ty == "" || (ty == "t" && !a && !b) || (ty == "u" && !c):
		verifsym.Assert(err != nil && len(k.got) == 0, "no such actor: an error and no delivery")
		verifsym.Reach("nobody")
	case first && ty == "t" && a:
		verifsym.Assert(err == nil && k.only("a"), "the local actor, once")
		verifsym.Assert(k.draws == 0, "without asking the address book")
		verifsym.Reach("local first")
	default:
		verifsym.Assert(err == nil && len(k.got) == 1 && k.got[0].ty == ty, "one actor of the type")
		verifsym.Assert(k.draws == 1, "chosen by the address book, once")
		if ty == "t" && a && b {
			if k.got[0].id == "a" {
				verifsym.Assert(w1 <= w2, "the address book's choice")
			} else {
				verifsym.Assert(w2 <= w1, "the address book's choice")
			}
			verifsym.Reach("choice")
		}
	}
}

// Two local actors of the type and one elsewhere: a symbol delivers once.
//
//verif: preempt=1/2
func VerifC13_Several() {
	k := start(true, true, true)
	mine := verifsym.Choice("more", 2)
	if mine == 1 {
		vn.Register(k.n[0], "t", "a2")
	} else {
		vn.Register(k.n[1], "t", "b2")
	}
	sym := []string{"?", "~"}[verifsym.Choice("symbol", 2)]
	err := k.issue(sym, "t")
	verifsym.Assert(err == nil && len(k.got) == 1 && k.got[0].ty == "t", "one actor of the type, once")
	if sym == "~" {
		verifsym.Assert(k.got[0].id[0] == 'a', "a local one")
	}
	verifsym.Reach("end")
}

// The store or the transport fails, the record is stale, or the other node is gone.
//
//verif: preempt=1/2 native=off
func VerifC13_Unreachable() {
	k := start(true, true, false)
	target := []string{"b", "?", "~"}[verifsym.Choice("target", 3)]
	verifsym.Assert(k.n[0].Unregister("a", "t") == nil, "n1 has no actor of the type")
	if target == "~" && verifsym.Choice("type", 2) == 1 {
		verifsym.Assert(k.issue("~", "v") != nil && len(k.got) == 0, "no actor of the type")
		return
	}
	undelivered := true
	switch verifsym.Choice("what", 6) {
	case 0:
		grpcm.Fault = func(string, string) grpcm.Outcome { return grpcm.Lost }
	case 1:
		grpcm.Fault = func(string, string) grpcm.Outcome { return grpcm.ReplyLost }
		undelivered = false
	case 2:
		if target == "b" {
			k.fail = "hget"
		} else {
			k.fail = "srandmember"
		}
	case 3: // the record outlived the actor
		vn.Register(k.n[1], "t", "b3")
		bx, _ := k.n[1].FindActor(ctx, "b")
		bx.Exit()
		if target != "b" {
			vn.Register(k.n[1], "u", "c") // keep the node's record
			by, _ := k.n[1].FindActor(ctx, "b3")
			by.Exit()
		}
	case 4: // the record names n1, where there is no such actor
		k.db.Remove(def.RedisAddressbookTyField+"t")
		k.db.PutText(def.RedisAddressbookIDField, "b", `{"actor_id":"b","actor_ty":"t","node":"n1","service":"","ip":"127.0.0.1","port":27131}`)
		k.db.AddMember(def.RedisAddressbookTyField+"t", `{"actor_id":"b","actor_ty":"t","node":"n1","service":"","ip":"127.0.0.1","port":27131}`)
	case 5:
		grpcm.Dial = func(string) error { return context.DeadlineExceeded }
	}
	err := k.issue(target, "t")
	verifsym.Assert(err != nil, "an error")
	verifsym.Assert(len(k.got) <= 1 && (!undelivered || len(k.got) == 0), "and no delivery")
	verifsym.Reach("end")
}

// The request goes to the address in the record, whatever other nodes are called.
//
//verif: preempt=0/1 native=off
func VerifC13_Address() {
	k := start(true, false, false)
	var addrs []string
	grpcm.Fault = func(addr, method string) grpcm.Outcome {
		addrs = append(addrs, addr)
		verifsym.Assert(method == "/router.Acceptor/routing", "the acceptor's method")
		return grpcm.Lost
	}
	ip := []string{host, "127.0.0.10", "10.0.0.1"}[verifsym.Choice("ip", 3)]
	port := []string{"27131", "27132", "2713"}[verifsym.Choice("port", 3)]
	node := []string{"n1", "n2", "n3"}[verifsym.Choice("node", 3)]
	rec := `{"actor_id":"b","actor_ty":"u","node":"` + node + `","service":"","ip":"` + ip + `","port":` + port + `}`
	k.db.PutText(def.RedisAddressbookIDField, "b", rec)
	k.db.AddMember(def.RedisAddressbookTyField+"u", rec)
	k.db.PutInt("{node:"+node+"}", "total_weight", 1)
	err := k.issue([]string{"b", "?", "~"}[verifsym.Choice("target", 3)], "u")
	verifsym.Assert(err != nil && len(k.got) == 0, "not delivered")
	if ip == host && port == "27131" {
		verifsym.Assert(len(addrs) == 0, "this node does not ask itself")
		verifsym.Reach("self")
	} else {
		verifsym.Assert(len(addrs) == 1 && addrs[0] == ip+":"+port, "the recorded address is asked, once")
		verifsym.Reach("other")
	}
}
