// Package c33 checks builders and actor contexts of core/actor.
package c33

import (
	"context"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifsym"
)

type loader struct {
	core.IActorLoader
	picked core.IActorBuilder
}

func (l *loader) Pick(_ context.Context, b core.IActorBuilder) error { l.picked = b; return vh.ErrHandler }

type sys struct {
	vh.Sys
	core.IAddressBook
	reg          core.IActorBuilder
	unreg, utype string
	topic, ev    string
	body         []byte
	load         string
	builder      core.IActorBuilder
}

func (s *sys) Register(_ context.Context, b core.IActorBuilder) (core.IActor, error) {
	s.reg = b
	return nil, vh.ErrHandler
}
func (s *sys) Unregister(id, ty string) error { s.unreg, s.utype = id, ty; return vh.ErrHandler }
func (s *sys) Pub(t, e string, b []byte) error {
	s.topic, s.ev, s.body = t, e, b
	return vh.ErrHandler
}
func (s *sys) Loader(ty string) core.IActorBuilder { s.load = ty; return s.builder }
func (s *sys) AddressBook() core.IAddressBook      { return s.IAddressBook }

func builder(c *core.ActorConstructor, s core.ISystem, l core.IActorLoader) *actor.ActorLoaderBuilder {
	return &actor.ActorLoaderBuilder{ISystem: s, ActorConstructor: *c, IActorLoader: l}
}

// VerifC33_Fields: a builder returns exactly what was set on it, the definition and another builder keep theirs.
func VerifC33_Fields() {
	def := &core.ActorConstructor{ID: verifsym.String("did", 1), Name: verifsym.String("dty", 1), Weight: verifsym.Int("w"), GlobalQuantityLimit: verifsym.Int("q"),
		NodeUnique: verifsym.Bool("u"), Dynamic: verifsym.Bool("dyn"), Options: map[string]string{}}
	d := *def
	called := 0
	def.Constructor = func(core.IActorBuilder) core.IActor { called++; return nil }
	s, l := &sys{}, &loader{}
	a, b := builder(def, s, l), builder(def, s, l)
	id, ty := verifsym.StringN("id", 2), verifsym.String("ty", 2)
	switch verifsym.Choice("set", 3) {
	case 0:
		verifsym.Assert(a.WithID(id).WithType(ty) == core.IActorBuilder(a), "chaining")
		verifsym.Assert(a.GetID() == id && a.GetType() == ty, "id and type")
	case 1:
		a.WithType(ty).WithID(id)
		verifsym.Assert(a.GetID() == id && a.GetType() == ty, "id and type, other order")
	case 2:
		a.WithID("x").WithID(id)
		verifsym.Assert(a.GetID() == id && a.GetType() == d.Name, "last id")
	}
	for _, x := range []*actor.ActorLoaderBuilder{a, b} {
		verifsym.Assert(x.GetWeight() == d.Weight && x.GetGlobalQuantityLimit() == d.GlobalQuantityLimit && x.GetNodeUnique() == d.NodeUnique, "limits and weight")
		verifsym.Assert(x.GetSystem() == core.ISystem(s) && x.GetLoader() == core.IActorLoader(l), "system and loader")
		x.GetConstructor()(x)
	}
	verifsym.Assert(called == 2, "constructor")
	verifsym.Assert(b.GetID() == d.ID && b.GetType() == d.Name, "other builder untouched")
	verifsym.Assert(def.ID == d.ID && def.Name == d.Name && def.Weight == d.Weight && def.NodeUnique == d.NodeUnique && def.GlobalQuantityLimit == d.GlobalQuantityLimit, "definition untouched")
	_, err := a.Register(context.Background())
	verifsym.Assert(err == vh.ErrHandler && s.reg == core.IActorBuilder(a), "registers itself")
	verifsym.Assert(a.Picker(context.Background()) == vh.ErrHandler && l.picked == core.IActorBuilder(a), "picks itself")
}

// VerifC33_EmptyID: an empty id is refused.
func VerifC33_EmptyID() {
	a := builder(&core.ActorConstructor{ID: "d"}, &sys{}, &loader{})
	id := verifsym.String("id", 2)
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		a.WithID(id)
	}()
	verifsym.Assert(refused == (id == ""), "only the empty id is refused")
	if refused {
		verifsym.Assert(a.GetID() == "d", "unchanged when refused")
	} else {
		verifsym.Assert(a.GetID() == id, "set")
	}
}

// VerifC33_Options: any sequence of option settings over two builders of the same definition.
func VerifC33_Options() {
	def := &core.ActorConstructor{Name: "t"}
	base := map[string]string{}
	switch verifsym.Choice("def", 3) {
	case 0: // no options declared
	case 1:
		def.Options = map[string]string{}
	case 2:
		def.Options = map[string]string{"a": "def"}
		base["a"] = "def"
	}
	bs := []*actor.ActorLoaderBuilder{builder(def, &sys{}, &loader{}), builder(def, &sys{}, &loader{})}
	want := []map[string]string{{}, {}}
	for i := range want {
		for k, v := range base {
			want[i][k] = v
		}
	}
	for n := 0; n < verifsym.Size(3, 4); n++ {
		i := verifsym.Choice("which", 2)
		k := []string{"a", "b"}[verifsym.Choice("key", 2)]
		v := verifsym.String("val", 1)
		verifsym.Assert(bs[i].WithOpt(k, v) == core.IActorBuilder(bs[i]), "chaining")
		want[i][k] = v
	}
	for i := range bs {
		for _, k := range []string{"a", "b", "c"} {
			verifsym.Assert(bs[i].GetOpt(k) == want[i][k], "option of this builder")
		}
		verifsym.Assert(len(bs[i].GetOptions()) == len(want[i]), "exactly the options set")
		for k, v := range want[i] {
			o, ok := bs[i].GetOptions()[k]
			verifsym.Assert(ok && o == v, "options map")
		}
	}
	verifsym.Assert(len(def.Options) == len(base) && def.Options["a"] == base["a"], "definition untouched")
}

// VerifC33_OptionsConcurrent: builders of one type used at the same time.
//
//verif: preempt=2/3
func VerifC33_OptionsConcurrent() {
	def := &core.ActorConstructor{Name: "t", Options: map[string]string{}}
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		b := builder(def, &sys{}, &loader{})
		v := verifsym.StringN("val", 1)
		go func() {
			b.WithOpt("k", v)
			done <- b.GetOpt("k") == v
		}()
	}
	for i := 0; i < 2; i++ {
		ok := <-done
		verifsym.Assert(ok, "own option")
	}
}

// VerifC33_Values: values are returned for their key until replaced; other keys and actors do not see them.
func VerifC33_Values() {
	type k1 struct{}
	type k2 struct{}
	as := []core.IActor{vh.Runtime("a", "ta", &sys{}), vh.Runtime("b", "tb", &sys{})}
	keys := []interface{}{k1{}, k2{}, "s"}
	want := [2][3]int{}
	has := [2][3]bool{}
	for n := 0; n < verifsym.Size(3, 4); n++ {
		i, k := verifsym.Choice("actor", 2), verifsym.Choice("key", 3)
		v := verifsym.Int("val")
		as[i].Context().WithValue(keys[k], v)
		want[i][k], has[i][k] = v, true
	}
	for i := range as {
		for k := range keys {
			v, ok := as[i].Context().GetValue(keys[k]).(int)
			verifsym.Assert(ok == has[i][k], "present exactly when set")
			verifsym.Assert(v == want[i][k], "latest value")
		}
	
		verifsym.Assert(as[i].Context().ID() == as[i].ID() && as[i].Context().Type() == as[i].Type(), "its own actor")
	}
}

// VerifC33_Lists: values that cannot be compared.
func VerifC33_Lists() {
	c := vh.Runtime("a", "t", &sys{}).Context()
	key := interface{}(verifsym.String("key", 2))
	for n := 0; n < 3; n++ {
		v := verifsym.Int("val")
		if verifsym.Bool("plain") {
			c.WithValue(key, v)
			verifsym.Assert(c.GetValue(key) == v, "latest value")
			continue
		}
		c.WithValue(key, []int{v})
		l, _ := c.GetValue(key).([]int)
		verifsym.Assert(len(l) == 1 && l[0] == v, "latest value")
	}
	verifsym.Reach("end")
}

// VerifC33_Context: the context names its own actor and system and forwards to them.
func VerifC33_Context() {
	id, ty := verifsym.StringN("id", 2), verifsym.StringN("ty", 2)
	s := &sys{}
	var cid, cty, cev string
	var cmw *msg.Wrapper
	calls, sends := 0, 0
	s.OnCall = func(i, t, e string, mw *msg.Wrapper) error { calls++; cid, cty, cev, cmw = i, t, e, mw; return vh.ErrHandler }
	s.OnSend = func(i, t, e string, mw *msg.Wrapper) error { sends++; cid, cty, cev, cmw = i, t, e, mw; return vh.ErrHandler }
	s.builder = &actor.ActorLoaderBuilder{}
	r := vh.Runtime(id, ty, s)
	c := r.Context()
	if verifsym.Choice("value", 2) == 1 {
		c.WithValue("k", 1)
	}
	verifsym.Assert(c.ID() == id && c.Type() == ty, "own actor")
	verifsym.Assert(c.System() == core.ISystem(s), "own system")
	verifsym.Assert(c.AddressBook() == s.IAddressBook, "address book")
	x, y, e := verifsym.String("x", 1), verifsym.String("y", 1), verifsym.String("e", 1)
	mw := vh.Msg("m")
	switch verifsym.Choice("op", 5) {
	case 0:
		verifsym.Assert(c.Call(x, y, e, mw) == vh.ErrHandler && calls == 1 && sends == 0, "call forwarded once")
		verifsym.Assert(cid == x && cty == y && cev == e && cmw == mw, "call arguments")
	case 1:
		verifsym.Assert(c.Send(x, y, e, mw) == vh.ErrHandler && sends == 1 && calls == 0, "send forwarded once")
		verifsym.Assert(cid == x && cty == y && cev == e && cmw == mw, "send arguments")
	case 2:
		verifsym.Assert(c.Unregister(x, y) == vh.ErrHandler && s.unreg == x && s.utype == y, "unregister forwarded")
	case 3:
		verifsym.Assert(c.Pub(x, y, []byte(e)) == vh.ErrHandler && s.topic == x && s.ev == y && string(s.body) == e, "pub forwarded")
	case 4:
		verifsym.Assert(c.Loader(x) == s.builder && s.load == x, "loader forwarded")
	}
}
