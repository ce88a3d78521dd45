// Package vn builds nodes for the harnesses.
package vn

import (
	"context"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifsym"
)

// Factory is a plain actor factory.
type Factory struct{ Types []*core.ActorConstructor }

func (f *Factory) Get(ty string) *core.ActorConstructor {
	for _, c := range f.Types {
		if c.Name == ty {
			return c
		}
	}
	return nil
}

func (f *Factory) GetActors() []*core.ActorConstructor { return f.Types }

// Loader is a plain actor loader.
type Loader struct{ F core.IActorFactory }

func (l *Loader) Builder(ty string, sys core.ISystem) core.IActorBuilder {
	c := l.F.Get(ty)
	if c == nil {
		return nil
	}
	return &actor.ActorLoaderBuilder{ISystem: sys, ActorConstructor: *c, IActorLoader: l}
}

func (l *Loader) Pick(context.Context, core.IActorBuilder) error { return nil }
func (l *Loader) AssignToNode(core.INode)                         {}

// World collects what the actors of all nodes did.
type World struct {
	F     *Factory
	Inits []string
	Exits []string
	Setup func(a core.IActor) // called for every actor while it is initialised
	Exit  func(a core.IActor) // called for every actor while it shuts down
	Nodes []core.INode

	Tracer tracer.ITracer
}

// Actor is a runtime that reports its life cycle.
type Actor struct {
	*actor.Runtime
	w *World
}

func (a *Actor) Init(ctx context.Context) {
	a.Runtime.Init(ctx)
	verifsym.Atomic(func() { a.w.Inits = append(a.w.Inits, a.Id) })
	if a.w.Setup != nil {
		a.w.Setup(a)
	}
}

func (a *Actor) Exit() {
	verifsym.Atomic(func() { a.w.Exits = append(a.w.Exits, a.Id) })
	if a.w.Exit != nil {
		a.w.Exit(a)
	}
	a.Runtime.Exit()
}

func NewWorld() *World { return &World{F: &Factory{}} }

// Type declares an actor type.
func (w *World) Type(name string, weight, limit int, unique bool) *core.ActorConstructor {
	c := &core.ActorConstructor{Name: name, Weight: weight, NodeUnique: unique, GlobalQuantityLimit: limit}
	c.Constructor = func(b core.IActorBuilder) core.IActor {
		return &Actor{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, w: w}
	}
	w.F.Types = append(w.F.Types, c)
	return c
}

// Node is a node without an acceptor.
func (w *World) Node(id, ip string) core.ISystem { return w.NodeAt(id, ip, 0) }

// NodeAt is a node with an acceptor.
func (w *World) NodeAt(id, ip string, port int) core.ISystem {
	opts := []core.NodeOption{core.NodeWithID(id), core.NodeWithServiceInfo(ip, port), core.NodeWithLoader(&Loader{w.F}), core.NodeWithFactory(w.F)}
	if w.Tracer != nil {
		opts = append(opts, core.NodeWithTracer(w.Tracer))
	}
	n := node.BuildProcessWithOption(opts...)
	w.Nodes = append(w.Nodes, n)
	return n.System()
}

// Register registers an actor with the id.
func Register(sys core.ISystem, ty, id string) (core.IActor, error) {
	b := sys.Loader(ty).(*actor.ActorLoaderBuilder)
	b.ID = id
	return sys.Register(context.Background(), b)
}

// On registers a handler.
func On(a core.IActor, ev string, h func(core.ActorContext, *msg.Wrapper) error) error {
	return a.OnEvent(ev, func(c core.ActorContext) core.IChain {
		return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error { return h(c, mw) }}
	})
}

var Msg = vh.Msg
