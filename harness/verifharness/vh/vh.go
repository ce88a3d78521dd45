// Package vh holds helpers shared by the harnesses.
package vh

import (
	"context"
	"errors"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
)

// Runtime is an initialised actor runtime without any registered event.
func Runtime(id, ty string, sys core.ISystem) *actor.Runtime {
	r := &actor.Runtime{Id: id, Ty: ty, Sys: sys}
	r.Init(context.Background())
	return r
}

// Msg is a fresh message for the event with its own wait group.
func Msg(ev string) *msg.Wrapper { return MsgCtx(context.Background(), ev) }

func MsgCtx(ctx context.Context, ev string) *msg.Wrapper {
	mw := msg.NewBuilder(ctx).Build()
	mw.Req.Header.Event = ev
	return mw
}

// On registers a single handler.
func On(a core.IActor, ev string, h func(*msg.Wrapper) error) error {
	return a.OnEvent(ev, func(core.ActorContext) core.IChain {
		return &actor.DefaultChain{Handler: h}
	})
}

var ErrHandler = errors.New("handler failed")

// Sys is a stub system; methods that are not set panic.
type Sys struct {
	core.ISystem
	OnCall func(id, ty, ev string, mw *msg.Wrapper) error
	OnSend func(id, ty, ev string, mw *msg.Wrapper) error
}

func (s *Sys) Call(id, ty, ev string, mw *msg.Wrapper) error { return s.OnCall(id, ty, ev, mw) }
func (s *Sys) Send(id, ty, ev string, mw *msg.Wrapper) error { return s.OnSend(id, ty, ev, mw) }
