// Package c34 decides C34: tracing observes calls without changing them.
package c34

import (
	"context"
	"errors"
	"sync"

	"github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/ext"
	otlog "github.com/opentracing/opentracing-go/log"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/lib/span"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifharness/fredis"
	_ "github.com/pojol/braid/verifharness/models/grpcm" // the network
	"github.com/pojol/braid/verifharness/vh"
	"github.com/pojol/braid/verifharness/vn"
	"github.com/pojol/braid/verifsym"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
)

// trace is a tracing library that remembers its spans.
type trace struct {
	mu      sync.Mutex
	spans   []*tspan
	inject  error
	extract error
}

type tctx struct{ id string }

func (tctx) ForeachBaggageItem(func(k, v string) bool) {}

type tag struct {
	key string
	val interface{}
}

type tspan struct {
	t        *trace
	name     string
	ctx      tctx
	parents  []string
	tags     []tag
	finished int
}

var ids = []string{"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9"}

func (t *trace) StartSpan(name string, opts ...opentracing.StartSpanOption) opentracing.Span {
	o := opentracing.StartSpanOptions{}
	for _, op := range opts {
		op.Apply(&o)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	s := &tspan{t: t, name: name, ctx: tctx{ids[len(t.spans)]}}
	for _, r := range o.References {
		if c, ok := r.ReferencedContext.(tctx); ok && r.Type == opentracing.ChildOfRef {
			s.parents = append(s.parents, c.id)
		}
	}
	for k, v := range o.Tags {
		s.tags = append(s.tags, tag{k, v})
	}
	t.spans = append(t.spans, s)
	return s
}

const traceKey = "x-trace"

func (t *trace) Inject(sc opentracing.SpanContext, format interface{}, carrier interface{}) error {
	if t.inject != nil {
		return t.inject
	}
	verifsym.Assert(format == opentracing.TextMap, "a text map is injected")
	carrier.(opentracing.TextMapWriter).Set("X-Trace", sc.(tctx).id)
	return nil
}

func (t *trace) Extract(format interface{}, carrier interface{}) (opentracing.SpanContext, error) {
	if t.extract != nil {
		return nil, t.extract
	}
	id := ""
	err := carrier.(opentracing.TextMapReader).ForeachKey(func(k, v string) error {
		if k == traceKey {
			id = v
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	if id == "" {
		return nil, opentracing.ErrSpanContextNotFound
	}
	return tctx{id}, nil
}

func (s *tspan) Finish() {
	s.t.mu.Lock()
	s.finished++
	s.t.mu.Unlock()
}
func (s *tspan) FinishWithOptions(opentracing.FinishOptions)                { s.Finish() }
func (s *tspan) Context() opentracing.SpanContext                          { return s.ctx }
func (s *tspan) SetOperationName(n string) opentracing.Span                { s.name = n; return s }
func (s *tspan) LogFields(fields ...otlog.Field)                           {}
func (s *tspan) LogKV(alternatingKeyValues ...interface{})                 {}
func (s *tspan) SetBaggageItem(restrictedKey, value string) opentracing.Span { return s }
func (s *tspan) BaggageItem(restrictedKey string) string                   { return "" }
func (s *tspan) Tracer() opentracing.Tracer                                { return s.t }
func (s *tspan) LogEvent(event string)                                     {}
func (s *tspan) LogEventWithPayload(event string, payload interface{})     {}
func (s *tspan) Log(data opentracing.LogData)                              {}
func (s *tspan) SetTag(k string, v interface{}) opentracing.Span {
	s.t.mu.Lock()
	s.tags = append(s.tags, tag{k, v})
	s.t.mu.Unlock()
	return s
}

// get is the last value of a tag.
func (s *tspan) get(k string) (v interface{}) {
	for _, t := range s.tags {
		if t.key == k {
			v = t.val
		}
	}
	return
}

func (s *tspan) is(k, v string) bool {
	x, ok := s.get(k).(string)
	return ok && x == v
}

// continues reports whether s continues the span p, or none.
func (s *tspan) continues(p *tspan) bool {
	if p == nil {
		return len(s.parents) == 0
	}
	return len(s.parents) == 1 && s.parents[0] == p.ctx.id
}

type ctxKey struct{}

// A span of a call with and without a parent.
func VerifC34_Span() {
	t := &trace{}
	nodeID, val := verifsym.String("node", 2), verifsym.Int("val")
	sp, err := span.CreateCallSpan(span.WithNodeID(nodeID))(t)
	verifsym.Assert(err == nil, "a span is created")
	verifsym.Assert(len(t.spans) == 0, "nothing is started before begin")
	if verifsym.Bool("ended early") {
		sp.SetTag("early", 1)
		sp.End(context.Background())
		verifsym.Assert(len(t.spans) == 0 && sp.GetID() == "", "ending a span that was not begun does nothing")
	}

	ctx := context.WithValue(context.Background(), ctxKey{}, val)
	var parent *tspan
	if verifsym.Bool("parent") {
		parent = t.StartSpan("parent").(*tspan)
		ctx = opentracing.ContextWithSpan(ctx, parent)
	}
	n := len(t.spans)
	in := sp.Begin(ctx)
	verifsym.Assert(len(t.spans) == n+1, "one span is started")
	s := t.spans[n]
	verifsym.Assert(s.continues(parent), "the span continues the one in the context")
	verifsym.Assert(s.is("node", nodeID), "the span names its node")
	verifsym.Assert(opentracing.SpanFromContext(in) == opentracing.Span(s), "the context carries the span")
	verifsym.Assert(in.Value(ctxKey{}) == val, "the values of the context stay")
	if p, ok := opentracing.SpanFromContext(ctx).(*tspan); ok || parent != nil {
		verifsym.Assert(p == parent, "the caller's context is unchanged")
	}
	x := verifsym.String("x", 2)
	sp.SetTag("k", x)
	verifsym.Assert(s.is("k", x), "tags are set on the span")
	verifsym.Assert(s.finished == 0, "not finished before its end")
	sp.End([]interface{}{in, ctx, context.Background(), nil}[verifsym.Choice("end with", 4)]) // callers pass either context
	verifsym.Assert(s.finished == 1, "finished once")
	verifsym.Assert(parent == nil || parent.finished == 0, "the parent goes on")
	verifsym.Assert(len(t.spans) == n+1, "no other span")
	if verifsym.Bool("again") { // another call
		in = sp.Begin(ctx)
		verifsym.Assert(len(t.spans) == n+2 && t.spans[n+1].continues(parent), "the next span continues what is in its context")
		sp.End(in)
		verifsym.Assert(s.finished == 1 && t.spans[n+1].finished == 1, "finished once")
	}
	verifsym.Reach("end")
}

// Misuse is an error, not a crash.
func VerifC34_NoTracing() {
	_, err := span.CreateCallSpan()("not a tracer")
	verifsym.Assert(err != nil, "a span needs a tracer")
	_, err = span.CreateCallSpan()(nil)
	verifsym.Assert(err != nil, "a span needs a tracer")

	t := &trace{}
	sp, err := span.CreateCallSpan()(t)
	verifsym.Assert(err == nil, "a span is created")
	verifsym.Assert(sp.Begin("no context") != nil, "a context is returned")
	sp.SetTag("k", 1)
	sp.End(nil)
	verifsym.Assert(len(t.spans) == 0 && sp.GetID() == "", "nothing is traced without a context")

	trc := tracer.VerifTracer(t, tracer.TracerFactory{Name: "one", Factory: span.CreateCallSpan()})
	_, err = trc.GetSpan("two")
	verifsym.Assert(err == tracer.ErrFactoryNotExist, "an unknown kind of span is an error")
	a, err := trc.GetSpan("one")
	verifsym.Assert(err == nil, "a known kind of span")
	b, err := trc.GetSpan("one")
	verifsym.Assert(err == nil && a != b, "every call has a span of its own")
	verifsym.Assert(trc.GetTracing() == interface{}(t), "the tracing library is handed out")
	verifsym.Reach("end")
}

var errCall = errors.New("call failed")

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verifsym.And(ok, a[i] == b[i])
	}
	return ok
}

// The client side of a request.
func VerifC34_Client() {
	t := &trace{}
	if verifsym.Bool("inject fails") {
		t.inject = errors.New("cannot inject")
	}
	method := "/m/" + verifsym.String("method", 2)
	req, reply := new(int), new(int)
	ctx := context.WithValue(context.Background(), ctxKey{}, verifsym.Int("val"))
	var parent *tspan
	if verifsym.Bool("parent") {
		parent = t.StartSpan("parent").(*tspan)
		ctx = opentracing.ContextWithSpan(ctx, parent)
	}
	v1, v2, v3 := verifsym.String("v1", 2), verifsym.String("v2", 1), verifsym.String("v3", 1)
	var orig, before metadata.MD
	switch verifsym.Choice("metadata", 4) {
	case 1:
		orig, before = metadata.MD{}, metadata.MD{}
	case 2:
		orig, before = metadata.MD{"a": {v1, v2}, "b": {v3}}, metadata.MD{"a": {v1, v2}, "b": {v3}}
	case 3: // the request of an earlier span is handed on
		many := make([]string, 0, 4)
		orig, before = metadata.MD{"a": append(many, v1), traceKey: append(make([]string, 0, 4), "old")}, metadata.MD{"a": {v1}, traceKey: {"old"}}
	}
	if orig != nil {
		ctx = metadata.NewOutgoingContext(ctx, orig)
	}
	n := len(t.spans)
	var fail error
	if verifsym.Bool("call fails") {
		fail = errCall
	}
	opt := grpc.WaitForReady(true)
	cc := &grpc.ClientConn{}
	calls := 0
	invoker := func(c context.Context, m string, rq, rp interface{}, conn *grpc.ClientConn, opts ...grpc.CallOption) error {
		calls++
		verifsym.Assert(m == method && rq == interface{}(req) && rp == interface{}(reply) && conn == cc, "the request is handed on")
		verifsym.Assert(len(opts) == 1 && opts[0] == opt, "the call options are handed on")
		verifsym.Assert(c.Value(ctxKey{}) == ctx.Value(ctxKey{}), "the values of the context stay")
		md, _ := metadata.FromOutgoingContext(c)
		for k, vs := range before {
			got := md[k]
			if k == traceKey {
				got = got[:len(vs)]
			}
			verifsym.Assert(eq(vs, got), "the caller's metadata is sent")
		}
		verifsym.Assert(len(t.spans) == n+1, "one span is started")
		s := t.spans[n]
		verifsym.Assert(s.finished == 0 && s.name == method && s.continues(parent), "the span of the request continues the one in the context")
		if t.inject == nil {
			tr := md[traceKey]
			verifsym.Assert(len(tr) > 0 && tr[len(tr)-1] == s.ctx.id, "the span is sent with the request")
		}
		return fail
	}
	err := span.ClientInterceptor(t)(ctx, method, req, reply, cc, invoker, opt)
	verifsym.Assert(calls == 1, "the request is made once")
	verifsym.Assert(err == fail, "the outcome of the request is handed back")
	s := t.spans[n]
	verifsym.Assert(len(t.spans) == n+1 && s.finished == 1, "the span is finished once")
	verifsym.Assert(s.get(string(ext.SpanKind)) == ext.SpanKindRPCClientEnum, "the span is marked as a client's")
	verifsym.Assert(parent == nil || parent.finished == 0, "the parent goes on")
	verifsym.Assert(len(orig) == len(before), "the caller's metadata is not modified")
	for k, vs := range before {
		verifsym.Assert(eq(vs, orig[k]), "the caller's metadata is not modified")
		verifsym.Assert(cap(orig[k]) == len(vs) || orig[k][:len(vs)+1][len(vs)] == "", "nor the memory behind it")
	}
	verifsym.Reach("end")
}

// The server side of a request.
func VerifC34_Server() {
	t := &trace{}
	ctx := context.WithValue(context.Background(), ctxKey{}, verifsym.Int("val"))
	v1, v2 := verifsym.String("v1", 2), verifsym.String("v2", 1)
	id := verifsym.String("id", 2)
	var md, before metadata.MD
	want := ""
	switch verifsym.Choice("metadata", 4) {
	case 1:
		md, before = metadata.MD{"a": {v1, v2}}, metadata.MD{"a": {v1, v2}}
	case 2:
		md, before = metadata.MD{"a": {v1}, traceKey: {id}}, metadata.MD{"a": {v1}, traceKey: {id}}
		want = id
	case 3: // sent on by a client that was traced itself
		md, before = metadata.MD{traceKey: {"old", id}}, metadata.MD{traceKey: {"old", id}}
		want = id
	}
	verifsym.Assume(id != "")
	if md != nil {
		ctx = metadata.NewIncomingContext(ctx, md)
	}
	bad := verifsym.Bool("extract fails")
	if bad {
		t.extract = errors.New("cannot extract")
	}
	var fail error
	if verifsym.Bool("handler fails") {
		fail = errCall
	}
	req, res := new(int), new(int)
	calls := 0
	method := "/m/" + verifsym.String("method", 2)
	handler := func(c context.Context, rq interface{}) (interface{}, error) {
		calls++
		verifsym.Assert(rq == interface{}(req), "the request is handed on")
		verifsym.Assert(c.Value(ctxKey{}) == ctx.Value(ctxKey{}), "the values of the context stay")
		got, ok := metadata.FromIncomingContext(c)
		verifsym.Assert(ok == (md != nil) && len(got) == len(before), "the metadata is handed on")
		for k, vs := range before {
			verifsym.Assert(eq(vs, got[k]), "the metadata is handed on")
		}
		if bad {
			verifsym.Assert(len(t.spans) == 0, "a request whose origin cannot be read is not traced")
			return res, fail
		}
		verifsym.Assert(len(t.spans) == 1, "one span is started")
		s := t.spans[0]
		verifsym.Assert(s.finished == 0 && s.name == method, "the span is named after the request")
		if want == "" {
			verifsym.Assert(len(s.parents) == 0, "a request that was not traced starts a trace")
		} else {
			verifsym.Assert(len(s.parents) == 1 && s.parents[0] == want, "the span continues the one sent with the request")
		}
		verifsym.Assert(opentracing.SpanFromContext(c) == opentracing.Span(s), "the handler's context carries the span")
		return res, fail
	}
	got, err := span.ServerInterceptor(t)(ctx, req, &grpc.UnaryServerInfo{FullMethod: method}, handler)
	verifsym.Assert(calls == 1, "the request is handled once")
	verifsym.Assert(got == interface{}(res) && err == fail, "the outcome of the handler is handed back")
	if !bad {
		s := t.spans[0]
		verifsym.Assert(len(t.spans) == 1 && s.finished == 1, "the span is finished once")
		verifsym.Assert(s.get(string(ext.SpanKind)) == ext.SpanKindRPCServerEnum && s.is(string(ext.Component), "grpc"), "the span is marked as a server's")
	}
	for k, vs := range before {
		verifsym.Assert(eq(vs, md[k]), "the metadata is not modified")
	}
	verifsym.Reach("end")
}

// world is two nodes, traced or not, with actor a on the first and b, c on the second.
func world(w *vn.World, t *trace, port int) (n1, n2 core.ISystem) {
	if t != nil {
		if verifsym.Bool("no factory") {
			w.Tracer = tracer.VerifTracer(t)
		} else {
			w.Tracer = tracer.VerifTracer(t, tracer.TracerFactory{Name: span.SystemCall, Factory: span.CreateCallSpan(span.WithNodeID("n"))})
		}
	}
	fredis.Install()
	w.Type("t", 1, 0, false)
	w.Type("u", 1, 0, false)
	verifsym.Setup(func() {
		n1, n2 = w.NodeAt("n1", "127.0.0.1", port), w.NodeAt("n2", "127.0.0.1", port+1)
		vn.Register(n1, "t", "a")
		vn.Register(n2, "u", "b")
		vn.Register(n2, "u", "c")
		verifsym.Quiesce()
	})
	return
}

func (t *trace) named(k, v string) (r []*tspan) {
	for _, s := range t.spans {
		if s.is(k, v) {
			r = append(r, s)
		}
	}
	return
}

// outcome makes the error of a call comparable.
func outcome(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// A call does with tracing what it does without.
func remote(port int, send bool) {
	var outcomes, bodies []string
	ty := "u"
	target := []string{"b", "", "gone", def.SymbolLocalFirst}[verifsym.IntRange("target", 0, 3)]
	x := verifsym.Byte("x")
	who := "caller"
	var fail error
	if verifsym.Bool("handler fails") {
		fail = errCall
	}
	var t *trace
	for i, tr := range []*trace{nil, {}} {
		w := vn.NewWorld()
		seen := ""
		w.Setup = func(a core.IActor) {
			vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
				body := append([]byte(a.ID()), mw.Req.Body...)
				from := metadata.ValueFromIncomingContext(mw.Ctx, "who")
				verifsym.Assert(len(from) == 1 && from[0] == who, "the caller's metadata arrives")
				verifsym.Atomic(func() { seen = string(body) })
				mw.Res.Body = append(body, '!')
				return fail
			})
		}
		t = tr
		n1, _ := world(w, tr, port+2*i)
		own := metadata.Pairs("who", who)
		mw := vh.MsgCtx(metadata.NewOutgoingContext(context.Background(), own), "ev")
		mw.Req.Header.OrgActorType = "me"
		mw.Req.Body = []byte{x}
		var err error
		if send {
			err = n1.Send(target, ty, "ev", mw)
		} else {
			err = n1.Call(target, ty, "ev", mw)
		}
		verifsym.Quiesce()
		verifsym.Assert(len(own) == 1 && len(own["who"]) == 1 && own["who"][0] == who, "and is not modified")
		outcomes = append(outcomes, outcome(err))
		res := ""
		if mw.Res != nil && !send {
			res = string(mw.Res.Body)
		}
		verifsym.Atomic(func() { bodies = append(bodies, seen+"/"+res) })
	}
	verifsym.Assert(outcomes[0] == outcomes[1], "the outcome is the one without tracing")
	if target != def.SymbolLocalFirst { // any of its type
		verifsym.Assert(bodies[0] == bodies[1], "the messages are those without tracing")
	}
	for _, s := range t.spans {
		verifsym.Assert(s.finished == 1, "every span is finished once")
	}
	how := "call"
	if send {
		how = "send"
	}
	if own := t.named("orgActor", "me"); len(t.spans) > 0 && len(own) > 0 {
		s := own[0]
		verifsym.Assert(s.is("tarActor", ty) && s.is("event", "ev") && s.is("method", how) && s.is("id", target), "the span tells who called what")
	}
	verifsym.Reach("end")
}

//verif: native=conc preempt=1/2 maporder=0
func VerifC34_RemoteCall() { remote(27221, false) }

//verif: native=conc preempt=1/2 maporder=0
func VerifC34_RemoteSend() { remote(27231, true) }

// One trace across actors and nodes.
//
//verif: native=conc preempt=1/2
func VerifC34_Chain() {
	w := vn.NewWorld()
	t := &trace{}
	hops := verifsym.Choice("hops", 2) + 1
	w.Setup = func(a core.IActor) {
		vn.On(a, "ev", func(c core.ActorContext, mw *msg.Wrapper) error {
			switch {
			case a.ID() == "a":
				return c.Call("b", "u", "ev", mw)
			case a.ID() == "b" && hops == 2:
				return c.Call("c", "u", "ev", mw)
			}
			return nil
		})
	}
	w.Tracer = tracer.VerifTracer(t, tracer.TracerFactory{Name: span.SystemCall, Factory: span.CreateCallSpan(span.WithNodeID("n"))})
	fredis.Install()
	w.Type("t", 1, 0, false)
	w.Type("u", 1, 0, false)
	var n1, n2 core.ISystem
	verifsym.Setup(func() {
		n1, n2 = w.NodeAt("n1", "127.0.0.1", 27241), w.NodeAt("n2", "127.0.0.1", 27242)
		vn.Register(n1, "t", "a")
		vn.Register(n2, "u", "b")
		vn.Register(n2, "u", "c")
		verifsym.Quiesce()
	})
	err := n1.Call("a", "t", "ev", vn.Msg("ev"))
	verifsym.Quiesce()
	verifsym.Assert(err == nil, "the call works")
	// call to a, call to b, request, request served, call to b there, call to c
	verifsym.Assert(len(t.spans) == 4+hops, "one span for every call and request")
	for i, s := range t.spans {
		verifsym.Assert(s.finished == 1, "every span is finished once")
		if i == 0 {
			verifsym.Assert(s.continues(nil), "the first call starts the trace")
		} else {
			verifsym.Assert(s.continues(t.spans[i-1]), "every call continues the one it is part of")
		}
	}
	verifsym.Assert(t.spans[0].is("id", "a") && t.spans[1].is("id", "b") && t.spans[4].is("id", "b"), "the calls are told apart")
	verifsym.Assert(t.spans[1].is("orgActor", "t"), "the span tells who called")
	verifsym.Assert(hops == 1 || t.spans[5].is("id", "c"), "the calls are told apart")
	verifsym.Reach("end")
}
