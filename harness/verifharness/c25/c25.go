// Package c25 checks message building in router/msg and lib/warpwaitgroup.
package c25

import (
	"context"

	"github.com/pojol/braid/lib/warpwaitgroup"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"github.com/pojol/braid/verifsym"
)

func header() *router.Header {
	return &router.Header{
		ID: verifsym.String("id", 2), Event: verifsym.String("ev", 2), OrgActorID: verifsym.String("oid", 2), OrgActorType: verifsym.String("oty", 2),
		Token: verifsym.String("tok", 2), PrevActorType: verifsym.String("prev", 2), TargetActorID: verifsym.String("tid", 2), TargetActorType: verifsym.String("tty", 2),
		Custom: verifsym.Bytes("cus", 2), Timestamp: verifsym.Int64("ts"),
	}
}

func same(a, b *router.Header, label string) {
	if a == nil || b == nil {
		verifsym.Assert(a == nil && b == nil, label+": header")
		return
	}
	verifsym.Assert(a.ID == b.ID, label+": ID")
	verifsym.Assert(a.Event == b.Event, label+": Event")
	verifsym.Assert(a.OrgActorID == b.OrgActorID && a.OrgActorType == b.OrgActorType, label+": origin")
	verifsym.Assert(a.Token == b.Token, label+": Token")
	verifsym.Assert(a.PrevActorType == b.PrevActorType, label+": PrevActorType")
	verifsym.Assert(a.TargetActorID == b.TargetActorID && a.TargetActorType == b.TargetActorType, label+": target")
	verifsym.Assert(string(a.Custom) == string(b.Custom), label+": Custom")
	verifsym.Assert(a.Timestamp == b.Timestamp, label+": Timestamp")
}

// VerifC25_Identity: one identifier shared by request and response, different per message.
func VerifC25_Identity() {
	a, b := msg.NewBuilder(context.Background()).Build(), msg.NewBuilder(context.Background()).Build()
	verifsym.Assert(a.Req.Header.ID != "" && a.Req.Header.ID == a.Res.Header.ID, "one identifier")
	verifsym.Assert(a.Req != a.Res && a.Req.Header != a.Res.Header, "request and response are separate")
	verifsym.Assert(len(a.Req.Body) == 0 && len(a.Res.Body) == 0 && a.Err == nil, "starts empty")
	verifsym.Assert(a.Req != b.Req && a.Res != b.Res && a.GetWg() != b.GetWg(), "messages are separate")
}

// one field at a time symbolic keeps the path count small
func fields(h *router.Header, which int) {
	switch which {
	case 0:
		h.ID = verifsym.String("id", 3)
	case 1:
		h.Event = verifsym.String("ev", 3)
	case 2:
		h.OrgActorID = verifsym.String("oid", 3)
	case 3:
		h.OrgActorType = verifsym.String("oty", 3)
	case 4:
		h.Token = verifsym.String("tok", 3)
	case 5:
		h.PrevActorType = verifsym.String("prev", 3)
	case 6:
		h.TargetActorID = verifsym.String("tid", 3)
	case 7:
		h.TargetActorType = verifsym.String("tty", 3)
	case 8:
		h.Custom = verifsym.Bytes("cus", 3)
	case 9:
		h.Timestamp = verifsym.Int64("ts")
	}
}

func fixed(tag string) *router.Header {
	return &router.Header{ID: tag + "1", Event: tag + "2", OrgActorID: tag + "3", OrgActorType: tag + "4", Token: tag + "5", PrevActorType: tag + "6",
		TargetActorID: tag + "7", TargetActorType: tag + "8", Custom: []byte(tag + "9"), Timestamp: int64(len(tag)) + 70}
}

// VerifC25_ReqHeader: applying a header transfers every field and nothing else changes.
func VerifC25_ReqHeader() {
	b := msg.NewBuilder(context.Background())
	mw := b.Build()
	body := verifsym.Bytes("body", 2)
	b.WithReqBody(body)
	res := *mw.Res.Header
	w := verifsym.Choice("field", 10)
	if verifsym.Choice("before", 2) == 1 {
		p := fixed("old")
		fields(p, w)
		b.WithReqHeader(p)
	}
	h := fixed("n")
	fields(h, w)
	copyH := *h
	r := b.WithReqHeader(h)
	verifsym.Assert(r == b, "same builder")
	same(mw.Req.Header, &copyH, "request")
	same(h, &copyH, "given header untouched")
	same(mw.Res.Header, &res, "response header untouched")
	verifsym.Assert(string(mw.Req.Body) == string(body) && len(mw.Res.Body) == 0, "body untouched")
}

// VerifC25_Shared: messages made from one header are independent of it and of each other.
func VerifC25_Shared() {
	h := fixed("n")
	fields(h, verifsym.IntRange("field", 0, 9))
	if verifsym.Choice("no custom", 2) == 1 {
		h.Custom = nil
	}
	b1, b2 := msg.NewBuilder(context.Background()), msg.NewBuilder(context.Background())
	m1, m2 := b1.Build(), b2.Build()
	if verifsym.Choice("before", 2) == 1 {
		b1.WithReqHeader(fixed("old"))
	}
	b1.WithReqHeader(h)
	b2.WithReqHeader(h)
	given := *h
	v := verifsym.String("v", 2)
	m1.Req.Header.ID, m1.Req.Header.Event, m1.Req.Header.PrevActorType, m1.Req.Header.Timestamp = v, v, v, 7
	m1.Req.Header.Custom = []byte(v)
	same(h, &given, "given header untouched")
	same(m2.Req.Header, &given, "the other message")
	verifsym.Assert(m1.Req.Header.ID == v && string(m1.Req.Header.Custom) == v, "edited")
}

// VerifC25_NilHeaders: every nil/non-nil combination.
func VerifC25_NilHeaders() {
	b := msg.NewBuilder(context.Background())
	mw := b.Build()
	if verifsym.Choice("old nil", 2) == 1 {
		mw.Req.Header = nil
	}
	var h *router.Header
	var want *router.Header
	if verifsym.Choice("new nil", 2) == 0 {
		h = fixed("n")
		fields(h, verifsym.Choice("field", 10))
		c := *h
		want = &c
	}
	b.WithReqHeader(h)
	same(mw.Req.Header, want, "request")
}

// VerifC25_Response: response header and body setters.
func VerifC25_Response() {
	b := msg.NewBuilder(context.Background())
	mw := b.Build()
	req := *mw.Req.Header
	h := fixed("r")
	fields(h, verifsym.Choice("field", 10))
	c := *h
	rb, qb := verifsym.Bytes("rb", 2), verifsym.Bytes("qb", 2)
	if verifsym.Choice("order", 2) == 0 {
		b.WithResHeader(h).WithResBody(rb).WithReqBody(qb)
	} else {
		b.WithReqBody(qb).WithResBody(rb).WithResHeader(h)
	}
	same(mw.Res.Header, &c, "response")
	same(mw.Req.Header, &req, "request header untouched")
	verifsym.Assert(string(mw.Res.Body) == string(rb) && string(mw.Req.Body) == string(qb), "bodies")
}

// VerifC25_Reopen: re-opening edits the same message; a nil message gives a fresh one.
func VerifC25_Reopen() {
	b := msg.NewBuilder(context.Background())
	mw := b.Build()
	v := verifsym.Int32("v")
	body := verifsym.Bytes("b", 2)
	id := mw.Req.Header.ID
	r := mw.ToBuilder()
	r.WithReqBody(body).WithReqCustomFields(msg.Attr{Key: "k", Value: v})
	verifsym.Assert(r.Build() == mw, "same message")
	verifsym.Assert(string(mw.Req.Body) == string(body) && msg.GetReqCustomField[int32](mw, "k") == v, "edited")
	verifsym.Assert(mw.Req.Header.ID == id && mw.GetWg() == b.Build().GetWg(), "identity and accounting kept")
	var none *msg.Wrapper
	f := none.ToBuilder().Build()
	verifsym.Assert(f != nil && f != mw && f.Req.Header != nil && f.GetWg() != nil && f.GetWg() != mw.GetWg(), "fresh message")
}

type ctxKey struct{}

// VerifC25_Accounting: messages of one call share the accounting, others do not, and values of the context stay visible.
func VerifC25_Accounting() {
	v := verifsym.Int("v")
	base := context.WithValue(context.Background(), ctxKey{}, v)
	a := msg.NewBuilder(base).Build()
	verifsym.Assert(a.GetWg() != nil && a.GetWg().Count() == 0, "starts at zero")
	got, _ := a.Ctx.Value(ctxKey{}).(int)
	verifsym.Assert(got == v, "context values visible")
	ctx := a.Ctx
	depth := verifsym.Choice("depth", 3)
	for i := 0; i < depth; i++ {
		ctx = context.WithValue(ctx, "x", i)
	}
	b := msg.NewBuilder(ctx).Build()
	verifsym.Assert(b.GetWg() == a.GetWg(), "joins the call")
	o := msg.NewBuilder(base).Build()
	verifsym.Assert(o.GetWg() != a.GetWg(), "other messages have their own")
	n := verifsym.Choice("n", 4)
	for i := 0; i < n; i++ {
		b.GetWg().Add(1)
	}
	verifsym.Assert(a.GetWg().Count() == int32(n) && o.GetWg().Count() == 0, "count is shared exactly within the call")
	for i := 0; i < n; i++ {
		a.GetWg().Done()
	}
	a.GetWg().Wait()
	verifsym.Assert(b.GetWg().Count() == 0, "balanced")
	verifsym.Assert((&msg.Wrapper{Ctx: context.Background()}).GetWg() == nil, "no accounting outside a message")
}

// VerifC25_Swap: detaches the accounting, keeps request, response and serializers.
func VerifC25_Swap() {
	v := verifsym.Int("v")
	a := msg.NewBuilder(context.WithValue(context.Background(), ctxKey{}, v)).Build()
	a.Req.Body = verifsym.Bytes("b", 2)
	n := verifsym.Choice("n", 3)
	a.GetWg().Add(n)
	s := msg.Swap(a)
	verifsym.Assert(s != a && s.Req == a.Req && s.Res == a.Res, "request and response kept")
	verifsym.Assert(s.GetWg() != nil && s.GetWg() != a.GetWg() && s.GetWg().Count() == 0, "own accounting")
	verifsym.Assert(a.GetWg().Count() == int32(n), "original accounting untouched")
	got, _ := s.Ctx.Value(ctxKey{}).(int)
	verifsym.Assert(got == v, "context values visible")
	verifsym.Assert(s.Done != nil && s.Err == nil, "own completion")
	f := verifsym.Int32("f")
	s.ToBuilder().WithResCustomFields(msg.Attr{Key: "k", Value: f}).WithReqCustomObject([]byte{1})
	verifsym.Assert(s.Err == nil && msg.GetResCustomField[int32](a, "k") == f, "serializers kept")
	s.GetWg().Add(1)
	verifsym.Assert(a.GetWg().Count() == int32(n), "detached")
}

// VerifC25_SwapCancel: a swapped message still ends with the context of the original.
//
//verif: preempt=1
func VerifC25_SwapCancel() {
	ctx, cancel := context.WithCancel(context.Background())
	s := msg.Swap(msg.NewBuilder(ctx).Build())
	verifsym.Assert(s.Ctx.Err() == nil, "not cancelled yet")
	cancel()
	<-s.Ctx.Done()
	verifsym.Assert(s.Ctx.Err() == context.Canceled, "cancelled with the original")
}

// VerifC25_WaitGroup: Wait returns only when every Add was matched, and the count never goes wrong.
//
//verif: preempt=3
func VerifC25_WaitGroup() {
	w := &warpwaitgroup.WrapWaitGroup{}
	n := verifsym.Choice("n", verifsym.Size(2, 3)) + 1
	done := 0
	for i := 0; i < n; i++ {
		w.Add(1)
		go func() {
			verifsym.Atomic(func() { done++ })
			w.Done()
		}()
	}
	w.Wait()
	verifsym.Assert(done == n, "Wait returns after all are done")
	verifsym.Assert(w.Count() == 0, "count returns to zero")
}
