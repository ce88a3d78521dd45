package c35

import (
	"errors"
	"time"

	opentracing "github.com/opentracing/opentracing-go"
	"github.com/pojol/braid/lib/tracer"
	_ "github.com/pojol/braid/verifharness/models/jaegerm"
	"github.com/pojol/braid/verifsym"
	"github.com/uber/jaeger-client-go"
)

var errSend = errors.New("send failed")

// sender records what it is handed; every operation may fail.
type sender struct {
	got     []*jaeger.Span
	live    int // spans still alive when they were handed over
	flushes int
	closes  int
	after   int // operations after Close
	fail    bool
	block   chan struct{}
	pending int // appended and not flushed yet
}

func (s *sender) outcome() error {
	if s.fail && verifsym.Choice("sender", 2) == 1 {
		return errSend
	}
	return nil
}

func (s *sender) Append(sp *jaeger.Span) (int, error) {
	if s.block != nil {
		<-s.block
	}
	s.got = append(s.got, sp)
	s.live += verifsym.B2I(sp.OperationName() != "")
	s.pending++
	if s.closes > 0 {
		s.after++
	}
	if err := s.outcome(); err != nil {
		return 1, err
	}
	if s.fail {
		return verifsym.Choice("flushed", 2), nil
	}
	return 0, nil
}

func (s *sender) Flush() (int, error) {
	s.flushes++
	s.pending = 0
	if s.closes > 0 {
		s.after++
	}
	if err := s.outcome(); err != nil {
		return 1, err
	}
	return 0, nil
}

func (s *sender) Close() error {
	s.closes++
	return s.outcome()
}

// spans come from a real tracer with chosen ids; released ones are reset by its pool.
func newTracer(id func() uint64) opentracing.Tracer {
	t, _ := jaeger.NewTracer("verif", jaeger.NewConstSampler(true), jaeger.NewNullReporter(),
		jaeger.TracerOptions.RandomNumber(id), jaeger.TracerOptions.PoolSpans(true),
		jaeger.TracerOptions.Tag(jaeger.TracerIPTagKey, "10.0.0.1"))
	return t
}

func released(sp *jaeger.Span) bool { return sp.OperationName() == "" }

// factory hands reporter metrics that count.
type counter struct{ n *int64 }

func (c counter) Inc(d int64) { *c.n += d }

func metrics(dropped, ok, failed *int64) *jaeger.Metrics {
	m := jaeger.NewNullMetrics()
	m.ReporterDropped = counter{dropped}
	m.ReporterSuccess = counter{ok}
	m.ReporterFailure = counter{failed}
	return m
}

// Every sampling rate and trace id: handed over exactly when sampled, released once, flushed by the close.
//
//verif: preempt=1/2
func VerifC35_Sampling() {
	n := verifsym.Size(2, 3)
	ready := false
	tr := newTracer(func() uint64 {
		if !ready {
			return 1
		}
		id := verifsym.Uint64("id")
		verifsym.Assume(id != 0) // the tracer draws again
		return id
	})
	ready = true
	rate := []float64{0, 0.25, 0.5, 1}[verifsym.Choice("rate", 4)]
	bound := []uint64{0, 1 << 61, 1 << 62, 1<<63 - 1}
	var lim uint64
	for i, r := range []float64{0, 0.25, 0.5, 1} {
		if r == rate {
			lim = bound[i]
		}
	}
	var dropped, ok, failed int64
	s := &sender{fail: verifsym.Choice("failing", 2) == 1}
	r := tracer.NewSlowReporter(s, metrics(&dropped, &ok, &failed), rate)
	var sps []*jaeger.Span
	for i := 0; i < n; i++ {
		var opts []opentracing.StartSpanOption
		if i == 1 && verifsym.Choice("child", 2) == 1 { // of the same trace
			opts = append(opts, opentracing.ChildOf(sps[0].Context()))
		}
		sp := tr.StartSpan("op", opts...).(*jaeger.Span)
		sps = append(sps, sp)
	}
	for _, sp := range sps {
		r.Report(sp)
	}
	r.Close()
	verifsym.Assert(s.closes == 1 && s.after == 0, "sender closed once, after its last use")
	verifsym.Assert(s.flushes > 0 && s.pending == 0, "everything handed over was flushed")
	verifsym.Assert(dropped == 0, "nothing dropped")
	k := 0
	for _, sp := range sps {
		id := sp.SpanContext().TraceID().Low
		want := verifsym.B2I(id&(1<<63-1) <= lim)
		have := verifsym.B2I(k < len(s.got) && s.got[k] == sp)
		if have == 1 {
			k++
		}
		verifsym.Assert(want == have, "handed over exactly when sampled, in order")
		verifsym.Assert(!released(sp), "released no more than once")
		sp.Release()
		verifsym.Assert(released(sp), "released")
	}
	verifsym.Assert(k == len(s.got), "nothing else handed over")
	verifsym.Assert(s.live == len(s.got), "alive when handed over")
	r.Close()
	verifsym.Assert(s.closes == 1, "closing again does nothing")
	verifsym.Reach("end")
}

// Two reporters racing with each other, the worker, its flush ticker and the close.
//
//verif: preempt=2/3 async=1/2
func VerifC35_Race() {
	tr := newTracer(func() uint64 { return 7 })
	var dropped, ok, failed int64
	s := &sender{}
	r := tracer.NewSlowReporter(s, metrics(&dropped, &ok, &failed), 1)
	a := tr.StartSpan("a").(*jaeger.Span)
	b := tr.StartSpan("b").(*jaeger.Span)
	done := make(chan struct{})
	closed := false
	late := false
	go func() {
		r.Report(b)
		verifsym.Atomic(func() { late = closed })
		close(done)
	}()
	r.Report(a)
	early := false
	select {
	case <-done:
		early = true
	default:
	}
	verifsym.Atomic(func() { closed = true })
	r.Close()
	verifsym.Assert(s.closes == 1 && s.after == 0, "sender closed once, after its last use")
	verifsym.Assert(s.pending == 0, "everything handed over was flushed")
	verifsym.Assert(has(s, a) == 1, "reported before the close: handed over once")
	if early {
		verifsym.Assert(has(s, b) == 1, "reported before the close: handed over once")
		verifsym.Reach("both early")
	}
	<-done
	verifsym.Assert(has(s, b) <= 1, "never handed over twice")
	if late {
		verifsym.Reach("late")
	}
	verifsym.Reach("end")
}

func has(s *sender, sp *jaeger.Span) int {
	n := 0
	for _, g := range s.got {
		n += verifsym.B2I(g == sp)
	}
	return n
}

// Two closers: both return, the sender is closed once.
//
//verif: preempt=2/3
func VerifC35_TwoClosers() {
	tr := newTracer(func() uint64 { return 7 })
	s := &sender{fail: true}
	r := tracer.NewSlowReporter(s, nil, 1)
	a := tr.StartSpan("a").(*jaeger.Span)
	r.Report(a)
	done := make(chan struct{})
	go func() {
		r.Close()
		close(done)
	}()
	r.Close()
	<-done
	verifsym.Assert(s.closes == 1 && s.after == 0 && len(s.got) == 1, "closed once")
	verifsym.Reach("end")
}

// A full queue: reporting does not block, the overflow is counted and released.
//
//verif: preempt=0
func VerifC35_Full() {
	tr := newTracer(func() uint64 { return 7 })
	var dropped, ok, failed int64
	s := &sender{block: make(chan struct{})}
	r := tracer.NewSlowReporter(s, metrics(&dropped, &ok, &failed), 1)
	extra := verifsym.IntRange("extra", 0, 3)
	first := tr.StartSpan("first").(*jaeger.Span)
	r.Report(first)
	verifsym.Quiesce() // the worker is stuck in the sender
	n := 98 + verifsym.Size(1, 1)*2
	n += extra
	var sps []*jaeger.Span
	start := verifsym.Now()
	for i := 0; i < n; i++ {
		sp := tr.StartSpan("op").(*jaeger.Span)
		sps = append(sps, sp)
		r.Report(sp)
	}
	if verifsym.Symbolic() {
		verifsym.Assert(verifsym.Now() == start, "reporting never waits")
	}
	verifsym.Assert(dropped == int64(extra), "the overflow is counted")
	close(s.block)
	r.Close()
	verifsym.Assert(len(s.got)+int(dropped) == n+1, "every span is accounted for")
	for _, sp := range sps {
		verifsym.Assert(!released(sp), "released no more than once")
		sp.Release()
		verifsym.Assert(released(sp), "released")
	}
	verifsym.Reach("end")
}

// The worker flushes by itself once a second and keeps going after failures.
//
//verif: preempt=0/1
func VerifC35_Ticker() {
	tr := newTracer(func() uint64 { return 7 })
	s := &sender{fail: true}
	r := tracer.NewSlowReporter(s, nil, 1)
	k := 1 + verifsym.Choice("seconds", 3)
	r.Report(tr.StartSpan("op").(*jaeger.Span))
	verifsym.Advance(time.Duration(k)*time.Second + 100*time.Millisecond)
	verifsym.Quiesce()
	if verifsym.Symbolic() {
		verifsym.Assert(s.flushes == k, "flushed once a second")
	}
	verifsym.Assert(s.flushes >= 1 && s.pending == 0, "flushed")
	r.Report(tr.StartSpan("op").(*jaeger.Span))
	r.Close()
	verifsym.Assert(len(s.got) == 2 && s.pending == 0, "still working")
	verifsym.Reach("end")
}
