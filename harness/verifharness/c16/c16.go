package c16

import (
	"context"
	"errors"
	"sync"
	"time"

	lib "github.com/pojol/braid/lib/grpc"
	"github.com/pojol/braid/verifharness/models/grpcm"
	"github.com/pojol/braid/verifsym"
	"google.golang.org/grpc"
)

var errRemote = errors.New("remote method failed")

type job struct {
	kind int
	v    byte
	wait chan bool
}

const (
	fine = iota
	fails
	cancelled // ends with its context
	badOption
	unknown // target
	lost    // network
	dead    // its context ended before
	kinds
)

// meter serves the calls and measures how many are in flight.
type meter struct {
	limit, now, max, served int
}

func (m *meter) start() {
	grpcm.Served = func(ctx context.Context, addr, method string, args, reply any) error {
		j := args.(*job)
		verifsym.Atomic(func() {
			m.now++
			m.served++
			if m.now > m.max {
				m.max = m.now
			}
		})
		defer verifsym.Atomic(func() { m.now-- })
		verifsym.Assert(addr == "x:1" || addr == "y:1", "the address asked for")
		verifsym.Assert(method == "/svc/do", "the method asked for")
		if j.wait != nil {
			<-j.wait
		}
		verifsym.Yield()
		switch j.kind {
		case fails:
			return errRemote
		case cancelled:
			<-ctx.Done()
			return ctx.Err()
		}
		reply.(*job).v = j.v + 1
		return nil
	}
}

func client(limit int) *lib.Client {
	c := lib.BuildClientWithOption(lib.WithMaxConcurrentCalls(limit), lib.WithClientConns([]string{"x:1", "y:1"}))
	verifsym.Assert(c.Init() == nil, "initialised")
	return c
}

// one limited call of a kind
func call(c *lib.Client, kind int, v byte) {
	ctx := context.Background()
	addr := "x:1"
	var opts []any
	j, r := &job{kind: kind, v: v}, &job{}
	switch kind {
	case cancelled, dead:
		var cancel func()
		ctx, cancel = context.WithCancel(ctx)
		if kind == dead {
			cancel()
		} else {
			go cancel()
		}
	case badOption:
		opts = []any{grpc.EmptyCallOption{}, 7}
	case unknown:
		addr = "z:1"
	default:
		opts = []any{grpc.EmptyCallOption{}}
	}
	err := c.Call(ctx, addr, "/svc/do", j, r, opts...)
	switch kind {
	case fine:
		verifsym.Assert(err == nil && r.v == v+1, "the reply")
	case fails:
		verifsym.Assert(errors.Is(err, errRemote), "the error of the remote method")
	case cancelled, dead:
		verifsym.Assert(err != nil, "cancelled")
	default:
		verifsym.Assert(err != nil, "an error")
	}
}

// every slot is free: limit calls are in flight together, and one more has to wait.
func allFree(c *lib.Client, limit int) {
	var wg sync.WaitGroup
	hold := make(chan bool)
	before := 0
	verifsym.Atomic(func() { before = inside })
	verifsym.Assert(before == 0, "none in flight")
	old := grpcm.Served
	grpcm.Served = func(ctx context.Context, addr, method string, args, reply any) error {
		verifsym.Atomic(func() { inside++ })
		<-hold
		verifsym.Atomic(func() { inside-- })
		return nil
	}
	for i := 0; i < limit; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			verifsym.Assert(c.Call(context.Background(), "y:1", "/svc/do", &job{}, &job{}) == nil, "called")
		}()
	}
	verifsym.Quiesce()
	verifsym.Assert(inside == limit, "all slots are free again")
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	err := c.Call(ctx, "y:1", "/svc/do", &job{}, &job{})
	cancel()
	verifsym.Assert(errors.Is(err, context.DeadlineExceeded), "one too many ends with its context")
	verifsym.Assert(inside == limit, "and did not get in")
	close(hold)
	wg.Wait()
	grpcm.Served = old
}

var inside int


func concurrent(limit, calls int) {
	m := &meter{limit: limit}
	m.start()
	c := client(limit)
	v := verifsym.Byte("value")
	ks := make([]int, calls)
	prev := 0
	for i := range ks {
		ks[i] = verifsym.IntRange("kind", 0, kinds-1)
		verifsym.Assume(ks[i] >= prev && ks[i] != lost) // unordered; lost separately
		prev = ks[i]
	}
	var wg sync.WaitGroup
	for i := range ks {
		wg.Add(1)
		k := ks[i]
		go func() {
			defer wg.Done()
			call(c, k, v)
		}()
	}
	wg.Wait()
	verifsym.Quiesce()
	verifsym.Assert(m.max <= limit, "no more than the limit in flight")
	verifsym.Assert(m.now == 0, "none left")
	allFree(c, limit)
	verifsym.Reach("end")
}

// As many calls as slots plus one, each of any kind.
//
//verif: preempt=1/2 native=off
func VerifC16_One() { concurrent(1, 2) }

//verif: preempt=0/1 native=off
func VerifC16_OneOfThree() { concurrent(1, 3) }

//verif: preempt=0/1 native=off
func VerifC16_Two() { concurrent(2, 3) }

// One after the other through a single slot, with the network failing.
//
//verif: preempt=0 native=off
func VerifC16_Sequence() {
	m := &meter{}
	m.start()
	c := client(1)
	v := verifsym.Byte("value")
	n := verifsym.Size(3, 4)
	for i := 0; i < n; i++ {
		k := verifsym.IntRange("kind", 0, kinds-1)
		grpcm.Fault = nil
		if k == lost {
			grpcm.Fault = func(string, string) grpcm.Outcome { return grpcm.Lost + grpcm.Outcome(i%2) }
		}
		call(c, k, v)
	}
	grpcm.Fault = nil
	allFree(c, 1)
	verifsym.Reach("end")
}

// A call that cannot get a slot ends with its own context, the running one is not disturbed.
//
//verif: preempt=2/3 native=off
func VerifC16_Waiting() {
	m := &meter{}
	m.start()
	c := client(1)
	v := verifsym.Byte("value")
	hold := make(chan bool)
	done, waited := false, false
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		r := &job{}
		err := c.Call(context.Background(), "x:1", "/svc/do", &job{v: v, wait: hold}, r)
		verifsym.Assert(err == nil && r.v == v+1, "the running call gets its reply")
		done = true
	}()
	verifsym.Quiesce()
	ctx, cancel := context.WithCancel(context.Background())
	how := verifsym.IntRange("how", 0, 2)
	if how == 1 {
		ctx, cancel = context.WithTimeout(context.Background(), time.Second)
	}
	go func() {
		defer wg.Done()
		r := &job{}
		err := c.Call(ctx, "y:1", "/svc/do", &job{v: v}, r)
		waited = true
		switch how {
		case 0:
			verifsym.Assert(errors.Is(err, context.Canceled), "cancelled")
		case 1:
			verifsym.Assert(errors.Is(err, context.DeadlineExceeded), "timed out")
		case 2:
			verifsym.Assert(err == nil && r.v == v+1, "served after the first")
		}
	}()
	if how == 0 {
		cancel()
	}
	if how == 2 {
		verifsym.Quiesce()
		verifsym.Assert(!waited && m.now == 1, "waits for the slot")
		close(hold)
		wg.Wait()
	} else {
		if how == 1 {
			verifsym.Advance(2 * time.Second)
		}
		verifsym.Quiesce()
		verifsym.Assert(waited && !done && m.served == 1, "the waiting call ended, the running one goes on")
		close(hold)
		wg.Wait()
	}
	cancel()
	verifsym.Assert(m.max == 1, "one in flight")
	verifsym.Quiesce()
	allFree(c, 1)
	verifsym.Reach("end")
}

// Unlimited calls connect on demand, report what went wrong and are not hindered by the limit.
//
//verif: preempt=1/2 native=off
func VerifC16_CallWait() {
	m := &meter{}
	m.start()
	c := client(1)
	v := verifsym.Byte("value")
	errDial := errors.New("cannot dial")
	bad := verifsym.Choice("dial fails", 2) == 1
	grpcm.Served, grpcm.Dial = func(ctx context.Context, addr, method string, args, reply any) error {
		verifsym.Assert(addr == "z:1", "the address asked for")
		if args.(*job).kind == fails {
			return errRemote
		}
		reply.(*job).v = args.(*job).v + 1
		return nil
	}, func(addr string) error {
		verifsym.Assert(addr == "z:1", "connects to the address asked for")
		if bad {
			return errDial
		}
		return nil
	}
	if bad {
		verifsym.Assert(errors.Is(c.CallWait(context.Background(), "z:1", "/svc/do", &job{v: v}, &job{}), errDial), "no connection: an error")
		verifsym.Assert(grpcm.Requests == 0, "and no call")
		bad = false
	}
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		k := verifsym.IntRange("kind", 0, 3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, r := context.Background(), &job{}
			var opts []any
			switch k {
			case fine:
				opts = []any{grpc.EmptyCallOption{}}
			case 2:
				opts = []any{"no option"}
			case 3:
				var cancel func()
				ctx, cancel = context.WithCancel(ctx)
				cancel()
			}
			err := c.CallWait(ctx, "z:1", "/svc/do", &job{kind: k, v: v}, r, opts...)
			switch k {
			case fine:
				verifsym.Assert(err == nil && r.v == v+1, "the reply")
			case fails:
				verifsym.Assert(errors.Is(err, errRemote), "the error of the remote method")
			default:
				verifsym.Assert(err != nil, "an error")
			}
		}()
	}
	wg.Wait()
	// known now: limited calls reach it, too
	r := &job{}
	verifsym.Assert(c.Call(context.Background(), "z:1", "/svc/do", &job{v: v}, r) == nil && r.v == v+1, "the connection is kept")
	verifsym.Reach("end")
}

// Held limited calls do not hold up unlimited ones.
//
//verif: preempt=1/2 native=off
func VerifC16_Unlimited() {
	m := &meter{}
	m.start()
	c := client(1)
	v := verifsym.Byte("value")
	hold := make(chan bool)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		verifsym.Assert(c.Call(context.Background(), "x:1", "/svc/do", &job{v: v, wait: hold}, &job{}) == nil, "called")
	}()
	r := &job{}
	verifsym.Assert(c.CallWait(context.Background(), "x:1", "/svc/do", &job{v: v}, r) == nil && r.v == v+1, "not limited")
	close(hold)
	wg.Wait()
	allFree(c, 1)
	verifsym.Reach("end")
}

// A call hands all its options on, in order, through every interceptor.
//
//verif: preempt=0 native=off
func VerifC16_Options() {
	m := &meter{}
	m.start()
	var opts []any
	n := verifsym.Choice("options", 4)
	val := verifsym.IntRange("value", 0, 1<<20)
	for i := 0; i < n; i++ {
		opts = append(opts, grpc.MaxCallRecvMsgSize(val+i))
	}
	check := func(l []grpc.CallOption) {
		verifsym.Assert(len(l) == n, "every option arrives")
		for i, o := range l {
			verifsym.Assert(o == grpc.CallOption(grpc.MaxRecvMsgSizeCallOption{MaxRecvMsgSize: val + i}), "as given")
		}
	}
	seen, ran := 0, []int{}
	grpcm.Options = func(l []grpc.CallOption) { seen++; check(l) }
	var ics []grpc.UnaryClientInterceptor
	k := verifsym.Choice("interceptors", 3)
	for i := 0; i < k; i++ {
		ics = append(ics, func(ctx context.Context, method string, req, reply any, cc *grpc.ClientConn, inv grpc.UnaryInvoker, o ...grpc.CallOption) error {
			ran = append(ran, i)
			verifsym.Assert(method == "/svc/do", "the method")
			check(o)
			return inv(ctx, method, req, reply, cc, o...)
		})
	}
	c := lib.BuildClientWithOption(lib.WithClientConns([]string{"x:1"}), lib.ClientAppendUnaryInterceptors(ics...))
	verifsym.Assert(c.Init() == nil, "initialised")
	call := c.Call
	addr := "x:1"
	if verifsym.Choice("limited", 2) == 0 {
		call = c.CallWait
		addr = []string{"x:1", "y:1"}[verifsym.Choice("addr", 2)]
	}
	v, r := verifsym.Byte("v"), &job{}
	verifsym.Assert(call(context.Background(), addr, "/svc/do", &job{v: v}, r, opts...) == nil && r.v == v+1, "called")
	verifsym.Assert(seen == 1 && len(ran) == k, "once, through every interceptor once")
	for i := range ran {
		verifsym.Assert(ran[i] == i, "in order")
	}
	verifsym.Reach("end")
}
