// Package grpcm stands in for the transport of google.golang.org/grpc under the engine: connections, servers and the
// network between them.  Interceptors, service descriptors, handlers and the messages' own encoding are the real ones.
package grpcm

import (
	"context"
	"errors"
	"net"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
)

// Error is what a call fails with.
type Error struct{ Code, Msg string }

func (e *Error) Error() string { return "rpc error: code = " + e.Code + " desc = " + e.Msg }

// Outcome is what the network does with a request.
type Outcome int

const (
	OK        Outcome = iota
	Lost              // the request does not arrive
	ReplyLost         // it arrives, but the answer does not
	Corrupt           // the answer cannot be decoded
)

type conn struct {
	c      *grpc.ClientConn
	target string
	icept  grpc.UnaryClientInterceptor
	closed bool
}

type server struct {
	s        *grpc.Server
	icept    grpc.UnaryServerInterceptor
	services []service
	lis      *Listener
	active   int
	stopped  bool
	idle     chan struct{} // closed when stopped and idle
	stopping chan struct{}
	cancels  []context.CancelFunc
}

type service struct {
	d    *grpc.ServiceDesc
	impl any
}

// Listener is a bound address.
type Listener struct {
	addr  string
	open  bool
	ready chan struct{} // closed when served or closed
	srv   *server
}

func (l *Listener) Accept() (net.Conn, error) { return nil, errors.New("not modelled") }
func (l *Listener) Close() error              {
	l.open = false
	if l.srv == nil {
		close(l.ready)
	}
	return nil
}
func (l *Listener) Addr() net.Addr            { return nil }

var (
	conns     []*conn
	servers   []*server
	listeners []*Listener

	// Fault decides about each request (nil: all arrive).
	Fault func(addr, method string) Outcome
	// Dial decides about each new connection.
	Dial func(addr string) error
	// Served, if set, handles every request instead of the registered services.
	Served func(ctx context.Context, addr, method string, args any, reply any) error
	// Options, if set, sees the options of every invocation.
	Options func(opts []grpc.CallOption)
	// State is the state every connection reports.
	State connectivity.State = connectivity.Ready
	// Counters.
	Requests, Delivered, Resets, Dialled int
)

type dialIcept struct {
	grpc.EmptyDialOption
	f grpc.UnaryClientInterceptor
}
type srvIcept struct {
	grpc.EmptyServerOption
	f grpc.UnaryServerInterceptor
}

func WithUnaryInterceptor(f grpc.UnaryClientInterceptor) grpc.DialOption { return dialIcept{f: f} }
func WithTransportCredentials(credentials.TransportCredentials) grpc.DialOption {
	return grpc.EmptyDialOption{}
}
func UnaryInterceptor(f grpc.UnaryServerInterceptor) grpc.ServerOption { return srvIcept{f: f} }
func NewCredentials() credentials.TransportCredentials                 { return nil }

func DialContext(ctx context.Context, target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	Dialled++
	if Dial != nil {
		if err := Dial(target); err != nil {
			return nil, err
		}
	}
	c := &conn{c: new(grpc.ClientConn), target: target}
	for _, o := range opts {
		if i, ok := o.(dialIcept); ok {
			c.icept = i.f
		}
	}
	conns = append(conns, c)
	return c.c, nil
}

func of(cc *grpc.ClientConn) *conn {
	for _, c := range conns {
		if c.c == cc {
			return c
		}
	}
	panic("unknown connection")
}

func GetState(cc *grpc.ClientConn) connectivity.State {
	of(cc)
	return State
}
func ResetConnectBackoff(cc *grpc.ClientConn) {
	of(cc)
	Resets++
}
func Target(cc *grpc.ClientConn) string { return of(cc).target }
func Close(cc *grpc.ClientConn) error {
	c := of(cc)
	if c.closed {
		return &Error{"Canceled", "grpc: the client connection is closing"}
	}
	c.closed = true
	return nil
}

func Invoke(cc *grpc.ClientConn, ctx context.Context, method string, args, reply any, opts ...grpc.CallOption) error {
	c := of(cc)
	if c.icept != nil {
		return c.icept(ctx, method, args, reply, cc, invoke, opts...)
	}
	return invoke(ctx, method, args, reply, cc, opts...)
}

func ctxErr(err error) error {
	if errors.Is(err, context.DeadlineExceeded) {
		return &Error{"DeadlineExceeded", err.Error()}
	}
	return &Error{"Canceled", err.Error()}
}

func invoke(ctx context.Context, method string, args, reply any, cc *grpc.ClientConn, opts ...grpc.CallOption) error {
	c := of(cc)
	for _, o := range opts {
		if o == nil {
			panic("nil call option")
		}
	}
	if Options != nil {
		Options(opts)
	}
	if c.closed {
		return &Error{"Canceled", "grpc: the client connection is closing"}
	}
	if err := ctx.Err(); err != nil {
		return ctxErr(err)
	}
	Requests++
	out := OK
	if Fault != nil {
		out = Fault(c.target, method)
	}
	if out == Lost {
		return &Error{"Unavailable", "connection error"}
	}
	if Served != nil {
		err := Served(ctx, c.target, method, args, reply)
		if out == ReplyLost && err == nil {
			return &Error{"Unavailable", "connection lost"}
		}
		return err
	}
	return remote(ctx, c, out, method, args, reply)
}

// whoever listens on the address
func lookup(target string) *Listener {
	port := target
	for i := len(target) - 1; i >= 0; i-- {
		if target[i] == ':' {
			port = target[i:]
			break
		}
	}
	for _, l := range listeners {
		if l.open && (l.addr == target || l.addr == port) {
			return l
		}
	}
	return nil
}

type marshaler interface{ Marshal() ([]byte, error) }
type unmarshaler interface {
	Reset()
	Unmarshal([]byte) error
}

type result struct {
	b   []byte
	err error
}

func remote(ctx context.Context, c *conn, out Outcome, method string, args, reply any) error {
	m, ok := args.(marshaler)
	if !ok {
		return &Error{"Internal", "failed to marshal"}
	}
	b, err := m.Marshal()
	if err != nil {
		return &Error{"Internal", "failed to marshal"}
	}
	l := lookup(c.target)
	if l == nil {
		return &Error{"Unavailable", "connection refused"}
	}
	select {
	case <-l.ready:
	case <-ctx.Done():
		return ctxErr(ctx.Err())
	}
	s := l.srv
	if s == nil || s.stopped {
		return &Error{"Unavailable", "connection refused"}
	}
	var h *grpc.MethodDesc
	var impl any
	for _, sv := range s.services {
		for i := range sv.d.Methods {
			if "/"+sv.d.ServiceName+"/"+sv.d.Methods[i].MethodName == method {
				h, impl = &sv.d.Methods[i], sv.impl
			}
		}
	}
	if h == nil {
		return &Error{"Unimplemented", "unknown method " + method}
	}
	md, _ := metadata.FromOutgoingContext(ctx)
	sctx, cancel := context.WithCancel(metadata.NewIncomingContext(context.Background(), md.Copy()))
	if d, ok := ctx.Deadline(); ok {
		sctx, cancel = context.WithTimeout(sctx, time.Until(d))
	}
	s.active++
	s.cancels = append(s.cancels, cancel)
	ch := make(chan result, 1)
	go func() {
		Delivered++
		dec := func(v any) error { return v.(unmarshaler).Unmarshal(b) }
		r, err := h.Handler(impl, sctx, dec, s.icept)
		cancel()
		var rb []byte
		if err == nil {
			rb, err = r.(marshaler).Marshal()
		}
		s.active--
		if s.stopped && s.active == 0 {
			close(s.idle)
		}
		ch <- result{rb, err}
	}()
	select {
	case r := <-ch:
		if out == ReplyLost {
			return &Error{"Unavailable", "connection lost"}
		}
		if r.err != nil {
			if e, ok := r.err.(*Error); ok {
				return e
			}
			return &Error{"Unknown", r.err.Error()}
		}
		u, ok := reply.(unmarshaler)
		if !ok || out == Corrupt {
			return &Error{"Internal", "grpc: failed to unmarshal the received message"}
		}
		u.Reset()
		if err := u.Unmarshal(r.b); err != nil {
			return &Error{"Internal", "grpc: failed to unmarshal the received message"}
		}
		return nil
	case <-ctx.Done():
		cancel()
		return ctxErr(ctx.Err())
	}
}

func NewServer(opts ...grpc.ServerOption) *grpc.Server {
	s := &server{s: new(grpc.Server), idle: make(chan struct{}), stopping: make(chan struct{})}
	for _, o := range opts {
		if i, ok := o.(srvIcept); ok {
			s.icept = i.f
		}
	}
	servers = append(servers, s)
	return s.s
}

func ofs(gs *grpc.Server) *server {
	for _, s := range servers {
		if s.s == gs {
			return s
		}
	}
	panic("unknown server")
}

func RegisterService(gs *grpc.Server, d *grpc.ServiceDesc, impl any) {
	s := ofs(gs)
	s.services = append(s.services, service{d, impl})
}

func Serve(gs *grpc.Server, l net.Listener) error {
	s := ofs(gs)
	if s.stopped {
		l.Close()
		return grpc.ErrServerStopped
	}
	s.lis = l.(*Listener)
	s.lis.srv = s
	close(s.lis.ready)
	<-s.stopping
	return nil
}

func stop(s *server) {
	if !s.stopped {
		s.stopped = true
		close(s.stopping)
		if s.lis != nil {
			s.lis.Close()
		}
		if s.active == 0 {
			close(s.idle)
		}
	}
}

func GracefulStop(gs *grpc.Server) {
	s := ofs(gs)
	stop(s)
	<-s.idle
}

func Stop(gs *grpc.Server) {
	s := ofs(gs)
	stop(s)
	for _, c := range s.cancels {
		c()
	}
	<-s.idle
}

func Listen(network, addr string) (net.Listener, error) {
	for _, l := range listeners {
		if l.open && l.addr == addr {
			return nil, errors.New("listen tcp " + addr + ": bind: address already in use")
		}
	}
	l := &Listener{addr: addr, open: true, ready: make(chan struct{})}
	listeners = append(listeners, l)
	return l, nil
}

// Open reports whether anything listens on the address.
func Open(addr string) bool {
	for _, l := range listeners {
		if l.open && l.addr == addr {
			return true
		}
	}
	return false
}
