// Package fredis is a model of the redis server: the real go-redis client is used, its hooks hand every
// command to the store below.  Harnesses may inject failures before or after the effect of a command.
package fredis

import (
	"context"
	"errors"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/verifsym"
	"github.com/redis/go-redis/v9"
)

// rerr is an error reply of the server.
type rerr string

func (e rerr) Error() string { return string(e) }
func (rerr) RedisError()     {}

// ErrLost is a failure of the connection.
var ErrLost = errors.New("connection lost")

var errType = rerr("WRONGTYPE Operation against a key holding the wrong kind of value")

// Outcome of a round trip.
type Outcome int

const (
	OK           Outcome = iota
	Refused              // the request never reached the store
	ReplyLost            // the store did it, the reply was lost
	HalfExecuted         // pipelines only: a prefix was executed, then the connection broke
	HalfAnswered         // pipelines only: a prefix was executed and answered, then the connection broke
)

type value struct {
	s   string
	num bool
	n   int64
}

func (v value) text() string {
	if v.num {
		return strconv.FormatInt(v.n, 10)
	}
	return v.s
}

type field struct {
	name string
	val  value
}

type item struct {
	key    string
	kind   byte // s string, h hash, t set, x stream
	str    value
	hash   []field
	set    []string
	stream *stream
	exp    int64 // 0: never
	ttl    int64 // set by the last expire
}

type Store struct {
	mu    sync.Mutex
	items []*item

	// Fault decides the outcome of the next round trip; nil: everything works.
	Fault func(cmd string) Outcome
	// Before runs before each round trip, outside of the store: a slow network.
	Before func(cmd string)
	// Calls counts the round trips, Log names the commands executed.
	Calls int
	Log   []string
	Trace bool
	// Fixed keeps the order of random members as stored.
	Fixed bool
}

var current *Store

// Current is the store installed last.
func Current() *Store { return current }

// Install replaces the process wide client by one whose commands go to a fresh store.
func Install() *Store {
	s := &Store{}
	current = s
	trdredis.MockClient(s.Client())
	return s
}

// Client is a go-redis client on the store.
func (s *Store) Client() *redis.Client {
	c := redis.NewClient(&redis.Options{Addr: "fredis:0", MaxRetries: -1})
	c.AddHook(hook{s})
	return c
}

type hook struct{ s *Store }

func (h hook) DialHook(next redis.DialHook) redis.DialHook {
	return func(ctx context.Context, network, addr string) (net.Conn, error) { return nil, ErrLost }
}

func (h hook) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error { return h.s.process(cmd) }
}

func (h hook) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error { return h.s.pipeline(cmds) }
}

func (s *Store) outcome(name string) Outcome {
	s.Calls++
	if s.Fault == nil {
		return OK
	}
	return s.Fault(name)
}

func (s *Store) process(cmd redis.Cmder) error {
	a := texts(cmd.Args())
	name := strings.ToLower(a[0].text())
	if s.Before != nil {
		s.Before(name)
	}
	if name == "xreadgroup" {
		return s.readGroup(cmd, a)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	switch s.outcome(name) {
	case Refused:
		cmd.SetErr(ErrLost)
		return ErrLost
	case ReplyLost:
		s.run(name, a)
		cmd.SetErr(ErrLost)
		return ErrLost
	}
	return reply(cmd, s.run(name, a))
}

func (s *Store) pipeline(cmds []redis.Cmder) error {
	if s.Before != nil {
		s.Before("pipeline")
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	o := s.outcome("pipeline")
	n := len(cmds)
	switch o {
	case Refused:
		n = 0
	case HalfExecuted:
		n = len(cmds) / 2
	case HalfAnswered:
		n = (len(cmds) + 1) / 2
		if len(cmds) > 0 && strings.ToLower(texts(cmds[0].Args())[0].text()) == "multi" {
			n = 0
		}
	}
	var first error
	multi := false
	for i, c := range cmds {
		if i < n {
			a := texts(c.Args())
			name := strings.ToLower(a[0].text())
			if name == "multi" || name == "exec" {
				multi = true
				continue
			}
			r := s.run(name, a)
			if o == OK || o == HalfAnswered {
				if err := reply(c, r); err != nil && first == nil {
					first = err
				}
				continue
			}
		}
		c.SetErr(ErrLost)
		if first == nil {
			first = ErrLost
		}
	}
	_ = multi
	return first
}

func texts(args []interface{}) []value {
	out := make([]value, len(args))
	for i, a := range args {
		switch x := a.(type) {
		case string:
			out[i] = value{s: x}
		case []byte:
			out[i] = value{s: string(x)}
		case int:
			out[i] = value{num: true, n: int64(x)}
		case int64:
			out[i] = value{num: true, n: x}
		case bool:
			out[i] = value{num: true, n: int64(verifsym.B2I(x))}
		default:
			panic("fredis: argument type")
		}
	}
	return out
}

func (v value) int() (int64, bool) {
	if v.num {
		return v.n, true
	}
	n, err := strconv.ParseInt(v.s, 10, 64)
	return n, err == nil
}

// res is a reply: an error, nil, an integer, a text, a list, pairs.
type res struct {
	err   error
	n     int64
	s     string
	list  []string
	pairs []field
	any   interface{}
}

func reply(cmd redis.Cmder, r res) error {
	if r.err != nil {
		cmd.SetErr(r.err)
		return r.err
	}
	switch c := cmd.(type) {
	case *redis.StringCmd:
		c.SetVal(r.s)
	case *redis.StatusCmd:
		c.SetVal(r.s)
	case *redis.IntCmd:
		c.SetVal(r.n)
	case *redis.BoolCmd:
		c.SetVal(r.n != 0)
	case *redis.StringSliceCmd:
		c.SetVal(r.list)
	case *redis.MapStringStringCmd:
		m := make(map[string]string)
		for _, f := range r.pairs {
			m[f.name] = f.val.text()
		}
		c.SetVal(m)
	case *redis.Cmd:
		c.SetVal(r.any)
	case *redis.XInfoGroupsCmd:
		c.SetVal(r.any.([]redis.XInfoGroup))
	case *redis.XInfoConsumersCmd:
		c.SetVal(r.any.([]redis.XInfoConsumer))
	case *redis.XStreamSliceCmd:
		c.SetVal(r.any.([]redis.XStream))
	default:
		panic("fredis: reply type")
	}
	return nil
}

func (s *Store) find(key string) *item {
	for i, it := range s.items {
		if it.key == key {
			if it.exp != 0 && verifsym.Now() >= it.exp {
				s.items = append(append([]*item(nil), s.items[:i]...), s.items[i+1:]...)
				return nil
			}
			return it
		}
	}
	return nil
}

func (s *Store) get(key string, kind byte) (*item, error) {
	it := s.find(key)
	if it != nil && it.kind != kind {
		return nil, errType
	}
	return it, nil
}

func (s *Store) make(key string, kind byte) (*item, error) {
	it, err := s.get(key, kind)
	if err == nil && it == nil {
		it = &item{key: key, kind: kind}
		s.items = append(s.items, it)
	}
	return it, err
}

func (s *Store) del(key string) int64 {
	if s.find(key) == nil {
		return 0
	}
	for i, it := range s.items {
		if it.key == key {
			s.items = append(append([]*item(nil), s.items[:i]...), s.items[i+1:]...)
			return 1
		}
	}
	return 0
}

func (it *item) field(name string) int {
	for i := range it.hash {
		if it.hash[i].name == name {
			return i
		}
	}
	return -1
}

func (it *item) member(m string) int {
	for i := range it.set {
		if it.set[i] == m {
			return i
		}
	}
	return -1
}

func (s *Store) run(name string, a []value) res {
	if s.Trace {
		s.Log = append(s.Log, name)
	}
	key := ""
	if len(a) > 1 {
		key = a[1].text()
	}
	if name[0] == 'x' {
		return s.runStream(name, key, a)
	}
	switch name {
	case "ping":
		return res{s: "PONG"}
	case "flushall", "flushdb":
		s.items = nil
		return res{s: "OK"}
	case "get":
		it, err := s.get(key, 's')
		if err != nil {
			return res{err: err}
		}
		if it == nil {
			return res{err: redis.Nil}
		}
		return res{s: it.str.text(), any: it.str.text()}
	case "set", "setex", "setnx":
		exp, nx, v := int64(0), name == "setnx", value{}
		if name == "setex" {
			sec, _ := a[2].int()
			exp = sec * int64(time.Second)
			v = a[3]
		} else {
			v = a[2]
			for i := 3; i < len(a); i++ {
				switch strings.ToLower(a[i].text()) {
				case "nx":
					nx = true
				case "ex":
					n, _ := a[i+1].int()
					exp = n * int64(time.Second)
					i++
				case "px":
					n, _ := a[i+1].int()
					exp = n * int64(time.Millisecond)
					i++
				}
			}
		}
		if nx && s.find(key) != nil {
			return res{n: 0}
		}
		s.del(key)
		it, _ := s.make(key, 's')
		it.str = v
		if exp != 0 {
			it.exp = verifsym.Now() + exp
		}
		return res{s: "OK", n: 1, any: "OK"}
	case "del", "exists":
		n := int64(0)
		for _, k := range a[1:] {
			if name == "del" {
				n += s.del(k.text())
			} else if s.find(k.text()) != nil {
				n++
			}
		}
		return res{n: n, any: n}
	case "expire", "pexpire":
		it := s.find(key)
		if it == nil {
			return res{n: 0}
		}
		n, _ := a[2].int()
		if name == "expire" {
			n *= int64(time.Second)
		} else {
			n *= int64(time.Millisecond)
		}
		it.exp, it.ttl = verifsym.Now()+n, n
		return res{n: 1}
	case "incr":
		it, err := s.make(key, 's')
		if err != nil {
			return res{err: err}
		}
		n := int64(0)
		if it.str.num || it.str.s != "" {
			var ok bool
			if n, ok = it.str.int(); !ok {
				return res{err: rerr("ERR value is not an integer or out of range")}
			}
		}
		it.str = value{num: true, n: n + 1}
		return res{n: n + 1}
	case "hset":
		it, err := s.make(key, 'h')
		if err != nil {
			return res{err: err}
		}
		n := int64(0)
		for i := 2; i+1 < len(a); i += 2 {
			f := a[i].text()
			if k := it.field(f); k >= 0 {
				it.hash[k].val = a[i+1]
			} else {
				it.hash = append(it.hash, field{f, a[i+1]})
				n++
			}
		}
		return res{n: n}
	case "hget", "hexists":
		it, err := s.get(key, 'h')
		if err != nil {
			return res{err: err}
		}
		k := -1
		if it != nil {
			k = it.field(a[2].text())
		}
		if name == "hexists" {
			return res{n: int64(verifsym.B2I(k >= 0))}
		}
		if k < 0 {
			return res{err: redis.Nil}
		}
		return res{s: it.hash[k].val.text()}
	case "hgetall", "hkeys", "hlen":
		it, err := s.get(key, 'h')
		if err != nil {
			return res{err: err}
		}
		r := res{list: []string{}}
		if it != nil {
			r.pairs = append([]field(nil), it.hash...)
			r.n = int64(len(it.hash))
			for _, f := range it.hash {
				r.list = append(r.list, f.name)
			}
		}
		return r
	case "hdel":
		it, err := s.get(key, 'h')
		if err != nil {
			return res{err: err}
		}
		n := int64(0)
		if it != nil {
			for _, f := range a[2:] {
				if k := it.field(f.text()); k >= 0 {
					it.hash = append(append([]field(nil), it.hash[:k]...), it.hash[k+1:]...)
					n++
				}
			}
			if len(it.hash) == 0 {
				s.del(key)
			}
		}
		return res{n: n}
	case "hincrby":
		it, err := s.make(key, 'h')
		if err != nil {
			return res{err: err}
		}
		by, _ := a[3].int()
		f := a[2].text()
		k := it.field(f)
		if k < 0 {
			it.hash = append(it.hash, field{f, value{num: true}})
			k = len(it.hash) - 1
		}
		n, ok := it.hash[k].val.int()
		if !ok {
			return res{err: rerr("ERR hash value is not an integer")}
		}
		it.hash[k].val = value{num: true, n: n + by}
		return res{n: n + by}
	case "sadd":
		it, err := s.make(key, 't')
		if err != nil {
			return res{err: err}
		}
		n := int64(0)
		for _, m := range a[2:] {
			if it.member(m.text()) < 0 {
				it.set = append(it.set, m.text())
				n++
			}
		}
		return res{n: n}
	case "srem":
		it, err := s.get(key, 't')
		if err != nil {
			return res{err: err}
		}
		n := int64(0)
		if it != nil {
			for _, m := range a[2:] {
				if k := it.member(m.text()); k >= 0 {
					it.set = append(append([]string(nil), it.set[:k]...), it.set[k+1:]...)
					n++
				}
			}
			if len(it.set) == 0 {
				s.del(key)
			}
		}
		return res{n: n}
	case "smembers", "scard", "sismember":
		it, err := s.get(key, 't')
		if err != nil {
			return res{err: err}
		}
		r := res{list: []string{}}
		if it != nil {
			r.n = int64(len(it.set))
			r.list = append(r.list, it.set...)
		}
		if name == "sismember" {
			r.n = int64(verifsym.B2I(it != nil && it.member(a[2].text()) >= 0))
		}
		return r
	case "srandmember", "spop":
		it, err := s.get(key, 't')
		if err != nil {
			return res{err: err}
		}
		if len(a) == 2 {
			if it == nil {
				return res{err: redis.Nil}
			}
			i := s.pick(len(it.set))
			m := it.set[i]
			if name == "spop" {
				it.set = append(append([]string(nil), it.set[:i]...), it.set[i+1:]...)
				if len(it.set) == 0 {
					s.del(key)
				}
			}
			return res{s: m}
		}
		out := []string{}
		if it != nil {
			cnt, _ := a[2].int()
			left := append([]string(nil), it.set...)
			if cnt < 0 {
				for ; cnt < 0; cnt++ {
					out = append(out, left[s.pick(len(left))])
				}
			}
			for ; cnt > 0 && len(left) > 0; cnt-- {
				i := s.pick(len(left))
				out = append(out, left[i])
				left = append(append([]string(nil), left[:i]...), left[i+1:]...)
			}
		}
		return res{list: out}
	case "evalsha":
		return res{err: rerr("NOSCRIPT No matching script. Please use EVAL.")}
	case "eval":
		n, _ := a[2].int()
		keys, argv := a[3:3+int(n)], a[3+int(n):]
		v, err := s.lua(a[1].text(), keys, argv)
		if err != nil {
			return res{err: err}
		}
		if v == nil {
			return res{err: redis.Nil}
		}
		return res{any: v}
	}
	panic("fredis: command " + name)
}

func (s *Store) pick(n int) int {
	if s.Fixed || n == 1 {
		return 0
	}
	return verifsym.Choice("random member", n)
}

// AppendArg stands for go-redis' appendArg under the engine (no reflection): struct arguments are not supported.
func AppendArg(dst []interface{}, arg interface{}) []interface{} {
	switch x := arg.(type) {
	case []string:
		for _, s := range x {
			dst = append(dst, s)
		}
		return dst
	case []interface{}:
		return append(dst, x...)
	case map[string]interface{}:
		for k, v := range x {
			dst = append(dst, k, v)
		}
		return dst
	case map[string]string:
		for k, v := range x {
			dst = append(dst, k, v)
		}
		return dst
	case string, []byte, int, int64, int32, uint64, uint32, bool, float64:
		return append(dst, arg)
	}
	panic("fredis: argument type")
}

// Has tells whether the key exists.
func (s *Store) Has(key string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.find(key) != nil
}

// TTL is the time to live a key was last given, 0 for none.
func (s *Store) TTL(key string) time.Duration {
	it := s.find(key)
	if it == nil {
		return 0
	}
	return time.Duration(it.ttl)
}

// Member tells whether a set has a member.
func (s *Store) Member(key, m string) bool {
	it := s.find(key)
	if it != nil {
		for _, x := range it.set {
			if x == m {
				return true
			}
		}
	}
	return false
}

// Group returns the number of consumers of a stream's group, -1 if there is no such group.
func (s *Store) Group(key, name string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	it := s.find(key)
	if it != nil && it.kind == 'x' {
		if _, g := it.stream.group(name); g != nil {
			return len(g.consumers)
		}
	}
	return -1
}

// Len is the number of messages of a stream.
func (s *Store) Len(key string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	it := s.find(key)
	if it == nil || it.kind != 'x' {
		return 0
	}
	return len(it.stream.entries)
}

// HasField reports whether a hash has a field.
func (s *Store) HasField(key, name string) bool {
	it := s.find(key)
	return it != nil && it.kind == 'h' && it.field(name) >= 0
}

// HInt reads an integer field of a hash behind the client's back; ok is false if there is none.
func (s *Store) HInt(key, name string) (int64, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	it := s.find(key)
	if it == nil || it.kind != 'h' {
		return 0, false
	}
	k := it.field(name)
	if k < 0 {
		return 0, false
	}
	return it.hash[k].val.int()
}

// Put stores a hash field behind the client's back.
func (s *Store) PutInt(key, name string, n int64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.run("hset", []value{{s: "hset"}, {s: key}, {s: name}, {num: true, n: n}})
}

// PutText stores a hash field behind the client's back.
func (s *Store) PutText(key, name, v string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.run("hset", []value{{s: "hset"}, {s: key}, {s: name}, {s: v}})
}

// AddMember adds a set member behind the client's back.
func (s *Store) AddMember(key, m string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.run("sadd", []value{{s: "sadd"}, {s: key}, {s: m}})
}

// HLen and Card give the sizes of a hash and of a set.
func (s *Store) HLen(key string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	if it := s.find(key); it != nil {
		return len(it.hash)
	}
	return 0
}

func (s *Store) Card(key string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	if it := s.find(key); it != nil {
		return len(it.set)
	}
	return 0
}

// Remove deletes a key behind the client's back.
func (s *Store) Remove(key string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.del(key)
}
