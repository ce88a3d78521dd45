// Package c32 decides C32: every store wrapper sends the command it names and hands back its own outcome.
package c32

import (
	"context"
	"errors"
	"net"
	"strings"
	"time"

	trdredis "github.com/pojol/braid/3rd/redis"
	_ "github.com/pojol/braid/verifharness/fredis" // argument lists
	"github.com/pojol/braid/verifsym"
	"github.com/redis/go-redis/v9"
)

type ctxKey struct{}

// rec records the commands sent on its client and answers them.
type rec struct {
	single []redis.Cmder
	pipes  [][]redis.Cmder
	ctxs   []context.Context
	answer func(cmd redis.Cmder) error
}

func (r *rec) DialHook(next redis.DialHook) redis.DialHook {
	return func(ctx context.Context, network, addr string) (net.Conn, error) {
		return nil, errors.New("no network")
	}
}

func (r *rec) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		r.single = append(r.single, cmd)
		r.ctxs = append(r.ctxs, ctx)
		err := r.answer(cmd)
		if err != nil {
			cmd.SetErr(err)
		}
		return err
	}
}

func (r *rec) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		r.pipes = append(r.pipes, cmds)
		r.ctxs = append(r.ctxs, ctx)
		for _, c := range cmds {
			if err := r.answer(c); err != nil {
				c.SetErr(err)
				return err
			}
		}
		return nil
	}
}

var errStore = errors.New("the store failed")

// install makes a recording client the configured one; it fails its commands when the store is down.
func install() (*rec, error) {
	var fail error
	switch verifsym.IntRange("outcome", 0, 2) {
	case 1:
		fail = errStore
	case 2:
		fail = redis.Nil
	}
	r := &rec{answer: func(redis.Cmder) error { return fail }}
	c := redis.NewClient(&redis.Options{Addr: "rec:0", MaxRetries: -1})
	c.AddHook(r)
	trdredis.MockClient(c)
	return r, fail
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return ok && x == y
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case int:
			return x == int64(y)
		}
		return false
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	}
	return a == b
}

// sent asserts that cmd is the only command sent so far, with these words, with the caller's context,
// and that its outcome is the store's.
func (r *rec) sent(ctx context.Context, cmd redis.Cmder, fail error, name string, args ...interface{}) {
	verifsym.Assert(len(r.single) == 1 && len(r.pipes) == 0, "exactly one command is sent")
	got := r.single[0]
	verifsym.Assert(got == cmd, "the command handed back is the one sent")
	verifsym.Assert(cmd.Err() == fail, "the store's outcome is handed back")
	r.words(ctx, got, name, args...)
	r.single, r.ctxs = nil, nil
}

func (r *rec) words(ctx context.Context, got redis.Cmder, name string, args ...interface{}) {
	verifsym.Assert(r.ctxs[0].Value(ctxKey{}) == ctx.Value(ctxKey{}), "the caller's context is used")
	words := got.Args()
	names := strings.Split(name, " ")
	verifsym.Assert(len(words) == len(names)+len(args), "the command has the arguments given and no others")
	for i, n := range names {
		w, ok := words[i].(string)
		verifsym.Assert(ok && strings.EqualFold(w, n), "the command is the one named")
	}
	for i, a := range args {
		verifsym.Assert(same(a, words[len(names)+i]), "the arguments are those given, in order")
	}
}

func caller() context.Context {
	return context.WithValue(context.Background(), ctxKey{}, verifsym.Int("caller"))
}

func VerifC32_Keys() {
	r, fail := install()
	ctx := caller()
	k, k2, v := verifsym.String("k", 2), verifsym.String("k2", 2), verifsym.String("v", 2)

	r.sent(ctx, trdredis.Get(ctx, k), fail, "get", k)
	r.sent(ctx, trdredis.Set(ctx, k, v), fail, "set", k, v)
	r.sent(ctx, trdredis.Del(ctx, k, k2), fail, "del", k, k2)
	r.sent(ctx, trdredis.Del(ctx, k), fail, "del", k)
	r.sent(ctx, trdredis.Exists(ctx, k), fail, "exists", k)
	r.sent(ctx, trdredis.Incr(ctx, k), fail, "incr", k)
	r.sent(ctx, trdredis.Keys(ctx, k), fail, "keys", k)
	r.sent(ctx, trdredis.FlushDB(ctx), fail, "flushdb")
	r.sent(ctx, trdredis.FlushAll(ctx), fail, "flushall")
	verifsym.Reach("end")
}

func VerifC32_Expiry() {
	r, fail := install()
	ctx := caller()
	k, v := verifsym.String("k", 2), verifsym.String("v", 2)
	secs := int64(verifsym.Choice("secs", 3) + 1)
	d := time.Duration(secs) * time.Second

	r.sent(ctx, trdredis.SetEx(ctx, k, v, d), fail, "setex", k, secs, v)
	r.sent(ctx, trdredis.SetNx(ctx, k, v, d), fail, "set", k, v, "ex", secs, "nx")
	r.sent(ctx, trdredis.SetNx(ctx, k, v, 0), fail, "setnx", k, v)
	r.sent(ctx, trdredis.SetNx(ctx, k, v, 1500*time.Millisecond), fail, "set", k, v, "px", int64(1500), "nx")
	r.sent(ctx, trdredis.Expire(ctx, k, d), fail, "expire", k, secs)
	verifsym.Reach("end")
}

func VerifC32_Sets() {
	r, fail := install()
	ctx := caller()
	k, a, b := verifsym.String("k", 2), verifsym.String("a", 2), verifsym.String("b", 2)
	n := verifsym.Int64("n")

	r.sent(ctx, trdredis.SAdd(ctx, k, a, b), fail, "sadd", k, a, b)
	r.sent(ctx, trdredis.SAdd(ctx, k, a), fail, "sadd", k, a)
	r.sent(ctx, trdredis.SIsMember(ctx, k, a), fail, "sismember", k, a)
	r.sent(ctx, trdredis.SMembers(ctx, k), fail, "smembers", k)
	r.sent(ctx, trdredis.SRandMember(ctx, k), fail, "srandmember", k)
	r.sent(ctx, trdredis.SRandMemberN(ctx, k, n), fail, "srandmember", k, n)
	r.sent(ctx, trdredis.SPop(ctx, k), fail, "spop", k)
	r.sent(ctx, trdredis.SCard(ctx, k), fail, "scard", k)
	verifsym.Reach("end")
}

func VerifC32_SortedSets() {
	r, fail := install()
	ctx := caller()
	k, a, b := verifsym.String("k", 2), verifsym.String("a", 2), verifsym.String("b", 2)
	i, j := verifsym.Int64("i"), verifsym.Int64("j")

	r.sent(ctx, trdredis.ZScore(ctx, k, a), fail, "zscore", k, a)
	r.sent(ctx, trdredis.ZAdd(ctx, k, redis.Z{Score: 1.5, Member: a}, redis.Z{Score: 2, Member: b}), fail,
		"zadd", k, 1.5, a, 2.0, b)
	r.sent(ctx, trdredis.ZRevRank(ctx, k, a), fail, "zrevrank", k, a)
	r.sent(ctx, trdredis.ZRevRange(ctx, k, i, j), fail, "zrevrange", k, i, j)
	r.sent(ctx, trdredis.ZCard(ctx, k), fail, "zcard", k)
	r.sent(ctx, trdredis.ZRangeByScore(ctx, k, redis.ZRangeBy{Min: a, Max: b}), fail, "zrangebyscore", k, a, b)
	r.sent(ctx, trdredis.ZRangeByScore(ctx, k, redis.ZRangeBy{Min: a, Max: b, Offset: 1, Count: 2}), fail,
		"zrangebyscore", k, a, b, "limit", int64(1), int64(2))
	r.sent(ctx, trdredis.ZRem(ctx, k, a, b), fail, "zrem", k, a, b)
	verifsym.Reach("end")
}

func VerifC32_Hashes() {
	r, fail := install()
	ctx := caller()
	k, f, v, g := verifsym.String("k", 2), verifsym.String("f", 2), verifsym.String("v", 2), verifsym.String("g", 2)
	n := verifsym.Int64("n")

	r.sent(ctx, trdredis.HGet(ctx, k, f), fail, "hget", k, f)
	r.sent(ctx, trdredis.HGetAll(ctx, k), fail, "hgetall", k)
	r.sent(ctx, trdredis.HSet(ctx, k, f, v), fail, "hset", k, f, v)
	r.sent(ctx, trdredis.HSet(ctx, k, f, v, g, n), fail, "hset", k, f, v, g, n)
	r.sent(ctx, trdredis.HDel(ctx, k, f, g), fail, "hdel", k, f, g)
	r.sent(ctx, trdredis.HLen(ctx, k), fail, "hlen", k)
	r.sent(ctx, trdredis.HIncrBy(ctx, k, f, n), fail, "hincrby", k, f, n)
	r.sent(ctx, trdredis.HKeys(ctx, k), fail, "hkeys", k)
	r.sent(ctx, trdredis.HExists(ctx, k, f), fail, "hexists", k, f)
	verifsym.Reach("end")
}

func VerifC32_Lists() {
	r, fail := install()
	ctx := caller()
	k, a, b := verifsym.String("k", 2), verifsym.String("a", 2), verifsym.String("b", 2)
	i, j := verifsym.Int64("i"), verifsym.Int64("j")

	r.sent(ctx, trdredis.LRange(ctx, k, i, j), fail, "lrange", k, i, j)
	r.sent(ctx, trdredis.RPush(ctx, k, a, b), fail, "rpush", k, a, b)
	verifsym.Reach("end")
}

func VerifC32_Streams() {
	r, fail := install()
	ctx := caller()
	k, g, c := verifsym.String("k", 2), verifsym.String("g", 2), verifsym.String("c", 2)

	r.sent(ctx, trdredis.XInfoGroups(ctx, k), fail, "xinfo groups", k)
	r.sent(ctx, trdredis.XGroupCreate(ctx, k, g, c), fail, "xgroup create", k, g, c)
	r.sent(ctx, trdredis.XGroupDelConsumer(ctx, k, g, c), fail, "xgroup delconsumer", k, g, c)
	r.sent(ctx, trdredis.XInfoConsumers(ctx, k, g), fail, "xinfo consumers", k, g)
	r.sent(ctx, trdredis.XReadGroup(ctx, &redis.XReadGroupArgs{Group: g, Consumer: c, Streams: []string{k, ">"}, Count: 3, Block: -1}), fail,
		"xreadgroup group", g, c, "count", int64(3), "streams", k, ">")
	r.sent(ctx, trdredis.XGroupDestroy(ctx, k, g), fail, "xgroup destroy", k, g)
	r.sent(ctx, trdredis.XLen(ctx, k), fail, "xlen", k)
	r.sent(ctx, trdredis.XDel(ctx, k, c), fail, "xdel", k, c)
	c = "1" + c
	r.sent(ctx, trdredis.XAdd(ctx, &redis.XAddArgs{Stream: k, ID: c, Values: []string{"f", g}}), fail, "xadd", k, c, "f", g)
	verifsym.Reach("end")
}

// Wrappers that hand back the value themselves.
func VerifC32_Values() {
	r, fail := install()
	ctx := caller()
	k, f := verifsym.String("k", 2), verifsym.String("f", 2)
	n := verifsym.Int64("n")
	v := verifsym.String("v", 2)
	r.answer = func(cmd redis.Cmder) error {
		if fail != nil {
			return fail
		}
		switch c := cmd.(type) {
		case *redis.Cmd:
			c.SetVal(n)
		case *redis.StringCmd:
			c.SetVal(v)
		}
		return nil
	}
	got := trdredis.CAD(ctx, k, f)
	verifsym.Assert(len(r.single) == 1 && len(r.pipes) == 0, "exactly one command is sent")
	r.words(ctx, r.single[0], "cad", k, f)
	verifsym.Assert(got == (fail == nil && n != 0), "compare and delete reports what the store did")
	r.single, r.ctxs = nil, nil

	str := trdredis.Get(ctx, k)
	verifsym.Assert(fail != nil || str.Val() == v, "the store's reply is handed back")
	r.single, r.ctxs = nil, nil

	script := redis.NewScript("return 1")
	res, err := trdredis.ScriptRun(ctx, script, []string{k}, f, n)
	verifsym.Assert(len(r.single) == 1 && len(r.pipes) == 0, "exactly one command is sent")
	r.words(ctx, r.single[0], "evalsha", script.Hash(), int64(1), k, f, n)
	verifsym.Assert(err == fail, "the script's error is handed back")
	x, ok := res.(int64)
	verifsym.Assert(fail != nil || (ok && x == n), "the script's reply is handed back")
	verifsym.Reach("end")
}

func VerifC32_Scripts() {
	r, fail := install()
	ctx := caller()
	k, k2, f := verifsym.String("k", 2), verifsym.String("k2", 2), verifsym.String("f", 2)
	n, m := verifsym.Int64("n"), verifsym.Int64("m")
	missing := verifsym.Bool("missing")
	r.answer = func(cmd redis.Cmder) error {
		if missing && len(r.single) == 1 {
			return noScript("NOSCRIPT No matching script.")
		}
		if fail != nil {
			return fail
		}
		cmd.(*redis.Cmd).SetVal([]interface{}{n, m})
		return nil
	}
	script := redis.NewScript("return {1, 2}")
	res, err := trdredis.ScriptRunInt64s(ctx, script, []string{k, k2}, f)
	if missing {
		verifsym.Assert(len(r.single) == 2 && len(r.pipes) == 0, "a script the store does not know is sent once")
		r.words(ctx, r.single[0], "evalsha", script.Hash(), int64(2), k, k2, f)
		r.words(ctx, r.single[1], "eval", "return {1, 2}", int64(2), k, k2, f)
	} else {
		verifsym.Assert(len(r.single) == 1 && len(r.pipes) == 0, "exactly one command is sent")
		r.words(ctx, r.single[0], "evalsha", script.Hash(), int64(2), k, k2, f)
	}
	verifsym.Assert(err == fail, "the script's error is handed back")
	verifsym.Assert(fail != nil || (len(res) == 2 && res[0] == n && res[1] == m), "the script's reply is handed back")
	verifsym.Reach("end")
}

type noScript string

func (e noScript) Error() string { return string(e) }
func (noScript) RedisError()     {}

// Pipelines and transactions send what was queued in one round trip.
func VerifC32_Pipelines() {
	r, fail := install()
	ctx := caller()
	k, v := verifsym.String("k", 2), verifsym.String("v", 2)
	errQueue := errors.New("not queued")
	var refuse error
	if verifsym.Bool("refuse") {
		refuse = errQueue
	}
	tx := verifsym.Bool("tx")
	queue := func(p redis.Pipeliner) error {
		p.Set(ctx, k, v, 0)
		p.HDel(ctx, v, k)
		return refuse
	}
	var cmds []redis.Cmder
	var err error
	if tx {
		cmds, err = trdredis.TxPipelined(ctx, "here", queue)
	} else {
		cmds, err = trdredis.Pipelined(ctx, "here", queue)
	}
	if refuse != nil {
		verifsym.Assert(len(r.pipes) == 0 && len(r.single) == 0, "nothing is sent when queueing fails")
		verifsym.Assert(err == refuse, "the error of queueing is handed back")
		verifsym.Reach("refused")
		return
	}
	verifsym.Assert(len(r.pipes) == 1 && len(r.single) == 0, "one round trip")
	p := r.pipes[0]
	if tx {
		verifsym.Assert(len(p) == 4, "a transaction wraps its commands")
		r.words(ctx, p[0], "multi")
		r.words(ctx, p[3], "exec")
		p = p[1:3]
	}
	verifsym.Assert(len(p) == 2, "every queued command is sent once")
	r.words(ctx, p[0], "set", k, v)
	r.words(ctx, p[1], "hdel", v, k)
	verifsym.Assert(err == fail, "the outcome of the round trip is handed back")
	verifsym.Assert(len(cmds) == 2 && cmds[0] == p[0] && cmds[1] == p[1], "the commands queued are handed back")
	verifsym.Reach("end")
}

func VerifC32_Pipeline() {
	r, fail := install()
	ctx := caller()
	k, v := verifsym.String("k", 2), verifsym.String("v", 2)
	p := trdredis.Pipeline()
	p.HSet(ctx, k, v, k)
	c := p.SCard(ctx, v)
	verifsym.Assert(len(r.pipes) == 0 && len(r.single) == 0, "nothing is sent before execution")
	cmds, err := p.Exec(ctx)
	verifsym.Assert(len(r.pipes) == 1 && len(r.single) == 0, "one round trip")
	verifsym.Assert(len(r.pipes[0]) == 2 && len(cmds) == 2 && cmds[1] == redis.Cmder(c), "every queued command is sent once")
	r.words(ctx, r.pipes[0][0], "hset", k, v, k)
	r.words(ctx, r.pipes[0][1], "scard", v)
	verifsym.Assert(err == fail, "the outcome of the round trip is handed back")
	verifsym.Reach("end")
}

// A command on a connection of its own.
func VerifC32_Conn() {
	r, fail := install()
	ctx := caller()
	k, f, v := verifsym.String("k", 2), verifsym.String("f", 2), verifsym.String("v", 2)
	r.answer = func(cmd redis.Cmder) error {
		if fail == nil {
			cmd.(*redis.StringCmd).SetVal(v)
		}
		return fail
	}
	if verifsym.Bool("none") {
		_, err := trdredis.ConnHGet(nil, ctx, k, f)
		verifsym.Assert(err != nil && len(r.single) == 0, "no connection is an error")
		verifsym.Reach("none")
		return
	}
	own := &rec{answer: r.answer}
	conn := trdredis.GetClient().Conn()
	conn.AddHook(own)
	val, err := trdredis.ConnHGet(conn, ctx, k, f)
	verifsym.Assert(len(r.single) == 0 && len(own.single) == 1, "the command goes over the given connection")
	own.words(ctx, own.single[0], "hget", k, f)
	verifsym.Assert(err == fail, "the store's error is handed back")
	verifsym.Assert(fail != nil || val == v, "the store's reply is handed back")
	verifsym.Reach("end")
}

// The raw values of a finished pipeline.
func VerifC32_Raw() {
	ctx := context.Background()
	n := verifsym.Choice("n", verifsym.Size(4, 5))
	bad := verifsym.IntRange("bad", 0, 5)
	var cmds []redis.Cmder
	var want []string
	for i := 0; i < n; i++ {
		c := redis.NewStringCmd(ctx, "get", "k")
		if i == bad {
			c.SetErr(redis.Nil)
		} else {
			v := verifsym.String("v", 2)
			c.SetVal(v)
			want = append(want, v)
		}
		cmds = append(cmds, c)
	}
	got, err := trdredis.GetCmdsByteSlice(cmds)
	verifsym.Assert((err == nil) == (bad >= n), "the first failure is reported")
	if bad < n {
		verifsym.Assert(err == redis.Nil, "the failure is the command's own")
		verifsym.Reach("failed")
		return
	}
	verifsym.Assert(len(got) == len(want), "one value per command")
	for i := range got {
		verifsym.Assert(string(got[i]) == want[i], "the values are in the order of the commands")
	}
	verifsym.Reach("end")
}

// Every option sets what it is named after and nothing else.
func VerifC32_Options() {
	n := verifsym.Int("n")
	s := verifsym.String("s", 2)
	d := time.Duration(verifsym.Int64("d"))
	base := redis.Options{
		Addr: "base", Username: "user", Password: "pass", DB: 3,
		ReadTimeout: 1, WriteTimeout: 2, DialTimeout: 3, PoolTimeout: 4, ConnMaxIdleTime: 5, ConnMaxLifetime: 6,
		PoolSize: 7, MinIdleConns: 8, MaxIdleConns: 9,
	}
	want := base
	var o trdredis.Option
	switch verifsym.Choice("option", 11) {
	case 0:
		o, want.Addr = trdredis.WithDomain(s), s
	case 1:
		o, want.Username = trdredis.WithUsername(s), s
	case 2:
		o, want.Password = trdredis.WithPassword(s), s
	case 3:
		o, want.ReadTimeout = trdredis.WithReadTimeOut(d), d
	case 4:
		o, want.WriteTimeout = trdredis.WithWriteTimeOut(d), d
	case 5:
		o, want.DialTimeout = trdredis.WithConnectTimeOut(d), d
	case 6:
		o, want.ConnMaxIdleTime = trdredis.WithIdleTimeout(d), d
	case 7:
		o, want.MaxIdleConns = trdredis.WithMaxIdle(n), n
	case 8:
		o, want.MinIdleConns = trdredis.WithMinIdle(n), n
	case 9:
		o, want.PoolSize = trdredis.WithPoolSize(n), n
	case 10:
		o, want.PoolTimeout = trdredis.WithPoolTimeout(d), d
	}
	got := trdredis.VerifOptions(base, o)
	verifsym.Assert(got.Addr == want.Addr && got.Username == want.Username && got.Password == want.Password && got.DB == want.DB, "who and where")
	verifsym.Assert(got.ReadTimeout == want.ReadTimeout && got.WriteTimeout == want.WriteTimeout && got.DialTimeout == want.DialTimeout &&
		got.PoolTimeout == want.PoolTimeout && got.ConnMaxIdleTime == want.ConnMaxIdleTime && got.ConnMaxLifetime == want.ConnMaxLifetime, "times")
	verifsym.Assert(got.PoolSize == want.PoolSize && got.MinIdleConns == want.MinIdleConns && got.MaxIdleConns == want.MaxIdleConns, "sizes")
	verifsym.Reach("end")
}

// The address option sets where the store is and leaves the other settings alone, unless the address names them.
//
//verif: maporder=0
func VerifC32_Address() {
	n1, n2, n3 := verifsym.Int("n1"), verifsym.Int("n2"), verifsym.Int("n3")
	var d [5]time.Duration
	for i, name := range []string{"d0", "d1", "d2", "d3", "d4"} {
		d[i] = time.Duration(verifsym.Int64(name))
	}
	base := redis.Options{
		Addr: "base:1", ReadTimeout: d[0], WriteTimeout: d[1], DialTimeout: d[2], PoolTimeout: d[3], ConnMaxIdleTime: d[4],
		PoolSize: n1, MinIdleConns: n2, MaxIdleConns: n3,
	}
	want := base
	url := "redis://h:7"
	switch verifsym.Choice("url", 4) {
	case 0:
		want.Addr = "h:7"
	case 1:
		url, want.Addr, want.Username, want.Password, want.DB = "redis://u:p@h:7/5", "h:7", "u", "p", 5
	case 2:
		url, want.Addr, want.PoolSize = "redis://h:7?pool_size=12", "h:7", 12
	case 3:
		url, want.Addr, want.ReadTimeout, want.DialTimeout = "redis://h:7?read_timeout=2s&dial_timeout=3s", "h:7", 2*time.Second, 3*time.Second
	}
	got := trdredis.VerifOptions(base, trdredis.WithAddr(url))
	verifsym.Assert(got.Addr == want.Addr && got.Username == want.Username && got.Password == want.Password && got.DB == want.DB, "who and where")
	verifsym.Assert(got.ReadTimeout == want.ReadTimeout && got.WriteTimeout == want.WriteTimeout && got.DialTimeout == want.DialTimeout &&
		got.PoolTimeout == want.PoolTimeout && got.ConnMaxIdleTime == want.ConnMaxIdleTime, "times")
	verifsym.Assert(got.PoolSize == want.PoolSize && got.MinIdleConns == want.MinIdleConns && got.MaxIdleConns == want.MaxIdleConns, "sizes")
	verifsym.Reach("end")
}
