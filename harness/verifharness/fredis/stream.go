package fredis

import (
	"strconv"
	"strings"
	"time"

	"github.com/redis/go-redis/v9"
)

type entry struct {
	seq  int64
	vals []string
}

type pend struct {
	seq      int64
	consumer string
}

type group struct {
	name      string
	last      int64 // last delivered
	consumers []string
	pending   []pend
}

type stream struct {
	last    int64
	entries []entry
	groups  []*group
}

// Ids are <ms>-<seq>: several messages of one millisecond, a step from one digit of seq to two, and a
// later millisecond that starts at zero again.
const msBase = 1763500000000

func sid(n int64) string {
	ms, seq := int64(msBase), n-1
	switch {
	case n == 0:
		ms, seq = 0, 0
	case n == 2 || n == 3:
		seq = n + 7
	case n > 3:
		ms, seq = msBase+1, n-4
	}
	return strconv.FormatInt(ms, 10) + "-" + strconv.FormatInt(seq, 10)
}

func unsid(s string) int64 {
	for n := int64(0); n < 64; n++ {
		if sid(n) == s {
			return n
		}
	}
	if s == "0" {
		return 0
	}
	panic("fredis: unknown id " + s)
}

func (st *stream) group(name string) (int, *group) {
	for i, g := range st.groups {
		if g.name == name {
			return i, g
		}
	}
	return -1, nil
}

var errNoGroup = rerr("NOGROUP No such key or consumer group")
var errNoKey = rerr("ERR no such key")

func (s *Store) runStream(name, key string, a []value) res {
	if name == "xgroup" || name == "xinfo" {
		name += " " + strings.ToLower(key)
		key = a[2].text()
	}
	it, err := s.get(key, 'x')
	if err != nil {
		return res{err: err}
	}
	switch name {
	case "xadd":
		if it == nil {
			it, _ = s.make(key, 'x')
			it.stream = &stream{}
		}
		i := 2
		if a[i].text() != "*" {
			panic("fredis: xadd options")
		}
		st := it.stream
		st.last++
		e := entry{seq: st.last}
		for _, v := range a[i+1:] {
			e.vals = append(e.vals, v.text())
		}
		st.entries = append(st.entries, e)
		return res{s: sid(st.last)}
	case "xlen":
		if it == nil {
			return res{}
		}
		return res{n: int64(len(it.stream.entries))}
	case "xdel":
		n := int64(0)
		if it != nil {
			for _, v := range a[2:] {
				for i, e := range it.stream.entries {
					if sid(e.seq) == v.text() {
						it.stream.entries = append(append([]entry(nil), it.stream.entries[:i]...), it.stream.entries[i+1:]...)
						n++
						break
					}
				}
			}
		}
		return res{n: n}
	case "xack":
		n := int64(0)
		if it != nil {
			if _, g := it.stream.group(a[2].text()); g != nil {
				for _, v := range a[3:] {
					for i, p := range g.pending {
						if sid(p.seq) == v.text() {
							g.pending = append(append([]pend(nil), g.pending[:i]...), g.pending[i+1:]...)
							n++
							break
						}
					}
				}
			}
		}
		return res{n: n}
	case "xgroup create":
		if it == nil {
			if len(a) > 5 && strings.ToLower(a[5].text()) == "mkstream" {
				it, _ = s.make(key, 'x')
				it.stream = &stream{}
			} else {
				return res{err: rerr("ERR The XGROUP subcommand requires the key to exist. Note that for CREATE you may want to use the MKSTREAM option to create an empty stream automatically.")}
			}
		}
		if _, g := it.stream.group(a[3].text()); g != nil {
			return res{err: rerr("BUSYGROUP Consumer Group name already exists")}
		}
		g := &group{name: a[3].text(), last: it.stream.last}
		if from := a[4].text(); from != "$" {
			g.last = unsid(from)
		}
		it.stream.groups = append(it.stream.groups, g)
		return res{s: "OK"}
	}
	if it == nil {
		return res{err: errNoKey}
	}
	switch name {
	case "xinfo groups":
		out := []redis.XInfoGroup{}
		for _, g := range it.stream.groups {
			out = append(out, redis.XInfoGroup{Name: g.name, Consumers: int64(len(g.consumers)), Pending: int64(len(g.pending)), LastDeliveredID: sid(g.last)})
		}
		return res{any: out}
	}
	gi, g := it.stream.group(a[3].text())
	if name == "xgroup destroy" {
		if g == nil {
			return res{n: 0}
		}
		it.stream.groups = append(append([]*group(nil), it.stream.groups[:gi]...), it.stream.groups[gi+1:]...)
		return res{n: 1}
	}
	if g == nil {
		return res{err: errNoGroup}
	}
	switch name {
	case "xgroup delconsumer":
		n := int64(0)
		var left []pend
		for _, p := range g.pending {
			if p.consumer == a[4].text() {
				n++
			} else {
				left = append(left, p)
			}
		}
		g.pending = left
		for i, c := range g.consumers {
			if c == a[4].text() {
				g.consumers = append(append([]string(nil), g.consumers[:i]...), g.consumers[i+1:]...)
				break
			}
		}
		return res{n: n}
	case "xinfo consumers":
		out := []redis.XInfoConsumer{}
		for _, c := range g.consumers {
			n := int64(0)
			for _, p := range g.pending {
				if p.consumer == c {
					n++
				}
			}
			out = append(out, redis.XInfoConsumer{Name: c, Pending: n})
		}
		return res{any: out}
	}
	panic("fredis: command " + name)
}

// readGroup is XREADGROUP GROUP g c [COUNT n] [BLOCK ms] STREAMS key >.
func (s *Store) readGroup(cmd redis.Cmder, a []value) error {
	gname, cons := a[2].text(), a[3].text()
	count, block := int64(1<<30), int64(-1)
	i := 4
	for ; strings.ToLower(a[i].text()) != "streams"; i++ {
		switch strings.ToLower(a[i].text()) {
		case "count":
			count, _ = a[i+1].int()
			i++
		case "block":
			block, _ = a[i+1].int()
			i++
		}
	}
	key := a[i+1].text()
	if len(a) != i+3 || a[i+2].text() != ">" {
		panic("fredis: xreadgroup form")
	}
	read := func() (res, bool) {
		s.mu.Lock()
		defer s.mu.Unlock()
		o := s.outcome("xreadgroup")
		if o == Refused {
			return res{err: ErrLost}, true
		}
		it, err := s.get(key, 'x')
		if err != nil {
			return res{err: err}, true
		}
		if it == nil {
			return res{err: errNoGroup}, true
		}
		_, g := it.stream.group(gname)
		if g == nil {
			return res{err: errNoGroup}, true
		}
		known := false
		for _, c := range g.consumers {
			known = known || c == cons
		}
		if !known {
			g.consumers = append(g.consumers, cons)
		}
		var ms []redis.XMessage
		for _, e := range it.stream.entries {
			if e.seq > g.last && int64(len(ms)) < count {
				g.last = e.seq
				g.pending = append(g.pending, pend{e.seq, cons})
				m := map[string]interface{}{}
				for k := 0; k+1 < len(e.vals); k += 2 {
					m[e.vals[k]] = e.vals[k+1]
				}
				ms = append(ms, redis.XMessage{ID: sid(e.seq), Values: m})
			}
		}
		if len(ms) == 0 {
			return res{err: redis.Nil}, false
		}
		if o == ReplyLost {
			return res{err: ErrLost}, true
		}
		return res{any: []redis.XStream{{Stream: key, Messages: ms}}}, true
	}
	r, ok := read()
	if !ok && block >= 0 {
		time.Sleep(time.Duration(block) * time.Millisecond)
		r, ok = read()
	}
	return reply(cmd, r)
}
