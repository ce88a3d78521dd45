package fredis

import (
	"strconv"
	"strings"

	"github.com/redis/go-redis/v9"
)

// lua interprets the small subset of Lua that redis scripts of this kind use: local, if/elseif/else, return,
// comparisons, and/or/not, redis.call, KEYS and ARGV, numbers, strings, nil, true and false.
func (s *Store) lua(src string, keys, argv []value) (v interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(rerr); ok {
				v, err = nil, e
				return
			}
			panic(r)
		}
	}()
	l := &luaState{s: s, toks: luaLex(src), keys: keys, argv: argv, vars: map[string]interface{}{}}
	v, _ = l.block(true)
	if b, ok := v.(bool); ok {
		if b {
			return int64(1), nil
		}
		return nil, nil
	}
	return v, nil
}

type luaState struct {
	s          *Store
	toks       []string
	p          int
	keys, argv []value
	vars       map[string]interface{}
}

func luaLex(src string) []string {
	var out []string
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == ';':
			i++
		case strings.HasPrefix(src[i:], "--"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(src) && src[j] != c {
				j++
			}
			out = append(out, "\""+src[i+1:j])
			i = j + 1
		case c == '=' || c == '~' || c == '<' || c == '>':
			if i+1 < len(src) && src[i+1] == '=' {
				out = append(out, src[i:i+2])
				i += 2
			} else {
				out = append(out, src[i:i+1])
				i++
			}
		case isWord(c):
			j := i
			for j < len(src) && isWord(src[j]) {
				j++
			}
			out = append(out, src[i:j])
			i = j
		default:
			out = append(out, src[i:i+1])
			i++
		}
	}
	return out
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (l *luaState) peek() string {
	if l.p < len(l.toks) {
		return l.toks[l.p]
	}
	return ""
}

func (l *luaState) next() string { t := l.peek(); l.p++; return t }

func (l *luaState) want(t string) {
	if l.next() != t {
		panic(rerr("ERR Error compiling script"))
	}
}

// block runs statements until end, else, elseif or the end of the script.
func (l *luaState) block(run bool) (interface{}, bool) {
	for {
		switch t := l.peek(); t {
		case "", "end", "else", "elseif":
			return nil, false
		case "return":
			l.p++
			var v interface{}
			if e := l.peek(); e != "end" && e != "else" && e != "elseif" && e != "" {
				v = l.expr(run)
			}
			if run {
				return v, true
			}
		case "local":
			l.p++
			n := l.next()
			l.want("=")
			v := l.expr(run)
			if run {
				l.vars[n] = v
			}
		case "if":
			l.p++
			done := !run
			c := l.expr(run)
			l.want("then")
			taken := !done && luaTrue(c)
			if v, ret := l.block(taken); ret {
				return v, true
			}
			done = done || taken
			for l.peek() == "elseif" {
				l.p++
				c := l.expr(!done)
				l.want("then")
				taken := !done && luaTrue(c)
				if v, ret := l.block(taken); ret {
					return v, true
				}
				done = done || taken
			}
			if l.peek() == "else" {
				l.p++
				if v, ret := l.block(!done); ret {
					return v, true
				}
			}
			l.want("end")
		default:
			if l.p+1 < len(l.toks) && l.toks[l.p+1] == "=" {
				n := l.next()
				l.p++
				v := l.expr(run)
				if run {
					l.vars[n] = v
				}
			} else {
				l.expr(run)
			}
		}
	}
}

func luaTrue(v interface{}) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return v != nil
}

func (l *luaState) expr(run bool) interface{} {
	v := l.and(run)
	for l.peek() == "or" {
		l.p++
		need := run && !luaTrue(v)
		w := l.and(need)
		if need {
			v = w
		}
	}
	return v
}

func (l *luaState) and(run bool) interface{} {
	v := l.cmp(run)
	for l.peek() == "and" {
		l.p++
		need := run && luaTrue(v)
		w := l.cmp(need)
		if need {
			v = w
		}
	}
	return v
}

func luaEq(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	return false
}

func (l *luaState) cmp(run bool) interface{} {
	v := l.term(run)
	switch t := l.peek(); t {
	case "==", "~=":
		l.p++
		w := l.term(run)
		return luaEq(v, w) == (t == "==")
	case ">", "<", ">=", "<=":
		l.p++
		w := l.term(run)
		if !run {
			return nil
		}
		x, ok1 := v.(int64)
		y, ok2 := w.(int64)
		if !ok1 || !ok2 {
			panic(rerr("ERR attempt to compare"))
		}
		switch t {
		case ">":
			return x > y
		case "<":
			return x < y
		case ">=":
			return x >= y
		}
		return x <= y
	}
	return v
}

func (l *luaState) term(run bool) interface{} {
	t := l.next()
	switch t {
	case "nil":
		return nil
	case "true":
		return true
	case "false":
		return false
	case "not":
		v := l.term(run)
		return !luaTrue(v)
	case "(":
		v := l.expr(run)
		l.want(")")
		return v
	case "tonumber":
		l.want("(")
		v := l.expr(run)
		l.want(")")
		if s, ok := v.(string); ok {
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				return nil
			}
			return n
		}
		return v
	case "KEYS", "ARGV":
		l.want("[")
		i, _ := strconv.Atoi(l.next())
		l.want("]")
		src := l.keys
		if t == "ARGV" {
			src = l.argv
		}
		if i < 1 || i > len(src) {
			return nil
		}
		return src[i-1].text()
	case "redis":
		l.want(".")
		l.next()
		l.want("(")
		var args []value
		for l.peek() != ")" {
			v := l.expr(run)
			if l.peek() == "," {
				l.p++
			}
			switch x := v.(type) {
			case string:
				args = append(args, value{s: x})
			case int64:
				args = append(args, value{num: true, n: x})
			default:
				if run {
					panic(rerr("ERR Lua redis lib command arguments must be strings or integers"))
				}
			}
		}
		l.want(")")
		if !run {
			return nil
		}
		r := l.s.run(strings.ToLower(args[0].text()), args)
		if r.err == redis.Nil {
			return false
		}
		if r.err != nil {
			panic(rerr(r.err.Error()))
		}
		if n, ok := r.any.(int64); ok {
			return n
		}
		if x, ok := r.any.(string); ok {
			return x
		}
		panic(rerr("ERR unsupported reply"))
	}
	if t != "" && t[0] == '"' {
		return t[1:]
	}
	if t != "" && t[0] >= '0' && t[0] <= '9' {
		n, _ := strconv.ParseInt(t, 10, 64)
		return n
	}
	if v, ok := l.vars[t]; ok {
		return v
	}
	if t == "-" {
		if n, ok := l.term(run).(int64); ok {
			return -n
		}
	}
	panic(rerr("ERR Error compiling script"))
}
