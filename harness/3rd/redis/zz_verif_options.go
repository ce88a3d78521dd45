package redis

import "github.com/redis/go-redis/v9"

// VerifOptions applies options to a configuration.
func VerifOptions(base redis.Options, opts ...Option) redis.Options {
	p := &Parm{redisopt: base}
	for _, o := range opts {
		o(p)
	}
	return p.redisopt
}
