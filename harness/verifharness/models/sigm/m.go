// Package sigm stands in for the delivery of signals under the engine.
package sigm

import "os"

type sub struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var subs []sub

func Notify(c chan<- os.Signal, sigs ...os.Signal) { subs = append(subs, sub{c, sigs}) }

// Deliver delivers a signal and reports whether anybody listened for it.
func Deliver(s os.Signal) bool {
	hit := false
	for _, r := range subs {
		for _, w := range r.sigs {
			if w == s {
				hit = true
				select {
				case r.c <- s:
				default:
				}
			}
		}
	}
	return hit
}
