// Package c01 checks lib/mpsc.
package c01

import (
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/verifsym"
)

type item struct {
	prod, seq, val int
}

// check judges the popped items: per-producer order, no loss, no duplicate, values intact.
func check(got []item, want [][]int) {
	next := make([]int, len(want))
	n := 0
	for _, it := range got {
		verifsym.Assert(it.prod >= 0 && it.prod < len(want), "known producer")
		verifsym.Assert(it.seq == next[it.prod], "producer order, no loss, no duplicate")
		verifsym.Assert(it.val == want[it.prod][it.seq], "value intact")
		next[it.prod]++
		n++
	}
	total := 0
	for i := range want {
		total += len(want[i])
	}
	verifsym.Assert(n == total, "all items obtained")
	// the same as multisets: every value x comes out exactly as often as it went in
	x, bal := verifsym.Int("x"), 0
	for _, it := range got {
		bal += verifsym.B2I(it.val == x)
	}
	for _, w := range want {
		for _, v := range w {
			bal -= verifsym.B2I(v == x)
		}
	}
	verifsym.Assert(bal == 0, "every value as often popped as pushed")
}

func values(sizes ...int) [][]int {
	var w [][]int
	for _, n := range sizes {
		var l []int
		for j := 0; j < n; j++ {
			l = append(l, verifsym.Int("v"))
		}
		w = append(w, l)
	}
	return w
}

func run(sizes ...int) {
	q := mpsc.New()
	want := values(sizes...)
	total := 0
	for p := range want {
		p := p
		total += len(want[p])
		go func() {
			for s, v := range want[p] {
				q.Push(item{p, s, v})
			}
		}()
	}
	var got []item
	for len(got) < total {
		<-q.C
		if x := q.Pop(); x != nil {
			got = append(got, x.(item))
		}
	}
	check(got, want)
	verifsym.Quiesce()
	verifsym.Assert(q.Empty(), "empty after all popped")
	verifsym.Assert(q.Pop() == nil, "pop on empty returns nil")
	verifsym.Assert(q.Count() == 0, "count zero after all popped")
	verifsym.Reach("drained")
}

// Two producers (2 and 1 items), one consumer popping once per readiness signal.
//verif: preempt=4/9
func VerifC01_TwoProducers() { run(2, 1+verifsym.Size(0, 1)) }

// Three producers with one item each.
//verif: preempt=3/7
func VerifC01_ThreeProducers() { run(1, 1, 1) }

// One producer, three items.
//verif: preempt=6/12
func VerifC01_OneProducer() { run(verifsym.Size(3, 5)) }

// Four producers.
//
//verif: preempt=2/4
func VerifC01_FourProducers() { run(1, 1, 1, 1) }

// Emptiness is exact: in any quiescent state Empty holds iff pushes == pops.
//verif: preempt=2
func VerifC01_EmptyExact() {
	q := mpsc.New()
	n := verifsym.Choice("n", 4)
	pushed, popped := 0, 0
	var isNil []bool // an item may be nil too
	for i := 0; i < n+3; i++ {
		if verifsym.Bool("push") {
			isNil = append(isNil, verifsym.Bool("nil"))
			if isNil[pushed] {
				q.Push(nil)
			} else {
				q.Push(item{0, pushed, 7})
			}
			pushed++
		} else if popped < pushed && isNil[popped] {
			verifsym.Assert(q.Pop() == nil, "nil item")
			popped++
		} else if x := q.Pop(); x != nil {
			verifsym.Assert(x.(item).seq == popped, "fifo")
			popped++
		} else {
			verifsym.Assert(pushed == popped, "nil only when empty")
		}
		verifsym.Assert(q.Empty() == (pushed == popped), "empty exact")
		verifsym.Assert(int(q.Count()) == pushed-popped, "count exact at rest")
		verifsym.Assert(pushed == popped || len(q.C) == 1, "signal pending while items remain")
	}
	verifsym.Reach("end")
}

// Emptiness while producers push: a queue that holds items nobody is still pushing is not empty, and one that
// says it holds something does.
//
//verif: preempt=3/5
func VerifC01_EmptyConcurrent() {
	q := mpsc.New()
	var begun, done [2]int // by producer
	popped := 0
	n := verifsym.Size(2, 3)
	for p := 0; p < 2; p++ {
		go func() {
			for s := p; s < n; s += 2 {
				begun[p]++
				q.Push(item{p, s, 7})
				done[p]++
			}
		}()
	}
	for i := 0; i < n+2; i++ {
		fin := done[0] + done[1]
		beg := begun[0] + begun[1]
		e := q.Empty()
		if e && beg == fin {
			verifsym.Assert(popped == fin, "not empty while pushed items wait")
		}
		if !e {
			verifsym.Assert(popped < begun[0]+begun[1], "not empty only if something was pushed")
			verifsym.Assert(q.Pop() != nil, "and it can be popped")
			popped++
		} else {
			verifsym.Yield()
		}
	}
	verifsym.Quiesce()
	for popped < n {
		verifsym.Assert(!q.Empty() && q.Pop() != nil, "the rest is there")
		popped++
	}
	verifsym.Assert(q.Empty(), "empty at the end")
	verifsym.Reach("end")
}
