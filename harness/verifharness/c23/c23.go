// Package c23 checks lib/unbounded.
package c23

import (
	"github.com/pojol/braid/lib/unbounded"
	"github.com/pojol/braid/verifsym"
)

type item struct{ prod, seq, val int }

// run: producers put, one reader reads and reloads after each read.
func run(sizes ...int) {
	b := unbounded.NewUnbounded()
	total := 0
	want := make([][]int, len(sizes))
	done := 0
	for p, n := range sizes {
		p, n := p, n
		for j := 0; j < n; j++ {
			want[p] = append(want[p], verifsym.Int("v"))
		}
		total += n
	}
	for p := range sizes {
		p := p
		go func() {
			for j, v := range want[p] {
				b.Put(item{p, j, v})
			}
			verifsym.Atomic(func() { done++ })
		}()
	}
	var got []item
	for len(got) < total {
		x, ok := <-b.Get()
		b.Load()
		it, isItem := x.(item)
		verifsym.Assert(ok && isItem, "values come out as they went in")
		if !isItem {
			return
		}
		got = append(got, it)
	}
	verifsym.Quiesce()
	verifsym.Atomic(func() { verifsym.Assert(done == len(sizes), "putting never blocks") })
	select {
	case <-b.Get():
		verifsym.Fail("nothing comes out twice")
	default:
	}
	next := make([]int, len(sizes))
	x, bal := verifsym.Int("x"), 0
	for _, it := range got {
		verifsym.Assert(it.seq == next[it.prod], "order of one producer")
		next[it.prod]++
		bal += verifsym.B2I(it.val == x)
	}
	for _, w := range want {
		for _, v := range w {
			bal -= verifsym.B2I(v == x)
		}
	}
	verifsym.Assert(bal == 0, "every value as often out as in")
	verifsym.Reach("all read")
}

// VerifC23_One: one producer.
//
//verif: preempt=3/4
func VerifC23_One() { run(verifsym.Size(4, 6)) }

// VerifC23_Two: two producers.
//
//verif: preempt=3/4
func VerifC23_Two() { run(verifsym.Size(2, 3), verifsym.Size(2, 3)) }

// VerifC23_Three: three producers.
//
//verif: preempt=2/3
func VerifC23_Three() { run(1, verifsym.Size(1, 2), verifsym.Size(1, 2)) }

// VerifC23_NoReader: puts complete without any reader; reading afterwards gives everything in order.
//
//verif: preempt=2
func VerifC23_NoReader() {
	b := unbounded.NewUnbounded()
	n := verifsym.Choice("n", verifsym.Size(6, 12)) + 1
	var want []int
	for i := 0; i < n; i++ {
		v := verifsym.Int("v")
		want = append(want, v)
		b.Put(v)
	}
	verifsym.Reach("put without reader")
	for i := 0; i < n; i++ {
		select {
		case x := <-b.Get():
			b.Load()
			v, ok := x.(int)
			verifsym.Assert(ok && v == want[i], "first in first out")
		default:
			verifsym.Fail("value available")
			return
		}
	}
	select {
	case <-b.Get():
		verifsym.Fail("nothing comes out twice")
	default:
	}
	// usable again after having been drained
	b.Put(want[0])
	x := <-b.Get()
	v, ok := x.(int)
	verifsym.Assert(ok && v == want[0], "usable after draining")
}

// VerifC23_Interleaved: any sequence of puts and read+reload steps behaves as a queue.
func VerifC23_Interleaved() {
	b := unbounded.NewUnbounded()
	var model []int
	for s := 0; s < verifsym.Size(7, 10); s++ {
		if verifsym.Choice("op", 2) == 0 {
			v := verifsym.Int("v")
			b.Put(v)
			model = append(model, v)
			continue
		}
		select {
		case x := <-b.Get():
			b.Load()
			v, ok := x.(int)
			verifsym.Assert(ok && len(model) > 0, "reads only what was put")
			if len(model) > 0 {
				verifsym.Assert(v == model[0], "head of the queue")
				model = model[1:]
			}
		default:
			verifsym.Assert(len(model) == 0, "blocks only when empty")
		}
	}
}
