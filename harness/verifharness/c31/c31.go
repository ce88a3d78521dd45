// Package c31 checks the entity version strategies of core/entity.go.
package c31

import (
	"errors"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/verifsym"
)

func register(n int) []int {
	var vs []int
	for i := 0; i < n; i++ {
		v := verifsym.Int("ver")
		i := i
		core.RegisterVersionStrategy(core.VerStrategy{Version: v, Reason: "r", Func: func(e interface{}) error {
			*(e.(*int)) = i + 1
			return nil
		}})
		vs = append(vs, v)
	}
	return vs
}

// VerifC31_Lookup: the strategy of exactly that version, or the not-found error.
func VerifC31_Lookup() {
	vs := register(verifsym.Choice("n", verifsym.Size(4, 5)))
	for i := range vs {
		for j := 0; j < i; j++ {
			verifsym.Assume(vs[i] != vs[j])
		}
	}
	q := verifsym.Int("q")
	s, err := core.GetVerStrategy(q)
	idx := -1
	for i, v := range vs {
		if v == q {
			idx = i
		}
	}
	if idx < 0 {
		verifsym.Assert(errors.Is(err, core.ErrNotfoundVersion), "not-found error")
		verifsym.Assert(s.Func == nil, "no strategy with the error")
		verifsym.Reach("unknown")
		return
	}
	verifsym.Assert(err == nil && s.Version == q, "strategy of exactly that version")
	got := 0
	if s.Func != nil {
		s.Func(&got)
	}
	verifsym.Assert(got == idx+1, "its own function")
	verifsym.Reach("known")
}

// VerifC31_Next: the smallest registered version above the given one, whatever the order.
func VerifC31_Next() {
	vs := register(verifsym.Choice("n", verifsym.Size(4, 5)))
	q := verifsym.Int("q")
	nx := core.GetNextVersion(q)
	in := false
	for _, v := range vs {
		in = verifsym.Or(in, nx == v)
		verifsym.Assert(verifsym.Implies(v > q, verifsym.And(nx > q, nx <= v)), "smallest greater version")
	}
	verifsym.Assert(verifsym.Implies(nx != q, verifsym.And(in, nx > q)), "a registered greater version or its own")
	verifsym.Reach("next")
}

// VerifC31_Upgrade: repeated upgrading visits every registered greater version once, ascending, and ends.
func VerifC31_Upgrade() {
	vs := register(verifsym.Choice("n", verifsym.Size(4, 4)))
	for i := range vs {
		for j := 0; j < i; j++ {
			verifsym.Assume(vs[i] != vs[j])
		}
	}
	v := verifsym.Int("q")
	want := 0
	for _, x := range vs {
		want += verifsym.B2I(x > v)
	}
	steps := 0
	for {
		nx := core.GetNextVersion(v)
		if nx == v {
			break
		}
		steps++
		if steps > len(vs) {
			verifsym.Fail("upgrading ends")
			return
		}
		v = nx
	}
	verifsym.Assert(steps == want, "every registered version passed through")
}

// VerifC31_Concurrent: registrations from several goroutines lose nothing.
//
//verif: preempt=3/4
func VerifC31_Concurrent() {
	done := make(chan struct{}, 2)
	a, b := verifsym.Int("a"), verifsym.Int("b")
	verifsym.Assume(a != b)
	for _, v := range []int{a, b} {
		v := v
		go func() {
			core.RegisterVersionStrategy(core.VerStrategy{Version: v})
			done <- struct{}{}
		}()
	}
	core.GetNextVersion(a)
	<-done
	<-done
	_, e1 := core.GetVerStrategy(a)
	_, e2 := core.GetVerStrategy(b)
	verifsym.Assert(e1 == nil && e2 == nil, "both registered")
}
