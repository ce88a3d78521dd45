package c20

import (
	"context"
	"time"

	"github.com/pojol/braid/lib/dismutex"
	"github.com/pojol/braid/verifharness/fredis"
	"github.com/pojol/braid/verifsym"
)

// One owner: lock, wrong token, release, lock again.
func VerifC20_Basic() {
	fredis.Install()
	ctx := context.Background()
	t, err := dismutex.Lock(ctx, "l")
	verifsym.Assert(err == nil && t != "", "free lock acquired")
	wrong := verifsym.StringN("wrong", 24)
	verifsym.Assume(wrong != t)
	verifsym.Assert(!dismutex.Unlock(ctx, "l", wrong), "foreign token refused")
	verifsym.Assert(!dismutex.Unlock(ctx, "l", ""), "empty token refused")
	verifsym.Assert(!dismutex.Unlock(ctx, "m", t), "another lock's token refused")
	_, err = dismutex.Lock(ctx, "l")
	verifsym.Assert(err != nil, "a held lock is refused")
	verifsym.Assert(dismutex.Unlock(ctx, "l", t), "released by its owner")
	verifsym.Assert(!dismutex.Unlock(ctx, "l", t), "released once")
	u, err := dismutex.Lock(ctx, "l")
	verifsym.Assert(err == nil && u != "" && u != t, "free again")
	verifsym.Assert(!dismutex.Unlock(ctx, "l", t), "an old token does not release the new holder")
	_, err = dismutex.Lock(ctx, "")
	verifsym.Assert(err != nil, "empty name refused")
	verifsym.Reach("end")
}

type holder struct {
	on    bool
	since int64
	token string
}

// Contenders on one name: nobody acquires while another holds it unexpired, and a release by somebody whose
// lock expired does not touch the next holder's lock.
//
//verif: preempt=2/3 states=60000
func VerifC20_Contend() {
	st := fredis.Install()
	n := verifsym.Size(2, 3)
	hs := make([]holder, n)
	exp := int64(dismutex.Expiry)
	free := func(me int) {
		for j := range hs {
			if j != me && hs[j].on {
				verifsym.Assert(verifsym.Now() >= hs[j].since+exp, "two holders at once")
			}
		}
	}
	got := 0
	for i := 0; i < n; i++ {
		i := i
		hold := []time.Duration{0, time.Second, dismutex.Expiry - 1, dismutex.Expiry + time.Second}[verifsym.Choice("hold", 4)]
		go func() {
			start := verifsym.Now()
			t, err := dismutex.Lock(context.Background(), "l")
			verifsym.Assert(verifsym.Now()-start <= int64(dismutex.Tries*dismutex.Delay*time.Millisecond), "gives up after a bounded number of attempts")
			if err != nil {
				verifsym.Assert(t == "", "no token without the lock")
				return
			}
			free(i)
			got++
			hs[i] = holder{true, verifsym.Now(), t}
			time.Sleep(hold)
			expired := verifsym.Now() >= hs[i].since+exp
			hs[i].on = false
			ok := dismutex.Unlock(context.Background(), "l", t)
			verifsym.Assert(ok == !expired, "the holder's release succeeds, an expired one's does not")
			for j := range hs {
				if o := hs[j]; o.on && verifsym.Now() < o.since+exp {
					verifsym.Assert(!dismutex.Unlock(context.Background(), "l", t), "the token of a former holder")
					// the holder may have left meanwhile: it clears its record before it unlocks
					has := st.Has("l")
					verifsym.Assert(has || hs[j] != o, "another holder's lock survives")
				}
			}
		}()
	}
	verifsym.Quiesce()
	verifsym.Advance(20 * time.Second)
	verifsym.Assert(got >= 1, "somebody acquires a free lock")
	t, err := dismutex.Lock(context.Background(), "l")
	verifsym.Assert(err == nil && t != "", "free after everybody left")
	verifsym.Reach("end")
}

// A slow store: locks may expire between any two commands.
//
//verif: preempt=1/2 states=60000
func VerifC20_Slow() {
	st := fredis.Install()
	exp := int64(dismutex.Expiry)
	slow := verifsym.Size(1, 2)
	st.Before = func(string) {
		if slow > 0 && verifsym.Choice("slow", 2) == 1 {
			slow--
			time.Sleep(time.Second)
		}
	}
	var hs [2]holder
	done := make(chan bool, 2)
	for i := range hs {
		hold := []time.Duration{time.Second, dismutex.Expiry - time.Millisecond}[verifsym.Choice("hold", 2)]
		go func() {
			if i == 1 {
				time.Sleep(8500 * time.Millisecond)
			}
			t, err := dismutex.Lock(context.Background(), "l")
			if err == nil {
				o := hs[1-i]
				verifsym.Assert(!o.on || verifsym.Now() >= o.since+exp, "two holders at once")
				hs[i] = holder{true, verifsym.Now(), t}
				time.Sleep(hold)
				if verifsym.Now() < hs[i].since+exp {
					verifsym.Assert(st.Has("l"), "nobody else releases it")
				}
				hs[i].on = false
				dismutex.Unlock(context.Background(), "l", t)
			}
			done <- true
		}()
	}
	<-done
	<-done
	verifsym.Reach("end")
}

// Independent names do not exclude each other.
func VerifC20_Names() {
	fredis.Install()
	a := verifsym.StringN("a", 3)
	b := verifsym.StringN("b", 3)
	verifsym.Assume(a != b)
	ctx := context.Background()
	ta, err := dismutex.Lock(ctx, a)
	verifsym.Assert(err == nil, "first name")
	start := verifsym.Now()
	tb, err := dismutex.Lock(ctx, b)
	verifsym.Assert(err == nil, "another name is independent")
	if verifsym.Symbolic() {
		verifsym.Assert(verifsym.Now() == start, "and acquired at once")
	}
	verifsym.Assert(!dismutex.Unlock(ctx, a, tb) && !dismutex.Unlock(ctx, b, ta), "tokens do not cross")
	verifsym.Assert(dismutex.Unlock(ctx, a, ta) && dismutex.Unlock(ctx, b, tb), "both released")
	verifsym.Reach("end")
}

// Store failures at any round trip: never two holders, never a token without the lock.
//
//verif: randfail=1
func VerifC20_Faults() {
	st := fredis.Install()
	faults := verifsym.Size(2, 3)
	st.Fault = func(string) fredis.Outcome {
		if faults == 0 {
			return fredis.OK
		}
		o := fredis.Outcome(verifsym.Choice("outcome", 3))
		if o != fredis.OK {
			faults--
		}
		return o
	}
	ctx := context.Background()
	start := verifsym.Now()
	t, err := dismutex.Lock(ctx, "l")
	verifsym.Assert((err == nil) == (t != ""), "a token exactly if acquired")
	verifsym.Assert(verifsym.Now()-start <= int64(dismutex.Tries*dismutex.Delay*time.Millisecond), "bounded")
	at := verifsym.Now()
	u, err2 := dismutex.Lock(ctx, "l")
	if err == nil {
		verifsym.Assert(err2 != nil && u == "", "held")
		verifsym.Assert(st.Has("l"), "the lock is recorded in the store")
		// releasing
		if dismutex.Unlock(ctx, "l", t) {
			verifsym.Assert(!st.Has("l"), "released")
		}
	}
	faults = 0
	if d := at + int64(dismutex.Expiry) - verifsym.Now() + int64(dismutex.Tries*dismutex.Delay*time.Millisecond); d > 0 {
		verifsym.Advance(time.Duration(d))
	}
	if err2 == nil {
		dismutex.Unlock(ctx, "l", u)
	}
	for i := 0; i < 3; i++ {
		v, err := dismutex.Lock(ctx, "l")
		if err == nil {
			verifsym.Assert(v != t || t == "", "fresh token")
			verifsym.Reach("again")
			return
		}
	}
	verifsym.Reach("entropy")
}

// The context ends before or while somebody waits for a held lock: an error, and the holder keeps it.
//
//verif: preempt=1/2
func VerifC20_Context() {
	st := fredis.Install()
	t, err := dismutex.Lock(context.Background(), "l")
	verifsym.Assert(err == nil && t != "", "acquired")
	ctx, cancel := context.WithCancel(context.Background())
	switch verifsym.Choice("when", 3) {
	case 0:
		cancel()
	case 1:
		go cancel()
	case 2:
		ctx, cancel = context.WithTimeout(context.Background(), time.Second)
	}
	u, err := dismutex.Lock(ctx, "l")
	verifsym.Assert(err != nil && u == "", "a held lock is refused")
	verifsym.Assert(st.Has("l"), "the holder keeps it")
	verifsym.Assert(!dismutex.Unlock(ctx, "l", u), "nothing to release")
	verifsym.Assert(dismutex.Unlock(context.Background(), "l", t), "the holder releases it")
	cancel()
	verifsym.Reach("end")
}
