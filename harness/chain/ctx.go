package chain

import (
	"context"
	"errors"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// over is a context that has ended; what that means is up to the tiers.
type over struct {
	context.Context
	err error
}

var closed = func() chan struct{} {
	c := make(chan struct{})
	close(c)
	return c
}()

func (o over) Done() <-chan struct{} { return closed }
func (o over) Err() error            { return o.err }
func (o over) Value(k any) any {
	if k == "who" {
		return "me"
	}
	return nil
}

func (o over) Deadline() (time.Time, bool) {
	return time.Time{}, o.err == context.DeadlineExceeded
}

// under passes calls on to a tier, and sees with which context.
type under struct {
	*tier
	got []context.Context
}

func (u *under) Get(c context.Context, key int) (int, bool, error) {
	u.got = append(u.got, c)
	return u.tier.Get(c, key)
}

func (u *under) Set(c context.Context, key, value int, ttl time.Duration) error {
	u.got = append(u.got, c)
	return u.tier.Set(c, key, value, ttl)
}

func (u *under) Delete(c context.Context, keys ...int) error {
	u.got = append(u.got, c)
	return u.tier.Delete(c, keys...)
}

func (u *under) MGet(c context.Context, keys ...int) ([]int, []bool, error) {
	u.got = append(u.got, c)
	return u.tier.MGet(c, keys...)
}

func (u *under) MSet(c context.Context, kvs map[int]int, ttl time.Duration) error {
	u.got = append(u.got, c)
	return u.tier.MSet(c, kvs, ttl)
}

func ended() context.Context {
	return over{context.Background(), []error{context.Canceled, context.DeadlineExceeded}[vsym.Pick("why", 0, 1)]}
}

func withCtx(ts []*tier) (*cachex.Chain[int, int], []*under) {
	c := &cachex.Chain[int, int]{ContinueOnReadErr: vsym.Bool("cont")}
	var us []*under
	for _, t := range ts {
		u := &under{tier: t}
		us = append(us, u)
		c.Caches = append(c.Caches, &cachex.ChainItem[int, int]{Cache: u, TTL: time.Minute})
	}
	return c, us
}

func checkCtx(us []*under) {
	for _, u := range us {
		for _, c := range u.got {
			vsym.Assert(c.Value("who") == "me", "the tiers see the caller's context")
		}
	}
}

// H_C43_ctx: reads under a context that has ended.
func H_C43_ctx() {
	ts := []*tier{newTier(1, false), newTier(1, false), newTier(1, false)}
	c, us := withCtx(ts)
	old := copyTiers(ts)
	at, _ := lookup(old, 0, false)
	var v int
	var ok bool
	var err error
	if vsym.Case(2) == 0 {
		v, ok, err = c.Get(ended(), 0)
	} else {
		var vs []int
		var oks []bool
		vs, oks, err = c.MGet(ended(), 0)
		vsym.Assert(len(vs) == 1 && len(oks) == 1, "one answer per key")
		v, ok = vs[0], oks[0]
	}
	vsym.Assert(err == nil && ok == (at >= 0), "a hit exactly when a tier has the key")
	if at >= 0 {
		vsym.Assert(v == old[at].val[0], "the value of the first tier that has the key")
	}
	for i, t := range ts {
		vsym.Assert(len(t.log) == b2i(i < at), "every earlier tier is given the value, no other is written")
	}
	checkCtx(us)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// H_C44_ctx: writes under a context that has ended.
func H_C44_ctx() {
	ts := []*tier{newTier(1, false), newTier(1, false), newTier(1, false)}
	bad := vsym.Pick("bad", 0, 3)
	if bad < 3 {
		ts[bad].failW = errors.New("write")
		ts[bad].failD = ts[bad].failW
	}
	c, us := withCtx(ts)
	var err error
	v := int(vsym.I64("v"))
	op := vsym.Case(3)
	switch op {
	case 0:
		err = c.Set(ended(), 0, v, time.Hour)
	case 1:
		err = c.MSet(ended(), map[int]int{0: v}, time.Hour)
	default:
		err = c.Delete(ended(), 0)
	}
	vsym.Assert((err == nil) == (bad == 3), "an error is reported exactly when a tier failed")
	for i, t := range ts {
		vsym.Assert(len(t.log) == 1, "every tier is called once, whatever the others did")
		if i != bad {
			vsym.Assert(t.has[0] == (op < 2) && (op == 2 || t.val[0] == v), "set keys are there, deleted keys are not")
		}
	}
	checkCtx(us)
}
