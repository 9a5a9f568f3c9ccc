package chain

import (
	"context"
	"errors"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// store is a cache of any number of keys that counts what is written to it.
type store struct {
	m          map[int]int
	ttl        map[int]time.Duration
	sets, dels map[int]int
	fail       error
	calls      int
}

func newStore() *store {
	return &store{m: map[int]int{}, ttl: map[int]time.Duration{}, sets: map[int]int{}, dels: map[int]int{}}
}

func (s *store) Get(_ context.Context, k int) (int, bool, error) {
	if s.fail != nil {
		return 0, false, s.fail
	}
	v, ok := s.m[k]
	return v, ok, nil
}

func (s *store) Set(_ context.Context, k, v int, ttl time.Duration) error {
	s.sets[k]++
	s.calls++
	if s.fail != nil {
		return s.fail
	}
	s.m[k], s.ttl[k] = v, ttl
	return nil
}

func (s *store) Delete(_ context.Context, ks ...int) error {
	s.calls++
	for _, k := range ks {
		s.dels[k]++
	}
	if s.fail != nil {
		return s.fail
	}
	for _, k := range ks {
		delete(s.m, k)
	}
	return nil
}

func (s *store) MGet(_ context.Context, ks ...int) ([]int, []bool, error) {
	v, ok := make([]int, len(ks)), make([]bool, len(ks))
	if s.fail != nil {
		return v, ok, s.fail
	}
	for i, k := range ks {
		v[i], ok[i] = s.m[k]
	}
	return v, ok, nil
}

func (s *store) MSet(_ context.Context, kvs map[int]int, ttl time.Duration) error {
	s.calls++
	for k, v := range kvs {
		s.sets[k]++
		if s.fail == nil {
			s.m[k], s.ttl[k] = v, ttl
		}
	}
	return s.fail
}

func stack(n int) (*cachex.Chain[int, int], []*store) {
	c := &cachex.Chain[int, int]{}
	var ss []*store
	for i := 0; i < n; i++ {
		s := newStore()
		ss = append(ss, s)
		c.Caches = append(c.Caches, &cachex.ChainItem[int, int]{Cache: s, TTL: time.Duration(i+1) * time.Minute})
	}
	return c, ss
}

// H_C43_wide: many keys spread over many tiers, read one by one or together.
func H_C43_wide() {
	vsym.Merge(false)
	shape := vsym.Case(6)
	nt := []int{5, 8, 12}[shape%3]
	nq := []int{9, 20, 40}[shape%3]
	c, ss := stack(nt)
	c.ContinueOnReadErr = true
	// keys 0..nq-1: most in a fixed tier, two anywhere
	where := make([]int, nq)
	val := make([]int, nq)
	for k := range where {
		where[k] = k * 7 % (nt + 1)
	}
	where[1] = vsym.Pick("where", 0, nt)
	where[nq-2] = vsym.Pick("where", 0, nt)
	bad := vsym.Pick("bad", 0, nt)
	if bad < nt {
		ss[bad].fail = errors.New("read")
	}
	for k := range where {
		val[k] = 100 + k
		if k == 1 || k == nq-2 {
			val[k] = int(vsym.I64("val"))
		}
		for t := where[k]; t < nt; t += 3 { // and copies further down
			ss[t].m[k] = val[k] + t - where[k]
		}
	}
	at := make([]int, nq)
	missed := false
	for k := range at {
		at[k] = -1
		for t := where[k]; t < nt; t += 3 {
			if t != bad {
				at[k] = t
				break
			}
		}
		missed = missed || at[k] < 0
	}
	if shape < 3 {
		keys := make([]int, 0, nq+4)
		for k := 0; k < nq; k++ {
			keys = append(keys, (k*3+1)%nq)
		}
		if nq%3 == 0 {
			keys = keys[:0]
			for k := nq - 1; k >= 0; k-- {
				keys = append(keys, k)
			}
		}
		keys = append(keys, 1, nq-2, 0)
		given := append([]int(nil), keys...)
		vals, oks, err := c.MGet(bg, keys...)
		vsym.Assert(same(keys, given), "the requested keys are not modified")
		// the error is that of the last tier read
		vsym.Assert((err != nil) == (bad == nt-1 && missed), "an error is reported exactly when the last tier read failed")
		vsym.Assert(len(vals) == len(keys) && len(oks) == len(keys), "one answer per requested key")
		for i, k := range keys {
			vsym.Assert(oks[i] == (at[k] >= 0), "a hit exactly when a tier that was read has the key")
			if at[k] >= 0 {
				vsym.Assert(vals[i] == val[k]+at[k]-where[k], "the value of the first tier that has the key, for every occurrence")
			} else {
				vsym.Assert(vals[i] == 0, "no value without a hit")
			}
		}
	} else {
		for k := 0; k < nq; k++ {
			v, ok, err := c.Get(bg, k)
			vsym.Assert(ok == (at[k] >= 0), "a hit exactly when a tier that was read has the key")
			vsym.Assert((err != nil) == (at[k] < 0 && bad == nt-1), "an error is reported exactly when the last tier read failed")
			if ok {
				vsym.Assert(v == val[k]+at[k]-where[k], "the value of the first tier that has the key")
			} else {
				vsym.Assert(v == 0, "no value without a hit")
			}
		}
	}
	for t, s := range ss {
		for k := range at {
			want := 0
			if at[k] > t {
				want = 1
			}
			vsym.Assert(s.sets[k] == want, "exactly the earlier tiers are given the value, once")
			if want == 1 && t != bad {
				vsym.Assert(s.m[k] == val[k]+at[k]-where[k] && s.ttl[k] == time.Duration(t+1)*time.Minute, "the value found, with the tier's own lifetime")
			}
		}
		vsym.Assert(len(s.dels) == 0, "reads delete nothing")
	}
}

// H_C44_wide: writes and deletes of many keys through many tiers.
func H_C44_wide() {
	vsym.Merge(false)
	shape := vsym.Case(9)
	nt := []int{5, 9, 17}[shape%3]
	nq := []int{1, 12, 40}[shape/3]
	c, ss := stack(nt)
	// up to two tiers fail
	b1, b2 := vsym.Pick("bad", 0, nt), vsym.Pick("bad", 0, nt)
	for _, b := range []int{b1, b2} {
		if b < nt {
			ss[b].fail = errors.New("write")
		}
	}
	for _, s := range ss {
		for k := -3; k < nq; k++ {
			s.m[k] = -k
		}
	}
	kvs := map[int]int{}
	var keys []int
	for k := 0; k < nq; k++ {
		kvs[k] = k * k
		keys = append(keys, k)
	}
	v := int(vsym.I64("v"))
	kvs[nq/2] = v
	check := func(err error, gone bool, calls int) {
		vsym.Assert((err == nil) == (b1 == nt && b2 == nt), "an error is reported exactly when a tier failed")
		for _, s := range ss {
			if s.fail != nil {
				vsym.Assert(errors.Is(err, s.fail), "every tier's failure is reported")
			}
		}
		for t, s := range ss {
			vsym.Assert(s.calls == calls, "every tier is called, whatever the others did")
			if s.fail != nil {
				continue
			}
			want := nq
			if gone {
				want = 0
			}
			vsym.Assert(len(s.m) == 3+want, "set keys are there, deleted keys are not, others are left alone")
			for k := -3; k < 0; k++ {
				vsym.Assert(s.m[k] == -k, "other keys are left alone")
			}
			for k := 0; k < want; k++ {
				vsym.Assert(s.m[k] == kvs[k] && s.ttl[k] == time.Duration(t+1)*time.Minute, "every tier has the new value with its own lifetime")
			}
		}
	}
	if nq == 1 {
		check(c.Set(bg, 0, v, 5), false, 1)
	} else {
		check(c.MSet(bg, kvs, 5), false, 1)
	}
	check(c.Delete(bg, keys...), true, 2)
}

// H_C45_wide: large batch results.
func H_C45_wide() {
	vsym.Merge(false)
	n := []int{8, 17, 33, 64, 100}[vsym.Case(vsym.Bound(4, 5))]
	keys, vals, hits := make([]int, n), make([]int, n), make([]bool, n)
	pat := vsym.Pick("pat", 0, 3)
	for i := range keys {
		keys[i], vals[i] = 1000-i, 7*i
		hits[i] = []bool{false, true, i%2 == 0, i*i%7 < 3}[pat]
	}
	for _, i := range []int{0, n / 2, n - 1} {
		hits[i] = vsym.Bool("hit")
		vals[i] = int(vsym.I64("val"))
	}
	f := fixed{vals: vals, hits: hits}
	r, err := cachex.MGet[int, int](bg, &f, keys...)
	vsym.Assert(err == nil, "no error of its own")
	var hk, hv, mk []int
	for j := 0; j < n; j++ {
		if hits[j] {
			hk, hv = append(hk, keys[j]), append(hv, vals[j])
		} else {
			mk = append(mk, keys[j])
		}
	}
	i := 0
	r.Range(func(k int, hit bool, v int) bool {
		vsym.Assert(i < n && k == keys[i] && hit == hits[i] && v == vals[i], "every request once, in order, with its answer")
		i++
		return true
	})
	vsym.Assert(i == n, "every request is visited")
	i = 0
	r.RangeHit(func(k, v int) bool {
		vsym.Assert(i < len(hk) && k == hk[i] && v == hv[i], "every hit once, in order")
		i++
		return true
	})
	vsym.Assert(i == len(hk), "every hit is visited")
	i = 0
	r.RangeMiss(func(k int) bool {
		vsym.Assert(i < len(mk) && k == mk[i], "every miss once, in order")
		i++
		return true
	})
	vsym.Assert(i == len(mk), "every miss is visited")
	a, b := r.HitMissKeys()
	vsym.Assert(same(r.HitKeys(), hk) && same(a, hk), "the hit keys, in order")
	vsym.Assert(same(r.MissKeys(), mk) && same(b, mk), "the missed keys, in order")
	m := r.HitMapValues()
	vsym.Assert(len(m) == len(hk), "the hit map holds exactly the hit keys")
	for j, k := range hk {
		v, ok := m[k]
		vsym.Assert(ok && v == hv[j], "the hit map holds the values")
	}
}
