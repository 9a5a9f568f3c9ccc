package chain

import (
	"context"
	"errors"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/verifh/vsym"
)

type rec struct {
	op  string
	key int
	val int
	ttl time.Duration
}

// tier is a cache that records what it is asked to do and may fail.
type tier struct {
	has      [nk]bool
	val      [nk]int
	failR    error
	failW    error
	failD    error
	log      []rec
	nilOnErr bool
}

const nk = 3

var bg = context.Background()

func (t *tier) Get(_ context.Context, key int) (int, bool, error) {
	if t.failR != nil {
		return 0, false, t.failR
	}
	if t.has[key] {
		return t.val[key], true, nil
	}
	return 0, false, nil
}

func (t *tier) Set(_ context.Context, key, value int, ttl time.Duration) error {
	t.log = append(t.log, rec{"set", key, value, ttl})
	if t.failW != nil {
		return t.failW
	}
	t.has[key], t.val[key] = true, value
	return nil
}

func (t *tier) Delete(_ context.Context, keys ...int) error {
	for _, k := range keys {
		t.log = append(t.log, rec{"del", k, 0, 0})
	}
	if t.failD != nil {
		return t.failD
	}
	for _, k := range keys {
		t.has[k] = false
	}
	return nil
}

func (t *tier) MGet(_ context.Context, keys ...int) ([]int, []bool, error) {
	if t.failR != nil {
		if t.nilOnErr {
			return nil, nil, t.failR
		}
		return make([]int, len(keys)), make([]bool, len(keys)), t.failR
	}
	v, ok := make([]int, len(keys)), make([]bool, len(keys))
	for i, k := range keys {
		if t.has[k] {
			v[i], ok[i] = t.val[k], true
		}
	}
	return v, ok, nil
}

func (t *tier) MSet(_ context.Context, kvs map[int]int, ttl time.Duration) error {
	for k := 0; k < nk; k++ {
		if v, ok := kvs[k]; ok {
			t.log = append(t.log, rec{"set", k, v, ttl})
		}
	}
	if t.failW != nil {
		return t.failW
	}
	for k, v := range kvs {
		t.has[k], t.val[k] = true, v
	}
	return nil
}

func newTier(keys int, faults bool) *tier {
	t := &tier{}
	for k := 0; k < keys; k++ {
		t.has[k] = vsym.Bool("has")
		t.val[k] = int(vsym.I64("val"))
	}
	if faults {
		if vsym.Pick("failR", 0, 1) == 1 {
			t.failR = errors.New("read")
			t.nilOnErr = vsym.Pick("nil", 0, 1) == 1
		}
		if vsym.Pick("failW", 0, 1) == 1 {
			t.failW = errors.New("write")
		}
	}
	return t
}

func build(ts []*tier) (*cachex.Chain[int, int], []time.Duration) {
	c := &cachex.Chain[int, int]{}
	var ttl []time.Duration
	for _, t := range ts {
		d := time.Duration(vsym.I64("ttl"))
		c.Caches = append(c.Caches, &cachex.ChainItem[int, int]{Cache: t, TTL: d})
		ttl = append(ttl, d)
	}
	return c, ttl
}

// lookup is the reference for one key: the tier that answers, or -1, and the
// error a read of that key reports.
func lookup(ts []*tier, key int, cont bool) (int, error) {
	var err error
	for i, t := range ts {
		err = nil
		if t.failR != nil {
			err = t.failR
			if !cont {
				return -1, err
			}
			continue
		}
		if t.has[key] {
			return i, nil
		}
	}
	return -1, err
}

// H_C43_get: a single read, with faults.
func H_C43_get() {
	vsym.Merge(false)
	n := vsym.Case(vsym.Bound(5, 6))
	var ts []*tier
	for i := 0; i < n; i++ {
		ts = append(ts, newTier(1, true))
	}
	c, ttl := build(ts)
	c.ContinueOnReadErr = vsym.Bool("cont")
	old := copyTiers(ts)
	v, ok, err := c.Get(bg, 0)
	at, werr := lookup(old, 0, c.ContinueOnReadErr)
	checkGet(ts, old, ttl, at, werr, v, ok, err)
}

func copyTiers(ts []*tier) []*tier {
	var r []*tier
	for _, t := range ts {
		x := *t
		r = append(r, &x)
	}
	return r
}

func checkGet(ts, old []*tier, ttl []time.Duration, at int, werr error, v int, ok bool, err error) {
	vsym.Assert(ok == (at >= 0), "a hit exactly when a tier that was read has the key")
	vsym.Assert(err == werr, "an error is reported exactly when the last tier read failed")
	if at >= 0 {
		vsym.Assert(v == old[at].val[0], "the value of the first tier that has the key")
	} else {
		vsym.Assert(v == 0, "no value without a hit")
	}
	for i, t := range ts {
		if i < at {
			vsym.Assert(len(t.log) == 1 && t.log[0] == rec{"set", 0, old[at].val[0], ttl[i]}, "every earlier tier is given the value with its own lifetime, once")
		} else {
			vsym.Assert(len(t.log) == 0, "no other tier is written")
		}
	}
}

// H_C43_mget: a batch read, with faults and repeated keys.
func H_C43_mget() {
	vsym.Merge(false)
	nt := vsym.Bound(3, 4)
	q := vsym.Case(16)
	nq := q % 4
	cont := q/4%2 == 1
	faults := q/8 == 1
	keys := make([]int, nq)
	used := 1
	for i := range keys {
		keys[i] = vsym.Pick("key", 0, used)
		if keys[i] >= nk {
			keys[i] = 0
		}
		if keys[i] == used && used < nk-1 {
			used++
		}
	}
	var ts []*tier
	for i := 0; i < nt; i++ {
		ts = append(ts, newTier(nk, false))
		if faults {
			if vsym.Pick("failR", 0, 1) == 1 {
				ts[i].failR = errors.New("read")
				ts[i].nilOnErr = vsym.Pick("nil", 0, 1) == 1
			}
		}
	}
	c, ttl := build(ts)
	c.ContinueOnReadErr = cont
	old := copyTiers(ts)
	given := append([]int(nil), keys...)
	vals, oks, err := c.MGet(bg, keys...)
	for i := range keys {
		vsym.Assert(keys[i] == given[i], "the requested keys are not modified")
	}
	if nq == 0 {
		vsym.Assert(len(vals) == 0 && len(oks) == 0 && err == nil, "nothing asked, nothing read")
		return
	}
	// reference: the tiers in order, each asked for what is still missing
	at := make([]int, nq)
	for i := range at {
		at[i] = -1
	}
	left := nq
	var werr error
	for t := 0; t < nt && left > 0; t++ {
		werr = old[t].failR
		if werr != nil {
			if !cont {
				break
			}
			continue
		}
		for i, k := range keys {
			if at[i] < 0 && old[t].has[k] {
				at[i] = t
				left--
			}
		}
	}
	vsym.Assert(err == werr, "an error is reported exactly when the last tier read failed")
	if err == nil || cont {
		vsym.Assert(len(vals) == nq && len(oks) == nq, "one answer per requested key")
		for i, k := range keys {
			vsym.Assert(oks[i] == (at[i] >= 0), "a hit exactly when a tier that was read has the key")
			if at[i] >= 0 {
				vsym.Assert(vals[i] == old[at[i]].val[k], "the value of the first tier that has the key, for every occurrence")
			} else {
				vsym.Assert(vals[i] == 0, "no value without a hit")
			}
		}
	}
	for t := range ts {
		want := [nk]bool{}
		for i, k := range keys {
			if at[i] > t {
				want[k] = true
			}
		}
		var got [nk]int
		for _, l := range ts[t].log {
			vsym.Assert(l.op == "set" && want[l.key] && l.ttl == ttl[t], "only values found further down are stored, with the tier's own lifetime")
			got[l.key]++
			for i, k := range keys {
				if k == l.key {
					vsym.Assert(l.val == old[at[i]].val[k], "the stored value is the one found")
				}
			}
		}
		for k := range want {
			vsym.Assert(!want[k] || got[k] == 1, "every earlier tier is given the value once")
		}
	}
}

// H_C43_limit: tiers whose entries can be used up answer repeated keys as single reads would.
func H_C43_limit() {
	vsym.Merge(false)
	mk := func() *cachex.Chain[int, int] {
		a := cachex.NewLRUCacheV2[int, int](4, 1)
		b := cachex.NewLRUCacheV2[int, int](4, 0)
		return &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{{Cache: a, TTL: time.Hour}, {Cache: b, TTL: time.Hour}}}
	}
	c := mk()
	inA := [2]bool{vsym.Bool("a"), vsym.Bool("a")}
	inB := [2]bool{vsym.Bool("b"), vsym.Bool("b")}
	var va, vb [2]int
	for k := 0; k < 2; k++ {
		va[k], vb[k] = int(vsym.I64("va")), int(vsym.I64("vb"))
		if inA[k] {
			c.Caches[0].Cache.Set(bg, k, va[k], time.Hour)
		}
		if inB[k] {
			c.Caches[1].Cache.Set(bg, k, vb[k], time.Hour)
		}
	}
	n := vsym.Case(3) + 1
	keys := make([]int, n)
	for i := range keys {
		keys[i] = vsym.Pick("key", 0, 1)
	}
	vals, oks, err := c.MGet(bg, keys...)
	vsym.Assert(err == nil && len(vals) == n && len(oks) == n, "one answer per requested key")
	var seen [2]int
	for i, k := range keys {
		want, has := 0, false
		switch {
		case inA[k] && seen[k] == 0:
			want, has = va[k], true
		case inB[k]:
			want, has = vb[k], true
		}
		seen[k]++
		vsym.Assert(oks[i] == has && vals[i] == want, "every occurrence of a key is answered")
	}
}

// H_C43_none: a tier that never answers, and no tiers at all.
func H_C43_none() {
	vsym.Merge(false)
	t := newTier(2, false)
	old := *t
	d := time.Duration(vsym.I64("ttl"))
	c := &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{
		{Cache: &cachex.NoCache[int, int]{}, TTL: 1}, {Cache: t, TTL: d}}}
	v, ok, err := c.Get(bg, 0)
	vsym.Assert(err == nil && ok == old.has[0] && (!ok || v == old.val[0]), "an empty tier is passed over")
	vals, oks, err := c.MGet(bg, 1, 0, 1)
	vsym.Assert(err == nil && len(vals) == 3 && len(oks) == 3, "one answer per requested key")
	for i, k := range []int{1, 0, 1} {
		vsym.Assert(oks[i] == old.has[k] && (!oks[i] || vals[i] == old.val[k]), "an empty tier is passed over in batches")
	}
	vsym.Assert(len(t.log) == 0, "the last tier is not written by reads")
	e := &cachex.Chain[int, int]{}
	v, ok, err = e.Get(bg, 0)
	vsym.Assert(v == 0 && !ok && err == nil, "no tiers, no hit")
	vals, oks, err = e.MGet(bg, 1, 2)
	vsym.Assert(err == nil && len(vals) == 2 && len(oks) == 2 && !oks[0] && !oks[1], "no tiers, no hits")
}

// H_C44_write: set, batch set and delete with faults.
func H_C44_write() {
	vsym.Merge(false)
	c0 := vsym.Case(3 * vsym.Bound(4, 6))
	op, n := c0%3, c0/3
	var ts []*tier
	var want []error
	for i := 0; i < n; i++ {
		t := newTier(1, false)
		for k := 1; k < nk; k++ {
			t.has[k], t.val[k] = t.has[0], int(vsym.I64("val"))
		}
		if vsym.Pick("failW", 0, 1) == 1 {
			t.failW, t.failD = errors.New("write"), errors.New("delete")
			if op == 2 {
				want = append(want, t.failD)
			} else {
				want = append(want, t.failW)
			}
		}
		ts = append(ts, t)
	}
	c, ttl := build(ts)
	c.ContinueOnReadErr = vsym.Bool("cont")
	old := copyTiers(ts)
	var err error
	given := time.Duration(vsym.I64("given"))
	v0, v1 := int(vsym.I64("v0")), int(vsym.I64("v1"))
	var recs []rec
	touched := [nk]bool{}
	switch op {
	case 0:
		k := vsym.Pick("k", 0, nk-1)
		err = c.Set(bg, k, v0, given)
		recs = []rec{{"set", k, v0, 0}}
		touched[k] = true
	case 1:
		m := map[int]int{}
		for k, v := range []int{v0, v1} {
			if vsym.Pick("in", 0, 1) == 1 {
				m[k] = v
				recs = append(recs, rec{"set", k, v, 0})
				touched[k] = true
			}
		}
		err = c.MSet(bg, m, given)
	default:
		var ks []int
		for i := 0; i < vsym.Pick("nd", 0, 2); i++ {
			k := vsym.Pick("k", 0, nk-1)
			ks = append(ks, k)
			recs = append(recs, rec{"del", k, 0, 0})
			touched[k] = true
		}
		err = c.Delete(bg, ks...)
	}
	if len(recs) == 0 {
		want = nil
	}
	vsym.Assert((err == nil) == (len(want) == 0), "an error is reported exactly when a tier failed")
	for _, w := range want {
		vsym.Assert(errors.Is(err, w), "every tier's failure is reported")
	}
	for i, t := range ts {
		vsym.Assert(len(t.log) == len(recs), "every tier is called once, whatever the others did")
		for j, r := range recs {
			if op != 2 {
				r.ttl = ttl[i]
			}
			vsym.Assert(t.log[j] == r, "every tier gets the operation with its own lifetime")
		}
		for k := 0; k < nk; k++ {
			v, ok, _ := t.Get(bg, k)
			if !touched[k] {
				vsym.Assert(ok == old[i].has[k] && (!ok || v == old[i].val[k]), "other keys are left alone")
			} else if t.failW == nil {
				vsym.Assert(ok == (op != 2), "set keys are there, deleted keys are not")
				for _, r := range recs {
					if r.key == k && op != 2 {
						vsym.Assert(v == r.val, "every tier has the new value")
					}
				}
			}
		}
	}
}

// H_C44_real: the same on real caches, seen through the chain.
func H_C44_real() {
	vsym.Merge(false)
	a := cachex.NewLRUCacheV2[int, int](4, 0)
	b := cachex.NewLRUCacheV2[int, int](4, 0)
	c := &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{{Cache: a, TTL: time.Hour}, {Cache: &cachex.NoCache[int, int]{}, TTL: 1}, {Cache: b, TTL: time.Minute}}}
	var m [2]int
	var has [2]bool
	first := vsym.Case(3)
	for s := 0; s < vsym.Bound(3, 4); s++ {
		op := vsym.Pick("op", 0, 3)
		if s == 0 {
			op = first
		}
		k := vsym.Pick("k", 0, 1)
		v := int(vsym.I64("v"))
		switch op {
		case 0:
			vsym.Assert(c.Set(bg, k, v, 0) == nil, "set succeeds")
			m[k], has[k] = v, true
		case 1:
			vsym.Assert(c.MSet(bg, map[int]int{k: v, 1 - k: 7}, 0) == nil, "batch set succeeds")
			m[k], has[k], m[1-k], has[1-k] = v, true, 7, true
		case 2:
			vsym.Assert(c.Delete(bg, k) == nil, "delete succeeds")
			has[k] = false
		default:
			vsym.Assert(a.Delete(bg, k) == nil, "dropping from the first tier succeeds")
		}
		if s == vsym.Bound(2, 3) {
			for _, t := range []cachex.Cache[int, int]{c, b} {
				for k := 0; k < 2; k++ {
					got, ok, err := t.Get(bg, k)
					vsym.Assert(err == nil && ok == has[k] && (!ok || got == m[k]), "reads see exactly what was written last")
				}
			}
		}
	}
}

// ---- C45 ----

type fixed struct {
	vals []int
	hits []bool
	err  error
}

func (f *fixed) MGet(_ context.Context, keys ...int) ([]int, []bool, error) {
	return f.vals, f.hits, f.err
}

// H_C45_result: every shape of a batch result.
func H_C45_result() {
	vsym.Merge(false)
	n := vsym.Case(vsym.Bound(5, 6))
	keys, vals, hits := make([]int, n), make([]int, n), make([]bool, n)
	for i := 0; i < n; i++ {
		keys[i] = vsym.Pick("key", 0, vsym.IteI(i < 2, i, 2))
		vals[i] = int(vsym.I64("val"))
		hits[i] = vsym.Bool("hit")
	}
	var f fixed
	f.vals, f.hits = vals, hits
	if n == 0 {
		f.vals, f.hits = nil, nil
	}
	r, err := cachex.MGet[int, int](bg, &f, keys...)
	vsym.Assert(err == nil, "no error of its own")
	stop := vsym.Pick("stop", 0, n)
	i := 0
	r.Range(func(k int, hit bool, v int) bool {
		vsym.Assert(i < n && k == keys[i] && hit == hits[i] && v == vals[i], "every request once, in order, with its answer")
		i++
		return i != stop
	})
	want := n
	if stop > 0 {
		want = stop
	}
	vsym.Assert(i == want, "iteration ends at the end or when told to")
	var hk, hv, mk []int
	for j := 0; j < n; j++ {
		if hits[j] {
			hk, hv = append(hk, keys[j]), append(hv, vals[j])
		} else {
			mk = append(mk, keys[j])
		}
	}
	i = 0
	r.RangeHit(func(k, v int) bool {
		vsym.Assert(i < len(hk) && k == hk[i] && v == hv[i], "every hit once, in order")
		i++
		return i != stop
	})
	vsym.Assert(i == lim(len(hk), stop), "hit iteration ends at the end or when told to")
	i = 0
	r.RangeMiss(func(k int) bool {
		vsym.Assert(i < len(mk) && k == mk[i], "every miss once, in order")
		i++
		return i != stop
	})
	vsym.Assert(i == lim(len(mk), stop), "miss iteration ends at the end or when told to")
	a, b := r.HitMissKeys()
	vsym.Assert(same(r.HitKeys(), hk) && same(a, hk), "the hit keys, in order")
	vsym.Assert(same(r.MissKeys(), mk) && same(b, mk), "the missed keys, in order")
	m := r.HitMapValues()
	cnt := 0
	for k := 0; k < nk; k++ {
		at := -1
		for j := range hk {
			if hk[j] == k {
				at = j
			}
		}
		v, ok := m[k]
		vsym.Assert(ok == (at >= 0), "the hit map holds exactly the hit keys")
		if at >= 0 {
			cnt++
			vsym.Assert(v == hv[at], "the hit map holds the values")
		}
	}
	vsym.Assert(len(m) == cnt, "nothing else is in the hit map")
}

func lim(n, stop int) int {
	if stop > 0 && stop < n {
		return stop
	}
	return n
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, a[i] == b[i])
	}
	return r
}

// H_C45_error: a failing batch read reports its error.
func H_C45_error() {
	f := &fixed{err: errors.New("read")}
	_, err := cachex.MGet[int, int](bg, f, 1, 2)
	vsym.Assert(err == f.err, "the error of the read is handed on")
}
