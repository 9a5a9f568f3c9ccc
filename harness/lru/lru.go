package lru

import (
	"context"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/verifh/vmodels"
	"github.com/miniLCT/gosb/verifh/vsym"
)

const hour = int64(time.Hour)

type ent struct {
	k, v, used int
	exp        int64
}

// ref is the reference cache: most recently used first.
type ref struct {
	e            []ent
	caption, max int
}

func (r *ref) find(k int) int {
	for i := range r.e {
		if r.e[i].k == k {
			return i
		}
	}
	return -1
}

func (r *ref) drop(i int) {
	r.e = append(append([]ent(nil), r.e[:i]...), r.e[i+1:]...)
}

func (r *ref) front(i int) {
	x := r.e[i]
	r.drop(i)
	r.e = append([]ent{x}, r.e...)
}

func (r *ref) get(k int) (int, bool) {
	i := r.find(k)
	if i < 0 {
		return 0, false
	}
	if r.max > 0 && r.e[i].used >= r.max {
		r.drop(i)
		return 0, false
	}
	if r.e[i].exp < vmodels.NowNS {
		r.drop(i)
		return 0, false
	}
	r.e[i].used++
	v := r.e[i].v
	r.front(i)
	return v, true
}

func (r *ref) set(k, v int, ttl int64) {
	if i := r.find(k); i >= 0 {
		r.drop(i)
	}
	r.e = append([]ent{{k, v, 0, vmodels.NowNS + ttl}}, r.e...)
	if len(r.e) > r.caption {
		r.e = r.e[:r.caption]
	}
}

func (r *ref) del(k int) {
	if i := r.find(k); i >= 0 {
		r.drop(i)
	}
}

var ctx = context.Background()

func key() int { return int(vsym.U8("k")) }

func get(c *cachex.LRUCacheV2[int, int], r *ref, k int) {
	v, ok, err := c.Get(ctx, k)
	w, has := r.get(k)
	vsym.Assert(err == nil && ok == has, "a lookup hits exactly when the key is live")
	vsym.Assert(v == w, "a lookup returns the value last set")
}

// H_C40_history: any history against a reference with recency order.
func H_C40_history() {
	vmodels.NowNS = 1000
	c := vsym.Case(9)
	caption := c%3 + 1
	lru := cachex.NewLRUCacheV2[int, int](caption, 0)
	r := &ref{caption: caption}
	steps := vsym.Bound(5, 6)
	var ks []int
	for i := 0; i < steps; i++ {
		k := key()
		op := 0
		if i == 0 {
			op = 0
		} else if i == 1 {
			op = c / 3
		} else {
			op = vsym.Pick("op", 0, 2)
		}
		switch op {
		case 0:
			v := vsym.Pick("v", i, i) + 100
			lru.Set(ctx, k, v, time.Hour)
			r.set(k, v, hour)
			ks = append(ks, k)
		case 1:
			get(lru, r, k)
		case 2:
			vsym.Assert(lru.Delete(ctx, k) == nil, "deleting succeeds")
			r.del(k)
		}
	}
	// the recency order shows in what further insertions push out
	n := vsym.Pick("fresh", 0, caption)
	for i := 0; i < n; i++ {
		lru.Set(ctx, 1000+i, i, time.Hour)
		r.set(1000+i, i, hour)
	}
	for i := 0; i < n; i++ {
		get(lru, r, 1000+i)
	}
	for _, k := range ks {
		get(lru, r, k)
	}
}

// H_C40_dead: the same with entries that have run out (of time or of uses) among
// them. A dead entry leaves when it is looked up or when its turn comes.
func H_C40_dead() {
	vmodels.NowNS = 1000
	c := vsym.Case(8)
	caption := 2 + c%2
	max := c / 2 % 2
	lru := cachex.NewLRUCacheV2[int, int](caption, max)
	r := &ref{caption: caption, max: max}
	steps := vsym.Bound(5, 6)
	var ks []int
	for i := 0; i < steps; i++ {
		k := key()
		op := 0
		if i == 1 {
			op = c / 4
		} else if i > 1 {
			op = vsym.Pick("op", 0, 1)
		}
		if op == 0 {
			ttl := hour
			if vsym.Bool("dead") {
				ttl = -1
			}
			lru.Set(ctx, k, 100+i, time.Duration(ttl))
			r.set(k, 100+i, ttl)
			ks = append(ks, k)
		} else {
			get(lru, r, k)
		}
	}
	n := vsym.Pick("fresh", 0, caption)
	for i := 0; i < n; i++ {
		lru.Set(ctx, 1000+i, i, time.Hour)
		r.set(1000+i, i, hour)
	}
	for i := 0; i < n; i++ {
		get(lru, r, 1000+i)
	}
	for _, k := range ks {
		get(lru, r, k)
	}
}

// H_C40_batch: batch operations behave as their single parts in order.
func H_C40_batch() {
	vmodels.NowNS = 1000
	caption := vsym.Case(3) + 1
	lru := cachex.NewLRUCacheV2[int, int](caption, 0)
	r := &ref{caption: caption}
	for i := 0; i < 3; i++ {
		k := key()
		lru.Set(ctx, k, 100+i, time.Hour)
		r.set(k, 100+i, hour)
	}
	switch vsym.Pick("op", 0, 2) {
	case 0:
		a, b, d := key(), key(), key()
		vs, oks, err := lru.MGet(ctx, a, b, d)
		vsym.Assert(err == nil && len(vs) == 3 && len(oks) == 3, "a batch read answers every key")
		for i, k := range []int{a, b, d} {
			w, has := r.get(k)
			vsym.Assert(oks[i] == has && vs[i] == w, "a batch read gives what single reads give")
		}
	case 1:
		a, b := key(), key()
		vsym.Assert(lru.Delete(ctx, a, b) == nil, "deleting succeeds")
		r.del(a)
		r.del(b)
	case 2:
		k := key()
		vsym.Assert(lru.MSet(ctx, map[int]int{k: 7}, time.Hour) == nil, "a batch set succeeds")
		r.set(k, 7, hour)
	}
	n := vsym.Pick("fresh", 0, caption-1)
	for i := 0; i < n; i++ {
		lru.Set(ctx, 1000+i, i, time.Hour)
		r.set(1000+i, i, hour)
	}
	for i := 0; i < 2; i++ {
		get(lru, r, key())
	}
}

// H_C40_mset: a batch set stores every pair, up to the capacity.
func H_C40_mset() {
	vmodels.NowNS = 1000
	caption := vsym.Case(3) + 1
	lru := cachex.NewLRUCacheV2[int, int](caption, 0)
	pre := vsym.Pick("pre", 0, 2)
	for i := 0; i < pre; i++ {
		lru.Set(ctx, 50+i, i, time.Hour)
	}
	vsym.MapOrder(true)
	m := map[int]int{}
	n := vsym.Pick("n", 0, 3)
	for i := 0; i < n; i++ {
		k := int(vsym.U8("k"))
		vsym.Assume(k < 52)
		m[k] = 100 + i
	}
	vsym.Assert(lru.MSet(ctx, m, time.Hour) == nil, "a batch set succeeds")
	vsym.MapOrder(false)
	hit := 0
	for k, v := range m {
		w, ok, _ := lru.Get(ctx, k)
		if ok {
			hit++
			vsym.Assert(w == v, "a batch set stores each value under its key")
		}
	}
	want := len(m)
	if want > caption {
		want = caption
	}
	vsym.Assert(hit == want, "as many pairs of a batch set are held as fit")
	old := 0
	for i := 0; i < pre; i++ {
		if _, in := m[50+i]; in {
			continue
		}
		v, ok, _ := lru.Get(ctx, 50+i)
		if ok {
			vsym.Assert(v == i, "older entries keep their values")
			old++
			if i == 0 && pre == 2 {
				if _, in := m[51]; !in {
					_, ok1, _ := lru.Get(ctx, 51)
					vsym.Assert(ok1, "the older entry goes first")
				}
			}
		}
	}
	room := caption - hit
	left := pre
	for i := 0; i < pre; i++ {
		if _, in := m[50+i]; in {
			left--
		}
	}
	_ = left
	vsym.Assert(hit+old <= caption, "never more entries than the capacity")
	if left <= room && caption >= pre {
		vsym.Assert(old == left || old == room, "entries that fit stay")
	}
}

// H_C40_cap: a capacity that is not positive is refused.
func H_C40_cap() {
	n := int(vsym.I64("n"))
	vsym.Assume(n <= 0)
	p, _ := vsym.Panics(func() { cachex.NewLRUCacheV2[int, int](n, 0) })
	vsym.Assert(p, "a capacity below one is refused")
}

// H_C40_full: filling far beyond the capacity keeps exactly the last ones.
func H_C40_full() {
	vmodels.NowNS = 1000
	caption := vsym.Pick("caption", 1, vsym.Bound(8, 20))
	n := caption + vsym.Pick("more", 0, 3)
	lru := cachex.NewLRUCacheV2[int, string](caption, 0)
	for i := 0; i < n; i++ {
		lru.Set(ctx, i, string(rune('a'+i)), time.Hour)
	}
	hit := 0
	for i := 0; i < n; i++ {
		v, ok, err := lru.Get(ctx, i)
		vsym.Assert(err == nil && ok == (i >= n-caption), "exactly the latest entries are held")
		if ok {
			vsym.Assert(v == string(rune('a'+i)), "with their values")
			hit++
		}
	}
	vsym.Assert(hit <= caption, "never more than the capacity")
}

// span is a length of time: only sums and comparisons are made of it.
func span(name string) int64 {
	if vsym.Thorough() {
		return int64(vsym.U32(name))
	}
	return int64(vsym.U8(name)) << 24
}

// H_C41_ttl: expiry under an advancing clock.
func H_C41_ttl() {
	vmodels.NowNS = int64(vsym.U32("t0"))
	batch := vsym.Case(2) == 1
	lru := cachex.NewLRUCacheV2[int, int](2, 0)
	put := func(k, v int, ttl int64) int64 {
		if batch {
			lru.MSet(ctx, map[int]int{k: v}, time.Duration(ttl))
		} else {
			lru.Set(ctx, k, v, time.Duration(ttl))
		}
		return vmodels.NowNS + ttl
	}
	ttl := func() int64 {
		return span("ttl")
	}
	step := func() {
		vmodels.NowNS += span("dt")
	}
	e := [2]int64{}
	alive := [2]bool{true, true}
	val := [2]int{10, 20}
	e[0] = put(0, 10, ttl())
	step()
	e[1] = put(1, 20, ttl())
	for i := 0; i < vsym.Bound(3, 4); i++ {
		step()
		k := vsym.Pick("key", 0, 1)
		if vsym.Bool("again") {
			val[k] = 30 + i
			e[k] = put(k, val[k], ttl())
			alive[k] = true
			continue
		}
		var v int
		var ok bool
		if batch {
			vs, oks, _ := lru.MGet(ctx, k)
			v, ok = vs[0], oks[0]
		} else {
			v, ok, _ = lru.Get(ctx, k)
		}
		if vmodels.NowNS < e[k] {
			vsym.Assert(ok == alive[k], "an entry is returned until its expiry")
		} else if vmodels.NowNS > e[k] {
			vsym.Assert(!ok, "an entry is never returned after its expiry")
		}
		if ok {
			vsym.Assert(v == val[k], "with the value last set")
		} else {
			vsym.Assert(v == 0, "a miss carries the zero value")
			alive[k] = false
		}
	}
}

// H_C41_uses: the use limit.
func H_C41_uses() {
	vmodels.NowNS = 5
	max := vsym.Case(4)
	lru := cachex.NewLRUCacheV2[int, int](2, max)
	used := [2]int{}
	val := [2]int{1, 2}
	lru.Set(ctx, 0, 1, time.Hour)
	lru.Set(ctx, 1, 2, time.Hour)
	for i := 0; i < vsym.Bound(6, 8); i++ {
		k := vsym.Pick("key", 0, 1)
		switch vsym.Pick("op", 0, 2) {
		case 0:
			val[k] = 10 + i
			lru.Set(ctx, k, val[k], time.Hour)
			used[k] = 0
		case 1:
			v, ok, _ := lru.Get(ctx, k)
			vsym.Assert(ok == (max == 0 || used[k] < max), "an entry is returned exactly as often as the limit allows")
			vsym.Assert(!ok || v == val[k], "with the value last set")
			used[k]++
		case 2:
			vs, oks, _ := lru.MGet(ctx, k, k)
			for j := 0; j < 2; j++ {
				vsym.Assert(oks[j] == (max == 0 || used[k] < max), "batch reads count as uses")
				vsym.Assert(!oks[j] || vs[j] == val[k], "with the value last set")
				used[k]++
			}
		}
	}
}

// H_C41_renew: setting again renews lifetime and uses together.
func H_C41_renew() {
	vmodels.NowNS = 0
	max := 1 + vsym.Case(3)
	lru := cachex.NewLRUCacheV2[int, int](1, max)
	lru.Set(ctx, 7, 1, 10)
	n := vsym.Pick("gets", 0, max+1)
	for i := 0; i < n; i++ {
		_, ok, _ := lru.Get(ctx, 7)
		vsym.Assert(ok == (i < max), "uses are counted")
	}
	dt := int64(vsym.U8("dt"))
	vmodels.NowNS += dt
	lru.Set(ctx, 7, 2, 10)
	d2 := int64(vsym.Int("d2", 0, 9))
	vmodels.NowNS += d2
	for i := 0; i < max; i++ {
		v, ok, _ := lru.Get(ctx, 7)
		vsym.Assert(ok && v == 2, "a renewed entry has its full lifetime and uses")
	}
	_, ok, _ := lru.Get(ctx, 7)
	vsym.Assert(!ok, "and no more uses than that")
}

// H_C40_wide: large capacities, an arbitrary access pattern put into a long fixed one.
func H_C40_wide() {
	vmodels.NowNS = 1000
	caption := []int{10, 33, 65, 100}[vsym.Case(vsym.Bound(3, 4))]
	lru := cachex.NewLRUCacheV2[int, int](caption, 0)
	r := &ref{caption: caption}
	set := func(k, v int) {
		lru.Set(ctx, k, v, time.Hour)
		r.set(k, v, hour)
	}
	for i := 0; i < caption+5; i++ {
		set(i, i)
		if i%5 == 3 {
			get(lru, r, i-2)
		}
	}
	for i := 0; i < vsym.Bound(2, 3); i++ {
		k := []int{5, 6, 8, caption / 2, caption + 4}[vsym.Pick("k", 0, 4)]
		switch vsym.Pick("op", 0, 2) {
		case 0:
			set(k, int(vsym.I64("v")))
		case 1:
			get(lru, r, k)
		case 2:
			lru.Delete(ctx, k)
			r.del(k)
		}
	}
	for i := 0; i < caption/2; i++ {
		set(1000+i, i)
	}
	for k := 0; k < caption+5; k++ {
		get(lru, r, k)
	}
	for i := 0; i < caption; i++ {
		set(2000+i, i)
	}
	for i := 0; i < caption; i++ {
		get(lru, r, 2000+i)
	}
	hit := 0
	for _, k := range []int{5, 6, caption / 2, 1000, 1001} {
		if _, ok, _ := lru.Get(ctx, k); ok {
			hit++
		}
	}
	vsym.Assert(hit == 0, "never more than the capacity")
}
