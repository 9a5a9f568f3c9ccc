package lru

import (
	"context"
	"sync"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/verifh/vmodels"
	"github.com/miniLCT/gosb/verifh/vsym"
)

const rk = 3

// seqLRU is the plain model: keys from most to least recently used.
type seqLRU struct {
	n       int
	key     [rk + 1]int
	val     [rk + 1]int
	used    [rk + 1]int
	dead    [rk + 1]bool
	maxUsed int
	cap     int
}

func (s *seqLRU) find(k int) int {
	for i := 0; i < s.n; i++ {
		if s.key[i] == k {
			return i
		}
	}
	return -1
}

func (s *seqLRU) drop(i int) {
	for ; i+1 < s.n; i++ {
		s.key[i], s.val[i], s.used[i], s.dead[i] = s.key[i+1], s.val[i+1], s.used[i+1], s.dead[i+1]
	}
	s.n--
}

func (s *seqLRU) front(k, v, u int) {
	for i := s.n; i > 0; i-- {
		s.key[i], s.val[i], s.used[i], s.dead[i] = s.key[i-1], s.val[i-1], s.used[i-1], s.dead[i-1]
	}
	s.key[0], s.val[0], s.used[0], s.dead[0] = k, v, u, false
	s.n++
}

func (s *seqLRU) get(k int) (int, bool) {
	i := s.find(k)
	if i < 0 {
		return 0, false
	}
	if s.dead[i] || s.maxUsed > 0 && s.used[i] >= s.maxUsed {
		s.drop(i)
		return 0, false
	}
	v, u := s.val[i], s.used[i]+1
	s.drop(i)
	s.front(k, v, u)
	return v, true
}

func (s *seqLRU) set(k, v int) {
	if i := s.find(k); i >= 0 {
		s.drop(i)
	}
	s.front(k, v, 0)
	if s.n > s.cap {
		s.n = s.cap
	}
}

type rcall struct{ kind, k, j, v int }

type rres struct {
	v, w   int
	ok, no bool
}

const (
	rGet = iota
	rSet
	rMGet
	rMSet
	rDel
	rkinds
)

// step applies a call; swap picks the other order of a batch write.
func (s *seqLRU) step(c rcall, swap bool) (r rres) {
	switch c.kind {
	case rGet:
		r.v, r.ok = s.get(c.k)
	case rSet:
		s.set(c.k, c.v)
	case rMGet:
		r.v, r.ok = s.get(c.k)
		r.w, r.no = s.get(c.j)
	case rMSet:
		if swap {
			s.set(c.j, c.v+1)
			s.set(c.k, c.v)
		} else {
			s.set(c.k, c.v)
			s.set(c.j, c.v+1)
		}
	case rDel:
		for _, k := range [2]int{c.k, c.j} {
			if i := s.find(k); i >= 0 {
				s.drop(i)
			}
		}
	}
	return
}

func rdo(m *cachex.LRUCacheV2[int, int], c rcall) (r rres) {
	ctx := context.Background()
	switch c.kind {
	case rGet:
		r.v, r.ok, _ = m.Get(ctx, c.k)
	case rSet:
		m.Set(ctx, c.k, c.v, time.Hour)
	case rMGet:
		vs, oks, _ := m.MGet(ctx, c.k, c.j)
		if len(vs) == 2 && len(oks) == 2 {
			r.v, r.ok, r.w, r.no = vs[0], oks[0], vs[1], oks[1]
		}
	case rMSet:
		m.MSet(ctx, map[int]int{c.k: c.v, c.j: c.v + 1}, time.Hour)
	case rDel:
		m.Delete(ctx, c.k, c.j)
	}
	return
}

func rexplain(s seqLRU, cs [][]rcall, rs [][]rres, fin []rcall, fr []rres) bool {
	left := false
	for t := range cs {
		if len(cs[t]) == 0 {
			continue
		}
		left = true
		c2 := append([][]rcall{}, cs...)
		r2 := append([][]rres{}, rs...)
		c2[t], r2[t] = cs[t][1:], rs[t][1:]
		for o := 0; o < 2; o++ {
			if o == 1 && cs[t][0].kind != rMSet {
				break
			}
			n := s
			if n.step(cs[t][0], o == 1) == rs[t][0] && rexplain(n, c2, r2, fin, fr) {
				return true
			}
		}
	}
	if left {
		return false
	}
	for i, c := range fin {
		if s.step(c, false) != fr[i] {
			return false
		}
	}
	return true
}

func rcallOf(kind, t int) rcall {
	k := vsym.Pick("key", 0, rk-1)
	return rcall{kind, k, (k + 1) % rk, 100 * t}
}

// rrace starts from a cache of two (key 0, key 1 most recent), runs the callers
// together and looks at everything afterwards.
func rrace(maxUsed int, stale bool, cs [][]rcall) {
	ctx := context.Background()
	vmodels.NowNS = 1 << 41
	m := cachex.NewLRUCacheV2[int, int](2, maxUsed)
	s := seqLRU{maxUsed: maxUsed, cap: 2}
	m.Set(ctx, 0, 10, time.Hour)
	s.set(0, 10)
	if stale {
		m.Set(ctx, 1, 11, time.Second)
	} else {
		m.Set(ctx, 1, 11, time.Hour)
	}
	s.set(1, 11)
	s.dead[0] = stale
	vmodels.NowNS += int64(time.Minute)
	rs := make([][]rres, len(cs))
	vsym.Race(true)
	var wg sync.WaitGroup
	for t := range cs {
		t := t
		rs[t] = make([]rres, len(cs[t]))
		wg.Add(1)
		go func() {
			for i, c := range cs[t] {
				rs[t][i] = rdo(m, c)
			}
			wg.Done()
		}()
	}
	wg.Wait()
	// which key goes first shows the order of use
	fin := []rcall{{rSet, 9, 9, 900}, {rGet, 0, 0, 0}, {rGet, 1, 1, 0}, {rGet, 2, 2, 0}, {rGet, 9, 9, 0}}
	fr := make([]rres, len(fin))
	for i, c := range fin {
		fr[i] = rdo(m, c)
	}
	vsym.Assert(rexplain(s, cs, rs, fin, fr), "the results and contents are those of some order of the calls")
}

// H_C42_two: two callers, one with two calls.
func H_C42_two() {
	c := vsym.Case(rkinds * rkinds * 2)
	maxUsed := c % 2
	a := rcallOf((c/2)%rkinds, 1)
	b := rcallOf(c/2/rkinds, 2)
	d := rcall{vsym.Pick("after", 0, 1), vsym.Pick("key", 0, rk-1), 0, 300}
	rrace(maxUsed, vsym.Pick("stale", 0, 1) == 1, [][]rcall{{a}, {b, d}})
}

// H_C42_three: three callers.
func H_C42_three() {
	c := vsym.Case(rkinds * rkinds * 2)
	maxUsed := c % 2
	a := rcallOf((c/2)%rkinds, 1)
	b := rcallOf(c/2/rkinds, 2)
	d := rcallOf(vsym.Pick("op", 0, rkinds-1), 3)
	rrace(maxUsed, false, [][]rcall{{a}, {b}, {d}})
}

// H_C42_crowd: three callers with several calls each, over the schedules that
// deviate a few times from three fixed ones.
func H_C42_crowd() {
	c := vsym.Case(rkinds * 6)
	vsym.Delays(vsym.Bound(1, 2), vsym.Pick("order", 0, 2))
	first, maxUsed, stale := c%rkinds, c/rkinds%2, c/rkinds/2 == 2
	off, key := vsym.Pick("off", 0, vsym.Bound(2, rkinds-1)), vsym.Pick("key", 0, rk-1)
	cs := make([][]rcall, 3)
	for t := range cs {
		for i := 0; i < vsym.Bound(2, 3); i++ {
			k := (key + t + i*(c/rkinds+1)) % rk
			cs[t] = append(cs[t], rcall{(first + t*(off+1) + i*2) % rkinds, k, (k + 1) % rk, 100*(t+1) + 10*i})
		}
	}
	rrace(maxUsed, stale, cs)
}
