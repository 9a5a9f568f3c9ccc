package cmap

import (
	"sync"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// explainC is explain for concrete calls.
func explainC(s plain, cs [][]call, rs [][]res, final *[nk]res) bool {
	left := false
	for t := range cs {
		if len(cs[t]) == 0 {
			continue
		}
		left = true
		n := s
		if n.step(cs[t][0]) != rs[t][0] {
			continue
		}
		c, r := cs[t], rs[t]
		cs[t], rs[t] = c[1:], r[1:]
		ok := explainC(n, cs, rs, final)
		cs[t], rs[t] = c, r
		if ok {
			return true
		}
	}
	if left {
		return false
	}
	for k := 0; k < nk; k++ {
		if s.has[k] != final[k].ok || s.has[k] && s.val[k] != final[k].v {
			return false
		}
	}
	return true
}

// H_C17_crowd: three callers with several calls each, over the schedules that
// deviate a few times from three fixed ones.
func H_C17_crowd() {
	c := vsym.Case(prefixes * kinds)
	vsym.Delays(vsym.Bound(1, 2), vsym.Pick("order", 0, 2))
	var m gsync.Map[int, int]
	s := start(&m, c%prefixes)
	n := vsym.Bound(2, 3)
	// the mix of calls: every kind meets every other at some offset
	off, key := vsym.Pick("off", 0, vsym.Bound(2, kinds-1)), vsym.Pick("key", 0, vsym.Bound(0, nk-1))
	cs := make([][]call, 3)
	for t := range cs {
		for i := 0; i < n; i++ {
			x := call{(c/prefixes + t*(off+1) + i*5) % kinds, (key + i*(t+1)) % nk, 200 + 10*t + i, 0}
			x.old = []int{100 + x.key, 200, 210}[(t+i+off)%3]
			cs[t] = append(cs[t], x)
		}
	}
	rs := make([][]res, len(cs))
	vsym.Race(true)
	var wg sync.WaitGroup
	for t := range cs {
		t := t
		rs[t] = make([]res, n)
		wg.Add(1)
		go func() {
			for i, c := range cs[t] {
				rs[t][i] = do(&m, c)
			}
			wg.Done()
		}()
	}
	wg.Wait()
	var final [nk]res
	for k := range final {
		final[k].v, final[k].ok = m.Load(k)
	}
	vsym.Assert(explainC(s, cs, rs, &final), "the results and contents are those of some order of the calls")
}
