package cmap

import (
	"sync"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// explain: some order of the calls that keeps each caller's own order gives
// every result and the final contents.
func explain(s plain, cs [][]call, rs [][]res, final *[nk]res) bool {
	left := false
	ok := false
	for t := range cs {
		if len(cs[t]) == 0 {
			continue
		}
		left = true
		n := s
		r := n.step(cs[t][0])
		c2 := append([][]call{}, cs...)
		r2 := append([][]res{}, rs...)
		c2[t], r2[t] = cs[t][1:], rs[t][1:]
		ok = vsym.Or(ok, vsym.And(same(r, rs[t][0]), explain(n, c2, r2, final)))
	}
	if left {
		return ok
	}
	ok = true
	for k := 0; k < nk; k++ {
		ok = vsym.And(ok, vsym.And(s.has[k] == final[k].ok, vsym.Or(!s.has[k], s.val[k] == final[k].v)))
	}
	return ok
}

// race runs the callers together and checks that some order explains them.
func race(m *gsync.Map[int, int], s plain, cs [][]call) {
	rs := make([][]res, len(cs))
	for t := range cs {
		rs[t] = make([]res, len(cs[t]))
	}
	vsym.Race(true)
	var wg sync.WaitGroup
	for t := range cs {
		t := t
		wg.Add(1)
		go func() {
			for i, c := range cs[t] {
				rs[t][i] = do(m, c)
			}
			wg.Done()
		}()
	}
	wg.Wait()
	var final [nk]res
	for k := range final {
		final[k].v, final[k].ok = m.Load(k)
	}
	vsym.Assert(explain(s, cs, rs, &final), "the results and contents are those of some order of the calls")
}

func start(m *gsync.Map[int, int], n int) plain {
	var x [nk]int
	for i := range x {
		x[i] = 100 + i
	}
	return prefix(m, n, &x)
}

// arg draws a call; values stored are told apart by the caller's number, the
// old value of a compare is arbitrary.
func arg(kind, key, t int) call {
	c := call{kind: kind, key: key, x: 200 + t}
	if kind == cas || kind == cad {
		c.old = int(vsym.I64("old"))
	}
	return c
}

// H_C17_two: two callers with one call each.
func H_C17_two() {
	c := vsym.Case(prefixes * kinds)
	var m gsync.Map[int, int]
	s := start(&m, c%prefixes)
	k1 := c / prefixes
	k2 := vsym.Pick("op", 0, k1) // the callers are symmetric
	a := arg(k1, vsym.Pick("key", 0, nk-1), 1)
	b := arg(k2, vsym.Pick("key", 0, nk-1), 2)
	race(&m, s, [][]call{{a}, {b}})
}

// H_C17_pair: a caller with two calls against another.
func H_C17_pair() {
	c := vsym.Case(prefixes * 6)
	var m gsync.Map[int, int]
	s := start(&m, c%prefixes)
	ops := [6]int{load, store, loadOrStore, loadAndDelete, cas, cad}
	k := vsym.Pick("key", 0, nk-1)
	a := arg(ops[c/prefixes], k, 1)
	first := vsym.Pick("first", 0, 3)
	f := call{store, (k + 1) % nk, 301, 0}
	switch first {
	case 1:
		f = call{load, (k + 1) % nk, 0, 0}
	case 2:
		f = call{store, k, 301, 0}
	case 3:
		f = call{del, k, 0, 0}
	}
	b := arg(ops[vsym.Pick("op", 0, 5)], k, 2)
	race(&m, s, [][]call{{a}, {f, b}})
}

// H_C17_three: three callers on one key.
func H_C17_three() {
	c := vsym.Case(prefixes * 4)
	var m gsync.Map[int, int]
	s := start(&m, c%prefixes)
	ops := [4]int{loadOrStore, loadAndDelete, store, load}
	p := c / prefixes
	q := vsym.Pick("op2", 0, p)
	r := vsym.Pick("op3", 0, q)
	k := vsym.Pick("key", 0, nk-1)
	race(&m, s, [][]call{{arg(ops[p], k, 1)}, {arg(ops[q], k, 2)}, {arg(ops[r], k, 3)}})
}

// H_C17_square: two callers with two calls each.
func H_C17_square() {
	c := vsym.Case(prefixes * 8)
	var m gsync.Map[int, int]
	s := start(&m, c%prefixes)
	n := c / prefixes
	k := vsym.Pick("key", 0, nk-1)
	j := (k + 1) % nk
	firsts := [4]call{{store, j, 301, 0}, {load, j, 0, 0}, {store, k, 301, 0}, {del, k, 0, 0}}
	ops := [6]int{load, store, loadOrStore, loadAndDelete, cas, cad}
	last := [2]call{{load, k, 0, 0}, {swap, j, 302, 0}}
	a := arg(ops[vsym.Pick("op", 0, vsym.Bound(2, 5))], k, 1)
	b := arg(ops[vsym.Pick("op", vsym.Bound(2, 0), vsym.Bound(3, 5))], k, 2)
	race(&m, s, [][]call{{a, last[n/4]}, {firsts[n%4], b}})
}

// H_C17_equal: values stored may equal those there already and those compared.
func H_C17_equal() {
	c := vsym.Case(prefixes * kinds)
	var m gsync.Map[int, int]
	s := start(&m, c%prefixes)
	k := vsym.Pick("key", 0, nk-1)
	was := 100 + k
	eq := func(kind, t int) call {
		return call{kind, k, vsym.IteI(vsym.Bool("same"), was, 200+t), was}
	}
	a := eq(c/prefixes, 1)
	b := []call{eq(vsym.Pick("op", 0, kinds-1), 2)}
	if vsym.Pick("more", 0, 1) == 1 {
		b = append(b, eq([3]int{store, loadAndDelete, cas}[vsym.Pick("op2", 0, vsym.Bound(1, 2))], 3))
	}
	race(&m, s, [][]call{{a}, b})
}
