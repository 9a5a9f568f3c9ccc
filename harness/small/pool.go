package small

import (
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C15_pool: every history of gets and puts, every choice of the pool.
func H_C15_pool() {
	built := 0
	base := vsym.I64("base")
	type obj struct{ v int64 }
	p := gpool.New(func() *obj {
		built++
		return &obj{base}
	})
	var held, idle []*obj
	var heldV, idleV []int64
	n := vsym.Bound(6, 8)
	for i := 0; i < n; i++ {
		if len(held) > 0 && vsym.Pick("put", 0, 1) == 1 {
			k := vsym.Pick("which", 0, len(held)-1)
			o := held[k]
			if vsym.Bool("change") {
				o.v = vsym.I64("v")
				heldV[k] = o.v
			}
			idle, idleV = append(idle, o), append(idleV, heldV[k])
			held, heldV = append(held[:k:k], held[k+1:]...), append(heldV[:k:k], heldV[k+1:]...)
			p.Put(o)
			continue
		}
		was := built
		o := p.Get()
		vsym.Assert(o != nil, "an object is handed out")
		for j, h := range held {
			vsym.Assert(h != o && h.v == heldV[j], "an object held by one is not handed to another")
		}
		found := -1
		for j, h := range idle {
			if h == o {
				found = j
			}
		}
		if found >= 0 {
			vsym.Assert(o.v == idleV[found] && built == was, "an object put back comes back as it was")
			idle, idleV = append(idle[:found:found], idle[found+1:]...), append(idleV[:found:found], idleV[found+1:]...)
		} else {
			vsym.Assert(o.v == base && built == was+1, "a new object comes from the constructor")
		}
		held, heldV = append(held, o), append(heldV, o.v)
	}
}

// H_C15_values: pools of plain values.
func H_C15_values() {
	base := vsym.I64("base")
	p := gpool.New(func() int64 { return base })
	a := p.Get()
	vsym.Assert(a == base, "a new value comes from the constructor")
	x, y := vsym.I64("x"), vsym.I64("y")
	p.Put(x)
	p.Put(y)
	g, h := p.Get(), p.Get()
	okG := vsym.Or(vsym.Or(g == x, g == y), g == base)
	okH := vsym.Or(vsym.Or(h == x, h == y), h == base)
	vsym.Assert(vsym.And(okG, okH), "values put back or new ones are handed out")
	vsym.Assert(vsym.Or(vsym.Or(g != x, h != x), vsym.Or(x == y, x == base)), "a value put back once is handed out once")
}

// H_C15_array: array pools.
func H_C15_array() {
	size := vsym.Pick("size", 0, 3)
	p := gpool.NewArrayPool[int64](uint(size))
	type hold struct {
		s   []int64
		c   int
		put bool
	}
	var all []*hold
	n := vsym.Bound(6, 7)
	for i := 0; i < n; i++ {
		var held []*hold
		for _, h := range all {
			if !h.put {
				held = append(held, h)
			}
		}
		if len(held) > 0 && vsym.Pick("put", 0, 1) == 1 {
			h := held[vsym.Pick("which", 0, len(held)-1)]
			k := vsym.Pick("len", 0, 2)
			h.s = h.s[:0]
			for j := 0; j < k && j < cap(h.s); j++ {
				h.s = append(h.s, int64(i*10+j))
			}
			h.put = true
			p.Put(h.s)
			continue
		}
		s := p.Get()
		// full-capacity view identifies the array
		var old *hold
		for _, h := range all {
			if cap(s) > 0 && cap(h.s) > 0 && &s[:1][0] == &h.s[:1][0] {
				old = h
			}
		}
		if old == nil {
			if cap(s) > 0 || size == 0 {
				vsym.Assert(len(s) == 0 && cap(s) == size, "a new slice is empty and has the requested capacity")
			}
			all = append(all, &hold{s: s})
			continue
		}
		vsym.Assert(old.put, "a slice held by one is not handed to another")
		ok := len(s) == len(old.s) && cap(s) == cap(old.s)
		for j := 0; ok && j < len(s); j++ {
			ok = s[j] == old.s[j]
		}
		vsym.Assert(ok, "a slice put back comes back as it was")
		old.put = false
	}
}

// H_C15_race: two callers use a pool together.
func H_C15_race() {
	c := vsym.Case(2)
	type obj struct{ v int64 }
	vsym.Race(true)
	ok := [2]bool{true, true}
	if c == 0 {
		p := gpool.New(func() *obj { return &obj{7} })
		if vsym.Pick("warm", 0, 1) == 1 {
			p.Put(&obj{8})
		}
		done := make(chan struct{})
		use := func(t int) {
			for i := 0; i < 2; i++ {
				o := p.Get()
				o.v = int64(100 + t)
				vsym.Yield()
				ok[t] = ok[t] && o.v == int64(100+t)
				p.Put(o)
			}
		}
		go func() {
			use(1)
			close(done)
		}()
		use(0)
		<-done
	} else {
		p := gpool.NewArrayPool[int64](1)
		done := make(chan struct{})
		use := func(t int) {
			for i := 0; i < 2; i++ {
				s := append(p.Get()[:0], int64(100+t))
				vsym.Yield()
				ok[t] = ok[t] && s[0] == int64(100+t)
				p.Put(s[:0])
			}
		}
		go func() {
			use(1)
			close(done)
		}()
		use(0)
		<-done
	}
	vsym.Assert(ok[0] && ok[1], "no object is held by two callers at once")
}

// H_C15_big: array pools of large slices.
func H_C15_big() {
	sizes := []int{0, 1, 16, 63, 64, 65, 100, 257, 1024, 4097}
	size := sizes[vsym.Case(10)]
	p := gpool.NewArrayPool[int64](uint(size))
	s := p.Get()
	vsym.Assert(len(s) == 0 && cap(s) == size, "a new slice is empty and has the requested capacity")
	n := sizes[vsym.Pick("len", 0, 9)]
	m := n + vsym.Pick("spare", 0, 1)*33
	t := make([]int64, n, m)
	at := []int{0, n / 2, n - 1}[vsym.Pick("at", 0, 2)]
	v := vsym.I64("v")
	if n > 0 {
		t[at] = v
	}
	p.Put(t)
	for i := 0; i < 2; i++ {
		g := p.Get()
		if m > 0 && cap(g) > 0 && &g[:1][0] == &t[:1][0] {
			vsym.Assert(i == 0 || m > 0, "handed out once")
			vsym.Assert(len(g) == n && cap(g) == m && (n == 0 || g[at] == v), "a slice put back comes back as it was")
			t = nil
			m = 0
		} else if m > 0 || cap(g) > 0 || len(g) > 0 {
			vsym.Assert(len(g) == 0 && cap(g) == size, "a new slice is empty and has the requested capacity")
		}
	}
}
