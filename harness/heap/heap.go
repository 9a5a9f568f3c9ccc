package heapx

import (
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/verifh/vsym"
)

type bag struct {
	v    []int
	live []bool
	n    int
}

func (b *bag) add(v int) {
	b.v = append(b.v, v)
	b.live = append(b.live, true)
	b.n++
}

// take removes one occurrence of v and reports whether there was one and it
// was a minimum under lt.
func (b *bag) take(v int, lt func(a, b int) bool) (bool, bool) {
	found, min := false, true
	for i := range b.v {
		min = vsym.And(min, vsym.Implies(b.live[i], !lt(b.v[i], v)))
		h := vsym.And(b.live[i], vsym.And(!found, b.v[i] == v))
		b.live[i] = vsym.And(b.live[i], !h)
		found = vsym.Or(found, h)
	}
	b.n--
	return found, min
}

func pop(h *gheap.Heap[int], b *bag, lt func(a, b int) bool) {
	found, min := b.take(gheap.Pop(h), lt)
	vsym.Assert(min, "no remaining element is less than the popped one")
	vsym.Assert(found, "the popped element is one of those supplied and not popped before")
}

func orders(c int) func(a, b int) bool {
	switch c {
	case 0:
		return func(a, b int) bool { return a < b }
	case 1:
		return func(a, b int) bool { return a > b }
	}
	return func(a, b int) bool { return a/4 < b/4 } // equivalent but distinct elements
}

func elem(name string) int { return int(vsym.U8(name)) }

// H_C06_drain: built from any data, drained.
func H_C06_drain() {
	c := vsym.Case(3 * vsym.Bound(6, 7))
	lt, n := orders(c%3), c/3
	b := &bag{}
	data := make([]int, n)
	for i := range data {
		data[i] = elem("d")
		b.add(data[i])
	}
	h := gheap.NewWithData(data, lt)
	for i := 0; i < n; i++ {
		pop(h, b, lt)
	}
	p, _ := vsym.Panics(func() { gheap.Pop(h) })
	vsym.Assert(p, "nothing is left after as many pops as elements")
}

// H_C06_push: pushes only, then drained.
func H_C06_push() {
	c := vsym.Case(3 * vsym.Bound(6, 7))
	lt, n := orders(c%3), c/3
	b := &bag{}
	h := gheap.New(lt)
	for i := 0; i < n; i++ {
		v := elem("d")
		gheap.Push(h, v)
		b.add(v)
	}
	for i := 0; i < n; i++ {
		pop(h, b, lt)
	}
}

// H_C06_mixed: any interleaving of pushes and pops over built data.
func H_C06_mixed() {
	c := vsym.Case(3 * 3)
	lt, n := orders(c%3), c/3
	b := &bag{}
	data := make([]int, n)
	for i := range data {
		data[i] = elem("d")
		b.add(data[i])
	}
	h := gheap.NewWithData(data, lt)
	steps := vsym.Bound(5, 7)
	for i := 0; i < steps; i++ {
		if b.n > 0 && vsym.Bool("pop") {
			pop(h, b, lt)
		} else if b.n < vsym.Bound(4, 5) {
			v := elem("d")
			gheap.Push(h, v)
			b.add(v)
		}
	}
	for b.n > 0 {
		pop(h, b, lt)
	}
}

// H_C06_large: a larger heap in a fixed arrangement with symbolic elements put in.
func H_C06_large() {
	vsym.Merge(false)
	c := vsym.Case(vsym.Bound(12, 24))
	lt := orders(c % 2)
	n := []int{9, 15, 16, 24, 33, 40}[c/2%6]
	b := &bag{}
	data := make([]int, n)
	for i := range data {
		data[i] = i * 7 % n * 3
		b.add(data[i])
	}
	h := gheap.NewWithData(data, lt)
	for i := 0; i < n/3; i++ {
		pop(h, b, lt)
	}
	v := vsym.Int("v", 0, 3*n)
	gheap.Push(h, v)
	b.add(v)
	if c >= 12 {
		pop(h, b, lt)
		v := vsym.Int("v", 0, 3*n)
		gheap.Push(h, v)
		b.add(v)
	}
	for b.n > 0 {
		pop(h, b, lt)
	}
}

// H_C06_pushlarge: many pushes, one of them symbolic.
func H_C06_pushlarge() {
	vsym.Merge(false)
	c := vsym.Case(12)
	lt := orders(c % 2)
	n := []int{9, 17, 24, 40, 65, 100}[c/2]
	b := &bag{}
	h := gheap.New(lt)
	at := n * 2 / 3
	for i := 0; i < n; i++ {
		v := i * 5 % n * 2
		if i == at {
			v = vsym.Int("v", 0, 2*n)
		}
		gheap.Push(h, v)
		b.add(v)
	}
	for b.n > 0 {
		pop(h, b, lt)
	}
}

// H_C06_mid: every size in between, in rising, falling and mixed arrangements
// with one symbolic element.
func H_C06_mid() {
	vsym.Merge(false)
	c := vsym.Case(12 * 3)
	n := 6 + c/3
	lt := orders(vsym.Pick("order", 0, 1))
	at := []int{0, n / 2, n - 1}[vsym.Pick("at", 0, 2)]
	b := &bag{}
	data := make([]int, n)
	for i := range data {
		data[i] = []int{2 * i, 2 * (n - i), i * 11 % n * 2}[c%3]
		if i == at {
			data[i] = vsym.Int("v", 0, 2*n)
		}
		b.add(data[i])
	}
	var h *gheap.Heap[int]
	if vsym.Pick("push", 0, 1) == 0 {
		h = gheap.NewWithData(data, lt)
	} else {
		h = gheap.New(lt)
		for _, x := range data {
			gheap.Push(h, x)
		}
	}
	for b.n > 0 {
		pop(h, b, lt)
	}
}
