package heapx

import (
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C06_apart: two heaps in turn, and heaps in use at the same time.
func H_C06_apart() {
	lt := orders(0)
	if vsym.Case(2) == 0 {
		h := [2]*gheap.Heap[int]{gheap.New(lt), gheap.New(lt)}
		b := [2]*bag{{}, {}}
		for i := 0; i < 5; i++ {
			x := elem("x")
			gheap.Push(h[i%2], x)
			b[i%2].add(x)
		}
		for i := 0; i < 5; i++ {
			pop(h[i%2], b[i%2], lt)
		}
		return
	}
	x := vsym.Int("x", 1, 5)
	vapart.Apart(true, 3, func(i int) *gheap.Heap[int] {
		h := gheap.NewWithData([]int{5, x, i}, lt)
		gheap.Push(h, 2)
		return h
	}, func(i int, h *gheap.Heap[int]) bool {
		b := &bag{}
		for _, v := range []int{5, x, i, 2} {
			b.add(v)
		}
		for k := 0; k < 4; k++ {
			pop(h, b, lt)
		}
		return true
	})
}
