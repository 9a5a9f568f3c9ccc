package rbtx

import (
	"github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vmodels"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C01_apart: two trees in turn, and trees in use at the same time.
func H_C01_apart() {
	if vsym.Case(2) == 0 {
		t := [2]*rbt.RbTree[int, int]{rbt.New[int, int](less), rbt.New[int, int](less)}
		var m [2]vmodels.AMap
		for i := range t {
			for k := 0; k < 3; k++ {
				step(t[i], &m[i], 0, k*50+i*7, k)
			}
		}
		for i := 0; i < 3; i++ {
			step(t[i%2], &m[i%2], vsym.Pick("op", 0, 1), key("k"), 40+i)
		}
		same(t[0], &m[0])
		same(t[1], &m[1])
		return
	}
	x := vsym.Int("x", 1, 100)
	vapart.Apart(true, 3, func(i int) *rbt.RbTree[int, int] {
		t := rbt.New[int, int](less)
		for k := 0; k < 6; k++ {
			t.Insert(k*k%7+i, x+k)
		}
		t.Delete(1 + i)
		t.Delete(4 + i)
		return t
	}, func(i int, t *rbt.RbTree[int, int]) bool {
		var m vmodels.AMap
		for k := 0; k < 6; k++ {
			m.Put(k*k%7+i, x+k)
		}
		m.Del(1 + i)
		m.Del(4 + i)
		same(t, &m)
		return true
	})
}
