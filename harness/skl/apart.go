package skl

import (
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vmodels"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C04_apart: two lists in turn, and lists in use at the same time.
func H_C04_apart() {
	if vsym.Case(2) == 0 {
		levels(2)
		t := [2]*list{gskiplist.New[int, int](), gskiplist.New[int, int]()}
		var m [2]vmodels.AMap
		for i := 0; i < 3; i++ {
			step(t[i%2], &m[i%2], 0, key("k"), i)
		}
		step(t[1], &m[1], 1, key("k"), 0)
		for i := range t {
			content(t[i], &m[i])
			counts(t[i], &m[i])
		}
		return
	}
	fastrand.Uint64 = func() uint64 { return 1 << 1 }
	x := vsym.Int("x", 1, 100)
	vapart.Apart(true, 3, func(i int) *list {
		t := gskiplist.New[int, int]()
		for k := 0; k < 6; k++ {
			t.Insert(k*k%7+i, x+k)
		}
		t.Delete(1 + i)
		t.Delete(4 + i)
		return t
	}, func(i int, t *list) bool {
		var m vmodels.AMap
		for k := 0; k < 6; k++ {
			m.Put(k*k%7+i, x+k)
		}
		m.Del(1 + i)
		m.Del(4 + i)
		content(t, &m)
		return true
	})
}
