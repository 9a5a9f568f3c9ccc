package lists

import (
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C07_apart: lists in use at the same time; a removed element keeps its
// value while others are made.
func H_C07_apart() {
	x := int(vsym.I64("x"))
	type res struct {
		l    *glist.List[int]
		gone *glist.Element[int]
		val  any
	}
	vapart.Apart(vsym.Case(2) == 1, 3, func(i int) res {
		l := glist.New[int]()
		a := l.PushBack(x)
		l.PushFront(i)
		b := l.InsertAfter(i+10, a)
		v := l.Remove(a)
		l.PushBack(i + 20)
		l.MoveToFront(b)
		return res{l, a, v}
	}, func(i int, r res) bool {
		want := []int{i + 10, i, i + 20}
		ok := vsym.And(r.gone.Value == x, r.val == any(x))
		ok = vsym.And(ok, r.gone.Next() == nil && r.gone.Prev() == nil)
		if r.l.Len() != 3 {
			return false
		}
		e := r.l.Front()
		for k := range want {
			if e == nil || e.Value != want[k] {
				return false
			}
			e = e.Next()
		}
		return vsym.And(ok, e == nil)
	})
}

// H_C08_apart: rings in use at the same time.
func H_C08_apart() {
	x := int(vsym.I64("x"))
	type res struct{ r, gone *gring.Ring[int] }
	vapart.Apart(vsym.Case(2) == 1, 3, func(i int) res {
		r := gring.New[int](3 + i)
		p := r
		for k := 0; k < 3+i; k++ {
			p.Value = x + k
			p = p.Next()
		}
		g := r.Unlink(1)
		return res{r, g}
	}, func(i int, s res) bool {
		if s.r.Len() != 2+i || s.gone.Len() != 1 {
			return false
		}
		ok := vsym.And(s.gone.Value == x+1, s.r.Value == x)
		p := s.r.Next()
		for k := 2; k < 3+i; k++ {
			ok = vsym.And(ok, p.Value == x+k)
			p = p.Next()
		}
		return ok
	})
}

// H_C09_apart: queues in turn and at the same time.
func H_C09_apart() {
	x := int(vsym.I64("x"))
	if c := vsym.Case(3); c < 2 {
		vapart.Apart(c == 1, 3, func(i int) *gqueue.Queue[int] {
			q := gqueue.Gen([]int{i, x})
			q.Push(7)
			v, err := q.Pop()
			vsym.Assert(v == i && err == nil, "elements come out in the order they went in")
			q.Push(x + i)
			return q
		}, func(i int, q *gqueue.Queue[int]) bool {
			qsame(q, []int{x, 7, x + i})
			return true
		})
		return
	}
	var q [2]*gqueue.Queue[int]
	var want [2][]int
	for i := range q {
		q[i] = gqueue.New[int]()
	}
	for i := 0; i < 6; i++ {
		want[i%2] = qstep(q[i%2], want[i%2], vsym.Pick("op", 0, 1))
	}
	qsame(q[0], want[0])
	qsame(q[1], want[1])
}
