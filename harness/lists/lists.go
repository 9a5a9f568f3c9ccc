package lists

import (
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/verifh/vsym"
)

type el = glist.Element[int]
type ls = glist.List[int]

// ref is the reference: the list and the elements it should hold, in order.
type ref struct {
	l *ls
	e []*el
}

func (r *ref) at(e *el) int {
	for i, x := range r.e {
		if x == e {
			return i
		}
	}
	return -1
}

func (r *ref) ins(i int, e *el) {
	r.e = append(r.e, nil)
	copy(r.e[i+1:], r.e[i:])
	r.e[i] = e
}

func (r *ref) del(i int) { r.e = append(append([]*el{}, r.e[:i]...), r.e[i+1:]...) }

// check compares the list, walked both ways, with the reference.
func (r *ref) check() {
	l := r.l
	vsym.Assert(l.Len() == len(r.e), "the length matches")
	p := l.Front()
	for _, e := range r.e {
		vsym.Assert(p == e, "walking forward yields the described sequence")
		p = p.Next()
	}
	vsym.Assert(p == nil, "walking forward ends after the last element")
	p = l.Back()
	for i := len(r.e) - 1; i >= 0; i-- {
		vsym.Assert(p == r.e[i], "walking backward yields the reverse")
		p = p.Prev()
	}
	vsym.Assert(p == nil, "walking backward ends before the first element")
	i := 0
	l.Range(func(e *el) {
		vsym.Assert(i < len(r.e), "Range visits each element once")
		vsym.Assert(r.e[i] == e, "Range visits the elements in order")
		i++
	})
	vsym.Assert(i == len(r.e), "Range visits every element")
}

type world struct {
	a, b ref
	all  []*el // every element ever made
	val  map[*el]int
}

func newWorld(zero bool) *world {
	w := &world{val: map[*el]int{}}
	if zero {
		w.a.l, w.b.l = new(ls), new(ls)
	} else {
		w.a.l, w.b.l = glist.New[int](), glist.New[int]()
	}
	return w
}

func (w *world) fresh(e *el, v int) {
	vsym.Assert(e != nil, "insertion returns the new element")
	for _, x := range w.all {
		vsym.Assert(x != e, "insertion makes a new element")
	}
	w.all = append(w.all, e)
	w.val[e] = v
}

func (w *world) push(r *ref, back bool) {
	v := int(vsym.I64("v"))
	if back {
		e := r.l.PushBack(v)
		w.fresh(e, v)
		r.ins(len(r.e), e)
	} else {
		e := r.l.PushFront(v)
		w.fresh(e, v)
		r.ins(0, e)
	}
}

func (w *world) pick(name string) *el {
	return w.all[vsym.Pick(name, 0, len(w.all)-1)]
}

// op applies operation k to list r.
func (w *world) op(r, o *ref, k int) {
	if k >= 2 && k <= 8 && len(w.all) == 0 {
		return
	}
	v := int(vsym.I64("v"))
	switch k {
	case 0, 1:
		w.push(r, k == 0)
	case 2:
		m := w.pick("m")
		e, i := r.l.InsertBefore(v, m), r.at(m)
		if i < 0 {
			vsym.Assert(e == nil, "inserting at a foreign mark inserts nothing")
		} else {
			w.fresh(e, v)
			r.ins(i, e)
		}
	case 3:
		m := w.pick("m")
		e, i := r.l.InsertAfter(v, m), r.at(m)
		if i < 0 {
			vsym.Assert(e == nil, "inserting at a foreign mark inserts nothing")
		} else {
			w.fresh(e, v)
			r.ins(i+1, e)
		}
	case 4:
		m := w.pick("m")
		i := r.at(m)
		got := r.l.Remove(m)
		vsym.Assert(got == any(w.val[m]), "Remove returns the element's value")
		if i >= 0 {
			r.del(i)
			vsym.Assert(m.Next() == nil && m.Prev() == nil, "a removed element has no neighbours")
		}
		vsym.Assert(m.Value == w.val[m], "a removed element keeps its value")
	case 5:
		m := w.pick("m")
		i := r.at(m)
		r.l.MoveToFront(m)
		if i >= 0 {
			r.del(i)
			r.ins(0, m)
		}
	case 6:
		m := w.pick("m")
		i := r.at(m)
		r.l.MoveToBack(m)
		if i >= 0 {
			r.del(i)
			r.ins(len(r.e), m)
		}
	case 7, 8:
		m, q := w.pick("m"), w.pick("q")
		i, j := r.at(m), r.at(q)
		if k == 7 {
			r.l.MoveBefore(m, q)
		} else {
			r.l.MoveAfter(m, q)
		}
		if i >= 0 && j >= 0 && m != q {
			r.del(i)
			j = r.at(q)
			if k == 8 {
				j++
			}
			r.ins(j, m)
		}
	case 9, 10, 11, 12:
		if k >= 11 {
			o = r
		}
		src := append([]*el{}, o.e...)
		if k%2 == 1 {
			r.l.PushBackList(o.l)
		} else {
			r.l.PushFrontList(o.l)
		}
		n := len(r.e)
		vsym.Assert(r.l.Len() == n+len(src), "concatenation adds a copy of the list once")
		if k%2 == 1 {
			p := r.l.Back()
			add := make([]*el, len(src))
			for i := len(src) - 1; i >= 0; i-- {
				vsym.Assert(p != nil && p.Value == w.val[src[i]], "concatenation copies the values in order")
				add[i] = p
				p = p.Prev()
			}
			for i, e := range add {
				w.fresh(e, w.val[src[i]])
				r.ins(len(r.e), e)
			}
		} else {
			p := r.l.Front()
			for i := range src {
				vsym.Assert(p != nil && p.Value == w.val[src[i]], "concatenation copies the values in order")
				w.fresh(p, w.val[src[i]])
				r.ins(i, p)
				p = p.Next()
			}
		}
	case 13:
		if len(r.e) == 0 { // only an empty list: the others' elements would keep their owner
			r.l.Init()
		}
	}
}

func (w *world) check() {
	w.a.check()
	w.b.check()
	good := true
	for _, e := range w.all {
		good = good && e.Value == w.val[e]
	}
	vsym.Assert(good, "elements keep their values")
	for _, e := range w.all {
		if w.a.at(e) < 0 && w.b.at(e) < 0 {
			vsym.Assert(e.Next() == nil && e.Prev() == nil, "a removed element has no neighbours")
		}
	}
}

// H_C07_history: any operations on two small lists.
func H_C07_history() {
	c := vsym.Case(14 * 3)
	k, start := c%14, c/14
	w := newWorld(start == 0)
	for i := 0; i < start+1; i++ {
		if start == 0 {
			break
		}
		w.push(&w.a, true)
	}
	if start == 2 {
		w.push(&w.b, true)
	}
	n := vsym.Bound(2, 3)
	if start == 0 {
		n = vsym.Bound(3, 4)
	}
	for i := 0; i < n; i++ {
		r, o := &w.a, &w.b
		if i == 0 {
			w.op(r, o, k)
		} else {
			if vsym.Bool("other") {
				r, o = o, r
			}
			w.op(r, o, vsym.Pick("op", 0, 13))
		}
	}
	w.check()
}

// H_C07_large: single operations anywhere in longer lists.
func H_C07_large() {
	c := vsym.Case(14 * 4)
	k, n := c%14, []int{5, 9, 17, 40}[c/14]
	w := newWorld(c%2 == 0)
	for i := 0; i < n; i++ {
		w.push(&w.a, i%3 != 0)
	}
	w.push(&w.b, true)
	w.push(&w.b, false)
	w.op(&w.a, &w.b, k)
	if n < 40 {
		w.op(&w.a, &w.b, 4)
	}
	w.check()
}

// ---- gring ----

type rg = gring.Ring[int]

// rings is the reference: circular sequences of nodes.
type rings struct{ c [][]*rg }

func (s *rings) find(r *rg) (int, int) {
	for i, c := range s.c {
		for j, x := range c {
			if x == r {
				return i, j
			}
		}
	}
	return -1, -1
}

func (s *rings) rot(r *rg) []*rg {
	i, j := s.find(r)
	c := s.c[i]
	return append(append([]*rg{}, c[j:]...), c[:j]...)
}

func (s *rings) nodes() []*rg {
	var o []*rg
	for _, c := range s.c {
		o = append(o, c...)
	}
	return o
}

func (s *rings) check(deep bool) {
	for _, c := range s.c {
		n := len(c)
		for j, x := range c {
			vsym.Assert(x.Next() == c[(j+1)%n], "next goes round the documented order")
			vsym.Assert(x.Prev() == c[(j+n-1)%n], "prev is the inverse of next")
			if j == 0 || deep {
				vsym.Assert(x.Len() == n, "Len counts every element")
				i := j
				left := n
				x.Do(func(v any) {
					vsym.Assert(left > 0, "Do visits each element once")
					vsym.Assert(v == any(c[i].Value), "Do visits the elements in order from the receiver")
					i = (i + 1) % n
					left--
				})
				vsym.Assert(left == 0, "Do visits every element")
			}
		}
	}
}

// zero adds a zero-value ring element or a New ring of n.
func (s *rings) make(n int) {
	if n == 0 {
		s.c = append(s.c, []*rg{{Value: int(vsym.I64("v"))}})
		return
	}
	r := gring.New[int](n)
	vsym.Assert(r != nil, "New makes a ring")
	var c []*rg
	p := r
	for i := 0; i < n; i++ {
		p.Value = int(vsym.I64("v"))
		c = append(c, p)
		p = p.Next()
	}
	vsym.Assert(p == r, "New closes the ring")
	s.c = append(s.c, c)
}

func (s *rings) op(k int) {
	ns := s.nodes()
	r := ns[vsym.Pick("r", 0, len(ns)-1)]
	c := s.rot(r)
	n := len(c)
	switch k {
	case 0: // Move
		d := vsym.Pick("n", -n-2, n+2)
		vsym.Assert(r.Move(d) == c[((d%n)+n)%n], "Move goes n % Len elements forward or backward")
	case 1: // Link
		q := ns[vsym.Pick("s", 0, len(ns)-1)]
		ri, _ := s.find(r)
		qi, _ := s.find(q)
		next := c[1%n]
		got := r.Link(q)
		vsym.Assert(got == next, "Link returns the original next element")
		if ri != qi {
			d := s.rot(q)
			j := append(append([]*rg{r}, d...), c[1:]...)
			var o [][]*rg
			for i, x := range s.c {
				if i != ri && i != qi {
					o = append(o, x)
				}
			}
			s.c = append(o, j)
		} else {
			at := 0
			for i, x := range c {
				if x == q {
					at = i
				}
			}
			if at == 0 { // linking r to itself: r alone, all others form the subring
				s.c[ri] = []*rg{r}
				if n > 1 {
					s.c = append(s.c, c[1:])
				}
			} else {
				rem := c[1:at]
				s.c[ri] = append([]*rg{r}, c[at:]...)
				if len(rem) > 0 {
					s.c = append(s.c, rem)
				}
			}
		}
	case 2: // Unlink
		d := vsym.Pick("n", -1, 2*n+1)
		ri, _ := s.find(r)
		got := r.Unlink(d)
		if d <= 0 {
			vsym.Assert(got == nil, "Unlink of nothing returns nil")
			return
		}
		m := d % n
		vsym.Assert(got == c[1%n], "Unlink returns the removed subring")
		if m > 0 {
			s.c[ri] = append([]*rg{r}, c[1+m:]...)
			s.c = append(s.c, c[1:1+m])
		}
	case 3:
		got := r.Link(nil)
		vsym.Assert(got == c[1%n], "Link with nil returns the next element")
	case 4:
		if vsym.Bool("prev") {
			vsym.Assert(r.Prev() == c[n-1], "Prev on any ring")
		} else {
			vsym.Assert(r.Next() == c[1%n], "Next on any ring")
		}
	}
}

// H_C08_history: any operations on a few rings.
func H_C08_history() {
	c := vsym.Case(5 * 5)
	sz := [][]int{{0, 0}, {1, 3}, {0, 3}, {4}, {2, 2, 0}}[c/5]
	s := &rings{}
	for _, n := range sz {
		s.make(n)
	}
	s.op(c % 5)
	for i := 1; i < vsym.Bound(2, 3); i++ {
		s.op(vsym.Pick("op", 0, 4))
	}
	s.check(true)
}

// H_C08_large: one operation on larger rings.
func H_C08_large() {
	c := vsym.Case(3 * 5)
	s := &rings{}
	s.make([]int{7, 9, 17, 12, 33}[c/3])
	s.make([]int{5, 8, 0, 9, 3}[c/3])
	s.op(c % 3)
	s.check(false)
}

// H_C08_new: New of any size; nil and zero rings.
func H_C08_new() {
	n := vsym.Case(14) - 2
	if n <= 0 {
		vsym.Assert(gring.New[int](n) == nil, "New of n <= 0 is the empty ring")
		var z *rg
		vsym.Assert(z.Len() == 0, "the empty ring has no elements")
		z.Do(func(any) { vsym.Fail("Do on the empty ring calls nothing") })
		var r rg
		switch vsym.Pick("first", 0, 5) {
		case 0:
			vsym.Assert(r.Next() == &r, "the zero ring is its own next")
		case 1:
			vsym.Assert(r.Prev() == &r, "the zero ring is its own prev")
		case 2:
			vsym.Assert(r.Move(vsym.Pick("n", -2, 2)) == &r, "moving in the zero ring stays")
		case 3:
			vsym.Assert(r.Len() == 1, "the zero ring has one element")
		case 4:
			k := vsym.Pick("n", -1, 3)
			got := r.Unlink(k)
			vsym.Assert(k <= 0 && got == nil || k > 0 && got == &r, "unlinking from the zero ring removes nothing")
		case 5:
			vsym.Assert(r.Link(&r) == &r, "linking the zero ring to itself changes nothing")
		}
		s := &rings{c: [][]*rg{{&r}}}
		s.check(true)
		return
	}
	s := &rings{}
	s.make(n)
	s.check(true)
}

// ---- gqueue ----

func qsame(q *gqueue.Queue[int], want []int) {
	vsym.Assert(q.Len() == len(want), "the length matches")
	vsym.Assert(gqueue.IsEmpty(q) == (len(want) == 0), "IsEmpty matches")
	all := gqueue.PeekAll(q)
	vsym.Assert(len(all) == len(want), "PeekAll lists every element")
	good := true
	for i := range all {
		good = vsym.And(good, all[i] == want[i])
	}
	vsym.Assert(good, "PeekAll lists the elements in order")
	vsym.Assert(q.Len() == len(want), "PeekAll removes nothing")
}

func qstep(q *gqueue.Queue[int], want []int, op int) []int {
	switch op {
	case 0:
		v := int(vsym.I64("v"))
		vsym.Assert(q.Push(v) == nil, "Push succeeds")
		return append(want, v)
	case 1:
		v, err := q.Pop()
		if len(want) == 0 {
			vsym.Assert(err == gqueue.ErrorEmptyQueue, "Pop of the empty queue is the empty-queue error")
			vsym.Assert(v == 0, "Pop of the empty queue gives the zero value")
			return want
		}
		vsym.Assert(err == nil, "Pop of a non-empty queue succeeds")
		vsym.Assert(v == want[0], "elements come out in the order they went in")
		return want[1:]
	case 2:
		v, err := gqueue.Peek(q)
		if len(want) == 0 {
			vsym.Assert(err == gqueue.ErrorEmptyQueue, "Peek of the empty queue is the empty-queue error")
			vsym.Assert(v == 0, "Peek of the empty queue gives the zero value")
			return want
		}
		vsym.Assert(err == nil, "Peek of a non-empty queue succeeds")
		vsym.Assert(v == want[0], "Peek shows the next element")
		return want
	case 3:
		gqueue.Clear(q)
		return nil
	default:
		ch := gqueue.Iterator(q)
		i := 0
		for v := range ch {
			vsym.Assert(i < len(want), "iterating yields each element once")
			vsym.Assert(v == want[i], "iterating yields the elements in order")
			i++
		}
		vsym.Assert(i == len(want), "iterating yields all remaining elements")
		return nil
	}
}

// H_C09_history: any interleaving of the operations.
func H_C09_history() {
	c := vsym.Case(5 * 3)
	var q *gqueue.Queue[int]
	var want []int
	if c/5 == 0 {
		q = gqueue.New[int]()
	} else {
		for i := 0; i < c/5; i++ {
			want = append(want, int(vsym.I64("init")))
		}
		src := append([]int{}, want...)
		q = gqueue.Gen(src)
		for i := range src {
			src[i]++ // the queue must have its own copies
		}
	}
	want = qstep(q, want, c%5)
	for i := 1; i < vsym.Bound(5, 7); i++ {
		want = qstep(q, want, vsym.Pick("op", 0, 4))
	}
	qsame(q, want)
}

// H_C09_large: longer queues.
func H_C09_large() {
	n := []int{0, 8, 16, 17, 33, 65, 130, 300}[vsym.Case(8)]
	vsym.Unwind(1000)
	src := make([]int, n)
	for i := range src {
		src[i] = int(vsym.U8("v"))
	}
	q := gqueue.Gen(src)
	want := append([]int{}, src...)
	qsame(q, want)
	k := vsym.Pick("pops", 0, n)
	for i := 0; i < k; i++ {
		want = qstep(q, want, 1)
	}
	want = qstep(q, want, 0)
	qsame(q, want)
	want = qstep(q, want, 4)
	qsame(q, want)
}

// H_C08_far: moving and unlinking by many times the ring's length.
func H_C08_far() {
	vsym.Unwind(3000)
	c := vsym.Case(12)
	n := 1 + c%6
	s := &rings{}
	s.make(n)
	d := []int{63, 64, 65, 100, 127, 128, 129, 255, 257, 1000, 1023, 1025}[vsym.Pick("d", 0, 11)]
	r := s.c[0][vsym.Pick("r", 0, n-1)]
	k := s.rot(r)
	if c/6 == 0 {
		if vsym.Pick("back", 0, 1) == 1 {
			d = -d
		}
		vsym.Assert(r.Move(d) == k[((d%n)+n)%n], "Move goes n % Len elements forward or backward")
	} else {
		got := r.Unlink(d)
		m := d % n
		vsym.Assert(got == k[1%n], "Unlink returns the removed subring")
		if m > 0 {
			s.c = [][]*rg{append([]*rg{r}, k[1+m:]...), k[1 : 1+m]}
		}
	}
	s.check(true)
}
