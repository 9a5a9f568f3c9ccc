package mrx

import (
	"sync/atomic"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C22_limit: mapper calls in progress never exceed the worker count.
func H_C22_limit() {
	c := vsym.Case(10)
	workers, form := c%5-1, c/5
	limit := workers
	if limit < 1 {
		limit = 1
	}
	n := limit + 1
	if n > 3 {
		n = 3
	}
	var now, done int32
	body := func() {
		k := atomic.AddInt32(&now, 1)
		vsym.Assert(int(k) <= limit, "no more mapper calls in progress than workers")
		atomic.AddInt32(&now, -1)
	}
	if form == 0 {
		mr.ForEach(items(n), func(i int) {
			body()
			atomic.AddInt32(&done, 1)
		}, mr.WithWorkers(workers))
		vsym.Assert(atomic.LoadInt32(&now) == 0 && int(atomic.LoadInt32(&done)) == n, "every mapper call has finished when ForEach returns")
	} else {
		mr.MapReduceVoid(items(n), func(i int, w mr.Writer[int], cancel func(error)) {
			body()
		}, func(pipe <-chan int, cancel func(error)) {
			for range pipe {
			}
		}, mr.WithWorkers(workers))
	}
	settled("all goroutines end")
}

// H_C22_gate: mapper calls that wait are counted when nothing else can move.
// As many as there are workers are let in, and the run-all forms let all in.
func H_C22_gate() {
	c := vsym.Case(9 * 3)
	w := []int{0, 1, 2, 5, 20, 40, 3, 9, 17}[c%9]
	n, limit := 45, w
	var opts []mr.Option
	if w == 0 {
		limit = 16
	} else {
		opts = append(opts, mr.WithWorkers(w))
	}
	vsym.Delays(vsym.Bound(0, 1), c/9)
	form := vsym.Pick("form", 0, 3)
	if form > 1 {
		n = limit
	}
	gate := make(chan struct{})
	var now, done int32
	body := func() {
		atomic.AddInt32(&now, 1)
		<-gate
		atomic.AddInt32(&now, -1)
		atomic.AddInt32(&done, 1)
	}
	fin := make(chan struct{})
	go func() {
		switch form {
		case 0:
			mr.ForEach(items(n), func(i int) { body() }, opts...)
		case 1:
			mr.MapReduceVoid(items(n), func(i int, w mr.Writer[int], cancel func(error)) {
				body()
				w.Write(i)
			}, func(pipe <-chan int, cancel func(error)) {
				for range pipe {
				}
			}, opts...)
		case 2:
			fs := make([]func(), n)
			for i := range fs {
				fs[i] = body
			}
			mr.FinishVoid(fs...)
		case 3:
			fs := make([]func() error, n)
			for i := range fs {
				fs[i] = func() error { body(); return nil }
			}
			mr.Finish(fs...)
		}
		close(fin)
	}()
	vsym.Quiesce()
	k := int(atomic.LoadInt32(&now))
	vsym.Assert(k <= limit, "no more mapper calls in progress than workers")
	vsym.Assert(form < 2 || k == n, "functions run together are all in progress together")
	close(gate)
	<-fin
	vsym.Assert(int(atomic.LoadInt32(&done)) == n, "every mapper call has finished when the call returns")
	settled("all goroutines end")
}
