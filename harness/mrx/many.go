package mrx

import (
	"context"
	"sync/atomic"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// Calls with many items and workers, over the schedules that deviate at most
// a given number of times from three fixed ones.

// crowd draws a number of workers (0 leaves the default) and a fixed schedule.
func crowd(c int) (n, limit int, opts []mr.Option) {
	vsym.Race(true)
	w := []int{0, 1, 3, 20, 2}[c%5]
	n, limit = vsym.Bound(20, 36), 16
	delays := vsym.Bound(0, 1)
	if c%5 == 4 {
		n, delays = 6, vsym.Bound(1, 2)
	}
	if w > 0 {
		opts, limit = append(opts, mr.WithWorkers(w)), w
	}
	vsym.Delays(delays, c/5%3)
	return n, limit, opts
}

// H_C19_many: every item once, every output once.
func H_C19_many() {
	c := vsym.Case(15 * 3)
	n, _, opts := crowd(c)
	in := make([]int64, n)
	want := int64(7)
	for i := range in {
		in[i] = int64(i) << 20
		if i == n/2 {
			in[i] = vsym.I64("in")
		}
		want += 2*in[i] + int64(i)
	}
	calls := make([]int, n)
	switch c / 15 {
	case 0:
		v, err := mr.MapReduce(items(n), func(i int, w mr.Writer[int64], cancel func(error)) {
			calls[i]++
			w.Write(in[i])
			w.Write(in[i] + int64(i))
		}, func(pipe <-chan int64, w mr.Writer[int64], cancel func(error)) {
			sum := int64(7)
			for x := range pipe {
				sum += x
			}
			w.Write(sum)
		}, opts...)
		vsym.Assert(err == nil && v == want, "the call returns the sum of all outputs")
	case 1:
		mr.ForEach(items(n), func(i int) { calls[i]++ }, opts...)
	case 2:
		fs := make([]func() error, n)
		for i := range fs {
			i := i
			fs[i] = func() error { calls[i]++; return nil }
		}
		vsym.Assert(mr.Finish(fs...) == nil, "no error without failures")
	}
	for i := range calls {
		vsym.Assert(calls[i] == 1, "every item is mapped exactly once")
	}
	settled("all goroutines end")
}

// H_C20_many: one mapper among many cancels.
func H_C20_many() {
	c := vsym.Case(15)
	n, _, opts := crowd(c)
	at := vsym.Pick("at", 0, n-1)
	_, err := mr.MapReduce(items(n), func(i int, w mr.Writer[int], cancel func(error)) {
		if i == at {
			cancel(errA)
			return
		}
		w.Write(i)
	}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
		s := 0
		for x := range pipe {
			s += x
		}
		w.Write(s)
	}, opts...)
	vsym.Assert(err == errA, "the cancellation error is returned")
	settled("all goroutines end")
}

// H_C20_crowd: the context ends while many mappers run.
func H_C20_crowd() {
	c := vsym.Case(15)
	n, _, opts := crowd(c)
	m := &manual{make(chan struct{})}
	at := vsym.Pick("at", 0, n-1)
	_, err := mr.MapReduce(items(n), func(i int, w mr.Writer[int], cancel func(error)) {
		if i == at {
			close(m.done)
			cancel(nil)
		}
		w.Write(i)
	}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
		s := 0
		for x := range pipe {
			s += x
		}
		w.Write(s)
	}, append(opts, mr.WithContext(m))...)
	vsym.Assert(err == context.DeadlineExceeded || err == mr.ErrCancelWithNil, "a call that was cut off is an error")
	settled("all goroutines end")
}

// H_C21_many: one mapper among many panics.
func H_C21_many() {
	c := vsym.Case(30)
	n, _, opts := crowd(c)
	at := vsym.Pick("at", 0, n-1)
	p, v := vsym.Panics(func() {
		if c/15 == 0 {
			mr.ForEach(items(n), func(i int) {
				if i == at {
					panic("mapper")
				}
			}, opts...)
			return
		}
		mr.MapReduce(items(n), func(i int, w mr.Writer[int], cancel func(error)) {
			if i == at {
				panic("mapper")
			}
			w.Write(i)
		}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
			for range pipe {
			}
			w.Write(1)
		}, opts...)
	})
	s, _ := v.(string)
	vsym.Assert(p && s == "mapper", "the panic reaches the caller")
	settled("all goroutines end")
}

// H_C22_many: many items, many workers.
func H_C22_many() {
	c := vsym.Case(15)
	n, limit, opts := crowd(c)
	n += 14
	var now, done int32
	mr.ForEach(items(n), func(i int) {
		k := atomic.AddInt32(&now, 1)
		vsym.Assert(int(k) <= limit, "no more mapper calls in progress than workers")
		vsym.Yield()
		atomic.AddInt32(&now, -1)
		atomic.AddInt32(&done, 1)
	}, opts...)
	vsym.Assert(atomic.LoadInt32(&now) == 0 && int(atomic.LoadInt32(&done)) == n, "every mapper call has finished when ForEach returns")
	settled("all goroutines end")
}
