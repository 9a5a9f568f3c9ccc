package mrx

import (
	"context"
	"errors"
	"sync/atomic"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"github.com/miniLCT/gosb/verifh/vsym"
)

var (
	errA = errors.New("a")
	errB = errors.New("b")
)

// seen is the error a call that was cancelled with err reports.
func seen(err error) error {
	if err == nil {
		return mr.ErrCancelWithNil
	}
	return err
}

// pickErr draws a cancellation error or nil.
func pickErr(e error) error {
	if vsym.Pick("withErr", 0, 1) == 1 {
		return e
	}
	return nil
}

// H_C20_mapper: mappers cancel, before or after writing.
func H_C20_mapper() {
	c := vsym.Case(8)
	n, workers := 1+c%2, 1+(c/2)%2
	both := c/4 == 1 && n == 2
	ea := pickErr(errA)
	first := vsym.Pick("order", 0, 1) == 1
	var called [2]bool
	var firstErr error
	_, err := mr.MapReduce(items(n), func(i int, w mr.Writer[int], cancel func(error)) {
		if first && (i == 0 || n < 2 || workers < 2 || vsym.Thorough()) {
			w.Write(i)
		}
		if i == 0 {
			if workers == 1 && !called[1] {
				firstErr = seen(ea)
			}
			called[0] = true
			cancel(ea)
		} else if both {
			if workers == 1 && !called[0] {
				firstErr = errB
			}
			called[1] = true
			cancel(errB)
		}
		if !first || n < 2 || workers < 2 || vsym.Thorough() {
			w.Write(i)
		}
	}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
		s := 0
		for x := range pipe {
			s += x
		}
		w.Write(s)
	}, mr.WithWorkers(workers))
	vsym.Assert(err != nil, "a cancelled call reports an error")
	ok := err == seen(ea)
	if both {
		ok = ok || err == errB
	}
	vsym.Assert(ok, "the error reported is a cancellation error of this call")
	settled("all goroutines end")
	if workers == 1 {
		vsym.Assert(err == firstErr, "the first cancellation error is reported")
	}
}

// H_C20_reducer: the reducer cancels.
func H_C20_reducer() {
	c := vsym.Case(24)
	n, stop := c%3, (c/3)%2
	after := (c/6)%2 == 1 // write after the cancel
	var e error
	if c/12 == 1 {
		e = errA
	}
	v, err := mr.MapReduce(items(n), func(i int, w mr.Writer[int], cancel func(error)) {
		w.Write(i)
	}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
		for k := 0; k < stop; k++ {
			<-pipe
		}
		cancel(e)
		if after {
			w.Write(5)
		}
	}, mr.WithWorkers(2))
	vsym.Assert(err == seen(e) && v == 0, "the reducer's cancellation error is reported")
	settled("all goroutines end")
}

// H_C20_race: a mapper cancels while the reducer writes its value.
func H_C20_race() {
	workers := 1 + vsym.Case(2)
	e := pickErr(errA)
	v, err := mr.MapReduce(items(1), func(i int, w mr.Writer[int], cancel func(error)) {
		cancel(e)
	}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
		w.Write(5)
	}, mr.WithWorkers(workers))
	vsym.Assert((err == nil && v == 5) || (err == seen(e) && v == 0), "the value or the cancellation error is returned")
	settled("all goroutines end")
}

// H_C20_context: the context ends before or during the call.
func H_C20_context() {
	c := vsym.Case(8)
	void, n, workers := c%2 == 1, 1+(c/2)%2, 1+c/4
	ctx := &manual{done: make(chan struct{})}
	early := vsym.Pick("early", 0, 1) == 1
	if early {
		close(ctx.done)
	}
	write := vsym.Pick("write", 0, 1) == 1
	gen := items(n)
	if early {
		n = 1
		gen = items(1)
	}
	mapper := func(i int, w mr.Writer[int], cancel func(error)) {
		if i == 0 && !early {
			close(ctx.done)
		}
		if write {
			w.Write(i)
		}
	}
	var err error
	if void {
		err = mr.MapReduceVoid(gen, mapper, func(pipe <-chan int, cancel func(error)) {
			for range pipe {
			}
		}, mr.WithWorkers(workers), mr.WithContext(ctx))
	} else {
		_, err = mr.MapReduce(gen, mapper, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
			s := 0
			for x := range pipe {
				s += x
			}
			w.Write(s)
		}, mr.WithWorkers(workers), mr.WithContext(ctx))
	}
	vsym.Assert(errors.Is(err, context.DeadlineExceeded), "the end of the context is reported")
	settled("all goroutines end")
}

// H_C20_outside: the context ends at any moment.
func H_C20_outside() {
	c := vsym.Case(2)
	ctx := &manual{done: make(chan struct{})}
	go func() { close(ctx.done) }()
	if c == 1 {
		var ran int32
		err := mr.MapReduceVoid(items(1), func(i int, w mr.Writer[int], cancel func(error)) {
			atomic.AddInt32(&ran, 1)
			w.Write(i + 1)
		}, func(pipe <-chan int, cancel func(error)) {
			if _, ok := <-pipe; ok {
				atomic.AddInt32(&ran, 1)
			}
		}, mr.WithContext(ctx))
		vsym.Assert(errors.Is(err, context.DeadlineExceeded) || err == nil && atomic.LoadInt32(&ran) == 2,
			"success only when the item was processed and its output consumed")
	} else {
		v, err := mr.MapReduce(items(1), func(i int, w mr.Writer[int], cancel func(error)) {
			w.Write(i + 1)
		}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
			s := 0
			for x := range pipe {
				s += x
			}
			w.Write(s)
		}, mr.WithContext(ctx))
		vsym.Assert(errors.Is(err, context.DeadlineExceeded) && v == 0 || err == nil && v == 1,
			"the full result or the end of the context is reported")
	}
	settled("all goroutines end")
}

// H_C20_finish: functions run together report the first error.
func H_C20_finish() {
	c := vsym.Case(4)
	fails := [2]bool{c&1 == 1, c&2 == 2}
	var ran [2]bool
	fn := func(i int, e error) func() error {
		return func() error {
			ran[i] = true
			if fails[i] {
				return e
			}
			return nil
		}
	}
	err := mr.Finish(fn(0, errA), fn(1, errB))
	if c == 0 {
		vsym.Assert(err == nil && ran[0] && ran[1], "without errors every function runs")
	} else {
		vsym.Assert(fails[0] && err == errA || fails[1] && err == errB, "an error is reported")
	}
	vsym.Assert(mr.Finish() == nil, "no function, no error")
	settled("all goroutines end")
}

// H_C20_void: the form without result reports cancellations too.
func H_C20_void() {
	c := vsym.Case(8)
	n, place, after := 1+c%2, (c/2)%2, c/4 == 1
	e := pickErr(errA)
	err := mr.MapReduceVoid(items(n), func(i int, w mr.Writer[int], cancel func(error)) {
		if place == 0 && i == n-1 {
			cancel(e)
		}
		if place == 1 || after {
			w.Write(i)
		}
	}, func(pipe <-chan int, cancel func(error)) {
		if place == 1 && !after {
			cancel(e)
		}
		for range pipe {
		}
		if place == 1 && after {
			cancel(e)
		}
	}, mr.WithWorkers(2))
	vsym.Assert(err == seen(e), "a cancelled call without result reports its error")
	settled("all goroutines end")
}
