package mrx

import (
	"context"
	"errors"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// manual is a context that is cancelled by closing its channel.
type manual struct{ done chan struct{} }

func (m *manual) Deadline() (time.Time, bool) { return time.Time{}, false }
func (m *manual) Done() <-chan struct{}       { return m.done }
func (m *manual) Err() error {
	select {
	case <-m.done:
		return context.Canceled
	default:
		return nil
	}
}
func (m *manual) Value(any) any { return nil }

func items(n int) mr.GenerateFunc[int] {
	return func(source chan<- int) {
		for i := 0; i < n; i++ {
			source <- i
		}
	}
}

// settled: every goroutine started by the call has ended.
func settled(msg string) {
	vsym.Quiesce()
	vsym.Assert(vsym.Blocked() == 0, msg)
}

// H_C19_mapreduce: items, outputs and the result, under every schedule.
func H_C19_mapreduce() {
	c := vsym.Case(6)
	n, workers := c%3, 1+c/3
	var in [3]int64
	for i := range in {
		in[i] = vsym.I64("in")
	}
	writes := vsym.Pick("writes", 0, 2) // outputs of item 0
	var calls [3]int
	var got int
	var sum int64
	v, err := mr.MapReduce(items(n), func(i int, w mr.Writer[int64], cancel func(error)) {
		calls[i]++
		if i > 0 {
			w.Write(in[i])
			return
		}
		for k := 0; k < writes; k++ {
			w.Write(in[0] + int64(k))
		}
	}, func(pipe <-chan int64, w mr.Writer[int64], cancel func(error)) {
		for x := range pipe {
			got++
			sum += x
		}
		w.Write(sum + 7)
	}, mr.WithWorkers(workers))
	want, outs := int64(0), 0
	for i := 0; i < n; i++ {
		vsym.Assert(calls[i] == 1, "every item is mapped exactly once")
		if i > 0 {
			want += in[i]
			outs++
		}
	}
	if n > 0 {
		for k := 0; k < writes; k++ {
			want += in[0] + int64(k)
			outs++
		}
	}
	vsym.Assert(got == outs, "every output reaches the reducer exactly once")
	vsym.Assert(err == nil && v == want+7, "the reducer's value is returned")
	settled("all goroutines end")
}

// H_C19_nowrite: a reducer that writes nothing.
func H_C19_nowrite() {
	n := vsym.Case(3)
	early := vsym.Pick("early", 0, 1) == 1
	v, err := mr.MapReduce(items(n), func(i int, w mr.Writer[int], cancel func(error)) {
		w.Write(i)
	}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
		if early {
			return
		}
		for range pipe {
		}
	}, mr.WithWorkers(2))
	vsym.Assert(errors.Is(err, mr.ErrReduceNoOutput) && v == 0, "no output is reported")
	settled("all goroutines end")
}

// H_C19_foreach: the iterate-only and run-all forms call everything exactly once.
func H_C19_foreach() {
	c := vsym.Case(8)
	n, form := c%4, c/4
	var calls [3]int
	if form == 0 {
		w := vsym.Pick("workers", 1, 3)
		mr.ForEach(items(n), func(i int) { calls[i]++ }, mr.WithWorkers(w))
	} else {
		var fs []func()
		for i := 0; i < n; i++ {
			i := i
			fs = append(fs, func() { calls[i]++ })
		}
		mr.FinishVoid(fs...)
	}
	for i := range calls {
		want := 0
		if i < n {
			want = 1
		}
		vsym.Assert(calls[i] == want, "every item is handled exactly once before the call returns")
	}
	settled("all goroutines end")
}

// H_C19_void: the form without result, with a reducer that reads everything,
// some or none of the outputs.
func H_C19_void() {
	c := vsym.Case(9)
	n, take := c%3, c/3
	var in [2]int64
	for i := range in {
		in[i] = vsym.I64("in")
	}
	var calls [2]int
	var got int
	var sum int64
	err := mr.MapReduceVoid(items(n), func(i int, w mr.Writer[int64], cancel func(error)) {
		calls[i]++
		w.Write(in[i])
	}, func(pipe <-chan int64, cancel func(error)) {
		for got < take {
			x, ok := <-pipe
			if !ok {
				break
			}
			got++
			sum += x
		}
	}, mr.WithWorkers(2))
	vsym.Assert(err == nil, "no error without failures")
	for i := 0; i < 2; i++ {
		vsym.Assert(calls[i] == 1 == (i < n) && calls[i] <= 1, "every item is mapped exactly once")
	}
	k := n
	if take < k {
		k = take
	}
	vsym.Assert(got == k, "the reducer receives the outputs")
	if k == n && n > 0 {
		w := in[0]
		if n == 2 {
			w += in[1]
		}
		vsym.Assert(sum == w, "every output reaches the reducer exactly once")
	}
	settled("all goroutines end")
}

// H_C19_chan: items from a channel of the caller, buffered or not; the reducer
// may answer before it has read all outputs.
func H_C19_chan() {
	c := vsym.Case(8)
	n, buffered, early := c%2+1, (c/2)%2 == 1, c/4 == 1
	var in [2]int64
	for i := range in {
		in[i] = vsym.I64("in")
	}
	var src chan int
	if buffered {
		src = make(chan int, n)
		for i := 0; i < n; i++ {
			src <- i
		}
		close(src)
	} else {
		src = make(chan int)
		go func() {
			for i := 0; i < n; i++ {
				src <- i
			}
			close(src)
		}()
	}
	var calls [2]int
	v, err := mr.MapReduceChan(src, func(i int, w mr.Writer[int64], cancel func(error)) {
		calls[i]++
		w.Write(in[i])
	}, func(pipe <-chan int64, w mr.Writer[int64], cancel func(error)) {
		var sum int64
		if early {
			w.Write(9)
		}
		for x := range pipe {
			sum += x
		}
		if !early {
			w.Write(sum)
		}
	}, mr.WithWorkers(2))
	want := in[0]
	if n == 2 {
		want += in[1]
	}
	if early {
		want = 9
	}
	vsym.Assert(err == nil && v == want, "the reducer's value is returned")
	for i := 0; i < n; i++ {
		vsym.Assert(calls[i] == 1, "every item is mapped exactly once")
	}
	settled("all goroutines end")
}
