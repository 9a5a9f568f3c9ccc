package mrx

import (
	"context"
	"errors"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C21_mapreduce: one of the functions panics, at every position.
func H_C21_mapreduce() {
	c := vsym.Case(9)
	place, workers := c%3, 1+(c/3)%2
	n := 1 + c/6
	at := 0
	if place == 0 || n == 2 {
		at = vsym.Pick("at", 0, n)
	}
	early := place != 2 && vsym.Pick("early", 0, 1) == 1 // the reducer writes before it reads
	read := place == 2 && vsym.Pick("read", 0, 1) == 1
	p, v := vsym.Panics(func() {
		mr.MapReduce(func(source chan<- int) {
			for i := 0; i < n; i++ {
				if place == 0 && i == at {
					panic("generator")
				}
				source <- i
			}
			if place == 0 && at == n {
				panic("generator")
			}
		}, func(i int, w mr.Writer[int], cancel func(error)) {
			if place == 1 && i == at%n {
				panic("mapper")
			}
			w.Write(i)
		}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
			if early {
				w.Write(1)
			}
			if place == 2 && !read {
				panic("reducer")
			}
			for range pipe {
			}
			if place == 2 {
				panic("reducer")
			}
			if !early {
				w.Write(1)
			}
		}, mr.WithWorkers(workers))
	})
	want := [3]string{"generator", "mapper", "reducer"}[place]
	s, _ := v.(string)
	vsym.Assert(p && s == want, "the panic reaches the caller")
	settled("all goroutines end")
}

// H_C21_two: two functions panic; one panic is delivered.
func H_C21_two() {
	c := vsym.Case(4)
	p, v := vsym.Panics(func() {
		mr.MapReduce(func(source chan<- int) {
			source <- 0
			if c == 3 {
				source <- 1
			}
			if c == 0 || c == 1 {
				panic("generator")
			}
		}, func(i int, w mr.Writer[int], cancel func(error)) {
			if c != 1 {
				panic("mapper")
			}
		}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
			if c == 1 || c == 2 {
				panic("reducer")
			}
			for range pipe {
			}
		}, mr.WithWorkers(2))
	})
	s, _ := v.(string)
	ok := s == "mapper" && c != 1 || s == "generator" && c <= 1 || s == "reducer" && (c == 1 || c == 2)
	vsym.Assert(p && ok, "one of the panics reaches the caller")
	settled("all goroutines end")
}

// H_C21_double: writing two values is reported by a panic.
func H_C21_double() {
	n := vsym.Case(2)
	p, _ := vsym.Panics(func() {
		mr.MapReduce(items(n), func(i int, w mr.Writer[int], cancel func(error)) {
			w.Write(i)
		}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
			w.Write(1)
			for range pipe {
			}
			w.Write(2)
		})
	})
	vsym.Assert(p, "a second value written by the reducer is not accepted")
	settled("all goroutines end")
}

// H_C21_foreach: the iterate-only and run-all forms.
func H_C21_foreach() {
	c := vsym.Case(4)
	both := vsym.Pick("both", 0, 1) == 1
	p, v := vsym.Panics(func() {
		switch c {
		case 0:
			mr.ForEach(func(source chan<- int) {
				source <- 0
				panic("p")
			}, func(i int) {
				if both {
					panic("p")
				}
			}, mr.WithWorkers(1))
		case 1:
			mr.ForEach(items(2), func(i int) {
				if i == 1 || both {
					panic("p")
				}
			}, mr.WithWorkers(2))
		case 2:
			mr.FinishVoid(func() { panic("p") }, func() {
				if both {
					panic("p")
				}
			})
		case 3:
			mr.Finish(func() error { panic("p") }, func() error {
				if both {
					panic("p")
				}
				return nil
			})
		}
	})
	s, _ := v.(string)
	vsym.Assert(p && s == "p", "the panic reaches the caller")
	settled("all goroutines end")
}

// H_C21_cancelled: a panic and a cancellation or the end of the context: the
// call comes back with either.
func H_C21_cancelled() {
	c := vsym.Case(6)
	place, byCtx := c%3, c/3 == 1
	ctx := &manual{done: make(chan struct{})}
	if byCtx {
		go func() { close(ctx.done) }()
	}
	var err error
	p, v := vsym.Panics(func() {
		_, err = mr.MapReduce(func(source chan<- int) {
			source <- 0
			if place == 0 {
				panic("p")
			}
		}, func(i int, w mr.Writer[int], cancel func(error)) {
			if !byCtx {
				cancel(errA)
			}
			if place == 1 {
				panic("p")
			}
		}, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) {
			if place == 2 {
				panic("p")
			}
			for range pipe {
			}
		}, mr.WithWorkers(1), mr.WithContext(ctx))
	})
	s, _ := v.(string)
	if byCtx {
		vsym.Assert(p && s == "p" || !p && errors.Is(err, context.DeadlineExceeded), "the panic or the end of the context is reported")
	} else {
		vsym.Assert(p && s == "p" || !p && err == errA, "the panic or the cancellation error is reported")
	}
	settled("all goroutines end")
}
