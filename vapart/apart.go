package vapart

import (
	"sync"

	"github.com/miniLCT/gosb/verifh/vsym"
)

// Apart checks calls of f on n inputs against ok: one after another, when the
// results must also stay as they are, or (together) all at the same time.
func Apart[R any](together bool, n int, f func(i int) R, ok func(i int, r R) bool) {
	rs := make([]R, n)
	if together {
		vsym.Race(true)
		var wg sync.WaitGroup
		for i := range rs {
			i := i
			wg.Add(1)
			go func() {
				rs[i] = f(i)
				wg.Done()
			}()
		}
		wg.Wait()
		for i := range rs {
			vsym.Assert(ok(i, rs[i]), "calls at the same time do not disturb each other")
		}
		return
	}
	for i := range rs {
		rs[i] = f(i)
		vsym.Assert(ok(i, rs[i]), "a call does not depend on the calls before it")
	}
	for i := range rs {
		vsym.Assert(ok(i, rs[i]), "a result stays as it was handed out")
	}
	for i := n - 1; i >= 0; i-- {
		vsym.Assert(ok(i, f(i)), "a call does not depend on the calls before it")
	}
}
