package vmodels

import (
	"sync"
	"time"

	"github.com/miniLCT/gosb/verifh/vsym"
)

// NowNS is the clock of the code under test, in nanoseconds; harnesses set it.
var NowNS int64 = 1000

// Tick, when set, is called before every reading of the clock.
var Tick func()

// Now stands in for time.Now.
func Now() time.Time {
	if Tick != nil {
		Tick()
	}
	return time.Unix(0, NowNS)
}

// Since stands in for time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until stands in for time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Pool stands in for sync.Pool: Get returns any item put back and not handed
// out since, or a new one; the choice is the solver's.
type Pool struct {
	New   func() any
	items []any
	mu    sync.Mutex
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

func (p *Pool) Get() any {
	p.mu.Lock()
	k := vsym.Pick("pool", 0, len(p.items))
	if k == len(p.items) {
		p.mu.Unlock()
		if p.New == nil {
			return nil
		}
		return p.New()
	}
	x := p.items[k]
	var rest []any
	for i, y := range p.items {
		if i != k {
			rest = append(rest, y)
		}
	}
	p.items = rest
	p.mu.Unlock()
	return x
}
