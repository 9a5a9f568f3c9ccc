package vmodels

import "sync"

// StdPoolGet and StdPoolPut stand for sync.Pool inside the standard library:
// a pool that is always empty.
func StdPoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func StdPoolPut(p *sync.Pool, x any) {}
