package lru

import (
	"context"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C40_apart: caches in turn and at the same time.
func H_C40_apart() {
	x := int(vsym.I64("x"))
	ctx := context.Background()
	vapart.Apart(vsym.Case(2) == 1, 3, func(i int) *cachex.LRUCacheV2[int, int] {
		c := cachex.NewLRUCacheV2[int, int](2, 0)
		c.Set(ctx, 1, x, time.Hour)
		c.Set(ctx, 2, i, time.Hour)
		c.Get(ctx, 1)
		c.Set(ctx, 3, x+i, time.Hour)
		return c
	}, func(i int, c *cachex.LRUCacheV2[int, int]) bool {
		a, oka, _ := c.Get(ctx, 1)
		_, okb, _ := c.Get(ctx, 2)
		d, okd, _ := c.Get(ctx, 3)
		return vsym.And(oka && !okb && okd, vsym.And(a == x, d == x+i))
	})
}
