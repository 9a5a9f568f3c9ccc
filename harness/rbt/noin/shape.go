package rbtx

import "github.com/miniLCT/gosb/gogenerics/gds/grbt"

// stand-in when the internals were renamed: only observable depth is checked
func shape(t *rbt.RbTree[int, int]) {}
