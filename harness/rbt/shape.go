package rbtx

import "github.com/miniLCT/gosb/gogenerics/gds/grbt"
import "github.com/miniLCT/gosb/verifh/vsym"

func shape(t *rbt.RbTree[int, int]) {
	s := rbt.VerifShape(t)
	vsym.Assert(s != "root is not black", "root is black")
	vsym.Assert(s != "red node with a red child", "no red node has a red child")
	vsym.Assert(s != "black heights differ", "all paths have the same number of black nodes")
	vsym.Assert(s == "", "tree links are consistent")
}
