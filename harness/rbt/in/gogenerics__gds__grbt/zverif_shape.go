package rbt

// VerifShape checks the red-black shape; "" when it holds.
func VerifShape[K comparable, V any](t *RbTree[K, V]) string {
	if t.root == t.sentinel {
		return ""
	}
	if t.root.color != black {
		return "root is not black"
	}
	if t.sentinel.color != black {
		return "sentinel is not black"
	}
	msg := ""
	n := 0
	var walk func(x *rbNode[K, V]) int
	walk = func(x *rbNode[K, V]) int {
		if x == t.sentinel {
			return 1
		}
		n++
		if x.color == red && (x.left.color == red || x.right.color == red) {
			msg = "red node with a red child"
		}
		if x.left != t.sentinel && x.left.parent != x || x.right != t.sentinel && x.right.parent != x {
			msg = "parent link disagrees with child link"
		}
		l, r := walk(x.left), walk(x.right)
		if l != r {
			msg = "black heights differ"
		}
		if x.color == black {
			l++
		}
		return l
	}
	walk(t.root)
	if msg == "" && n != t.len {
		msg = "node count differs from len"
	}
	return msg
}
