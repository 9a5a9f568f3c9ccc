package rnd

import (
	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C49_apart: draws at the same time.
func H_C49_apart() {
	c := vsym.Case(6)
	n := 1 + int(vsym.U8("n"))
	fastrand.Uint32 = func() uint32 { return 0xffffffff }
	fastrand.Uint64 = func() uint64 { return 1<<62 + 12345 }
	fastrand.Uint = func() uint { return 1<<62 + 12345 }
	vapart.Apart(true, 3, func(i int) int {
		switch c {
		case 0:
			return fastrand.Intn(n + i)
		case 1:
			return int(fastrand.Int31n(int32(n + i)))
		case 2:
			return int(fastrand.Int63n(int64(1 + i)))
		case 3:
			return int(fastrand.Uint32n(uint32(n + i)))
		case 4:
			return int(fastrand.Uintn(uint(1 + i)))
		}
		return int(fastrand.Uint64n(uint64(1 + i)))
	}, func(i, r int) bool { return vsym.And(r >= 0, r < n+i) })
}

// H_C50_apart: permutations one after another and at the same time.
func H_C50_apart() {
	c := vsym.Case(4)
	w := vsym.U32("w")
	vsym.Assume(w > 1<<8)
	fastrand.Uint32 = func() uint32 { return w }
	fastrand.Uint64 = func() uint64 { return uint64(w) << 20 }
	vapart.Apart(c%2 == 1, 3, func(i int) []int {
		if c < 2 {
			return fastrand.Perm(2 + i)
		}
		s := make([]int, 2+i)
		for k := range s {
			s[k] = k
		}
		fastrand.Shuffle(len(s), func(a, b int) { s[a], s[b] = s[b], s[a] })
		return s
	}, func(i int, p []int) bool { return len(p) == 2+i && isPerm(p) })
}

// H_C51_apart: reads at the same time, as documented.
func H_C51_apart() {
	w, v := vsym.U32("w"), vsym.U64("v")
	fastrand.Uint32 = func() uint32 { return w }
	fastrand.Uint64 = func() uint64 { return v }
	n := []int{3, 8, 21}
	vapart.Apart(vsym.Case(2) == 1, len(n), func(i int) []byte {
		b := make([]byte, n[i])
		k, err := fastrand.Read(b)
		vsym.Assert(k == n[i] && err == nil, "Read reports the full length")
		return b
	}, func(i int, b []byte) bool {
		c := make([]byte, n[i])
		fastrand.Read(c)
		return vsym.EqBytes(b, c)
	})
}
