package bits

import (
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// Sets in turn and at the same time: none affects another, no result changes later.

func H_C28_apart() {
	x := vsym.Bytes("x", 2)
	vapart.Apart(vsym.Case(2) == 1, 3, func(i int) *bitset.BitSet {
		s := bitset.New(x[0], byte(i))
		s.Set(20+i, true)
		s.Set(0, x[1] > 7)
		s.Set(-1, true)
		return s
	}, func(i int, s *bitset.BitSet) bool {
		return vsym.EqBytes(s.Bytes(), []byte{vsym.IteU8(x[1] > 7, x[0]|128, x[0]&127), byte(i), 1<<(3-uint(i)) | 1})
	})
}

func H_C30_apart() {
	c := vsym.Case(10)
	a := bitset.New(vsym.Bytes("a", 3)...)
	b := bitset.New(vsym.Bytes("b", 2)...)
	sets := []*bitset.BitSet{a, b, bitset.New(0x5a)}
	at := func(s *bitset.BitSet, i int) byte {
		if y := s.Bytes(); i < len(y) {
			return y[i]
		}
		return 0
	}
	vapart.Apart(c%2 == 1, 3, func(i int) *bitset.BitSet {
		p, q := sets[i], sets[(i+1)%3]
		switch c / 2 {
		case 0:
			return p.And(q)
		case 1:
			return p.Or(q)
		case 2:
			return p.Xor(q)
		case 3:
			return p.AndNot(q)
		}
		return p.Not()
	}, func(i int, r *bitset.BitSet) bool {
		p, q := sets[i], sets[(i+1)%3]
		ok := true
		for k := 0; k < 4; k++ {
			x, y := at(p, k), at(q, k)
			var w byte
			switch c / 2 {
			case 0:
				w = x & y
			case 1:
				w = x | y
			case 2:
				w = x ^ y
			case 3:
				w = x &^ y
			case 4:
				w = vsym.IteU8(k < p.Size()/8, ^x, 0)
			}
			ok = vsym.And(ok, at(r, k) == w)
		}
		return ok
	})
}

func H_C31_apart() {
	c := vsym.Case(8)
	x := vsym.Bytes("x", 2)
	in := [][]byte{{x[0], 0xa1}, {7}, {x[1], x[0], 1}, nil}
	sets := make([]*bitset.BitSet, len(in))
	for i := range in {
		sets[i] = bitset.New(append([]byte(nil), in[i]...)...)
	}
	hex := func(b []byte) string {
		s := ""
		for _, v := range b {
			s += string([]byte{hexd[v>>4], hexd[v&15]})
		}
		return s
	}
	vapart.Apart(c%2 == 1, len(in), func(i int) string {
		switch c / 2 {
		case 0:
			return sets[i].String()
		case 1:
			return sets[i].Binary("-")
		case 2:
			return string(sets[i].Bytes())
		}
		s, err := bitset.NewFromHex([]string{"00a1", "7F", "123456", "xy"}[i])
		if err != nil {
			return "error"
		}
		return hex(s.Bytes())
	}, func(i int, r string) bool {
		want := ""
		switch c / 2 {
		case 0:
			want = hex(in[i])
		case 1:
			for k := range in[i] {
				if k > 0 {
					want += "-"
				}
				for j := 0; j < 8; j++ {
					want += string([]byte{vsym.IteU8(bit(in[i], 8*k+j), '1', '0')})
				}
			}
		case 2:
			want = string(in[i])
		case 3:
			want = []string{"00a1", "7f", "123456", "error"}[i]
		}
		return r == want
	})
}
