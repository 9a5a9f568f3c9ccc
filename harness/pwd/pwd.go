package pwd

import (
	"github.com/miniLCT/gosb/library/password"
	"github.com/miniLCT/gosb/verifh/vsym"
)

func spec(pw string, flag password.Flag, min int, hasMax bool, max int) bool {
	ok := vsym.And(len(pw) >= min, vsym.Or(!hasMax, len(pw) <= max))
	var dig, low, up, sym, bad bool
	for i := 0; i < len(pw); i++ {
		c := pw[i]
		d := vsym.And(c >= '0', c <= '9')
		l := vsym.And(c >= 'a', c <= 'z')
		u := vsym.And(c >= 'A', c <= 'Z')
		p := vsym.And(c >= 0x21, c <= 0x7e)
		dig, low, up = vsym.Or(dig, d), vsym.Or(low, l), vsym.Or(up, u)
		sym = vsym.Or(sym, vsym.And(p, vsym.And(!d, vsym.And(!l, !u))))
		bad = vsym.Or(bad, !p)
	}
	wantN := flag&password.N != 0
	wantS := flag&password.S != 0
	wantL := flag&password.L != 0
	wantU := flag&password.U != 0
	wantA := vsym.Or(flag&password.LorU != 0, vsym.Or(wantL, wantU))
	ok = vsym.And(ok, !bad)
	ok = vsym.And(ok, dig == wantN)
	ok = vsym.And(ok, sym == wantS)
	ok = vsym.And(ok, vsym.Or(low, up) == wantA)
	ok = vsym.And(ok, vsym.Implies(wantL, low))
	ok = vsym.And(ok, vsym.Implies(wantU, up))
	return ok
}

// H_C23_bytes: every byte string up to the bound, every flag, every limits.
func H_C23_bytes() {
	n := vsym.Case(vsym.Bound(5, 7))
	pw := vsym.Str("pw", n)
	for i := 0; i < n; i++ {
		vsym.Assume(pw[i] < 0x80)
	}
	flag := password.Flag(vsym.U8("flag"))
	min := vsym.Int("min", -2, n+2)
	max := 0
	hasMax := vsym.Pick("hasmax", 0, 1) == 1
	var got bool
	if hasMax {
		max = vsym.Int("max", -2, n+2)
		got = password.CheckPassword(pw, flag, min, max)
	} else {
		got = password.CheckPassword(pw, flag, min)
	}
	vsym.Assert(got == spec(pw, flag, min, hasMax, max), "accepted exactly when the rules allow")
	vsym.ObsB("ok", got)
}

// H_C23_utf8: arbitrary bytes, including non-ASCII and invalid UTF-8.
func H_C23_utf8() {
	n := 1 + vsym.Case(vsym.Bound(3, 4))
	pw := vsym.Str("pw", n)
	flag := password.Flag(vsym.U8("flag"))
	got := password.CheckPassword(pw, flag, 0)
	vsym.Assert(got == spec(pw, flag, 0, false, 0), "accepted exactly when the rules allow (any bytes)")
	vsym.ObsB("ok", got)
}

// H_C23_long: long passwords, one of whose characters is arbitrary.
func H_C23_long() {
	c := vsym.Case(9 * 4)
	n := []int{8, 16, 20, 32, 63, 64, 72, 128, 256}[c%9]
	unit := []string{"aB3$", "z", "0", "~Q"}[c/9]
	at := []int{0, 1, n / 2, n - 1}[vsym.Pick("at", 0, 3)]
	b := make([]byte, n)
	for i := range b {
		b[i] = unit[i%len(unit)]
	}
	b[at] = vsym.U8("ch")
	pw := string(b)
	flag := password.Flag(vsym.U8("flag"))
	min, max := n+vsym.Pick("dmin", -1, 1), n+vsym.Pick("dmax", -1, 1)
	vsym.Assert(password.CheckPassword(pw, flag, min, max) == spec(pw, flag, min, true, max), "accepted exactly when the rules allow")
}
