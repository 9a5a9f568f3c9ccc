package pwd

import (
	"github.com/miniLCT/gosb/library/password"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C23_apart: checks one after another and at the same time.
func H_C23_apart() {
	x := vsym.U8("x")
	vsym.Assume(x < 0x80)
	s := string([]byte{x})
	in := []string{"abcD1" + s, s, "aB3!" + s + s, "12345"}
	fl := []password.Flag{password.N | password.L | password.U, password.N, password.N | password.S | password.LorU, password.N}
	vapart.Apart(vsym.Case(2) == 1, len(in), func(i int) bool { return password.CheckPassword(in[i], fl[i], 1, 8) },
		func(i int, r bool) bool { return r == spec(in[i], fl[i], 1, true, 8) })
}
