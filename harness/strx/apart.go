package strx

import (
	"github.com/miniLCT/gosb/library/stringx"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// Calls one after another and at the same time: each result is right and stays.

func small(name string) string {
	b := vsym.U8(name)
	vsym.Assume(b < 0x80)
	return string([]byte{b})
}

func low(name string) string {
	b := vsym.U8(name)
	vsym.Assume(lower(b))
	return string([]byte{b})
}

func decodes(t []byte, s string) bool {
	got, ok := parse(t)
	if !ok {
		return false
	}
	i, same := 0, true
	for _, r := range s {
		if i >= len(got) {
			return false
		}
		same = vsym.And(same, got[i] == r)
		i++
	}
	return vsym.And(same, i == len(got))
}

func H_C33_apart() {
	vsym.Merge(false)
	c := vsym.Case(4)
	in := []string{"name\n" + small("x"), "a\"" + small("y") + "<longer text \u2028 that fills more than sixty-four bytes of any buffer>", "ok"}
	vapart.Apart(c%2 == 1, len(in), func(i int) []byte { return stringx.StringMarshalJSON(in[i], c >= 2) },
		func(i int, t []byte) bool { return decodes(t, in[i]) })
}

func H_C34_apart() {
	c := vsym.Case(4)
	a, b := low("a"), low("b")
	snake := []string{"user_na" + a + "e", b + "x_id", "some_longer_name_" + a}
	camel := []string{"UserNa" + a + "e", title(b) + "xId", "SomeLongerName" + title(a)}
	in, out, f := snake, camel, stringx.CamelString
	if c >= 2 {
		in, out, f = camel, snake, stringx.SnakeString
	}
	vapart.Apart(c%2 == 1, len(in), func(i int) string { return f(in[i]) }, func(i int, r string) bool { return r == out[i] })
}

func H_C35_apart() {
	vsym.Merge(false)
	c := vsym.Case(2)
	a := low("a")
	in := []string{"user_i" + a, "http_ur" + a + "_list", "plain", "x_" + a + "_1_2"}
	vapart.Apart(c == 1, len(in), func(i int) string { return stringx.LintCamelString(in[i]) },
		func(i int, r string) bool { return r == refLint(in[i]) })
}

func H_C36_apart() {
	c := vsym.Case(2)
	a := low("a")
	in := []string{"a  " + a + "\n\n\nb", "x \t \t" + a + "   ", a}
	out := []string{"a " + a + "\nb", "x\t" + a + " ", a}
	vapart.Apart(c == 1, len(in), func(i int) string { return stringx.SpaceInOne(in[i]) },
		func(i int, r string) bool { return r == out[i] })
}

func H_C37_apart() {
	c := vsym.Case(2)
	a := low("a")
	in := []string{a + "\nb\n", "x", "\n" + a}
	p := []string{"  ", a, "--> "}
	out := []string{"  " + a + "\n  b\n", a + "x", "--> \n--> " + a}
	vapart.Apart(c == 1, len(in), func(i int) string { return stringx.Indent(in[i], p[i]) },
		func(i int, r string) bool { return r == out[i] })
}

func H_C38_apart() {
	vsym.Merge(false)
	c := vsym.Case(2)
	a := small("a")
	in := []string{`x\u00` + a + `1y`, `\u4e16` + a, a + `plain`, `\u0041`}
	base := []int{16, 16, 10, 10}
	vapart.Apart(c == 1, len(in), func(i int) string { return stringx.CodePointToUTF8(in[i], base[i]) },
		func(i int, r string) bool { return r == refCode(in[i], base[i]) })
}

func H_C39_apart() {
	vsym.Merge(false)
	c := vsym.Case(2)
	a := small("a")
	in := []string{`x&#4` + a + `;y`, `&#4e16;` + a, a + `plain`, `&#65;&#66`}
	base := []int{10, 16, 10, 10}
	vapart.Apart(c == 1, len(in), func(i int) string { return stringx.HTMLEntityToUTF8(in[i], base[i]) },
		func(i int, r string) bool { return r == refEnt(in[i], base[i]) })
}
