package strx

import (
	"encoding/json"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/miniLCT/gosb/library/stringx"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// ---- C33 ----

func hexv(b byte) (int, bool) {
	switch {
	case vsym.And(b >= '0', b <= '9'):
		return int(b - '0'), true
	case vsym.And(b >= 'a', b <= 'f'):
		return int(b-'a') + 10, true
	case vsym.And(b >= 'A', b <= 'F'):
		return int(b-'A') + 10, true
	}
	return 0, false
}

// parse reads a JSON string literal (RFC 8259).
func parse(t []byte) ([]rune, bool) {
	if len(t) < 2 || t[0] != '"' || t[len(t)-1] != '"' {
		return nil, false
	}
	t = t[1 : len(t)-1]
	var out []rune
	for len(t) > 0 {
		c := t[0]
		if c == '\\' {
			if len(t) < 2 {
				return nil, false
			}
			switch t[1] {
			case '"', '\\', '/':
				out = append(out, rune(t[1]))
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'u':
				if len(t) < 6 {
					return nil, false
				}
				v := 0
				for i := 2; i < 6; i++ {
					d, ok := hexv(t[i])
					if !ok {
						return nil, false
					}
					v = v*16 + d
				}
				if v >= 0xd800 && v < 0xe000 {
					return nil, false // surrogates are never needed here
				}
				out = append(out, rune(v))
				t = t[4:]
			default:
				return nil, false
			}
			t = t[2:]
			continue
		}
		if c == '"' || c < 0x20 {
			return nil, false
		}
		r, size := utf8.DecodeRune(t)
		if r == utf8.RuneError && size == 1 {
			return nil, false
		}
		if r == '\u2028' || r == '\u2029' {
			return nil, false
		}
		out = append(out, r)
		t = t[size:]
	}
	return out, true
}

func checkJSON(s string, html bool) {
	t := stringx.StringMarshalJSON(s, html)
	got, ok := parse(t)
	vsym.Assert(ok, "the result is a JSON string literal without raw control characters or line separators")
	i := 0
	same := true
	for _, r := range s {
		if i >= len(got) {
			same = false
			break
		}
		same = vsym.And(same, got[i] == r)
		i++
	}
	vsym.Assert(vsym.And(same, i == len(got)), "decoding gives the string back, invalid UTF-8 replaced")
	if html {
		raw := false
		for _, b := range t {
			raw = vsym.Or(raw, vsym.Or(b == '<', vsym.Or(b == '>', b == '&')))
		}
		vsym.Assert(!raw, "with HTML escaping no <, > or & appears")
	}
	if !vsym.Symbolic() {
		var d string
		err := json.Unmarshal(t, &d)
		vsym.Assert(err == nil && d == strings.ToValidUTF8(s, "\ufffd") || !utf8.ValidString(s), "a standard decoder agrees")
	}
}

// H_C33_bytes: every short byte string.
func H_C33_bytes() {
	vsym.Merge(false)
	c := vsym.Case(2 * vsym.Bound(5, 6))
	checkJSON(vsym.Str("s", c/2), c%2 == 1)
}

// H_C33_ascii: longer ASCII strings.
func H_C33_ascii() {
	c := vsym.Case(2)
	n := vsym.Bound(4, 6)
	s := vsym.Str("s", n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 0x80)
	}
	checkJSON(s, c == 1)
}

// H_C33_runes: arbitrary characters between ordinary text.
func H_C33_runes() {
	c := vsym.Case(2)
	r := vsym.I32("r")
	vsym.Assume(vsym.And(r >= 0, r <= unicode.MaxRune))
	pre := []string{"", "a", "<", "\xc3"}[vsym.Pick("pre", 0, 3)]
	post := []string{"", "b", "\"", "\x80"}[vsym.Pick("post", 0, 3)]
	checkJSON(pre+string(rune(r))+post, c == 1)
}

// ---- C34 ----

func fold(b byte) byte {
	return vsym.IteU8(vsym.And(b >= 'A', b <= 'Z'), b+32, b)
}

func lower(b byte) bool { return vsym.And(b >= 'a', b <= 'z') }
func upper(b byte) bool { return vsym.And(b >= 'A', b <= 'Z') }
func digit(b byte) bool { return vsym.And(b >= '0', b <= '9') }

// ident is a lower-case snake identifier: words of a letter followed by
// letters and digits, all but the last of at least two characters.
func ident(words, max int) (string, []string) {
	s := ""
	var ws []string
	for w := 0; w < words; w++ {
		lo := 2
		if w == words-1 {
			lo = 1
		}
		n := vsym.Pick("len", lo, max)
		x := vsym.Str("w", n)
		vsym.Assume(lower(x[0]))
		for i := 1; i < n; i++ {
			vsym.Assume(vsym.Or(lower(x[i]), digit(x[i])))
		}
		if w > 0 {
			s += "_"
		}
		s += x
		ws = append(ws, x)
	}
	return s, ws
}

func title(x string) string { return string([]byte{x[0] - 32}) + x[1:] }

// H_C34_round: snake to camel and back.
func H_C34_round() {
	words := vsym.Case(3) + 1
	s, ws := ident(words, vsym.Bound(3, 4))
	camel := ""
	for _, w := range ws {
		camel += title(w)
	}
	c := stringx.CamelString(s)
	vsym.Assert(c == camel, "camel case capitalises each word and joins them")
	vsym.Assert(stringx.SnakeString(c) == s, "converting to camel case and back gives the identifier")
}

func letters(s string) []byte {
	var r []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '_' {
			r = append(r, fold(s[i]))
		}
	}
	return r
}

func keep(in, out string, what string) {
	a, b := letters(in), letters(out)
	vsym.Assert(len(a) == len(b) && vsym.EqBytes(a, b), what)
}

// H_C34_ascii: any ASCII text.
func H_C34_ascii() {
	n := vsym.Case(vsym.Bound(6, 8))
	s := vsym.Str("s", n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 0x80)
	}
	sn := stringx.SnakeString(s)
	keep(s, sn, "snake conversion changes only case and underscores")
	for i := 0; i < len(sn); i++ {
		vsym.Assert(!upper(sn[i]), "snake conversion leaves no capital")
	}
	keep(s, stringx.CamelString(s), "camel conversion changes only case and underscores")
}

// H_C34_text: non-ASCII letters between ASCII text are kept.
func H_C34_text() {
	mid := []string{"é", "世", "É", "ß", "Ω"}
	low := []string{"é", "世", "é", "ß", "ω"}
	k := vsym.Case(len(mid))
	a, b := vsym.Str("a", vsym.Pick("na", 0, 2)), vsym.Str("b", vsym.Pick("nb", 0, 2))
	for _, s := range []string{a, b} {
		for i := 0; i < len(s); i++ {
			vsym.Assume(s[i] < 0x80)
		}
	}
	keep(a+low[k]+b, stringx.SnakeString(a+mid[k]+b), "snake conversion keeps other letters, in lower case")
	keep(a+mid[k]+b, stringx.CamelString(a+mid[k]+b), "camel conversion keeps other letters")
}

// H_C34_bytes: no byte string makes them panic.
func H_C34_bytes() {
	n := vsym.Case(vsym.Bound(3, 4))
	s := vsym.Str("s", n)
	c := stringx.CamelString(s)
	keep(s, c, "camel conversion keeps every byte")
	_ = stringx.SnakeString(s)
}

// ---- C36 ----

func isWS(b byte) bool {
	return vsym.Or(vsym.Or(b == ' ', b == '\n'), vsym.Or(vsym.Or(b == '\r', b == '\t'), vsym.Or(b == '\v', b == '\f')))
}

// H_C36_space: any text over whitespace and other bytes.
func H_C36_space() {
	vsym.Merge(false)
	n := vsym.Case(vsym.Bound(6, 8))
	s := vsym.Str("s", n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 0x80)
	}
	checkSpace(s)
}

// words splits at runs of ASCII whitespace.
func words(s string) []string {
	var w []string
	cur := ""
	in := false
	for i := 0; i < len(s); i++ {
		if isWS(s[i]) {
			if in {
				w = append(w, cur)
			}
			cur, in = "", false
			continue
		}
		cur += s[i : i+1]
		in = true
	}
	if in {
		w = append(w, cur)
	}
	return w
}

func checkSpace(s string) {
	r := stringx.SpaceInOne(s)
	a, b := words(s), words(r)
	vsym.Assert(len(a) == len(b), "words are neither joined nor split")
	for i := range a {
		vsym.Assert(a[i] == b[i], "every other character is kept, in order")
	}
	for i := 0; i+1 < len(r); i++ {
		x, y := r[i], r[i+1]
		vsym.Assert(!vsym.And(isWS(x), x == y), "no whitespace character is repeated")
		vsym.Assert(!vsym.And(vsym.Or(x == ' ', x == '\t'), vsym.Or(y == ' ', vsym.Or(y == '\n', y == '\t'))), "no blank before a blank or a line end")
	}
	if len(s) > 0 && len(r) > 0 {
		vsym.Assert(isWS(s[0]) == isWS(r[0]), "leading whitespace stays")
		vsym.Assert(isWS(s[len(s)-1]) == isWS(r[len(r)-1]), "trailing whitespace stays")
	}
	vsym.Assert((len(s) == 0) == (len(r) == 0), "nothing becomes empty")
	vsym.Assert(stringx.SpaceInOne(r) == r, "collapsing again changes nothing")
}

// H_C36_long: two characters taking turns many times, and one character alone.
func H_C36_long() {
	vsym.Merge(false)
	c := vsym.Case(8)
	n := []int{7, 20, 33, vsym.Bound(40, 150)}[c/2]
	t := vsym.Str("t", 1+c%2)
	for i := 0; i < len(t); i++ {
		vsym.Assume(t[i] < 0x80)
	}
	checkSpace("x" + strings.Repeat(t, n) + "y")
}

// H_C36_wide: the two Latin-1 spaces, among other characters.
func H_C36_wide() {
	tok := []string{"\u0085", "\u00a0", " ", "\n", "x", "\u00c5"}
	n := vsym.Bound(4, 6)
	s := ""
	a := vsym.Case(len(tok))
	s = tok[a]
	for i := 1; i < n; i++ {
		s += tok[vsym.Pick("tok", 0, len(tok)-1)]
	}
	r := stringx.SpaceInOne(s)
	drop := strings.NewReplacer("\u0085", "", "\u00a0", "", " ", "", "\n", "")
	vsym.Assert(drop.Replace(s) == drop.Replace(r), "every other character is kept")
	for _, t := range tok[:4] {
		vsym.Assert(!strings.Contains(r, t+t), "no whitespace character is repeated")
		vsym.Assert(strings.Contains(s, t) || !strings.Contains(r, t), "no whitespace is invented")
	}
	for _, t := range tok[:2] {
		vsym.Assert(strings.Contains(s, t) == strings.Contains(r, t), "wide spaces are kept, once")
	}
}

// ---- C37 ----

// H_C37_indent: every text and prefix.
func H_C37_indent() {
	n := vsym.Case(vsym.Bound(8, 11))
	p := vsym.Str("prefix", vsym.Pick("np", 0, vsym.Bound(3, 4)))
	s := vsym.Str("s", n)
	want := ""
	bol := true
	for i := 0; i < n; i++ {
		if bol {
			want += p
		}
		want += s[i : i+1]
		bol = s[i] == '\n'
	}
	if n == 0 {
		want = p
	}
	vsym.Assert(stringx.Indent(s, p) == want, "the prefix stands at the start of every line and nothing else changes")
}

// ---- C38 ----

// refCode decodes backslash-u escapes of one to four digits.
func refCode(s string, base int) string {
	out := ""
	for i := 0; i < len(s); {
		if i+1 < len(s) && s[i] == '\\' && s[i+1] == 'u' {
			v, n := 0, 0
			for n < 4 && i+2+n < len(s) {
				d, ok := alnum(s[i+2+n])
				if !ok || d >= base {
					break
				}
				v = v*base + d
				n++
			}
			if n > 0 {
				out += string(rune(v))
				i += 2 + n
				continue
			}
		}
		out += s[i : i+1]
		i++
	}
	return out
}

func alnum(b byte) (int, bool) {
	switch {
	case digit(b):
		return int(b - '0'), true
	case lower(b):
		return int(b-'a') + 10, true
	case upper(b):
		return int(b-'A') + 10, true
	}
	return 0, false
}

// H_C38_text: any short text.
func H_C38_text() {
	vsym.Merge(false)
	n := vsym.Case(vsym.Bound(8, 9))
	base := []int{16, 10}[vsym.Pick("base", 0, 1)]
	s := vsym.Str("s", n)
	vsym.Assert(stringx.CodePointToUTF8(s, base) == refCode(s, base), "escapes are decoded and all other text is kept")
}

// H_C38_pieces: escapes among other text.
func H_C38_pieces() {
	vsym.Merge(false)
	c := vsym.Case(vsym.Bound(10, 20))
	base := []int{16, 10, 8, 36}[c/5]
	nd := c%5 + 1
	d := vsym.Str("d", nd)
	for j := 0; j < nd; j++ {
		v, ok := alnum(d[j])
		vsym.Assume(vsym.And(ok, v < base))
	}
	s := []string{"", `a\u`, `\u12`, `\`}[vsym.Pick("pre", 0, vsym.Bound(1, 3))] + `\u` + d
	s += []string{`x\u12345\u`, "", `\u7`, "u｝"}[vsym.Pick("post", 0, vsym.Bound(1, 3))]
	vsym.Assert(stringx.CodePointToUTF8(s, base) == refCode(s, base), "escapes are decoded and all other text is kept")
}

// H_C38_base: impossible bases decode nothing and never panic.
func H_C38_base() {
	base := []int{-1, 1, 37, 62, -1 << 63, 1<<63 - 1}[vsym.Pick("base", 0, 5)]
	s := []string{`\u12ab`, `a\u1`, `\u`, ``, `x`}[vsym.Case(5)]
	vsym.Assert(stringx.CodePointToUTF8(s, base) == s, "nothing is decoded in an impossible base")
}

// H_C38_value: four digits of the larger bases, whose values go beyond 16 bits.
func H_C38_value() {
	vsym.Merge(false)
	base := []int{36, 17, 2, 35, 20, 16}[vsym.Case(vsym.Bound(3, 6))]
	d := vsym.Str("d", 2)
	for j := 0; j < 2; j++ {
		_, ok := alnum(d[j])
		vsym.Assume(ok)
	}
	top := "01Gz"[vsym.Pick("top", 0, 3):][:1]
	s := []string{`a\u`, `\u`}[vsym.Pick("pre", 0, vsym.Bound(0, 1))] + top + d + []string{"z", "0", "y1"}[vsym.Pick("last", 0, 2)] + "b"
	vsym.Assert(stringx.CodePointToUTF8(s, base) == refCode(s, base), "escapes are decoded and all other text is kept")
}

// ---- C39 ----

// refEnt decodes numeric entities: &#, digits of the base, and the semicolons behind them.
func refEnt(s string, base int) string {
	out := ""
	for i := 0; i < len(s); {
		if i+1 < len(s) && s[i] == '&' && s[i+1] == '#' {
			v, n, ok := 0, 0, true
			for i+2+n < len(s) {
				d, an := alnum(s[i+2+n])
				if !an {
					break
				}
				ok = ok && d < base
				if v = v*base + d; v > 1<<31-1 {
					ok = false
				}
				v &= 1<<40 - 1
				n++
			}
			if n > 0 && ok && v <= 1<<31-1 {
				out += string(rune(v))
				i += 2 + n
				for i < len(s) && s[i] == ';' {
					i++
				}
				continue
			}
		}
		out += s[i : i+1]
		i++
	}
	return out
}

// H_C39_text: any short text.
func H_C39_text() {
	n := vsym.Case(vsym.Bound(7, 8))
	base := []int{16, 10}[vsym.Pick("base", 0, 1)]
	s := vsym.Str("s", n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 0x80)
	}
	vsym.Assert(stringx.HTMLEntityToUTF8(s, base) == refEnt(s, base), "entities are decoded and all other text is kept")
}

// H_C39_pieces: entities next to each other and to other text.
func H_C39_pieces() {
	base := []int{16, 10}[vsym.Case(2)]
	s := ""
	for i := 0; i < 2; i++ {
		nd := vsym.Pick("nd", 1, vsym.Bound(2, 3))
		d := vsym.Str("d", nd)
		for j := 0; j < nd; j++ {
			v, ok := alnum(d[j])
			vsym.Assume(vsym.And(ok, v < base))
		}
		s += "&#" + d + []string{"", ";", ";;", "é", " "}[vsym.Pick("sep", 0, 4)]
	}
	vsym.Assert(stringx.HTMLEntityToUTF8(s, base) == refEnt(s, base), "entities are decoded and all other text is kept")
}

// H_C39_value: entities with values around the largest, in several bases.
func H_C39_value() {
	c := vsym.Case(vsym.Bound(11, 11))
	base := []int{16, 16, 16, 16, 10, 10, 36, 36, 2, 8, 17}[c]
	form := [][3]string{{"", "ffffff", ""}, {"", "000000", ""}, {"0000000000", "fffffff", ""}, {"", "00000000", "0"},
		{"21474836", "", ""}, {"", "294967", "94"}, {"zik0", "", ""}, {"", "z14z", ""},
		{"11111111111111111111111111111", "", ""}, {"", "777777777", ""}, {"g", "g", "g"}}[c]
	d := vsym.Str("d", 2)
	for j := 0; j < 2; j++ {
		_, ok := alnum(d[j])
		vsym.Assume(ok)
	}
	s := "x&#" + form[0] + d[:1] + form[1] + d[1:] + form[2] + []string{";", ""}[vsym.Pick("end", 0, 1)]
	vsym.Assert(stringx.HTMLEntityToUTF8(s, base) == refEnt(s, base), "entities are decoded and all other text is kept")
}

// ---- C35 ----

const initialisms = " ACL API ASCII CPU CSS DNS EOF GUID HTML HTTP HTTPS ID IP JSON LHS QPS RAM RHS RPC SLA SMTP SQL SSH TCP TLS TTL UDP UI UID UUID URI URL UTF8 VM XML XMPP XSRF XSS "

// segments splits at underscores and between a lower-case letter and anything
// else; one underscore stays in front of a digit that follows a digit.
func segments(s string) []string {
	var w []string
	cur := ""
	for i := 0; i < len(s); i++ {
		cur += s[i : i+1]
		if i+1 == len(s) {
			break
		}
		if s[i+1] == '_' {
			j := i + 1
			for j < len(s) && s[j] == '_' {
				j++
			}
			w = append(w, cur)
			cur = ""
			if j < len(s) && digit(s[i]) && digit(s[j]) {
				cur = "_"
			}
			i = j - 1
			continue
		}
		if lower(s[i]) && !lower(s[i+1]) {
			w = append(w, cur)
			cur = ""
		}
	}
	if cur != "" {
		w = append(w, cur)
	}
	return w
}

func up(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		r += string([]byte{vsym.IteU8(lower(s[i]), s[i]-32, s[i])})
	}
	return r
}

func refLint(s string) string {
	t := s
	for len(t) > 0 && t[0] == '_' {
		t = t[1:]
	}
	if t == "" {
		if s != "" {
			return "_"
		}
		return ""
	}
	out := ""
	for k, w := range segments(up(t[:1]) + t[1:]) {
		u := up(w)
		known := false
		for _, x := range strings.Fields(initialisms) {
			known = vsym.Or(known, x == u)
		}
		anyUp := false
		for i := 0; i < len(w); i++ {
			anyUp = vsym.Or(anyUp, upper(w[i]))
		}
		switch {
		case known:
			out += u
		case k > 0 && !anyUp:
			out += u[:1] + w[1:]
		default:
			out += w
		}
	}
	return out
}

// H_C35_text: any short ASCII text.
func H_C35_text() {
	vsym.Merge(false)
	n := vsym.Case(vsym.Bound(5, 6))
	s := vsym.Str("s", n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 0x80)
	}
	r := stringx.LintCamelString(s)
	vsym.Assert(r == refLint(s), "words are joined, initialisms upper-cased, other words capitalised")
	keep(s, r, "only case and underscores change")
}

// H_C35_words: every initialism in any letter case between other text.
func H_C35_words() {
	vsym.Merge(false)
	all := strings.Fields(initialisms)
	w := all[vsym.Case(len(all))]
	m := vsym.Str("case", len(w))
	for i := 0; i < len(w); i++ {
		if digit(w[i]) {
			vsym.Assume(m[i] == w[i])
		} else {
			vsym.Assume(vsym.Or(m[i] == w[i], m[i] == w[i]+32))
		}
	}
	s := []string{"", "_", "x_", "user", "a1__", "http_"}[vsym.Pick("pre", 0, vsym.Bound(2, 5))] + m
	s += []string{"", "s", "_1", "_name", "Name", "__"}[vsym.Pick("post", 0, vsym.Bound(2, 5))]
	r := stringx.LintCamelString(s)
	vsym.Assert(r == refLint(s), "words are joined, initialisms upper-cased, other words capitalised")
}

// H_C35_wide: letters outside ASCII.
func H_C35_wide() {
	in := []string{"é", "é_id", "url_É", "世界_id_x", "ünder_ß_html", "1_世", "_é__Ωmega_", "\xff", "a\xff_id"}
	want := []string{"É", "ÉID", "URLÉ", "世界IDX", "ÜnderßHTML", "1世", "ÉΩmega", "\ufffd", "A\ufffdID"}
	i := vsym.Case(len(in))
	vsym.Assert(stringx.LintCamelString(in[i]) == want[i], "other letters follow their own case mapping")
}

// ---- long texts: a few free bytes somewhere in a long fixed text ----

func pad(unit string, n int) string {
	s := strings.Repeat(unit, n/len(unit)+1)
	return s[:n]
}

func longs(c int) (pre, post int) {
	pre = []int{0, 15, 31, 63, 64, 130, 255}[c%7]
	post = []int{0, 64, 200}[c/7%3]
	return
}

// H_C33_long: escapes far into a long string.
func H_C33_long() {
	vsym.Merge(false)
	vsym.Unwind(2000)
	c := vsym.Case(42)
	pre, post := longs(c)
	s := pad("abc<\"é\n ", pre)
	for !utf8.ValidString(s) {
		s = s[:len(s)-1]
	}
	checkJSON(s+vsym.Str("s", vsym.Bound(1, 3))+pad("xyz &", post), c >= 21)
}

// H_C34_long: many words.
func H_C34_long() {
	c := vsym.Case(7)
	n := []int{4, 8, 12, 20, 32, 33, 64}[c]
	at := []int{0, n / 2, n - 1}[vsym.Pick("at", 0, 2)]
	s, camel := "", ""
	for w := 0; w < n; w++ {
		x := []string{"ab", "x1y", "word", "v2"}[w%4]
		if w == at {
			x = vsym.Str("w", 2)
			vsym.Assume(vsym.And(lower(x[0]), vsym.Or(lower(x[1]), digit(x[1]))))
		}
		if w > 0 {
			s += "_"
		}
		s += x
		camel += title(x)
	}
	vsym.Assert(stringx.CamelString(s) == camel, "camel case capitalises each word and joins them")
	vsym.Assert(stringx.SnakeString(camel) == s, "converting to camel case and back gives the identifier")
}

// H_C35_runs: long runs of underscores in front, between and behind.
func H_C35_runs() {
	vsym.Merge(false)
	n := []int{3, 4, 5, 8, 9, 17, 40}[vsym.Case(7)]
	a, b, c := vsym.Str("a", vsym.Pick("na", 0, 1)), vsym.Str("b", 1), vsym.Str("c", vsym.Pick("nc", 0, 1))
	for _, x := range []string{a, b, c} {
		for i := 0; i < len(x); i++ {
			vsym.Assume(x[i] < 0x80)
		}
	}
	m := []int{0, 1, n}[vsym.Pick("m", 0, 2)]
	s := a + strings.Repeat("_", n) + b + strings.Repeat("_", m) + c
	r := stringx.LintCamelString(s)
	vsym.Assert(r == refLint(s), "words are joined, initialisms upper-cased, other words capitalised")
	keep(s, r, "only case and underscores change")
}

// H_C34_runs: long runs of underscores.
func H_C34_runs() {
	n := []int{3, 4, 5, 8, 9, 17, 40}[vsym.Case(7)]
	a, b, c := vsym.Str("a", vsym.Pick("na", 0, 2)), vsym.Str("b", 1), vsym.Str("c", vsym.Pick("nc", 0, 2))
	for _, x := range []string{a, b, c} {
		for i := 0; i < len(x); i++ {
			vsym.Assume(x[i] < 0x80)
		}
	}
	s := a + strings.Repeat("_", n) + b + strings.Repeat("_", []int{0, 1, 2, n}[vsym.Pick("m", 0, 3)]) + c
	keep(s, stringx.SnakeString(s), "snake conversion changes only case and underscores")
	keep(s, stringx.CamelString(s), "camel conversion changes only case and underscores")
}

// H_C35_long: many words, two of them arbitrary.
func H_C35_long() {
	vsym.Merge(false)
	c := vsym.Case(6)
	n := []int{3, 6, 10, 17, 33, 64}[c]
	at := []int{0, n / 2, n - 2}[vsym.Pick("at", 0, 2)]
	s := ""
	for w := 0; w < n; w++ {
		x := []string{"user", "id", "html5", "Url", "x"}[w%5]
		if w == at {
			x = vsym.Str("w", 2)
			for i := 0; i < 2; i++ {
				vsym.Assume(vsym.Or(lower(x[i]), vsym.Or(digit(x[i]), upper(x[i]))))
			}
		}
		if w > 0 {
			s += []string{"_", "__", "_"}[w%3]
		}
		s += x
	}
	vsym.Assert(stringx.LintCamelString(s) == refLint(s), "words are joined, initialisms upper-cased, other words capitalised")
}

// H_C37_long: many lines.
func H_C37_long() {
	vsym.Unwind(3000)
	c := vsym.Case(8)
	n := []int{5, 17, 40, 129}[c%4]
	s := pad([]string{"line\n", "\n\nx"}[c/4], n) + vsym.Str("s", 2) + pad("ab\ncd\n", n)
	p := vsym.Str("prefix", vsym.Pick("np", 1, 2)) + pad("> ", n/10)
	want, bol := "", true
	for i := 0; i < len(s); i++ {
		if bol {
			want += p
		}
		want += s[i : i+1]
		bol = s[i] == '\n'
	}
	vsym.Assert(stringx.Indent(s, p) == want, "the prefix stands at the start of every line and nothing else changes")
}

// H_C38_long: many escapes.
func H_C38_long() {
	vsym.Merge(false)
	vsym.Unwind(3000)
	c := vsym.Case(8)
	n := []int{3, 9, 33, 70}[c%4]
	s := ""
	for i := 0; i < n; i++ {
		s += []string{"\\u4e2d", "a", "\\u41", "\\", "\\ud7ff", "text "}[i%6]
		if i == n/2 {
			s += []string{"", "\\u"}[c/4] + vsym.Str("s", 3)
		}
	}
	vsym.Assert(stringx.CodePointToUTF8(s, 16) == refCode(s, 16), "escapes are decoded and all other text is kept")
}

// H_C39_long: many entities.
func H_C39_long() {
	vsym.Unwind(3000)
	c := vsym.Case(8)
	n := []int{3, 9, 33, 70}[c%4]
	s := ""
	for i := 0; i < n; i++ {
		s += []string{"&#4e2d;", "a", "&#41", "&", "&#zz;", "text ", "&#12345678;", "&#1F600;;"}[i%8]
		if i == n/2 {
			m := vsym.Str("s", 2)
			vsym.Assume(vsym.And(m[0] < 0x80, m[1] < 0x80))
			s += []string{"", "&#"}[c/4] + m
		}
	}
	vsym.Assert(stringx.HTMLEntityToUTF8(s, 16) == refEnt(s, 16), "entities are decoded and all other text is kept")
}
