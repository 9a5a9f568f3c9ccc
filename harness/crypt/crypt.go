package crypt

import (
	"encoding/base64"
	"encoding/hex"

	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/verifh/vmodels"
	"github.com/miniLCT/gosb/verifh/vsym"
)

const bs = 16

func keyOf(l int) []byte { return vsym.Bytes("key", []int{16, 24, 32}[l]) }

// optOf: 0 no option, 1 false, 2 true, 3 true and false (the first counts).
func optOf(e int) []bool {
	switch e {
	case 1:
		return []bool{false}
	case 2:
		return []bool{true}
	case 3:
		return []bool{true, false}
	}
	return nil
}

func is64(e int) bool { return e >= 2 }

func enc(mode int, key, msg []byte, opt []bool) []byte {
	switch mode {
	case 0:
		return cryptox.AESEncrypt(key, msg, opt...)
	case 1:
		return cryptox.AESCBCEncrypt(key, msg, opt...)
	}
	return cryptox.AESCTREncrypt(key, msg, opt...)
}

func dec(mode int, key, text []byte, opt []bool) ([]byte, error) {
	switch mode {
	case 0:
		return cryptox.AESDecrypt(key, text, opt...)
	case 1:
		return cryptox.AESCBCDecrypt(key, text, opt...)
	}
	return cryptox.AESCTRDecrypt(key, text, opt...)
}

// text is the encoded form, made with the standard library.
func text(e int, raw []byte) []byte {
	if is64(e) {
		b := make([]byte, base64.RawURLEncoding.EncodedLen(len(raw)))
		base64.RawURLEncoding.Encode(b, raw)
		return b
	}
	b := make([]byte, hex.EncodedLen(len(raw)))
	hex.Encode(b, raw)
	return b
}

func untext(e int, t []byte) ([]byte, error) {
	b := make([]byte, len(t))
	var n int
	var err error
	if is64(e) {
		n, err = base64.RawURLEncoding.Decode(b, t)
	} else {
		n, err = hex.Decode(b, t)
	}
	return b[:n], err
}

func pad(msg []byte) []byte {
	n := bs - len(msg)%bs
	p := append([]byte(nil), msg...)
	for i := 0; i < n; i++ {
		p = append(p, byte(n))
	}
	return p
}

func xor(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[i] = a[i] ^ b[i]
	}
	return r
}

// ref is the standard ciphertext: mode, padding and a leading IV.
func ref(mode int, key, iv, msg []byte) []byte {
	b, _ := vmodels.NewCipher(key)
	var out []byte
	switch mode {
	case 0:
		p := pad(msg)
		for i := 0; i < len(p); i += bs {
			o := make([]byte, bs)
			b.Encrypt(o, p[i:i+bs])
			out = append(out, o...)
		}
	case 1:
		p := pad(msg)
		out = append(out, iv...)
		for i := 0; i < len(p); i += bs {
			o := make([]byte, bs)
			b.Encrypt(o, xor(p[i:i+bs], iv))
			out = append(out, o...)
			iv = o
		}
	case 2:
		out = append(out, iv...)
		out = append(out, ctr(key, iv, msg)...)
	}
	return out
}

// ctr is counter mode over msg.
func ctr(key, iv, msg []byte) []byte {
	b, _ := vmodels.NewCipher(key)
	c := append([]byte(nil), iv...)
	var out []byte
	for i := 0; i < len(msg); i += bs {
		ks := make([]byte, bs)
		b.Encrypt(ks, c)
		for j := 0; j < bs && i+j < len(msg); j++ {
			out = append(out, msg[i+j]^ks[j])
		}
		carry := uint16(1)
		for j := bs - 1; j >= 0; j-- {
			carry += uint16(c[j])
			c[j] = byte(carry)
			carry >>= 8
		}
	}
	return out
}

// H_C24_round: encrypting and decrypting gives the message back, and the text
// is the standard one.
func H_C24_round() {
	c := vsym.Case(9)
	mode, kl := c%3, c/3
	e := vsym.Pick("enc", 0, 3)
	n := vsym.Pick("n", 0, vsym.Bound(33, 66))
	key := keyOf(kl)
	msg := vsym.Bytes("msg", n)
	opt := optOf(e)
	t := enc(mode, key, msg, opt)

	raw := (n/bs + 1) * bs
	if mode == 1 {
		raw += bs
	} else if mode == 2 {
		raw = bs + n
	}
	want := 2 * raw
	if is64(e) {
		want = (raw*8 + 5) / 6
	}
	vsym.Assert(len(t) == want, "the text has the length the mode and encoding give")
	d, err := untext(e, t)
	vsym.Assert(err == nil && len(d) == raw, "the text decodes")
	vsym.Assert(vsym.EqBytes(t, text(e, d)), "the text is the canonical form, in the alphabet of its encoding")
	var iv []byte
	if mode > 0 {
		iv = d[:bs]
	}
	vsym.Assert(vsym.EqBytes(d, ref(mode, key, iv, msg)), "the text is the standard ciphertext of the mode")

	back, err := dec(mode, key, t, opt)
	vsym.Assert(err == nil, "decrypting what was encrypted succeeds")
	vsym.Assert(vsym.EqBytes(back, msg), "decrypting gives the message back")
}

func in64(b byte) bool {
	up := vsym.And(b >= 'A', b <= 'Z')
	lo := vsym.And(b >= 'a', b <= 'z')
	dg := vsym.And(b >= '0', b <= '9')
	return vsym.Or(vsym.Or(up, lo), vsym.Or(dg, vsym.Or(b == '-', b == '_')))
}

// H_C24_std: standard ciphertexts made elsewhere decrypt to their message.
func H_C24_std() {
	mode := vsym.Case(3)
	e := vsym.Pick("enc", 0, 3)
	n := vsym.Pick("n", 0, vsym.Bound(33, 66))
	key := keyOf(vsym.Pick("kl", 0, 2))
	msg := vsym.Bytes("msg", n)
	iv := vsym.Bytes("iv", bs)
	t := text(e, ref(mode, key, iv, msg))
	back, err := dec(mode, key, t, optOf(e))
	vsym.Assert(err == nil, "a standard ciphertext decrypts")
	vsym.Assert(vsym.EqBytes(back, msg), "to its message")
}

// H_C24_iv: every encryption draws a new IV from the random source.
func H_C24_iv() {
	mode := 1 + vsym.Case(2)
	key := keyOf(0)
	msg := vsym.Bytes("msg", vsym.Pick("n", 0, 3))
	a := enc(mode, key, msg, nil)
	b := enc(mode, key, msg, nil)
	if vsym.EqBytes(a[:2*bs], b[:2*bs]) {
		vsym.Reach("iv-equal")
	} else {
		vsym.Reach("iv-differs")
	}
	vsym.Need("iv-differs")
	x, err := dec(mode, key, a, nil)
	y, err2 := dec(mode, key, b, nil)
	vsym.Assert(err == nil && err2 == nil, "both decrypt")
	vsym.Assert(vsym.And(vsym.EqBytes(x, msg), vsym.EqBytes(y, msg)), "to the message")
}

// bad checks a refusal.
func bad(d []byte, err error) {
	vsym.Assert(err != nil, "malformed ciphertext is rejected with an error")
	vsym.Assert(len(d) == 0, "and no data is returned")
}

// H_C25_blocks: any sequence of blocks and trailing bytes, well encoded.
func H_C25_blocks() {
	c := vsym.Case(4)
	mode := c % 2
	e := 2 * (c / 2)
	nb := vsym.Pick("blocks", 0, vsym.Bound(3, 4))
	tail := []int{0, 1, 8, 15}[vsym.Pick("tail", 0, 3)]
	if vsym.Thorough() {
		tail = vsym.Pick("tail2", 0, 15)
	}
	key := keyOf(vsym.Pick("kl", 0, 2))
	b, _ := vmodels.NewCipher(key)
	// every block is the encryption of some block
	var raw, plain []byte
	if mode == 1 && nb > 0 {
		raw = append(raw, vsym.Bytes("iv", bs)...)
		nb--
	}
	for i := 0; i < nb; i++ {
		p := vsym.Bytes("plain", bs)
		plain = append(plain, p...)
		if mode == 1 {
			p = xor(p, raw[len(raw)-bs:])
		}
		o := make([]byte, bs)
		b.Encrypt(o, p)
		raw = append(raw, o...)
	}
	raw = append(raw, vsym.Bytes("tail", tail)...)
	t := text(e, raw)
	d, err := dec(mode, key, t, optOf(e))
	n := len(plain)
	if tail != 0 || n == 0 {
		bad(d, err)
		return
	}
	last := plain[n-1]
	good := vsym.And(last >= 1, last <= bs)
	for i := 0; i < bs; i++ {
		good = vsym.And(good, vsym.Or(int(last) <= i, plain[n-1-i] == last))
	}
	if good {
		vsym.Assert(err == nil, "well-formed ciphertext decrypts")
		m := n - int(last)
		vsym.Assert(len(d) == m, "to everything before the padding")
		vsym.Assert(vsym.EqBytes(d, plain[:len(d)]), "unchanged")
	} else {
		bad(d, err)
	}
}

// H_C25_ctr: counter mode needs an IV and nothing else.
func H_C25_ctr() {
	e := 2 * vsym.Case(2)
	n := vsym.Pick("n", 0, vsym.Bound(35, 50))
	key := keyOf(vsym.Pick("kl", 0, 2))
	raw := vsym.Bytes("raw", n)
	d, err := dec(2, key, text(e, raw), optOf(e))
	if n < bs {
		bad(d, err)
		return
	}
	vsym.Assert(err == nil && len(d) == n-bs, "every text with an IV decrypts")
	vsym.Assert(vsym.EqBytes(d, ctr(key, raw[:bs], raw[bs:])), "by counter mode")
}

// H_C25_short: every short text is malformed.
func H_C25_short() {
	c := vsym.Case(6)
	mode := c % 3
	e := 2 * (c / 3)
	n := vsym.Pick("n", 0, vsym.Bound(5, 7))
	key := keyOf(vsym.Pick("kl", 0, 2))
	d, err := dec(mode, key, vsym.Bytes("text", n), optOf(e))
	bad(d, err)
}

// H_C25_symbol: one symbol outside the alphabet spoils any text.
func H_C25_symbol() {
	c := vsym.Case(6)
	mode := c % 3
	e := 2 * (c / 3)
	key := keyOf(0)
	raw := vsym.Bytes("raw", []int{16, 32, 33}[vsym.Pick("len", 0, 2)])
	t := text(e, raw)
	x := vsym.U8("x")
	if e == 0 {
		lo := vsym.Or(vsym.And(x >= 'a', x <= 'f'), vsym.And(x >= 'A', x <= 'F'))
		vsym.Assume(!vsym.Or(lo, vsym.And(x >= '0', x <= '9')))
	} else {
		vsym.Assume(vsym.And(!in64(x), vsym.And(x != '\r', x != '\n')))
	}
	p := vsym.Pick("at", 0, len(t))
	if vsym.Bool("insert") {
		t = append(append(append([]byte(nil), t[:p]...), x), t[p:]...)
	} else {
		vsym.Assume(p < len(t))
		t[p] = x
	}
	d, err := dec(mode, key, t, optOf(e))
	bad(d, err)
}

// H_C25_odd: a good text with one more symbol of the alphabet, or one fewer.
func H_C25_odd() {
	c := vsym.Case(6)
	mode := c % 3
	e := 2 * (c / 3)
	key := keyOf(0)
	msg := vsym.Bytes("msg", []int{0, 5, 16, 17, 33}[vsym.Pick("len", 0, 4)])
	t := enc(mode, key, msg, optOf(e))
	p := len(t) - vsym.Pick("back", 0, len(t))
	if vsym.Bool("insert") {
		x := vsym.U8("x")
		if e == 0 {
			vsym.Assume(vsym.Or(vsym.And(x >= 'a', x <= 'f'), vsym.And(x >= '0', x <= '9')))
		} else {
			vsym.Assume(vsym.And(in64(x), x != '='))
		}
		t = append(append(append([]byte(nil), t[:p]...), x), t[p:]...)
	} else {
		vsym.Assume(p < len(t))
		t = append(append([]byte(nil), t[:p]...), t[p+1:]...)
	}
	if e != 0 {
		vsym.Assume(len(t)%4 == 1)
	}
	d, err := dec(mode, key, t, optOf(e))
	bad(d, err)
}

// H_C25_key: decrypting with an impossible key length is an error.
func H_C25_key() {
	c := vsym.Case(3)
	l := vsym.Pick("kl", 0, 40)
	if l == 16 || l == 24 || l == 32 {
		return
	}
	raw := vsym.Bytes("raw", 32)
	d, err := dec(c, make([]byte, l), text(0, raw), nil)
	bad(d, err)
}

// H_C26_enc: encryption leaves its inputs, and what lies behind them, alone.
func H_C26_enc() {
	c := vsym.Case(6)
	mode, e := c%3, 2*(c/3)
	n := vsym.Pick("n", 0, vsym.Bound(18, 34))
	spare := []int{0, 1, 16, 20}[vsym.Pick("spare", 0, 3)]
	key := vsym.Bytes("key", 24)
	buf := vsym.Bytes("buf", n+spare)
	key0 := append([]byte(nil), key...)
	buf0 := append([]byte(nil), buf...)
	t := enc(mode, key[:16], buf[:n], optOf(e))
	vsym.Assert(vsym.EqBytes(key, key0), "the key is untouched")
	vsym.Assert(vsym.EqBytes(buf, buf0), "the message and the memory behind it are untouched")
	vsym.Assert(vsym.Distinct(t, buf) && vsym.Distinct(t, key), "the result shares no memory with the arguments")
}

// H_C26_dec: decryption leaves its inputs alone.
func H_C26_dec() {
	c := vsym.Case(6)
	mode, e := c%3, 2*(c/3)
	n := vsym.Pick("n", 0, vsym.Bound(18, 34))
	spare := []int{0, 1, 20}[vsym.Pick("spare", 0, 2)]
	key := vsym.Bytes("key", 24)
	msg := vsym.Bytes("msg", n)
	iv := vsym.Bytes("iv", bs)
	t := text(e, ref(mode, key[:16], iv, msg))
	if vsym.Bool("spoil") {
		t = t[:len(t)-2]
	}
	buf := append(append([]byte(nil), t...), vsym.Bytes("spare", spare)...)
	key0 := append([]byte(nil), key...)
	buf0 := append([]byte(nil), buf...)
	d, _ := dec(mode, key[:16], buf[:len(t)], optOf(e))
	vsym.Assert(vsym.EqBytes(key, key0), "the key is untouched")
	vsym.Assert(vsym.EqBytes(buf, buf0), "the ciphertext and the memory behind it are untouched")
	vsym.Assert(vsym.Distinct(d, buf) && vsym.Distinct(d, key), "the result shares no memory with the arguments")
}

// H_C26_key: encryption refuses impossible key lengths by a panic.
func H_C26_key() {
	mode := vsym.Case(3)
	l := vsym.Pick("kl", 0, 40)
	if l == 16 || l == 24 || l == 32 {
		return
	}
	buf := vsym.Bytes("buf", 20)
	buf0 := append([]byte(nil), buf...)
	p, _ := vsym.Panics(func() { enc(mode, make([]byte, l), buf[:3], nil) })
	vsym.Assert(p, "an impossible key length is refused")
	vsym.Assert(vsym.EqBytes(buf, buf0), "and nothing is touched")
}
