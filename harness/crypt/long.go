package crypt

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"

	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// lengthy is a message of n bytes, unconstrained at the ends and in the middle.
func lengthy(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*29 + 3)
	}
	for _, i := range []int{0, 1, 15, 16, 63, 64, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n {
			b[i] = vsym.U8(name)
		}
	}
	return b
}

func longSize(i int) int { return []int{64, 100, 255, 257, 256, 600, 1024, 1025}[i] }

// H_C24_long: long messages.
func H_C24_long() {
	vsym.Unwind(5000)
	c := vsym.Case(3 * vsym.Bound(4, 8))
	mode, n := c%3, longSize(c/3)
	e := vsym.Pick("enc", 1, 2)
	key := keyOf(0)
	msg := lengthy("msg", n)
	keep := append([]byte(nil), msg...)
	opt := optOf(e)
	t := enc(mode, key, msg, opt)
	d, err := untext(e, t)
	vsym.Assert(err == nil, "the text decodes")
	var iv []byte
	if mode > 0 {
		iv = d[:bs]
	}
	vsym.Assert(vsym.EqBytes(d, ref(mode, key, iv, msg)), "the text is the standard ciphertext of the mode")
	back, err := dec(mode, key, t, opt)
	vsym.Assert(err == nil, "decrypting what was encrypted succeeds")
	vsym.Assert(vsym.EqBytes(back, msg), "decrypting gives the message back")
	vsym.Assert(vsym.EqBytes(msg, keep), "the message is untouched")
}

// H_C25_long: long texts cut short, or with padding of any kind.
func H_C25_long() {
	vsym.Unwind(5000)
	c := vsym.Case(4 * vsym.Bound(2, 5))
	mode, n := c%2, []int{64, 176, 256, 512, 1024}[c/4]
	key := keyOf(0)
	iv := lengthy("iv", bs)
	plain := lengthy("plain", n)
	// the last block ends in anything
	p := vsym.U8("pad")
	for i := n - 16; i < n; i++ {
		plain[i] = byte(n - i)
		if i == n-16 || i >= n-3 {
			plain[i] = vsym.U8("end")
		}
	}
	plain[n-1] = p
	r := ref(mode, key, iv, plain)
	raw := r[:len(r)-bs] // without the block that padding added
	if c/2%2 == 1 {
		k := vsym.Pick("cut", 1, 3)
		d, err := dec(mode, key, text(0, raw[:len(raw)-k*k]), nil)
		bad(d, err)
		return
	}
	d, err := dec(mode, key, text(0, raw), nil)
	good := vsym.And(p >= 1, p <= bs)
	for i := 0; i < bs; i++ {
		good = vsym.And(good, vsym.Or(int(p) <= i, plain[n-1-i] == p))
	}
	if good {
		vsym.Assert(err == nil, "well-formed ciphertext decrypts")
		vsym.Assert(vsym.EqBytes(d, plain[:n-int(p)]), "to everything before the padding")
	} else {
		bad(d, err)
	}
}

// H_C26_long: long inputs stay untouched.
func H_C26_long() {
	vsym.Unwind(5000)
	c := vsym.Case(3 * vsym.Bound(4, 8))
	mode, n := c%3, longSize(c/3)
	key := vsym.Bytes("key", 16)
	key0 := append([]byte(nil), key...)
	buf := lengthy("msg", n+20)
	buf0 := append([]byte(nil), buf...)
	t := enc(mode, key, buf[:n], nil)
	vsym.Assert(vsym.EqBytes(buf, buf0), "the message and the memory behind it are untouched")
	room := append(append([]byte(nil), t...), lengthy("room", 20)...)
	room0 := append([]byte(nil), room...)
	d, err := dec(mode, key, room[:len(t)], nil)
	vsym.Assert(err == nil && vsym.Distinct(d, room), "the result shares no memory with the arguments")
	vsym.Assert(vsym.EqBytes(room, room0), "the ciphertext and the memory behind it are untouched")
	vsym.Assert(vsym.EqBytes(key, key0), "the key is untouched")
}

// H_C27_long: digests of long inputs.
func H_C27_long() {
	vsym.Unwind(10000)
	c := vsym.Case(6 * vsym.Bound(4, 8))
	b := lengthy("b", longSize(c/6))
	b0 := append([]byte(nil), b...)
	var got string
	var want []byte
	switch c % 6 {
	case 0:
		s := md5.Sum(b)
		got, want = cryptox.Md5(b), s[:]
	case 1:
		s := sha1.Sum(b)
		got, want = cryptox.Sha1(b), s[:]
	case 2:
		s := sha256.Sum256(b)
		got, want = cryptox.Sha256(b), s[:]
	case 3:
		s := sha512.Sum512(b)
		got, want = cryptox.Sha512(b), s[:]
	case 4:
		h := uint32(2166136261)
		for _, x := range b {
			h = (h ^ uint32(x)) * 16777619
		}
		vsym.Assert(cryptox.Fnv1aToUint32(b) == h, "32-bit FNV-1a")
		return
	case 5:
		h := uint64(14695981039346656037)
		for _, x := range b {
			h = (h ^ uint64(x)) * 1099511628211
		}
		vsym.Assert(cryptox.Fnv1aToUint64(b) == h, "64-bit FNV-1a")
		return
	}
	vsym.Assert(vsym.EqBytes([]byte(got), []byte(hex.EncodeToString(want))), "the standard digest of exactly these bytes, in lower-case hexadecimal")
	vsym.Assert(vsym.EqBytes(b, b0), "the input is untouched")
}
