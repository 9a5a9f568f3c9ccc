package crypt

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"hash/fnv"

	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/verifh/vapart"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// keys that agree in their first or last bytes, of several lengths
func keys(x byte) [][]byte {
	mk := func(n, at int) []byte {
		k := make([]byte, n)
		for i := range k {
			k[i] = byte(i * 7)
		}
		if at >= 0 {
			k[at] = x
		}
		return k
	}
	return [][]byte{mk(16, -1), mk(32, 31), mk(16, 0), mk(24, 20)}
}

// H_C24_apart: encryptions under several keys one after another and at the same time.
func H_C24_apart() {
	vsym.Merge(false)
	c := vsym.Case(6)
	mode, together := c%3, c >= 3
	e := vsym.Pick("enc", 0, 1) * 2
	ks := keys(vsym.U8("k"))
	msg := vsym.Bytes("msg", 5)
	ms := [][]byte{msg, append([]byte("a message of more than a block "), msg...), msg[:1], nil}
	vapart.Apart(together, len(ks), func(i int) []byte { return enc(mode, ks[i], ms[i], optOf(e)) }, func(i int, t []byte) bool {
		d, err := untext(e, t)
		if err != nil || len(d) < bs {
			return false
		}
		return vsym.EqBytes(d, ref(mode, ks[i], d[:bs], ms[i]))
	})
}

// H_C24_again: the caller overwrites its key and message between the calls.
func H_C24_again() {
	c := vsym.Case(6)
	mode, back := c%3, c >= 3
	key := keys(0)[0]
	msg := vsym.Bytes("msg", 17)
	iv := make([]byte, bs)
	for round := 0; round < 3; round++ {
		if back {
			t := text(0, ref(mode, key, iv, msg))
			d, err := dec(mode, key, t, nil)
			vsym.Assert(err == nil && vsym.EqBytes(d, msg), "decrypting gives the message back")
		} else {
			d, err := untext(0, enc(mode, key, msg, nil))
			vsym.Assert(err == nil && len(d) >= bs && vsym.EqBytes(d, ref(mode, key, d[:bs], msg)), "the text is the standard ciphertext of the mode")
		}
		key[round] = vsym.U8("k")
		msg[round] = vsym.U8("m")
	}
}

// H_C25_apart: decryptions one after another and at the same time, some of malformed text.
func H_C25_apart() {
	c := vsym.Case(6)
	mode, together := c%3, c >= 3
	ks := keys(vsym.U8("k"))
	ms := [][]byte{vsym.Bytes("msg", 5), []byte("a message of more than a block"), {1}}
	iv := make([]byte, bs)
	var ts [][]byte
	for i, m := range ms {
		ts = append(ts, text(0, ref(mode, ks[i], iv, m)))
	}
	bad := []byte("00112z")
	type res struct {
		d   []byte
		err error
	}
	vapart.Apart(together, len(ts)+1, func(i int) res {
		if i == len(ts) {
			d, err := dec(mode, ks[0], bad, nil)
			return res{d, err}
		}
		d, err := dec(mode, ks[i], ts[i], nil)
		return res{d, err}
	}, func(i int, r res) bool {
		if i == len(ts) {
			return r.err != nil
		}
		return r.err == nil && len(r.d) == len(ms[i]) && vsym.EqBytes(r.d, ms[i])
	})
}

// H_C27_apart: digests one after another and at the same time.
func H_C27_apart() {
	c := vsym.Case(12)
	kind, together := c%6, c >= 6
	x := vsym.Bytes("x", 3)
	long := "some text that is longer than one block of every digest used here, twice the size of a small one, and a little more than that: "
	in := [][]byte{x, append([]byte(long), x...), append([]byte(long[64:]), x...), nil}
	hexd := func(b []byte) string { return hex.EncodeToString(b) }
	vapart.Apart(together, len(in), func(i int) string {
		switch kind {
		case 0:
			return cryptox.Md5(in[i])
		case 1:
			return cryptox.Sha1(in[i])
		case 2:
			return cryptox.Sha256(in[i])
		case 3:
			return cryptox.Sha512(in[i])
		case 4:
			v := cryptox.Fnv1aToUint64(in[i])
			return string([]byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
		}
		v := cryptox.Fnv1aToUint32(in[i])
		return string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
	}, func(i int, d string) bool {
		switch kind {
		case 0:
			s := md5.Sum(in[i])
			return d == hexd(s[:])
		case 1:
			s := sha1.Sum(in[i])
			return d == hexd(s[:])
		case 2:
			s := sha256.Sum256(in[i])
			return d == hexd(s[:])
		case 3:
			s := sha512.Sum512(in[i])
			return d == hexd(s[:])
		case 4:
			h := fnv.New64a()
			h.Write(in[i])
			return d == string(h.Sum(nil))
		}
		h := fnv.New32a()
		h.Write(in[i])
		return d == string(h.Sum(nil))
	})
}
