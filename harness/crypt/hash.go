package crypt

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"

	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/verifh/vsym"
)

// H_C27_digest: the digest helpers.
func H_C27_digest() {
	c := vsym.Case(4)
	// around the block and padding boundaries of the digests
	ns := []int{0, 1, 3, 55, 56, 64, 65}
	if vsym.Thorough() {
		ns = append(ns, 2, 7, 63, 100, 111, 112, 119, 120, 127, 128, 129)
	} else if c == 3 {
		ns = []int{0, 1, 3, 111, 112, 128, 129}
	}
	n := ns[vsym.Pick("n", 0, len(ns)-1)]
	spare := vsym.Pick("spare", 0, 1)
	buf := vsym.Bytes("b", n+spare)
	buf0 := append([]byte(nil), buf...)
	b := buf[:n]
	var got string
	var want []byte
	switch c {
	case 0:
		got = cryptox.Md5(b)
		s := md5.Sum(b)
		want = s[:]
	case 1:
		got = cryptox.Sha1(b)
		s := sha1.Sum(b)
		want = s[:]
	case 2:
		got = cryptox.Sha256(b)
		s := sha256.Sum256(b)
		want = s[:]
	case 3:
		got = cryptox.Sha512(b)
		s := sha512.Sum512(b)
		want = s[:]
	}
	vsym.Assert(len(got) == 2*len(want), "the digest has its standard length")
	vsym.Assert(vsym.EqBytes([]byte(got), []byte(hex.EncodeToString(want))), "the standard digest of exactly these bytes, in lower-case hexadecimal")
	vsym.Assert(vsym.EqBytes(buf, buf0), "the input is untouched")
	vsym.ObsS("d", got)
}

// H_C27_fnv: FNV-1a, written out from its definition.
func H_C27_fnv() {
	c := vsym.Case(2)
	n := vsym.Pick("n", 0, vsym.Bound(20, 60))
	b := vsym.Bytes("b", n)
	b0 := append([]byte(nil), b...)
	if c == 0 {
		h := uint32(2166136261)
		for _, x := range b {
			h = (h ^ uint32(x)) * 16777619
		}
		vsym.Assert(cryptox.Fnv1aToUint32(b) == h, "32-bit FNV-1a")
	} else {
		h := uint64(14695981039346656037)
		for _, x := range b {
			h = (h ^ uint64(x)) * 1099511628211
		}
		vsym.Assert(cryptox.Fnv1aToUint64(b) == h, "64-bit FNV-1a")
	}
	vsym.Assert(vsym.EqBytes(b, b0), "the input is untouched")
}
