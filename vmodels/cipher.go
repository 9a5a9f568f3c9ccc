package vmodels

import (
	"crypto/aes"
	"crypto/cipher"
	"io"

	"github.com/miniLCT/gosb/verifh/vsym"
)

// NewCipher stands in for aes.NewCipher (replaced by the engine).
func NewCipher(key []byte) (cipher.Block, error) { return aes.NewCipher(key) }

// RandReader stands in for rand.Reader.
var RandReader io.Reader = randReader{}

func RandRead(b []byte) (int, error) { return io.ReadFull(RandReader, b) }

type randReader struct{}

// Read delivers bytes chosen by the solver.
func (randReader) Read(b []byte) (int, error) {
	copy(b, vsym.Bytes("rand", len(b)))
	return len(b), nil
}

// Cipher is AES as the encoding sees it: for every key an unknown permutation
// of the 16-byte blocks.
type Cipher struct{ key []byte }

// SymNewCipher is what the engine executes for NewCipher.
func SymNewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
		return &Cipher{append([]byte(nil), key...)}, nil
	}
	return nil, aes.KeySizeError(len(key))
}

func (c *Cipher) BlockSize() int { return aes.BlockSize }

func (c *Cipher) Encrypt(dst, src []byte) { c.crypt(dst, src, false) }
func (c *Cipher) Decrypt(dst, src []byte) { c.crypt(dst, src, true) }

func (c *Cipher) crypt(dst, src []byte, dec bool) {
	if len(src) < aes.BlockSize {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < aes.BlockSize {
		panic("crypto/aes: output not full block")
	}
	copy(dst, AesBlock(c.key, src[:aes.BlockSize], dec))
}

// AesBlock is provided by the engine.
func AesBlock(key, in []byte, dec bool) []byte { panic("engine only") }

// ctrStream is counter mode as documented, one block at a time.
type ctrStream struct {
	b   cipher.Block
	ctr []byte
	ks  []byte
}

// NewCTR is what the engine executes for cipher.NewCTR.
func NewCTR(b cipher.Block, iv []byte) cipher.Stream {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCTR: IV length must equal block size")
	}
	return &ctrStream{b: b, ctr: append([]byte(nil), iv...)}
}

func (s *ctrStream) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for i := range src {
		if len(s.ks) == 0 {
			s.ks = make([]byte, len(s.ctr))
			s.b.Encrypt(s.ks, s.ctr)
			carry := uint16(1)
			for j := len(s.ctr) - 1; j >= 0; j-- {
				carry += uint16(s.ctr[j])
				s.ctr[j] = byte(carry)
				carry >>= 8
			}
		}
		dst[i] = src[i] ^ s.ks[0]
		s.ks = s.ks[1:]
	}
}
