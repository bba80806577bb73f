// Package mcrypto models the cryptographic primitives of the standard library and golang.org/x/crypto. The symbolic
// executor calls these functions in place of the real ones (see modelTable in engine/main.go); the natively compiled
// harnesses use the real ones.
//
// AEADs are ideal: a ciphertext is an opaque value that nobody can guess, and opens only with the key, nonce and
// additional data it was sealed with. The block cipher is a toy permutation with the real sizes, so that block modes
// are exact about structure (blocks, chaining, padding) and say nothing about secrecy. The random source never
// repeats itself.
package mcrypto

import (
	"crypto/aes"
	"crypto/cipher"
	"errors"
	"fmt"
	"io"

	"verif/sym"
)

// Rand is the model of crypto/rand.Reader.
type Rand struct{}

var counter uint32

// Source, if set, is where the random bytes come from.
var Source func(b []byte)

// Read implements io.Reader.
func (Rand) Read(b []byte) (int, error) {
	if Source != nil {
		Source(b)
		return len(b), nil
	}
	for i := 0; i < len(b); i += 4 {
		counter++
		x := counter*2654435761 + 0x5bd1e995 // a bijection on 32 bits
		for j := 0; j < 4 && i+j < len(b); j++ {
			b[i+j] = byte(x >> (8 * uint(j)))
		}
	}
	return len(b), nil
}

// Reader replaces crypto/rand.Reader.
func Reader() io.Reader { return Rand{} }

// RandRead replaces crypto/rand.Read.
func RandRead(b []byte) (int, error) { return Rand{}.Read(b) }

type block struct{ key []byte }

func (b *block) BlockSize() int { return 16 }

func (b *block) pad(i int) byte {
	return b.key[i%len(b.key)] ^ b.key[(i+7)%len(b.key)]<<1 ^ byte(31*len(b.key)+i)
}

func (b *block) Encrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	var t [16]byte
	for i := 0; i < 16; i++ {
		t[(i+5)%16] = src[i] ^ b.pad(i)
	}
	copy(dst, t[:])
}

func (b *block) Decrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	var t [16]byte
	for i := 0; i < 16; i++ {
		t[i] = src[(i+5)%16] ^ b.pad(i)
	}
	copy(dst, t[:])
}

// NewCipher replaces crypto/aes.NewCipher.
func NewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
		return &block{append([]byte(nil), key...)}, nil
	}
	return nil, aes.KeySizeError(len(key))
}

type cbc struct {
	b   cipher.Block
	iv  []byte
	enc bool
}

func (c *cbc) BlockSize() int { return c.b.BlockSize() }

func (c *cbc) CryptBlocks(dst, src []byte) {
	n := c.b.BlockSize()
	if len(src)%n != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for i := 0; i < len(src); i += n {
		t := make([]byte, n)
		if c.enc {
			for j := range t {
				t[j] = src[i+j] ^ c.iv[j]
			}
			c.b.Encrypt(t, t)
			c.iv = append([]byte(nil), t...)
		} else {
			in := append([]byte(nil), src[i:i+n]...)
			c.b.Decrypt(t, in)
			for j := range t {
				t[j] ^= c.iv[j]
			}
			c.iv = in
		}
		copy(dst[i:], t)
	}
}

func newCBC(b cipher.Block, iv []byte, enc bool) cipher.BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBC: IV length must equal block size")
	}
	return &cbc{b, append([]byte(nil), iv...), enc}
}

// NewCBCEncrypter replaces crypto/cipher.NewCBCEncrypter.
func NewCBCEncrypter(b cipher.Block, iv []byte) cipher.BlockMode { return newCBC(b, iv, true) }

// NewCBCDecrypter replaces crypto/cipher.NewCBCDecrypter.
func NewCBCDecrypter(b cipher.Block, iv []byte) cipher.BlockMode { return newCBC(b, iv, false) }

type ctr struct {
	b  cipher.Block
	iv []byte
	n  int
	ks []byte
}

func (c *ctr) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for i := range src {
		if c.n%16 == 0 {
			t := append([]byte(nil), c.iv...)
			t[15] += byte(c.n / 16)
			c.b.Encrypt(t, t)
			c.ks = t
		}
		dst[i] = src[i] ^ c.ks[c.n%16]
		c.n++
	}
}

// NewCTR replaces crypto/cipher.NewCTR (and serves for the other stream modes).
func NewCTR(b cipher.Block, iv []byte) cipher.Stream {
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCTR: IV length must equal block size")
	}
	return &ctr{b: b, iv: append([]byte(nil), iv...)}
}

type sealed struct {
	kind               string
	key, nonce, pt, ad string
	ct                 string
}

var table []sealed

type aead struct {
	kind  string
	key   string
	nonce int
	err   error
}

func (a *aead) NonceSize() int { return a.nonce }
func (a *aead) Overhead() int  { return 16 }

func (a *aead) Seal(dst, nonce, plaintext, additionalData []byte) []byte {
	if len(nonce) != a.nonce {
		panic(a.kind + ": incorrect nonce length given")
	}
	s := sealed{kind: a.kind, key: a.key, nonce: string(nonce), pt: string(plaintext), ad: string(additionalData)}
	for i := range table {
		t := &table[i]
		if t.kind == s.kind && len(t.pt) == len(s.pt) && len(t.ad) == len(s.ad) && len(t.key) == len(s.key) &&
			sym.StrEq(t.key, s.key) && sym.StrEq(t.nonce, s.nonce) && sym.StrEq(t.pt, s.pt) && sym.StrEq(t.ad, s.ad) {
			return append(dst, t.ct...)
		}
	}
	n := len(table)
	ct := make([]byte, len(plaintext)+16)
	for i := range ct {
		ct[i] = byte(177*i+59*n) ^ byte(n>>3) ^ 0xA5
	}
	// the number makes it unique
	ct[len(ct)-1], ct[len(ct)-2] = byte(n), byte(n>>8)^0x3C
	s.ct = string(ct)
	table = append(table, s)
	return append(dst, ct...)
}

func (a *aead) Open(dst, nonce, ciphertext, additionalData []byte) ([]byte, error) {
	if len(nonce) != a.nonce {
		panic(a.kind + ": incorrect nonce length given")
	}
	if len(ciphertext) < 16 {
		return nil, a.err
	}
	ct := string(ciphertext)
	for i := range table {
		t := &table[i]
		if t.kind == a.kind && len(t.ct) == len(ct) && len(t.key) == len(a.key) && sym.StrEq(t.ct, ct) && sym.StrEq(t.key, a.key) &&
			sym.StrEq(t.nonce, string(nonce)) && sym.StrEq(t.ad, string(additionalData)) {
			return append(dst, t.pt...), nil
		}
	}
	return nil, a.err
}

// NewGCM replaces crypto/cipher.NewGCM.
func NewGCM(b cipher.Block) (cipher.AEAD, error) { return NewGCMWithNonceSize(b, 12) }

// NewGCMWithNonceSize replaces crypto/cipher.NewGCMWithNonceSize.
func NewGCMWithNonceSize(b cipher.Block, size int) (cipher.AEAD, error) {
	if size <= 0 {
		return nil, errors.New("cipher: the nonce can't have zero length")
	}
	return &aead{"crypto/cipher", string(b.(*block).key), size, errors.New("cipher: message authentication failed")}, nil
}

func newChaCha(kind string, key []byte, nonce int) (cipher.AEAD, error) {
	if len(key) != 32 {
		return nil, errors.New("chacha20poly1305: bad key length")
	}
	return &aead{kind, string(key), nonce, fmt.Errorf("chacha20poly1305: message authentication failed")}, nil
}

// NewX replaces golang.org/x/crypto/chacha20poly1305.NewX.
func NewX(key []byte) (cipher.AEAD, error) { return newChaCha("xchacha20poly1305", key, 24) }

// NewChaCha replaces golang.org/x/crypto/chacha20poly1305.New.
func NewChaCha(key []byte) (cipher.AEAD, error) { return newChaCha("chacha20poly1305", key, 12) }
