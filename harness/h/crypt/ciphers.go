// Package crypt has the harnesses of the encryption engines, the key stores, the event encryptor and the encrypted store.
package crypt

import (
	stdaes "crypto/aes"
	"crypto/cipher"
	"encoding/base64"
	"errors"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/xchacha20poly1305"

	_ "verif/mcrypto"
	"verif/sym"
)

const (
	eGCM = iota
	eXChaCha
	eCBC
)

func engine(k int) crypto.Encryptor {
	switch k {
	case eGCM:
		return aes.NewGCM()
	case eXChaCha:
		return xchacha20poly1305.New()
	}
	return aes.NewCBCPKCS5Padding()
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func unb64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		sym.Fail("base64", "a cipher text is not base64")
	}
	return b
}

func key(n int, salt byte) []byte {
	k := make([]byte, n)
	for i := range k {
		k[i] = byte(i*37) + salt
	}
	return k
}

func validKey(engine, n int) bool {
	if engine == eXChaCha {
		return n == 32
	}
	return n == 16 || n == 24 || n == 32
}

// plain is an arbitrary plain text: all bytes are symbolic up to two, and the first and last of a longer one.
func plain(n int) string {
	b := make([]byte, n)
	for i := range b {
		if i < 1 || i == n-1 {
			b[i] = sym.Byte("plain")
		} else {
			b[i] = byte('a' + i)
		}
	}
	return string(b)
}

// RoundTrip: what is encrypted with a valid key decrypts to the same text, and every other key size is refused.
func RoundTrip() {
	k := sym.Choose("engine", 3)
	e := engine(k)
	lens := []int{16, 24, 32, 0, 1, 7, 8, 15, 17, 23, 25, 31, 33, 48, 64}
	n := lens[sym.Choose("keylen", len(lens))]
	ky := b64(key(n, 3))
	plens := []int{0, 1, 2, 15, 16, 17, 31, 32, 33}
	if !validKey(k, n) {
		ct, err := e.Encrypt(ky, plain(1))
		sym.Assert(err != nil && ct == "", "key-size", "Encrypt accepts a key of a wrong size")
		pt, err := e.Decrypt(ky, b64(make([]byte, 64)))
		sym.Assert(err != nil && pt == "", "key-size", "Decrypt accepts a key of a wrong size")
		sym.Reach("bad-key")
		return
	}
	p := plain(plens[sym.Choose("len", len(plens))])
	ct, err := e.Encrypt(ky, p)
	sym.Assert(err == nil, "encrypt", "Encrypt with a valid key fails: "+sym.Err(err))
	sym.Assert(len(unb64(ct)) >= len(p), "size", "the cipher text is shorter than the plain text")
	got, err := e.Decrypt(ky, ct)
	sym.Assert(err == nil, "decrypt", "Decrypt of a cipher text fails: "+sym.Err(err))
	sym.Assert(sym.StrEq(got, p), "roundtrip", "decrypting gives another text than was encrypted")
	got, err = e.Decrypt(ky, ct)
	sym.Assert(err == nil && sym.StrEq(got, p), "again", "decrypting a second time differs")
	ct2, err := e.Encrypt(ky, p)
	sym.Assert(err == nil && ct2 != ct, "fresh", "encrypting the same text twice gives the same cipher text")
	got, err = e.Decrypt(ky, ct2)
	sym.Assert(err == nil && sym.StrEq(got, p), "roundtrip2", "decrypting the second cipher text fails")
	// another engine instance, as after a restart
	got, err = engine(k).Decrypt(ky, ct)
	sym.Assert(err == nil && sym.StrEq(got, p), "restart", "another instance cannot decrypt")
	if k != eCBC {
		got, err = e.Decrypt(b64(key(n, 9)), ct)
		sym.Assert(err != nil && got == "", "other-key", "a cipher text opens with another key")
		sym.Reach("other-key")
	}
	sym.Reach("roundtrip")
}

// Malformed: cipher texts that Encrypt did not produce are refused, and never make Decrypt panic.
func Malformed() {
	k := sym.Choose("engine", 3)
	e := engine(k)
	n := 16
	if k == eXChaCha {
		n = 32
	}
	ky := b64(key(n, 3))
	l := sym.Choose("size", 66)
	c := make([]byte, l)
	for i := range c {
		c[i] = byte(i * 91)
	}
	if l > 0 {
		c[l-1] = sym.Byte("last")
	}
	if l > 16 {
		c[l-17] = sym.Byte("prev")
	}
	got, err := e.Decrypt(ky, b64(c))
	sym.Reach("returned")
	if k != eCBC {
		sym.Assert(err != nil && got == "", "forged", "a cipher text that nobody encrypted opens")
		return
	}
	if l < 32 || l%16 != 0 {
		sym.Assert(err != nil && got == "", "cbc-size", "a cipher text of an impossible size decrypts")
		return
	}
	// the same with the primitives
	b, err1 := stdaes.NewCipher(key(n, 3))
	if err1 != nil {
		sym.Fail("setup", "aes")
	}
	want := make([]byte, l-16)
	cipher.NewCBCDecrypter(b, c[:16]).CryptBlocks(want, c[16:])
	pad := int(want[len(want)-1])
	if pad < 1 || pad > 16 {
		sym.Assert(err != nil && got == "", "cbc-padding", "a cipher text with impossible padding decrypts")
		sym.Reach("bad-padding")
		return
	}
	all := true
	for _, x := range want[len(want)-pad:] {
		all = sym.And(all, int(x) == pad)
	}
	if all {
		sym.Assert(err == nil, "cbc-valid", "a valid cipher text is refused: "+sym.Err(err))
		sym.Assert(sym.StrEq(got, string(want[:len(want)-pad])), "cbc-text", "a valid cipher text decrypts to another text")
		sym.Reach("valid")
	} else if err != nil {
		sym.Assert(got == "", "cbc-error", "an error comes with a text")
	}
}

// Tampered: a cipher text that was changed, cut or extended does not open (authenticated engines), and never panics.
func Tampered() {
	k := sym.Choose("engine", 3)
	e := engine(k)
	ky := b64(key(32, 3))
	p := plain(sym.Choose("len", 3))
	ct, err := e.Encrypt(ky, p)
	sym.Assert(err == nil, "encrypt", "Encrypt fails")
	b := unb64(ct)
	switch sym.Choose("how", 4) {
	case 0:
		i := sym.Choose("at", len(b))
		d := sym.Byte("delta")
		sym.Assume(d != 0)
		b[i] ^= d
	case 1:
		b = b[:sym.Choose("cut", len(b))]
	case 2:
		b = append(b, sym.Byte("extra"))
	case 3:
		ct2, err := e.Encrypt(ky, p+"x")
		sym.Assert(err == nil, "encrypt", "Encrypt fails")
		b2 := unb64(ct2)
		i := 1 + sym.Choose("splice", len(b)-1)
		b = append(append([]byte(nil), b[:i]...), b2[i:]...)
	}
	got, err := e.Decrypt(ky, b64(b))
	sym.Reach("returned")
	if k != eCBC {
		sym.Assert(err != nil && got == "", "tampered", "a changed cipher text opens")
	} else if err != nil {
		sym.Assert(got == "", "cbc-error", "an error comes with a text")
	}
}

// Texts: arbitrary texts as key and cipher text never make an engine panic.
func Texts() {
	k := sym.Choose("engine", 3)
	e := engine(k)
	n := sym.Choose("n", sym.Param("n", 4)+1)
	switch sym.Choose("which", 3) {
	case 0:
		_, err := e.Encrypt(sym.Str("key", n), "x")
		sym.Assert(err != nil, "short-key", "Encrypt accepts a short key text")
	case 1:
		_, err := e.Decrypt(sym.Str("key", n), b64(make([]byte, 48)))
		sym.Assert(err != nil, "short-key", "Decrypt accepts a short key text")
	case 2:
		got, err := e.Decrypt(b64(key(32, 3)), sym.Str("ct", n))
		sym.Assert(err != nil && got == "", "short-text", "Decrypt accepts a short cipher text")
	}
	sym.Reach("returned")
}

type failReader struct{ after int }

func (f *failReader) Read(b []byte) (int, error) {
	if f.after <= 0 {
		return 0, errors.New("no randomness")
	}
	n := len(b)
	if n > f.after {
		n = f.after
	}
	f.after -= n
	return n, nil
}

// NoRandomness: without (enough) random bytes nothing is encrypted.
func NoRandomness() {
	after := sym.Choose("bytes", 24)
	var e crypto.Encryptor
	if sym.Choose("engine", 2) == 0 {
		sym.Assume(after < 12)
		g := aes.NewGCM()
		g.SetRandReader(&failReader{after})
		e = g
	} else {
		x := xchacha20poly1305.New()
		x.SetRandReader(&failReader{after})
		e = x
	}
	ct, err := e.Encrypt(b64(key(32, 3)), "secret")
	sym.Assert(err != nil && ct == "", "randomness", "Encrypt succeeds without a full random nonce")
	sym.Reach("returned")
}
