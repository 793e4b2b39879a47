package props

import (
	"crypto/rand"
	"errors"

	"github.com/libsv/libsv/crypto"

	. "verif/harness/vsym"
)

// Any plaintext, any vector, any cipher: decrypted twice.
func C22_roundTrip() {
	n := 20
	if Thorough() {
		n = 40
	}
	rand.Reader = &Reader{}
	text := Bytes("text", Choose("length", 0, n))
	kept := dup(text)
	c, err := crypto.Encrypt(Block{}, text)
	Assert(err == nil, "encrypted")
	EqBytes(text, kept, "text-kept")
	was := dup(c)
	for i := 0; i < 2; i++ {
		got, err := crypto.Decrypt(Block{}, c)
		Assert(err == nil, "decrypted")
		EqBytes(got, kept, "plaintext")
		EqBytes(c, was, "ciphertext-kept")
	}
}

// Two messages do not disturb one another.
func C22_two() {
	rand.Reader = &Reader{}
	a, b := Bytes("a", 5), Bytes("b", Choose("length", 4, 6))
	ca, err := crypto.Encrypt(Block{}, a)
	Assert(err == nil, "encrypted")
	was := dup(ca)
	cb, err := crypto.Encrypt(Block{}, b)
	Assert(err == nil, "encrypted")
	EqBytes(ca, was, "first-ciphertext-kept")
	pa, err := crypto.Decrypt(Block{}, ca)
	Assert(err == nil, "decrypted")
	pb, err := crypto.Decrypt(Block{}, cb)
	Assert(err == nil, "decrypted")
	EqBytes(pa, a, "first-plaintext")
	EqBytes(pb, b, "second-plaintext")
}

// Ciphertexts of any content never panic; those shorter than a block are refused; none is written to.
func C22_arbitrary() {
	n := 19
	if Thorough() {
		n = 20
	}
	c := BytesCap("ciphertext", Choose("length", 0, n), 20*Choose("spare", 0, 1))
	whole := c[:cap(c)]
	was := dup(whole)
	_, err := crypto.Decrypt(Block{}, c)
	Assert(len(c) >= 16 || err != nil, "short-ciphertext-refused")
	EqBytes(whole, was, "ciphertext-kept")
}

// A ciphertext that is cut or continued.
func C22_changed() {
	rand.Reader = &Reader{}
	c, err := crypto.Encrypt(Block{}, Bytes("text", 3))
	Assert(err == nil, "encrypted")
	c = c[:len(c)-Choose("fewer", 0, 4)]
	was := dup(c)
	got, err := crypto.Decrypt(Block{}, c)
	EqBytes(c, was, "ciphertext-kept")
	if len(c) == 16 {
		Assert(err == nil && len(got) == 0, "empty")
	}
}

// Longer plaintexts, at and around the multiples of the block and group sizes.
func C22_long() {
	ns := []int{24, 31, 32, 33, 47, 48, 49, 57, 64, 100, 255, 256, 300, 1000, 1025}
	rand.Reader = &Reader{}
	text := make([]byte, ns[Choose("length", 0, len(ns)-1)])
	for i := range text {
		text[i] = byte(i * 37)
	}
	at := Choose("at", 0, 2) * (len(text) - 3) / 2
	copy(text[at:], Bytes("text", 3))
	c, err := crypto.Encrypt(Block{}, text)
	Assert(err == nil, "encrypted")
	was := dup(c)
	got, err := crypto.Decrypt(Block{}, c)
	Assert(err == nil, "decrypted")
	EqBytes(got, text, "plaintext")
	EqBytes(c, was, "ciphertext-kept")
}

// source gives the bytes b, at most step at a time, and then an error.
type source struct {
	b    []byte
	step int
}

func (s *source) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, errors.New("no more random bytes")
	}
	n := len(p)
	if n > s.step {
		n = s.step
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	return n, nil
}

// The initial vector is taken whole from the random source; without it there is no ciphertext.
func C22_vector() {
	n := []int{0, 1, 15, 16, 17, 31, 32, 33}[Choose("available", 0, 7)]
	random := Bytes("random", n)
	rand.Reader = &source{random, []int{1, 7, 16, 100}[Choose("step", 0, 3)]}
	text := Bytes("text", Choose("length", 0, 2))
	for i := 0; i < 2; i++ {
		c, err := crypto.Encrypt(Block{}, text)
		if len(random) < 16*(i+1) {
			Assert(err != nil, "refused-without-random-bytes")
			return
		}
		Assert(err == nil, "encrypted")
		Assert(len(c) >= 16, "vector")
		EqBytes(c[:16], random[16*i:16*i+16], "vector")
		got, err := crypto.Decrypt(Block{}, c)
		Assert(err == nil, "decrypted")
		EqBytes(got, text, "plaintext")
	}
}
