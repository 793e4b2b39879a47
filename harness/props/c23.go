package props

import (
	"crypto/sha256"

	"golang.org/x/crypto/ripemd160"

	"github.com/libsv/libsv/crypto"

	. "verif/harness/vsym"
)

func refSha(b []byte) []byte {
	h := sha256.Sum256(b)
	return h[:]
}

func refRipe(b []byte) []byte {
	h := ripemd160.New()
	h.Write(b)
	return h.Sum(nil)
}

type hashFn struct {
	name     string
	lib, ref func([]byte) []byte
}

var hashFns = []hashFn{
	{"Sha256", crypto.Sha256, refSha},
	{"Sha256d", crypto.Sha256d, sha256d},
	{"Ripemd160", crypto.Ripemd160, refRipe},
	{"Hash160", crypto.Hash160, hash160},
}

// Arguments of any length.
func C23_any() {
	b := Blob("data", 0, maxBlob)
	for _, f := range hashFns {
		EqBytes(f.lib(b), f.ref(b), f.name)
	}
}

// Short arguments with and without spare capacity, kept as they are; the result is nobody else's.
func C23_short() {
	n := 24
	if Thorough() {
		n = 130
	}
	n = Choose("length", 0, n)
	b := BytesCap("data", n, 40*Choose("spare", 0, 1))
	whole := b[:cap(b)]
	kept := dup(whole)
	f := hashFns[Choose("function", 0, 3)]
	got := f.lib(b)
	EqBytes(got, f.ref(kept[:n]), f.name)
	EqBytes(whole, kept, "argument-kept")
	was := dup(got)
	again := f.lib(b)
	Assert(!SameMemory(got, again), "fresh-result")
	for i := range again {
		again[i] ^= 0xff
	}
	b2 := cat(b, []byte{1})
	f.lib(b2)
	EqBytes(got, was, "result-kept")
	for i := range got {
		got[i] ^= 0xff
	}
	EqBytes(f.lib(b), was, "same-result-again")
	EqBytes(whole, kept, "argument-kept")
}

// nil is the empty string.
func C23_nil() {
	for _, f := range hashFns {
		EqBytes(f.lib(nil), f.ref([]byte{}), f.name)
	}
}

// A digest may be hashed again, in place and in halves.
func C23_nested() {
	b := Bytes("data", 64)
	for _, f := range hashFns {
		h := f.lib(b[:32:64])
		EqBytes(f.lib(h), f.ref(f.ref(b[:32])), f.name+"-of-digest")
		EqBytes(f.lib(cat(h, b[32:])), f.ref(cat(f.ref(b[:32]), b[32:])), f.name+"-of-joined")
	}
}
