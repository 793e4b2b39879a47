// Package vsym is the interface between the property harnesses and what executes them. The symbolic engine replaces
// every exported function (and blockUF) by its own implementation; compiled natively, the package replays one
// concrete assignment read from a file.
package vsym

import (
	"crypto/aes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"bytes"

	"github.com/bitcoinsv/bsvd/bsvec"
)

type value struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
	Hex  string `json:"hex"`
	Len  uint64 `json:"len"`
}

type file struct {
	Harness  string  `json:"harness"`
	Thorough bool    `json:"thorough"`
	Inputs   []value `json:"inputs"`
}

var (
	in       = map[string]value{}
	seen     = map[string]int{}
	thorough bool
)

// Load reads an assignment and returns the name of its harness.
func Load(js []byte) (string, error) {
	var f file
	if err := json.Unmarshal(js, &f); err != nil {
		return "", err
	}
	for _, v := range f.Inputs {
		in[v.Name] = v
	}
	thorough = f.Thorough
	return f.Harness, nil
}

func uniq(n string) string {
	seen[n]++
	if k := seen[n]; k > 1 {
		return n + "#" + strconv.Itoa(k)
	}
	return n
}

func num(n string) uint64 { return in[uniq(n)].Val }

// U8 is an arbitrary byte.
func U8(n string) uint8 { return uint8(num(n)) }

// U16 is an arbitrary 16-bit value.
func U16(n string) uint16 { return uint16(num(n)) }

// U32 is an arbitrary 32-bit value.
func U32(n string) uint32 { return uint32(num(n)) }

// U64 is an arbitrary 64-bit value.
func U64(n string) uint64 { return num(n) }

// Int is an arbitrary int.
func Int(n string) int { return int(num(n)) }

// Bool is an arbitrary bool.
func Bool(n string) bool { return num(n) != 0 }

// Range is an arbitrary non-negative int between lo and hi.
func Range(n string, lo, hi int) int {
	v := int(num(n))
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// Choose is Range, with a separate path for each value.
func Choose(n string, lo, hi int) int { return Range(n, lo, hi) }

func raw(n string, k int) []byte {
	b := make([]byte, k)
	h, _ := hex.DecodeString(in[uniq(n)].Hex)
	copy(b, h)
	return b
}

// Bytes is a slice of k arbitrary bytes (capacity k).
func Bytes(n string, k int) []byte { return raw(n, k) }

// BytesCap is a slice of k arbitrary bytes followed by spare bytes of capacity.
func BytesCap(n string, k, spare int) []byte { return raw(n, k+spare)[:k] }

// Str is a string of k arbitrary bytes.
func Str(n string, k int) string { return string(raw(n, k)) }

// Blob is a slice of arbitrary length between lo and hi and arbitrary content.
func Blob(n string, lo, hi int) []byte {
	n = uniq(n)
	v := in[n]
	l := int(v.Len)
	if l < lo {
		l = lo
	}
	if l > hi {
		l = hi
	}
	b := make([]byte, l)
	h, _ := hex.DecodeString(v.Hex)
	copy(b, h)
	return b
}

func result(s string) {
	fmt.Println("RESULT " + s)
	os.Exit(0)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		result("assume")
	}
}

// Assert states what must hold.
func Assert(c bool, label string) {
	if !c {
		result("violation " + strings.ReplaceAll(label, " ", "-"))
	}
}

// EqBytes asserts equality of contents.
func EqBytes(a, b []byte, label string) {
	if !bytes.Equal(a, b) {
		result("violation " + strings.ReplaceAll(label, " ", "-") + fmt.Sprintf(" got %s want %s", clip(a), clip(b)))
	}
}

// EqStr asserts equality of strings.
func EqStr(a, b string, label string) {
	if a != b {
		result("violation " + strings.ReplaceAll(label, " ", "-") + fmt.Sprintf(" got %.200q want %.200q", a, b))
	}
}

func clip(b []byte) string {
	if len(b) > 100 {
		return fmt.Sprintf("%x..(%d bytes)", b[:100], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// Cover marks a point as reached; WantCover says that it should be.
func Cover(string)     {}
func WantCover(string) {}

// Thorough tells whether the deep bounds apply.
func Thorough() bool { return thorough }

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// PrivKey is an arbitrary private key.
func PrivKey(n string) *bsvec.PrivateKey {
	k := raw(n, 32)
	k[0] &= 0x7f
	k[31] |= 1
	p, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), k)
	return p
}

func blockUF(b []byte) []byte {
	c, err := aes.NewCipher([]byte("verif-block-key!"))
	if err != nil {
		panic(err)
	}
	out := make([]byte, 16)
	c.Encrypt(out, b)
	return out
}

// Block is a cipher.Block whose encryption is an uninterpreted function.
type Block struct{}

// BlockSize is 16.
func (Block) BlockSize() int { return 16 }

// Encrypt applies the function.
func (Block) Encrypt(dst, src []byte) { copy(dst[:16], blockUF(src[:16])) }

// Decrypt is not used by stream modes.
func (Block) Decrypt(dst, src []byte) { panic("vsym: Decrypt is not available") }

// SameMemory tells whether the slices (up to their capacity) overlap.
func SameMemory(a, b []byte) bool {
	a, b = a[:cap(a)], b[:cap(b)]
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	for i := range a {
		if &a[i] == &b[0] {
			return true
		}
	}
	for i := range b {
		if &b[i] == &a[0] {
			return true
		}
	}
	return false
}

// IsSymbolic tells whether the symbolic engine executes the harness.
func IsSymbolic() bool { return false }

// Reader yields the random bytes chosen by the assignment.
type Reader struct{ n int }

// Read fills p.
func (r *Reader) Read(p []byte) (int, error) {
	copy(p, Bytes("rand", len(p)))
	return len(p), nil
}
