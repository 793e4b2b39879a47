package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/libsv/libsv/utils"

	. "verif/harness/vsym"
)

func C25_reverse() {
	n := 33
	if Thorough() {
		n = 80
	}
	n = Choose("length", 0, n)
	b := BytesCap("bytes", n, 3)
	whole := b[:n+3]
	kept := dup(whole)
	got := utils.ReverseBytes(b)
	EqBytes(got, rev(kept[:n]), "reversed")
	EqBytes(whole, kept, "argument-kept")
	Assert(!SameMemory(got, b), "fresh-result")
	was := dup(got)
	EqBytes(utils.ReverseBytes(got), kept[:n], "reversed-twice")
	EqBytes(got, was, "argument-kept-again")
	utils.ReverseBytes(cat(b, []byte{1, 2}))
	EqBytes(got, was, "result-kept")
}

// Longer ones.
func C25_reverseLong() {
	n := []int{64, 65, 127, 128, 129, 255, 256, 257, 300, 513, 1000}[Choose("length", 0, 10)]
	b := Bytes("bytes", n)
	kept := dup(b)
	EqBytes(utils.ReverseBytes(b), rev(kept), "reversed")
	EqBytes(b, kept, "argument-kept")
}

// Any text: the pairs of characters change places, not the characters of a pair.
func C25_reverseHex() {
	n := 17
	if Thorough() {
		n = 40
	}
	n = Choose("length", 0, n+5)
	if n > 17 && !Thorough() || n > 40 {
		n = []int{63, 128, 255, 257, 512, 601}[n%6]
	}
	s := Str("text", n)
	p := s
	if len(p)%2 != 0 {
		p = "0" + p
	}
	want := ""
	for i := 0; i < len(p); i += 2 {
		want = p[i:i+2] + want
	}
	EqStr(utils.ReverseHexString(s), want, "reversed")
}

// Hexadecimal text of an identifier: the text of the reversed bytes.
func C25_reverseID() {
	s, b := anyHex("id", 32)
	got := utils.ReverseHexString(s)
	EqStr(got, hx(rev(b)), "reversed")
	EqStr(utils.ReverseHexString(got), s, "reversed-twice")
}

func C25_equals() {
	WantCover("equal")
	WantCover("different")
	n := 6
	if Thorough() {
		n = 12
	}
	a, b := Bytes("a", Choose("length", 0, n)), Bytes("b", Choose("other length", 0, n))
	ka, kb := dup(a), dup(b)
	same := len(a) == len(b)
	for i := 0; same && i < len(a); i++ {
		same = a[i] == b[i]
	}
	if same {
		Cover("equal")
	} else {
		Cover("different")
	}
	Assert(utils.Equals(a, b) == same, "equality")
	Assert(utils.Equals(b, a) == same, "symmetric")
	Assert(utils.Equals(a, a) && utils.Equals(dup(a), a), "equal-to-itself")
	EqBytes(a, ka, "argument-kept")
	EqBytes(b, kb, "argument-kept")
}

// Longer strings that differ in at most one place.
func C25_equalsLong() {
	n := []int{20, 32, 33, 64, 65}[Choose("length", 0, 4)]
	a := Bytes("a", n)
	i := Range("at", 0, n-1)
	x := U8("other")
	b := dup(a)
	b[i] = x
	Assert(utils.Equals(a, b) == (a[i] == x), "equality")
	Assert(!utils.Equals(a, a[:n-1]) && !utils.Equals(a[:n-1], a), "other-length")
	Assert(utils.Equals(nil, []byte{}), "nil-is-empty")
}

func less(a, b []byte) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// Sorting: ascending, and every string appears as often as before.
func C25_sort() {
	k, n := 3, 3
	if Thorough() {
		k, n = 4, 3
	}
	k = Choose("strings", 0, k)
	in := make([][]byte, k)
	src := make([][]byte, k)
	for i := range in {
		in[i] = Bytes(fmt.Sprintf("s%d", i), Choose(fmt.Sprintf("length%d", i), 0, n))
		src[i] = dup(in[i])
	}
	got := utils.SortByteArrays(src)
	sorted(in, got)
}

func sorted(in, got [][]byte) {
	Assert(len(got) == len(in), "as-many")
	for i := 1; i < len(got); i++ {
		Assert(!less(got[i], got[i-1]), "ascending")
	}
	for _, x := range in {
		a, b := 0, 0
		for i := range in {
			if bytes.Equal(in[i], x) {
				a++
			}
			if bytes.Equal(got[i], x) {
				b++
			}
		}
		Assert(a == b, "same-strings")
	}
}

// Many strings, one of them arbitrary, in an order from a family of permutations.
func C25_sortMany() {
	n := []int{7, 12, 13, 14, 20, 33, 50}[Choose("strings", 0, 6)]
	step := []int{1, 2, 3, n - 1}[Choose("step", 0, 3)]
	for n%step == 0 && step > 1 {
		step++
	}
	in := make([][]byte, n)
	src := make([][]byte, n)
	for i := range in {
		v := i * step % n
		in[i] = []byte{byte(v * 5), byte(v)}
		if i == n/3 {
			in[i] = []byte{U8("byte"), 7}
		}
		src[i] = dup(in[i])
	}
	got := utils.SortByteArrays(src)
	Assert(len(got) == n, "as-many")
	for i := 1; i < n; i++ {
		Assert(!less(got[i], got[i-1]), "ascending")
	}
	for i, x := range in {
		if i != n/3 {
			found := false
			for _, g := range got {
				found = found || bytes.Equal(g, x)
			}
			Assert(found, "still-there")
		}
	}
}

func C25_littleEndian() {
	v := U32("number")
	l := uint32(Choose("width", 4, 40))
	b := utils.GetLittleEndianBytes(v, l)
	EqBytes(b, cat(le(uint64(v), 4), make([]byte, l-4)), "little-endian")
	was := dup(b)
	utils.GetLittleEndianBytes(^v, l)
	EqBytes(b, was, "result-kept")
}

var upperCase = func() (t [256]byte) {
	for i := range t {
		t[i] = byte(i)
		if i >= 'a' && i <= 'z' {
			t[i] -= 32
		}
	}
	return t
}()

// Text of 32 bytes in either case.
func C25_decode32() {
	s, b := anyHex("bytes", 32)
	got, err := utils.Decode32Byte(s)
	Assert(err == nil, "accepted")
	EqBytes(got[:], b, "decoded")
	u := []byte(s)
	for i := range u {
		u[i] = upperCase[u[i]]
	}
	got, err = utils.Decode32Byte(string(u))
	Assert(err == nil, "accepted")
	EqBytes(got[:], b, "decoded-upper-case")
}

// Anything shorter, and text with other characters.
func C25_decodeShort() {
	n := Choose("length", 0, 63)
	k := n
	if k > 6 {
		k = 6
	}
	s := Str("text", k) + strings.Repeat("0a", 32)[:n-k]
	_, err := utils.Decode32Byte(s)
	Assert(err != nil, "short-text-refused")
}

func C25_decodeOther() {
	s, b := anyHex("bytes", 32)
	i := Choose("at", 0, 63)
	c := U8("character")
	s = s[:i] + string([]byte{c}) + s[i+1:]
	got, err := utils.Decode32Byte(s)
	Assert((err == nil) == (hexVal(c) >= 0), "accepted-if-hex")
	if err == nil {
		w := dup(b)
		if i%2 == 0 {
			w[i/2] = byte(hexVal(c)<<4) | w[i/2]&15
		} else {
			w[i/2] = w[i/2]&0xf0 | byte(hexVal(c))
		}
		EqBytes(got[:], w, "decoded")
	}
}
