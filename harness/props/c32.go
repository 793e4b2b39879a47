package props

import (
	"strings"

	"github.com/libsv/libsv/script"

	. "verif/harness/vsym"
)

// showsBytes: the script s holds b and shows it in hex.
func showsBytes(s *script.Script, b []byte) {
	Assert(s != nil, "script")
	EqBytes(*s, b, "bytes")
	EqStr(s.ToString(), hx(b), "hex")
	EqBytes(*s, b, "bytes-after-printing")
}

// Hex text of any bytes, in any case, read and written.
func C32_hex() {
	t, b := anyCaseHex("script", Choose("length", 0, 3))
	s, err := script.NewFromHexString(t)
	Assert(err == nil, "accepted")
	showsBytes(s, b)
	u, err := script.NewFromHexString(s.ToString())
	Assert(err == nil, "read back")
	showsBytes(u, b)
}

// Short texts of any characters.
func C32_text() {
	WantCover("accepted")
	WantCover("refused")
	n := 8
	if Thorough() {
		n = 20
	}
	t := Str("text", Choose("length", 0, n))
	s, err := script.NewFromHexString(t)
	b, ok := unhex(t)
	Assert((err == nil) == ok, "accepted-iff-hex")
	if !ok {
		Cover("refused")
		return
	}
	Cover("accepted")
	showsBytes(s, b)
}

// One wrong character, or one too few, anywhere in a longer text.
func C32_spoilt() {
	n := []int{20, 25, 33, 75, 76, 110, 255, 256, 300, 520, 1000}[Choose("length", 0, 10)]
	t := strings.Repeat("5a", n)
	if Bool("cut") {
		at := []int{0, 1, n, 2*n - 1}[Choose("at", 0, 3)]
		_, err := script.NewFromHexString(t[:at] + t[at+1:])
		Assert(err != nil, "odd-length-refused")
		return
	}
	at := []int{0, 1, n, 2*n - 2, 2*n - 1}[Choose("at", 0, 4)]
	c := U8("character")
	s, err := script.NewFromHexString(t[:at] + string([]byte{c}) + t[at+1:])
	Assert((err == nil) == (hexVal(c) >= 0), "accepted-iff-hex")
	if err == nil {
		b, _ := unhex(t)
		if at%2 == 0 {
			b[at/2] = byte(hexVal(c))<<4 | 0xa
		} else {
			b[at/2] = 0x50 | byte(hexVal(c))
		}
		showsBytes(s, b)
	}
}

// Bytes of every length wrapped as a script, and opcodes added to it.
func C32_bytes() {
	b := Blob("script", 0, maxBlob)
	s := script.NewFromBytes(b)
	EqBytes(*s, b, "bytes")
	n := Choose("opcodes", 0, 3)
	want := b
	for i := 0; i < n; i++ {
		o := U8("opcode")
		s.AppendOpCode(o)
		want = cat(want, []byte{o})
		EqBytes(*s, want, "opcode-added")
	}
	EqBytes(b, want[:len(b)], "wrapped-bytes-kept")
}

// Lengths around the powers of two, with arbitrary bytes in them, through text and back.
func C32_long() {
	n := []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4097}[Choose("length", 0, 18)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i * 29)
	}
	at := Choose("where", 0, 2) * (n - 3) / 2
	copy(b[at:], Bytes("script", 3))
	showsBytes(script.NewFromBytes(b), b)
	s, err := script.NewFromHexString(hx(b))
	Assert(err == nil, "accepted")
	showsBytes(s, b)
}

// Without bytes.
func C32_empty() {
	showsBytes(script.NewFromBytes(nil), nil)
	showsBytes(&script.Script{}, nil)
	s, err := script.NewFromHexString("")
	Assert(err == nil, "accepted")
	showsBytes(s, nil)
	o := U8("opcode")
	s.AppendOpCode(o)
	showsBytes(s, []byte{o})
}

// A script changed between two printings, and two scripts at once.
func C32_followed() {
	a, b := Bytes("a", Choose("length", 0, 3)), Bytes("b", Choose("length", 0, 3))
	s, err := script.NewFromHexString(hx(a))
	Assert(err == nil, "accepted")
	u, err := script.NewFromHexString(hx(b))
	Assert(err == nil, "accepted")
	showsBytes(s, a)
	showsBytes(u, b)
	showsBytes(s, a)
	o := U8("opcode")
	switch Choose("change", 0, 2) {
	case 0:
		s.AppendOpCode(o)
		a = cat(a, []byte{o})
	case 1:
		Assert(s.AppendPushData([]byte{o, 1}) == nil, "appended")
		a = cat(a, []byte{2, o, 1})
	case 2:
		if len(a) == 0 {
			return
		}
		(*s)[0] ^= 1
		a = cat([]byte{a[0] ^ 1}, a[1:])
	}
	showsBytes(s, a)
	showsBytes(u, b)
}
