package props

import (
	"github.com/libsv/libsv/block"

	. "verif/harness/vsym"
)

// refTarget is the magnitude of a compact target, big endian without leading zeros, and whether it is negative.
func refTarget(c []byte) (b []byte, neg bool) {
	e := int(c[0])
	b = cat([]byte{c[1] & 0x7f}, c[2:])
	if e <= 3 {
		b = b[:e]
	} else {
		b = cat(b, make([]byte, e-3))
	}
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b, c[1] >= 0x80 && len(b) > 0
}

func compact() (string, []byte) {
	b := Bytes("compact", 4)
	b[0] = byte(Choose("exponent", 0, 255))
	return hx(b), b
}

func C21_integer() {
	t, c := compact()
	want, neg := refTarget(c)
	n, err := block.ExpandTargetFromAsInt(t)
	Assert(err == nil, "expanded")
	EqBytes(n.Bytes(), want, "magnitude")
	sign := 0
	if len(want) > 0 {
		sign = 1
	}
	if neg {
		sign = -1
	}
	Assert(n.Sign() == sign, "sign")
}

func C21_text() {
	WantCover("fits")
	WantCover("refused")
	t, c := compact()
	want, neg := refTarget(c)
	s, err := block.ExpandTargetFrom(t)
	if neg || len(want) > 32 {
		Cover("refused")
		Assert(err != nil, "refused")
		return
	}
	Cover("fits")
	Assert(err == nil, "expanded")
	EqStr(s, hx(cat(make([]byte, 32-len(want)), want)), "digits")
}

// Every text: four bytes in hex, in either case, or an error.
func C21_malformed() {
	t := Str("text", Choose("length", 0, 10))
	d, ok := unhex(t)
	ok = ok && len(d) == 4
	Assume(!ok)
	_, err := block.ExpandTargetFromAsInt(t)
	Assert(err != nil, "integer-refused")
	_, err = block.ExpandTargetFrom(t)
	Assert(err != nil, "text-refused")
}

// Capital digits are as good.
func C21_capitals() {
	t, c := anyCaseHex("mantissa", 3)
	Assume(c[0] < 0x80)
	want, _ := refTarget(cat([]byte{0x1d}, c))
	n, err := block.ExpandTargetFromAsInt([]string{"1d", "1D"}[Choose("exponent", 0, 1)] + t)
	Assert(err == nil, "expanded")
	EqBytes(n.Bytes(), want, "magnitude")
}
