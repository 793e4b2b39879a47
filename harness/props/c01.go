package props

import (
	"encoding/binary"

	"github.com/libsv/libsv/utils"

	. "verif/harness/vsym"
)

// refVarInt is the reference encoder.
func refVarInt(v uint64) []byte {
	switch {
	case v < 0xfd:
		return []byte{byte(v)}
	case v <= 0xffff:
		return []byte{0xfd, byte(v), byte(v >> 8)}
	case v <= 0xffffffff:
		return []byte{0xfe, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
	}
	b := make([]byte, 9)
	b[0] = 0xff
	binary.LittleEndian.PutUint64(b[1:], v)
	return b
}

// refDecVarInt is the reference decoder: size 0 when the VarInt is incomplete.
func refDecVarInt(b []byte) (uint64, int) {
	if len(b) == 0 {
		return 0, 0
	}
	n := 1
	switch b[0] {
	case 0xfd:
		n = 3
	case 0xfe:
		n = 5
	case 0xff:
		n = 9
	default:
		return uint64(b[0]), 1
	}
	if len(b) < n {
		return 0, 0
	}
	v := uint64(0)
	for i := n - 1; i >= 1; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v, n
}

func C01_encode() {
	v := U64("v")
	got := utils.VarInt(v)
	EqBytes(got, refVarInt(v), "shortest-form")
	WantCover("1")
	WantCover("3")
	WantCover("5")
	WantCover("9")
	switch len(got) {
	case 1:
		Cover("1")
	case 3:
		Cover("3")
	case 5:
		Cover("5")
	case 9:
		Cover("9")
	}
}

func C01_roundtrip() {
	v := U64("v")
	k := Choose("k", 0, 3)
	enc := utils.VarInt(v)
	buf := append(append([]byte{}, enc...), Bytes("tail", k)...)
	got, size := utils.DecodeVarInt(buf)
	Assert(got == v, "value")
	Assert(size == len(enc), "size")
	again, size2 := utils.DecodeVarInt(buf)
	Assert(again == v && size2 == size, "repeatable")
}

func C01_decode() {
	b := Bytes("b", Choose("n", 1, 12))
	v, n := refDecVarInt(b)
	Assume(n > 0)
	got, size := utils.DecodeVarInt(b)
	Assert(got == v, "value")
	Assert(size == n, "size")
}
