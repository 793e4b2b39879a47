package props

import (
	"github.com/libsv/libsv/script"

	. "verif/harness/vsym"
)

func checkSplit(b []byte) {
	es, ok := refSplit(b)
	got, err := script.DecodeParts(b)
	Assert((err == nil) == ok, "error-exactly-when-truncated")
	if !ok {
		Cover("truncated")
		return
	}
	Cover("complete")
	Assert(len(got) == len(es), "number-of-parts")
	for i := range es {
		EqBytes(got[i], es[i].part(), "part")
	}
}

func C03_short() {
	WantCover("complete")
	WantCover("truncated")
	max := 7
	if Thorough() {
		max = 10
	}
	checkSplit(Bytes("b", Choose("n", 0, max)))
}

func C03_hex() {
	s := Str("s", Choose("n", 0, 5))
	b, isHex := unhex(s)
	got, err := script.DecodeStringParts(s)
	if !isHex {
		Assert(err != nil, "bad-hex-refused")
		return
	}
	es, ok := refSplit(b)
	Assert((err == nil) == ok, "error-exactly-when-truncated")
	if ok {
		Assert(len(got) == len(es), "number-of-parts")
		for i := range es {
			EqBytes(got[i], es[i].part(), "part")
		}
	}
}

// header is a push header of every form with an arbitrary declared length.
func header(n string) []byte {
	switch Choose(n+".form", 0, 3) {
	case 0:
		return []byte{byte(Range(n+".op", 1, 75))}
	case 1:
		return []byte{0x4c, U8(n + ".l1")}
	case 2:
		return cat([]byte{0x4d}, Bytes(n+".l2", 2))
	}
	return cat([]byte{0x4e}, Bytes(n+".l4", 4))
}

// anyHeader is any push header, minimal or not, that declares n bytes.
func anyHeader(name string, n int) []byte {
	switch Choose(name+".form", 0, 3) {
	case 0:
		Assume(n >= 1 && n <= 75)
		return []byte{byte(n)}
	case 1:
		Assume(n <= 0xff)
		return []byte{0x4c, byte(n)}
	case 2:
		Assume(n <= 0xffff)
		return cat([]byte{0x4d}, le(uint64(n), 2))
	}
	return cat([]byte{0x4e}, le(uint64(n), 4))
}

func declared(h []byte) uint64 {
	switch len(h) {
	case 1:
		return uint64(h[0])
	case 2:
		return uint64(h[1])
	case 3:
		return uint64(h[1]) | uint64(h[2])<<8
	}
	return uint64(h[1]) | uint64(h[2])<<8 | uint64(h[3])<<16 | uint64(h[4])<<24
}

// One push of any declared length against any actual length.
func C03_truncated() {
	WantCover("complete")
	WantCover("truncated")
	h := header("h")
	d := Blob("d", 0, maxBlob)
	Assume(uint64(len(d)) < declared(h))
	Cover("truncated")
	_, err := script.DecodeParts(cat(h, d))
	Assert(err != nil, "truncated-push-refused")
	op := byte(Range("op", 0x4f, 0xff))
	_, err = script.DecodeParts(cat([]byte{op}, h, d))
	Assert(err != nil, "truncated-push-refused")
	Cover("complete")
}

// Complete pushes of every form, minimal or not, in sequence.
func C03_complete() {
	n := 2
	if Thorough() {
		n = 3
	}
	n = Choose("n", 1, n)
	b := []byte{}
	ds := [][]byte{}
	for i := 0; i < n; i++ {
		d := Blob("d", 0, maxBlob)
		b = cat(b, anyHeader("h", len(d)), d)
		ds = append(ds, d)
	}
	tail := byte(Range("op", 0x4f, 0xff))
	got, err := script.DecodeParts(cat(b, []byte{0, tail}))
	Assert(err == nil, "complete-script-accepted")
	Assert(len(got) == n+2, "number-of-parts")
	for i := range ds {
		EqBytes(got[i], ds[i], "part")
	}
	EqBytes(got[n], []byte{0}, "opcode")
	EqBytes(got[n+1], []byte{tail}, "opcode")
}

// Long scripts of many parts, with one arbitrary opcode in some place and two arbitrary last bytes.
func C03_many() {
	WantCover("complete")
	WantCover("truncated")
	n := []int{15, 31, 64, 127, 128, 256, 300}[Choose("parts", 0, 6)]
	b := []byte{}
	at := Choose("at", 0, 2) * (n - 1) / 2
	for i := 0; i < n; i++ {
		if i == at {
			b = append(b, byte(Range("op", 0x4f, 0xff)))
			continue
		}
		switch i % 5 {
		case 0:
			b = append(b, 0x76)
		case 1:
			b = append(b, 2, byte(i), 0x4c)
		case 2:
			b = append(b, 0)
		case 3:
			b = append(b, 0x4c, 1, byte(i))
		case 4:
			b = append(b, 0x4d, 3, 0, 0x4e, 0x4d, 0x4c)
		}
	}
	checkSplit(cat(b, Bytes("last", 2)))
}
