package props

import (
	"github.com/libsv/libsv/script"

	. "verif/harness/vsym"
)

const maxBlob = 1 << 26

func C02_prefix() {
	d := Blob("d", 0, 1<<33)
	p, err := script.GetPushDataPrefix(d)
	WantCover("too big")
	if uint64(len(d)) > 0xffffffff {
		Cover("too big")
		Assert(err != nil, "too-big-refused")
		return
	}
	Assert(err == nil, "accepted")
	EqBytes(p, pushPrefix(uint64(len(d))), "shortest-prefix")
}

func items(n int, lo int) [][]byte {
	r := [][]byte{}
	for i := 0; i < n; i++ {
		r = append(r, Blob("item", lo, maxBlob))
	}
	return r
}

func encoded(ps [][]byte) []byte {
	r := []byte{}
	for _, p := range ps {
		r = append(r, push(p)...)
	}
	return r
}

func C02_encode() {
	max := 2
	if Thorough() {
		max = 3
	}
	ps := items(Choose("n", 0, max), 0)
	got, err := script.EncodeParts(ps)
	Assert(err == nil, "accepted")
	EqBytes(got, encoded(ps), "encoding")
}

func C02_split() {
	max := 2
	if Thorough() {
		max = 3
	}
	ps := items(Choose("n", 0, max), 1)
	got, err := script.EncodeParts(ps)
	Assert(err == nil, "accepted")
	back, err := script.DecodeParts(got)
	Assert(err == nil, "split-accepted")
	Assert(len(back) == len(ps), "count")
	for i := range ps {
		EqBytes(back[i], ps[i], "item")
	}
}

var pushSizes = []int{1, 2, 75, 76, 77, 255, 256, 257, 65535, 65536, 65537}

// The boundary lengths with every content byte a separate variable.
func C02_boundaries() {
	n := len(pushSizes)
	if !Thorough() {
		n = 8
	}
	d := Bytes("d", pushSizes[Choose("size", 0, n-1)])
	e := Bytes("e", 2)
	got, err := script.EncodeParts([][]byte{d, e})
	Assert(err == nil, "accepted")
	EqBytes(got, cat(push(d), push(e)), "encoding")
	back, err := script.DecodeParts(got)
	Assert(err == nil, "split-accepted")
	Assert(len(back) == 2, "count")
	EqBytes(back[0], d, "item")
	EqBytes(back[1], e, "item")
}

// Appending to a script keeps what is there.
func C02_append() {
	old := BytesCap("old", Choose("k", 0, 2), Choose("spare", 0, 1)*4)
	was := dup(old)
	s := script.NewFromBytes(old)
	d := Blob("d", 0, maxBlob)
	switch Choose("how", 0, 2) {
	case 0:
		Assert(s.AppendPushData(d) == nil, "accepted")
		EqBytes(*s, cat(was, push(d)), "appended-bytes")
	case 1:
		e := Blob("e", 0, maxBlob)
		Assert(s.AppendPushDataArray([][]byte{d, e}) == nil, "accepted")
		EqBytes(*s, cat(was, push(d), push(e)), "appended-list")
	case 2:
		Assert(s.AppendPushData(d) == nil, "accepted")
		Assert(s.AppendPushData([]byte{}) == nil, "accepted")
		s.AppendOpCode(0x6a)
		Assert(s.AppendPushData(d) == nil, "accepted")
		EqBytes(*s, cat(was, push(d), []byte{0, 0x6a}, push(d)), "appended-repeatedly")
	}
}

func C02_appendText() {
	was := Bytes("old", Choose("k", 0, 2))
	s := script.NewFromBytes(dup(was))
	switch Choose("how", 0, 2) {
	case 0:
		t := Str("text", pushSizes[Choose("size", 0, 6)])
		Assert(s.AppendPushDataString(t) == nil, "accepted")
		EqBytes(*s, cat(was, push([]byte(t))), "appended-string")
	case 1:
		t := Str("text", Choose("n", 0, 3))
		u := Str("text2", Choose("m", 0, 3))
		Assert(s.AppendPushDataStrings([]string{t, u}) == nil, "accepted")
		EqBytes(*s, cat(was, push([]byte(t)), push([]byte(u))), "appended-strings")
	case 2:
		h, b := anyHex("hex", pushSizes[Choose("size", 0, 5)])
		Assert(s.AppendPushDataHexString(h) == nil, "accepted")
		EqBytes(*s, cat(was, push(b)), "appended-hex")
	}
}

func C02_appendBadHex() {
	was := Bytes("old", 2)
	s := script.NewFromBytes(dup(was))
	t := Str("text", Choose("n", 0, 4))
	b, ok := unhex(t)
	err := s.AppendPushDataHexString(t)
	Assert((err == nil) == ok, "hex-accepted-exactly")
	if ok {
		EqBytes(*s, cat(was, push(b)), "appended-hex")
	} else {
		EqBytes(*s, was, "unchanged-on-error")
	}
}

// Lists of many items, of lengths on both sides of every form.
func C02_many() {
	n := []int{4, 7, 16, 17, 33, 65, 130, 260}[Choose("items", 0, 7)]
	sizes := []int{1, 2, 75, 76, 77, 255, 256, 3}
	ps := make([][]byte, n)
	for i := range ps {
		ps[i] = make([]byte, sizes[i%len(sizes)])
		for j := range ps[i] {
			ps[i][j] = byte(i + 7*j)
		}
		if i == n-1 || i == n/2 {
			ps[i][0] = U8("first")
		}
	}
	want := encoded(ps)
	got, err := script.EncodeParts(ps)
	Assert(err == nil, "accepted")
	EqBytes(got, want, "encoding")
	s := &script.Script{}
	Assert(s.AppendPushDataArray(ps) == nil, "accepted")
	EqBytes(*s, want, "appended-list")
	t := &script.Script{}
	texts := make([]string, n)
	for i := range ps {
		texts[i] = string(ps[i])
		Assert(t.AppendPushData(ps[i]) == nil, "accepted")
	}
	EqBytes(*t, want, "appended-one-by-one")
	u := &script.Script{}
	Assert(u.AppendPushDataStrings(texts) == nil, "accepted")
	EqBytes(*u, want, "appended-strings")
	back, err := script.DecodeParts(got)
	Assert(err == nil, "split-accepted")
	Assert(len(back) == n, "count")
	for i := range ps {
		EqBytes(back[i], ps[i], "item")
	}
}
