package props

import (
	"github.com/libsv/libsv/script/address"

	. "verif/harness/vsym"
)

// refBIP276 is the BIP276 text.
func refBIP276(prefix string, network, version byte, data []byte) string {
	p := prefix + ":" + hx(cat([]byte{network, version}, data))
	return p + hx(sha256d([]byte(p))[:4])
}

// fromBIP276 reads a text by the grammar; strict tells that all its digits are in lower case.
func fromBIP276(text string) (prefix string, network, version byte, data []byte, ok, strict bool) {
	i := len(text) - 1
	for i >= 0 && text[i] != ':' {
		i--
	}
	if i < 1 {
		return
	}
	d, ok := unhex(text[i+1:])
	if !ok || len(d) < 6 || d[0] == 0 || d[1] == 0 {
		return "", 0, 0, nil, false, false
	}
	n := len(d) - 4
	want := sha256d([]byte(text[:i+1] + hx(d[:n])))[:4]
	ok = string(want) == string(d[n:])
	return text[:i], d[0], d[1], d[2:n], ok, hx(d) == text[i+1:]
}

// decodesRight: decoding text does what the grammar says.
func decodesRight(text string) {
	prefix, network, version, data, ok, strict := fromBIP276(text)
	p, v, n, d, err := address.DecodeBIP276(text)
	if err != nil {
		Cover("refused")
		Assert(!ok || !strict, "text-decoded")
		return
	}
	Cover("decoded")
	Assert(ok, "wrong-text-refused")
	EqStr(p, prefix, "prefix")
	Assert(n == int(network), "network")
	Assert(v == int(version), "version")
	EqBytes(d, data, "data")
}

func prefix276() string {
	if Bool("template") {
		return address.PrefixTemplate
	}
	return address.PrefixScript
}

// header276: every network and version with little data, a few with more.
func header276() (n, v int, d []byte) {
	if Bool("longer") {
		n, v = []int{1, 2, 255}[Choose("net", 0, 2)], []int{1, 9, 10, 16}[Choose("ver", 0, 3)]
		return n, v, data276()
	}
	return Range("network", 1, 255), Range("version", 1, 255), Bytes("data", Choose("length", 0, 1))
}

func data276() []byte {
	n := 4
	if Thorough() {
		n = 12
	}
	n = Choose("length", 0, n+1)
	if n == 5 && !Thorough() || n == 13 {
		n = 80
	}
	return Bytes("data", n)
}

func C15_roundTrip() {
	p := prefix276()
	n, v, d := header276()
	kept := dup(d)
	t := address.EncodeBIP276(p, n, v, d)
	EqStr(t, refBIP276(p, byte(n), byte(v), kept), "encoded")
	EqBytes(d, kept, "data-kept")
	p1, v1, n1, d1, err := address.DecodeBIP276(t)
	Assert(err == nil, "decoded")
	EqStr(p1, p, "prefix")
	Assert(n1 == n, "network")
	Assert(v1 == v, "version")
	EqBytes(d1, kept, "data")
}

func C15_refused() {
	n, v := Int("anyNetwork"), Int("anyVersion")
	Assume(n < 1 || n > 255 || v < 1 || v > 255)
	t := address.EncodeBIP276(prefix276(), n, v, Bytes("data", Choose("length", 0, 1)))
	EqStr(t, "ERROR", "refused")
}

// A text of the right form whose checksum is any.
func C15_checksum() {
	WantCover("refused")
	WantCover("decoded")
	p := prefix276()
	h := []byte{U8("network"), U8("version")}
	d := []byte(nil)
	if Bool("longer") {
		h = []byte{byte(Choose("net", 0, 2)), byte(Choose("ver", 9, 11))}
		d = Bytes("data", 2+Choose("length", 0, 1))
	}
	b := cat(h, d, Bytes("checksum", 4))
	decodesRight(p + ":" + hx(b))
}

// One character of a text is any other.
func C15_oneCharacter() {
	d := unhx([]string{"", "76a914", "ff"}[Choose("data", 0, 2)])
	t := []byte(refBIP276(prefix276(), 1, 0x2a, d))
	i := Choose("at", 0, len(t)-1)
	t[i] = U8("character")
	Assume(t[i] != '\n')
	decodesRight(string(t))
}

// One character more or less, at any place.
func C15_moved() {
	d := unhx([]string{"", "76a914"}[Choose("data", 0, 1)])
	t := refBIP276(prefix276(), 0xa0, 1, d)
	i := Choose("at", 0, len(t)-1)
	if Bool("more") {
		c := U8("character")
		Assume(c != '\n')
		t = t[:i] + string([]byte{c}) + t[i:]
	} else {
		t = t[:i] + t[i+1:]
	}
	decodesRight(t)
}

// Arbitrary texts after the prefix, and without one.
func C15_text() {
	n := 4
	if Thorough() {
		n = 6
	}
	t := Str("text", Choose("length", 0, n))
	for i := 0; i < len(t); i++ {
		Assume(t[i] != '\n')
	}
	if Bool("prefix") {
		t = prefix276() + ":" + t
	}
	decodesRight(t)
}

// Truncated texts.
func C15_cut() {
	d := unhx("76a914")
	t := refBIP276(prefix276(), 1, 1, d)
	decodesRight(t[:Choose("length", 0, len(t))])
}
