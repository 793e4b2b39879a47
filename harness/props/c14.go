package props

import (
	"bytes"

	"github.com/bitcoinsv/bsvutil/base58"

	"github.com/libsv/libsv/script/address"

	. "verif/harness/vsym"
)

const digits58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// digits58of: the value of every base58 digit, or -1.
var digits58of = func() (t [256]int) {
	for i := range t {
		t[i] = -1
	}
	for i := range digits58 {
		t[digits58[i]] = i
	}
	return t
}()

// refValid decides Base58Check for a text: all digits, a value of 25 bytes with every leading zero written
// as a leading one, version and checksum.
func refValid(text string) bool {
	var v [26]int // big endian
	ones := 0
	for ones < len(text) && text[ones] == '1' {
		ones++
	}
	for i := 0; i < len(text); i++ {
		d := digits58of[text[i]]
		if d < 0 {
			return false
		}
		for k := 25; k >= 0; k-- {
			d += v[k] * 58
			v[k] = d & 255
			d >>= 8
		}
		if d != 0 || v[0] != 0 {
			return false
		}
	}
	b := make([]byte, 25)
	for k := range b {
		b[k] = byte(v[k+1])
	}
	for k := 0; k < 25; k++ {
		if b[k] != 0 || k == 24 {
			if b[k] == 0 {
				k++
			}
			if k != ones {
				return false
			}
			break
		}
	}
	return okAddress(b)
}

func validated(text string) {
	want := refValid(text)
	ok, err := address.ValidateAddress(text)
	Assert(ok == want, "accepted-iff-valid")
	Assert((err == nil) == want, "error-iff-invalid")
	if want {
		Cover("valid")
	} else {
		Cover("invalid")
	}
}

// Addresses of both networks, including hashes with leading zeros and ones.
func knownAddress(i int) string {
	h := [][]byte{
		unhx("8fe80c75c9560e8b56ed64ea3c26e18d2c52211b"),
		unhx("0000000000000000000000000000000000000000"),
		unhx("ffffffffffffffffffffffffffffffffffffffff"),
		unhx("00ac6144c4db7b5790f343cf0477a65fb8a02eb7"),
	}[i/2]
	return base58check(cat(addressVersion(i%2 == 0), h))
}

func unhx(s string) []byte {
	b, _ := unhex(s)
	return b
}

// One character of an address is any other.
func C14_oneCharacter() {
	WantCover("valid")
	WantCover("invalid")
	t := []byte(knownAddress(Choose("address", 0, 7)))
	t[Choose("at", 0, len(t)-1)] = U8("character")
	validated(string(t))
}

// One character more, at any place.
func C14_inserted() {
	t := knownAddress(Choose("address", 0, 7))
	i := Choose("at", 0, len(t))
	validated(t[:i] + string([]byte{U8("character")}) + t[i:])
}

// One or more characters fewer, and a last character that is any.
func C14_shortened() {
	t := []byte(knownAddress(Choose("address", 0, 7)))
	i := Choose("at", 0, len(t)-1)
	t = cat(t[:i], t[i+1:])
	if Bool("last") {
		t[len(t)-1] = U8("character")
	}
	validated(string(t))
}

// Every version byte with a right checksum.
func C14_version() {
	p := cat([]byte{U8("version")}, unhx("8fe80c75c9560e8b56ed64ea3c26e18d2c52211b"))
	validated(base58.Encode(cat(p, sha256d(p)[:4])))
}

// Every change of one byte of the decoded address; checksums cut or lengthened.
func C14_spoilt() {
	d := cat(addressVersion(Bool("mainnet")), unhx("8fe80c75c9560e8b56ed64ea3c26e18d2c52211b"))
	d = cat(d, sha256d(d)[:4])
	switch Choose("how", 0, 4) {
	case 3: // the number of an address and a multiple of 2^200
		d = cat([]byte{U8("more")}, d)
	case 4:
		d = cat([]byte{U8("more")}, make([]byte, Choose("zeros", 1, 3)), d)
	case 0:
		d[Choose("at", 0, 24)] ^= U8("change")
	case 1:
		d = cat(d[:1], []byte{U8("more")}, d[1:])
	case 2:
		d = cat(d, []byte{U8("more")})
	}
	validated(base58.Encode(d))
}

// Arbitrary short texts.
func C14_text() {
	n := 4
	if Thorough() {
		n = 6
	}
	validated(Str("text", Choose("length", 0, n)))
}

// Arbitrary short texts behind a run of ones, which are zero bytes.
func C14_ones() {
	n := Choose("ones", 20, 40)
	t := bytes.Repeat([]byte{'1'}, n)
	m := 2
	if Thorough() {
		m = 3
	}
	validated(string(t) + Str("text", Choose("length", 0, m)))
}

// The end of an address, which holds its checksum.
func C14_end() {
	t := []byte(knownAddress(Choose("address", 0, 7)))
	n := 3
	if Thorough() {
		n = 4
	}
	copy(t[len(t)-n:], Bytes("characters", n))
	validated(string(t))
}

// Derived addresses are valid: one byte of the hash is any.
func C14_derived() {
	h := unhx([]string{
		"8fe80c75c9560e8b56ed64ea3c26e18d2c52211b",
		"0000000000000000000000000000000000000000",
		"ffffffffffffffffffffffffffffffffffffffff",
	}[Choose("hash", 0, 2)])
	h[Choose("at", 0, 19)] = U8("byte")
	a, err := address.NewFromPublicKeyHash(h, Bool("mainnet"))
	Assert(err == nil, "derived")
	ok, err := address.ValidateAddress(a.AddressString)
	Assert(ok && err == nil, "derived-address-valid")
}

// Texts with the BIP276 prefix are valid when they decode.
func C14_bip276() {
	WantCover("decodes")
	WantCover("does not decode")
	t := "bitcoin-script:"
	switch Choose("form", 0, 2) {
	case 0:
		t = refBIP276("bitcoin-script", U8("network"), U8("version"), Bytes("data", 2))
	case 1:
		t += hx(cat([]byte{1, 1}, Bytes("data", Choose("length", 0, 2)), Bytes("checksum", 4)))
	case 2:
		t += Str("text", Choose("length", 0, 2))
	}
	_, _, _, _, err := address.DecodeBIP276(t)
	ok, err2 := address.ValidateAddress(t)
	if err == nil {
		Cover("decodes")
	} else {
		Cover("does not decode")
	}
	Assert(ok == (err == nil), "accepted-iff-decoded")
	Assert((err2 == nil) == (err == nil), "error-iff-not-decoded")
}

// Texts of the BIP276 form with another prefix than bitcoin-script are no addresses.
func C14_otherPrefix() {
	var prefix string
	if Bool("other") {
		prefix = []string{"bitcoin-template", "bitcoin-", "bitcoin", "bitcoin-scripts", "Bitcoin-Script", "script", ""}[Choose("prefix", 0, 6)]
	} else {
		p := []byte("bitcoin-script")
		i, c := Choose("at", 0, 13), U8("character")
		Assume(c != p[i])
		p[i] = c
		prefix = string(p)
	}
	ok, err := address.ValidateAddress(refBIP276(prefix, U8("network"), 1, Bytes("data", 1)))
	Assert(!ok && err != nil, "other-prefix-refused")
}
