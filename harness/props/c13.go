package props

import (
	"bytes"

	"github.com/bitcoinsv/bsvutil/base58"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"

	. "verif/harness/vsym"
)

func base58check(payload []byte) string {
	return base58.Encode(cat(payload, sha256d(payload)[:4]))
}

func addressVersion(mainnet bool) []byte {
	if mainnet {
		return []byte{0}
	}
	return []byte{0x6f}
}

// goodAddress: a is the address of the hash, and parsing its text gives it again.
func goodAddress(a *address.Address, hash []byte, mainnet bool) {
	want := base58check(cat(addressVersion(mainnet), hash))
	EqStr(a.AddressString, want, "address-text")
	EqStr(a.PublicKeyHash, hx(hash), "public-key-hash")
	b, err := address.NewFromString(a.AddressString)
	Assert(err == nil, "own-address-parsed")
	EqStr(b.AddressString, want, "parsed-text")
	EqStr(b.PublicKeyHash, hx(hash), "parsed-hash")
}

func C13_hash() {
	h, mainnet := Bytes("hash", 20), Bool("mainnet")
	g := dup(h)
	a, err := address.NewFromPublicKeyHash(h, mainnet)
	Assert(err == nil, "derived")
	goodAddress(a, g, mainnet)
	EqBytes(h, g, "hash-kept")
}

func C13_key() {
	k, mainnet := PrivKey("key").PubKey(), Bool("mainnet")
	a, err := address.NewFromPublicKey(k, mainnet)
	Assert(err == nil, "derived")
	goodAddress(a, hash160(k.SerializeCompressed()), mainnet)
	s := hx(k.SerializeCompressed())
	b, err := address.NewFromPublicKeyString(s, mainnet)
	Assert(err == nil, "derived-from-text")
	Assert(*a == *b, "same-address")
}

func C13_keyText() {
	mainnet := Bool("mainnet")
	var s string
	var k []byte
	if Bool("full") {
		s, k = anyHex("fullkey", 33+32*Choose("uncompressed", 0, 1))
	} else {
		s, k = anyCaseHex("key", Choose("length", 0, 2))
	}
	a, err := address.NewFromPublicKeyString(s, mainnet)
	Assert(err == nil, "derived")
	goodAddress(a, hash160(k), mainnet)
	bad := s + string([]byte{U8("odd")})
	_, err = address.NewFromPublicKeyString(bad, mainnet)
	Assert(err != nil, "odd-hex-refused")
}

func okAddress(d []byte) bool {
	return len(d) == 25 && (d[0] == 0 || d[0] == 0x6f) && bytes.Equal(d[21:], sha256d(d[:21])[:4])
}

func parsed(text string, d []byte) {
	a, err := address.NewFromString(text)
	if !okAddress(d) {
		Cover("refused")
		Assert(err != nil, "bad-address-refused")
		return
	}
	Cover("accepted")
	Assert(err == nil, "address-accepted")
	EqStr(a.AddressString, text, "text-kept")
	EqStr(a.PublicKeyHash, hx(d[1:21]), "hash")
}

// Every payload, with a right or a wrong checksum.
func C13_parse() {
	WantCover("refused")
	WantCover("accepted")
	var d []byte
	if Bool("right") {
		p := Bytes("payload", 21)
		d = cat(p, sha256d(p)[:4])
	} else {
		d = Bytes("decoded", Choose("length", 0, 30))
	}
	parsed(base58.Encode(d), d)
}

// Payloads of another length with a right checksum.
func C13_lengths() {
	p := Bytes("payload", Choose("length", 0, 30))
	d := cat(p, sha256d(p)[:4])
	parsed(base58.Encode(d), d)
}

// One byte of an address' payload is another.
func C13_flipped() {
	d := cat(addressVersion(Bool("mainnet")), Bytes("hash", 20))
	d = cat(d, sha256d(d)[:4])
	i := Choose("at", 0, 24)
	d[i] ^= U8("change")
	parsed(base58.Encode(d), d)
}

// Arbitrary short texts.
func C13_text() {
	s := Str("text", Choose("length", 0, textLen()))
	_, err := address.NewFromString(s)
	Assert(err != nil, "short-text-refused")
	_, err = script.NewP2PKHFromAddress(s)
	Assert(err != nil, "short-text-refused-by-script")
}

func C13_checksum() {
	b := Blob("data", 0, maxBlob)
	g := dup(b)
	EqStr(address.Base58EncodeMissingChecksum(b), base58check(g), "base58check")
	EqBytes(b, g, "argument-kept")
}

func textLen() int {
	if Thorough() {
		return 5
	}
	return 3
}
