package props

import (
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"

	. "verif/harness/vsym"
)

func p2pkh(h []byte) []byte { return cat([]byte{0x76, 0xa9, 0x14}, h, []byte{0x88, 0xac}) }

func checkP2PKH(s *script.Script, err error, hash []byte) {
	Assert(err == nil, "accepted")
	EqBytes(*s, p2pkh(hash), "standard-script")
	Assert(s.IsP2PKH(), "classified-as-P2PKH")
	got, err := s.GetPublicKeyHash()
	Assert(err == nil, "hash-extracted")
	EqBytes(got, hash, "extracted-hash")
}

func C11_publicKey() {
	n := []int{33, 65}[Choose("n", 0, 1)]
	hex, k := anyHex("key", n)
	h := hash160(k)
	s, err := script.NewP2PKHFromPubKeyBytes(k)
	checkP2PKH(s, err, h)
	s, err = script.NewP2PKHFromPubKeyStr(hex)
	checkP2PKH(s, err, h)
}

func C11_hash() {
	hex, h := anyHex("hash", 20)
	s, err := script.NewP2PKHFromPubKeyHashStr(hex)
	checkP2PKH(s, err, h)
}

// Text that does not denote a 20-byte hash has no P2PKH script.
func C11_wrongHash() {
	n := Choose("n", 0, 45)
	if n == 40 {
		n = 39
	}
	t := Str("text", n)
	if n > 6 {
		hex, _ := anyHex("hash", n/2)
		t = hex + t[:n%2]
	}
	_, err := script.NewP2PKHFromPubKeyHashStr(t)
	Assert(err != nil, "not-20-bytes-refused")
}

func C11_badHex() {
	hex, _ := anyHex("hash", 20)
	i := Choose("pos", 0, 39)
	c := U8("char")
	Assume(hexVal(c) < 0)
	t := []byte(hex)
	t[i] = c
	_, err := script.NewP2PKHFromPubKeyHashStr(string(t))
	Assert(err != nil, "bad-hex-refused")
	_, err = script.NewP2PKHFromPubKeyStr(string(t))
	Assert(err != nil, "bad-hex-key-refused")
}

func C11_address() {
	h := Bytes("hash", 20)
	a, err := address.NewFromPublicKeyHash(h, Bool("mainnet"))
	Assert(err == nil, "address-derived")
	s, err := script.NewP2PKHFromAddress(a.AddressString)
	checkP2PKH(s, err, h)
}

func extract(b []byte) {
	h, err := script.NewFromBytes(dup(b)).GetPublicKeyHash()
	Assert((err == nil) == refP2PKH(b), "hash-exactly-from-P2PKH")
	if err == nil {
		Cover("extracted")
		EqBytes(h, b[3:23], "extracted-hash")
	}
}

func C11_extractShort() {
	max := 6
	if Thorough() {
		max = 9
	}
	extract(Bytes("b", Choose("n", 0, max)))
	var none *script.Script
	_, err := none.GetPublicKeyHash()
	Assert(err != nil, "absent-script-refused")
}

func C11_extractTemplate() {
	WantCover("extracted")
	b := Bytes("b", Choose("n", 23, 27))
	if !Thorough() {
		// the first two bytes are those of the template or free; the rest is free
		if Bool("prefix") {
			b[0], b[1] = 0x76, 0xa9
		} else {
			Assume(b[0] != 0x76 || b[1] != 0xa9)
		}
	}
	extract(b)
}
