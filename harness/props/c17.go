package props

import (
	"fmt"

	"github.com/bitcoinsv/bsvutil/base58"

	"github.com/libsv/libsv/transaction/output"

	. "verif/harness/vsym"
)

// built: the output carries the value and the script, also in its hex and wire forms.
func built(o *output.Output, err error, satoshis uint64, script []byte) {
	Assert(err == nil, "built")
	Assert(o.Satoshis == satoshis, "satoshis")
	EqBytes(*o.LockingScript, script, "locking-script")
	EqStr(o.GetLockingScriptHexString(), hx(script), "script-hex")
}

func C17_data() {
	d := Blob("data", 0, maxBlob)
	kept := dup(d)
	o, err := output.NewOpReturn(d)
	Assert(err == nil, "built")
	Assert(o.Satoshis == 0, "satoshis")
	EqBytes(*o.LockingScript, cat([]byte{0, 0x6a}, push(kept)), "locking-script")
	EqBytes(d, kept, "data-kept")
}

func C17_items() {
	n := 3
	if Thorough() {
		n = 4
	}
	n = Choose("items", 0, n)
	items, want := [][]byte{}, []byte{0, 0x6a}
	for i := 0; i < n; i++ {
		hi := maxBlob
		if i > 0 && !Thorough() {
			hi = 300
		}
		d := Blob(fmt.Sprintf("item%d", i), 0, hi)
		items = append(items, d)
		want = cat(want, push(d))
	}
	o, err := output.NewOpReturnParts(items)
	Assert(err == nil, "built")
	Assert(o.Satoshis == 0, "satoshis")
	EqBytes(*o.LockingScript, want, "locking-script")
}

func C17_shortItems() {
	items, want := [][]byte{}, []byte{0, 0x6a}
	for i := Choose("items", 1, 2); i > 0; i-- {
		d := Bytes("item", []int{0, 1, 2, 75, 76}[Choose("length", 0, 4)])
		items = append(items, d)
		want = cat(want, push(d))
	}
	o, err := output.NewOpReturnParts(items)
	built(o, err, 0, want)
}

func C17_hash() {
	v := U64("satoshis")
	s, h := anyHex("hash", 20)
	o, err := output.NewP2PkhFromPubKeyHash(s, v)
	built(o, err, v, p2pkh(h))
}

func C17_address() {
	v, h := U64("satoshis"), Bytes("hash", 20)
	o, err := output.NewP2PKHFromAddress(base58check(cat(addressVersion(Bool("mainnet")), h)), v)
	built(o, err, v, p2pkh(h))
}

func puzzle(secret string, h []byte) []byte {
	return cat([]byte{0xa9, 0x14}, hash160([]byte(secret)), []byte{0x88}, p2pkh(h))
}

func C17_puzzle() {
	v := U64("satoshis")
	s, h := anyHex("hash", 20)
	secret := Str("secret", Choose("length", 0, 8))
	if Bool("long") {
		secret = string(Blob("long secret", 9, maxBlob))
	}
	o, err := output.NewHashPuzzle(secret, s, v)
	built(o, err, v, puzzle(secret, h))
}

// No output from text that is not the hash or the address of a key.
func C17_refused() {
	v := U64("satoshis")
	var t string
	switch Choose("how", 0, 3) {
	case 0: // wrong length
		n := Choose("bytes", 0, 24)
		if n == 20 {
			n = 33
		}
		t, _ = anyHex("hash", n)
	case 1: // a digit short or too many
		t, _ = anyHex("hash", 20)
		if Bool("more") {
			t += Str("digit", 1)
		} else {
			t = t[:39]
		}
	case 2: // not hex
		h, _ := anyHex("hash", 20)
		c := U8("character")
		Assume(hexVal(c) < 0)
		b := []byte(h)
		b[Choose("at", 0, 39)] = c
		t = string(b)
	case 3: // short text
		t = Str("text", Choose("length", 0, 5))
	}
	o, err := output.NewP2PkhFromPubKeyHash(t, v)
	Assert(err != nil && o == nil, "hash-refused")
	o, err = output.NewHashPuzzle("s", t, v)
	Assert(err != nil && o == nil, "puzzle-refused")
}

func C17_badAddress() {
	v := U64("satoshis")
	var d []byte
	switch Choose("how", 0, 2) {
	case 0: // any 25 bytes
		d = Bytes("decoded", 25)
	case 1: // another length with a right checksum
		d = cat(addressVersion(Bool("mainnet")), Bytes("hash", 19+2*Choose("longer", 0, 1)))
		d = cat(d, sha256d(d)[:4])
	case 2: // another version with a right checksum
		d = Bytes("payload", 21)
		d = cat(d, sha256d(d)[:4])
	}
	Assume(!okAddress(d))
	o, err := output.NewP2PKHFromAddress(base58.Encode(d), v)
	Assert(err != nil && o == nil, "address-refused")
}

// Texts that denote no bytes, and short ones.
func C17_badText() {
	t := []byte(knownAddress(Choose("address", 0, 1)))
	if Bool("short") {
		t = t[:Choose("length", 0, 4)]
	} else {
		c := U8("character")
		Assume(digits58of[c] < 0)
		t[Choose("at", 0, len(t)-1)] = c
	}
	o, err := output.NewP2PKHFromAddress(string(t), U64("satoshis"))
	Assert(err != nil && o == nil, "address-refused")
}

func C17_many() {
	n := []int{4, 8, 16, 17, 32, 100, 256}[Choose("items", 0, 6)]
	items, want := make([][]byte, n), []byte{0, 0x6a}
	for i := range items {
		items[i] = make([]byte, []int{1, 0, 20, 76, 300}[i%5])
		if i == n-1 || i == 0 {
			items[i] = Bytes("data", 5)
		}
		want = cat(want, push(items[i]))
	}
	o, err := output.NewOpReturnParts(items)
	built(o, err, 0, want)
}
