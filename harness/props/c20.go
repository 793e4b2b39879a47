package props

import (
	"github.com/bitcoinsv/bsvutil/base58"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/transaction"

	. "verif/harness/vsym"
)

func varInt(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return cat([]byte{0xfd}, le(n, 2))
	case n <= 0xffffffff:
		return cat([]byte{0xfe}, le(n, 4))
	}
	return cat([]byte{0xff}, le(n, 8))
}

func txOut(v uint64, script []byte) []byte {
	return cat(le(v, 8), varInt(uint64(len(script))), script)
}

// refCoinbase is the coinbase transaction; script data and outputs come separately.
func refCoinbase(height uint32, text, nonces []byte, nOut byte, outs []byte) []byte {
	room := 100 - 4 - 12
	if len(text) > room {
		text = text[:room]
	}
	data := cat([]byte{3}, le(uint64(height), 4)[:3], text, nonces)
	return cat([]byte{1, 0, 0, 0, 1}, make([]byte, 32), []byte{255, 255, 255, 255},
		varInt(uint64(len(data))), data, []byte{255, 255, 255, 255}, []byte{nOut}, outs, make([]byte, 4))
}

func wallet(n string) (string, []byte) {
	h := Bytes(n, 20)
	return base58check(cat(addressVersion(Bool(n+" mainnet")), h)), h
}

// coinbaseOf builds both parts, joins them and compares the whole.
func coinbaseOf(text string, commitment, miner []byte) []byte {
	height, value := U32("height"), U64("value")
	addr, h := wallet("wallet")
	kept := dup(miner)
	c1, c2, err := block.GetCoinbaseParts(height, value, hx(commitment), text, addr, miner)
	Assert(err == nil, "built")
	EqBytes(miner, kept, "miner-id-kept")
	outs, n := txOut(value, p2pkh(h)), byte(1)
	if len(commitment) > 0 {
		outs, n = cat(outs, txOut(0, commitment)), n+1
	}
	if len(miner) > 0 {
		outs, n = cat(outs, txOut(0, kept)), n+1
	}
	i := []int{0, 4, 8, 12}[Choose("split", 0, 3)]
	e1, n1 := anyHex("nonce1", i)
	e2, n2 := anyHex("nonce2", 12-i)
	k1, k2 := dup(c1), dup(c2)
	got := block.BuildCoinbase(c1, c2, e1, e2)
	EqBytes(got, refCoinbase(height, []byte(text), cat(n1, n2), n, outs), "coinbase-transaction")
	EqBytes(c1, k1, "first-part-kept")
	EqBytes(c2, k2, "second-part-kept")
	return got
}

// Texts of any length, no further outputs.
func C20_text() { coinbaseOf(string(Blob("text", 0, 1<<16)), nil, nil) }

// Further outputs; short texts.
func C20_outputs() {
	var com, miner []byte
	if Bool("commitment") {
		com = Bytes("witness", []int{1, 2, 38, 252, 253}[Choose("length", 0, 4)])
	}
	if Bool("miner id") {
		miner = Blob("miner", 0, maxBlob)
	}
	coinbaseOf(Str("text", 3*Choose("characters", 0, 1)), com, miner)
}

// The result is one transaction, and a coinbase.
func C20_parsed() {
	var com, miner []byte
	if Bool("commitment") {
		com = Bytes("witness", 38)
	}
	if Bool("miner id") {
		miner = Bytes("miner", 70)
	}
	b := coinbaseOf(Str("text", 20*Choose("twenties", 0, 5)), com, miner)
	tx, err := transaction.NewFromBytes(b)
	Assert(err == nil, "parsed")
	Assert(tx.IsCoinbase(), "is-coinbase")
	Assert(tx.Version == 1 && tx.Locktime == 0, "version-and-locktime")
	EqBytes(tx.ToBytes(), b, "serialised-again")
}

// The argument buffers may have room behind them.
func C20_spare() {
	miner := BytesCap("miner", 3, 30)
	whole := miner[:33]
	was := dup(whole)
	addr, _ := wallet("wallet")
	c1, c2, err := block.GetCoinbaseParts(U32("height"), U64("value"), "", Str("text", 2), addr, miner)
	Assert(err == nil, "built")
	EqBytes(whole, was, "miner-id-kept")
	p1, p2 := cat(c1), cat(c2)
	s1, s2 := append(c1, Bytes("spare1", 16)...)[:len(c1)], append(c2, Bytes("spare2", 16)...)[:len(c2)]
	w1, w2 := dup(s1[:cap(s1)]), dup(s2[:cap(s2)])
	e1, n1 := anyHex("nonce1", 4)
	e2, n2 := anyHex("nonce2", 8)
	got := block.BuildCoinbase(s1, s2, e1, e2)
	EqBytes(got, cat(p1, n1, n2, p2), "joined")
	EqBytes(s1[:cap(s1)], w1, "first-part-kept")
	EqBytes(s2[:cap(s2)], w2, "second-part-kept")
}

func C20_refused() {
	var com []byte
	text := hx(com)
	addr, _ := wallet("wallet")
	switch Choose("how", 0, 3) {
	case 0: // an odd number of digits
		text, _ = anyHex("witness", 4)
		text += Str("digit", 1)
	case 1: // not hex
		text, _ = anyHex("witness", 4)
		c := U8("character")
		Assume(hexVal(c) < 0)
		b := []byte(text)
		b[Choose("at", 0, 7)] = c
		text = string(b)
	case 2: // any text that is no address
		d := Bytes("decoded", 24+Choose("longer", 0, 2))
		Assume(!okAddress(d))
		addr = base58.Encode(d)
	case 3:
		addr = Str("wallet text", Choose("length", 0, 3))
	}
	_, _, err := block.GetCoinbaseParts(U32("height"), U64("value"), text, "", addr, nil)
	Assert(err != nil, "refused")
}
