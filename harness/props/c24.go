package props

import (
	"crypto/rand"
	"fmt"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"

	. "verif/harness/vsym"
)

// watch remembers what buffers hold, behind their ends too.
type watch struct {
	bufs, was [][]byte
}

func (w *watch) add(b []byte) []byte {
	if cap(b) > 0 {
		b2 := b[:cap(b)]
		w.bufs, w.was = append(w.bufs, b2), append(w.was, dup(b2))
	}
	return b
}

func (w *watch) check(label string) {
	for i, b := range w.bufs {
		EqBytes(b, w.was[i], label)
	}
}

// extend makes a script longer in one of the ways there are.
func extend(s *script.Script) {
	switch Choose("way", 0, 3) {
	case 0:
		s.AppendOpCode(U8("op"))
	case 1:
		Assert(s.AppendPushData(Bytes("more", 2)) == nil, "appended")
	case 2:
		*s = append(*s, U8("op"))
	case 3:
		Assert(s.AppendPushDataArray([][]byte{Bytes("first", 1), Bytes("second", 1)}) == nil, "appended")
	}
}

// The scripts of a parsed transaction: extending one leaves the others and the bytes it was parsed from alone.
func C24_parsedTx() {
	n := 2
	ins, outs := Choose("ins", 0, n), Choose("outs", 0, n)
	b := le(uint64(U32("version")), 4)
	b = cat(b, []byte{byte(ins)})
	var scripts [][]byte
	for i := 0; i < ins; i++ {
		s := Bytes(fmt.Sprint("unlock", i), Choose(fmt.Sprint("unlock length", i), 0, 1)*2)
		scripts = append(scripts, s)
		b = cat(b, Bytes(fmt.Sprint("outpoint", i), 36), []byte{byte(len(s))}, s, Bytes(fmt.Sprint("seq", i), 4))
	}
	b = cat(b, []byte{byte(outs)})
	for i := 0; i < outs; i++ {
		s := Bytes(fmt.Sprint("lock", i), Choose(fmt.Sprint("lock length", i), 0, 1)*2)
		scripts = append(scripts, s)
		b = cat(b, Bytes(fmt.Sprint("sats", i), 8), []byte{byte(len(s))}, s)
	}
	b = cat(b, Bytes("locktime", 4))
	whole := cat(b, Bytes("behind", 8))
	kept := dup(whole)
	t, err := transaction.NewFromBytes(whole[:len(b)])
	Assert(err == nil, "parsed")
	second, err := transaction.NewFromBytes(whole[:len(b)])
	Assert(err == nil, "parsed")
	all := func(t *transaction.Transaction) (r []*script.Script) {
		for _, i := range t.Inputs {
			r = append(r, i.UnlockingScript)
		}
		for _, o := range t.Outputs {
			r = append(r, o.LockingScript)
		}
		return
	}
	ss := all(t)
	if len(ss) > 0 {
		extend(ss[Choose("which", 0, len(ss)-1)])
	}
	EqBytes(whole, kept, "parsed-bytes-kept")
	EqBytes(second.ToBytes(), b, "other-transaction-kept")
	changed := 0
	for i, s := range ss {
		if len(*s) != len(scripts[i]) {
			changed++
		} else {
			EqBytes(*s, scripts[i], "other-script-kept")
		}
	}
	Assert(len(ss) == 0 || changed == 1, "only-one-extended")
}

// An input or output parsed on its own from the middle of a longer buffer.
func C24_parsedParts() {
	pre := Choose("offset", 0, 1) * 5
	s := Bytes("script", Choose("length", 0, 3))
	var body []byte
	isIn := Bool("input")
	if isIn {
		body = cat(Bytes("outpoint", 36), []byte{byte(len(s))}, s, Bytes("seq", 4))
	} else {
		body = cat(Bytes("sats", 8), []byte{byte(len(s))}, s)
	}
	whole := cat(Bytes("before", pre), body, Bytes("behind", 6))
	kept := dup(whole)
	var p *script.Script
	if isIn {
		in, n, err := input.NewFromBytes(whole[pre:])
		Assert(err == nil && n == len(body), "parsed")
		p = in.UnlockingScript
	} else {
		o, n, err := output.NewFromBytes(whole[pre:])
		Assert(err == nil && n == len(body), "parsed")
		p = o.LockingScript
	}
	EqBytes(*p, s, "script")
	extend(p)
	EqBytes(whole, kept, "parsed-bytes-kept")
}

// The parts of a script.
func C24_parts() {
	b := []byte{}
	for i, n := 0, Choose("elements", 1, 3); i < n; i++ {
		d := Bytes(fmt.Sprint("data", i), Choose(fmt.Sprint("length", i), 0, 2))
		switch Choose(fmt.Sprint("form", i), 0, 4) {
		case 0:
			b = cat(b, []byte{[]byte{0, 0x51, 0xff}[len(d)]})
		case 1:
			d = cat(d, []byte{7})
			b = cat(b, []byte{byte(len(d))}, d)
		case 2:
			b = cat(b, []byte{0x4c, byte(len(d))}, d)
		case 3:
			b = cat(b, []byte{0x4d, byte(len(d)), 0}, d)
		case 4:
			b = cat(b, []byte{0x4e, byte(len(d)), 0, 0, 0}, d)
		}
	}
	whole := cat(b, Bytes("behind", 4))
	kept := dup(whole)
	parts, err := script.DecodeParts(whole[:len(b)])
	Assert(err == nil, "split")
	was := [][]byte{}
	for _, p := range parts {
		was = append(was, dup(p))
	}
	i := Choose("which", 0, len(parts)-1)
	x := append(parts[i], U8("more"), 0x33)
	EqBytes(whole, kept, "script-kept")
	for j, p := range parts {
		EqBytes(p, was[j], "other-parts-kept")
	}
	EqBytes(x[:len(was[i])], was[i], "extended")
	parts = append(parts, nil)
	again, err := script.DecodeParts(whole[:len(b)])
	Assert(err == nil && len(again) == len(was), "split-again")
}

// Scripts made from bytes, and the hash taken from a P2PKH script.
func C24_scripts() {
	h := Bytes("hash", 20)
	whole := cat(p2pkh(h), Bytes("behind", 5))
	kept := dup(whole)
	s := script.NewFromBytes(whole[:25])
	got, err := s.GetPublicKeyHash()
	Assert(err == nil, "hash-extracted")
	switch Choose("what", 0, 2) {
	case 0:
		extend(s)
		Assert(len(*s) > 25, "longer")
	case 1:
		x := append(got, U8("more"), 1, 2)
		Assert(len(x) == 23, "longer")
		Assert(s.IsP2PKH(), "still-P2PKH")
	case 2:
		t := script.NewFromBytes(whole[3:23])
		extend(t)
	}
	EqBytes(whole, kept, "bytes-kept")
	EqBytes((*s)[:25], kept[:25], "script-kept")
	EqBytes(got, h, "hash-kept")
}

// A call of the library on two buffers; the results.
type call struct {
	name   string
	la, lb int
	f      func(a, b []byte) [][]byte
}

func scr(s *script.Script, err error) [][]byte {
	if err != nil {
		return nil
	}
	return [][]byte{*s}
}

func outp(o *output.Output, err error) [][]byte {
	if err != nil {
		return nil
	}
	return [][]byte{*o.LockingScript}
}

func one(b []byte, err error) [][]byte { return [][]byte{b} }

var libCalls = []call{
	{"EncodeParts", 3, 80, func(a, b []byte) [][]byte { return one(script.EncodeParts([][]byte{a, b, a})) }},
	{"GetPushDataPrefix", 3, 80, func(a, b []byte) [][]byte {
		p, _ := script.GetPushDataPrefix(a)
		q, _ := script.GetPushDataPrefix(b)
		return [][]byte{p, q}
	}},
	{"AppendPushData", 4, 3, func(a, b []byte) [][]byte {
		s := &script.Script{}
		s.AppendPushData(a)
		t := &script.Script{}
		t.AppendPushDataArray([][]byte{b, a})
		return [][]byte{*s, *t}
	}},
	{"AppendTo", 4, 3, func(a, b []byte) [][]byte {
		s := script.NewFromBytes(a)
		s.AppendPushData(b)
		t := script.NewFromBytes(a)
		t.AppendOpCode(0x61)
		return [][]byte{*s, *t}
	}},
	{"NewP2PKHFromPubKeyBytes", 33, 65, func(a, b []byte) [][]byte {
		return append(scr(script.NewP2PKHFromPubKeyBytes(a)), scr(script.NewP2PKHFromPubKeyBytes(b))...)
	}},
	{"NewP2PKHFromPubKeyHashStr", 20, 20, func(a, b []byte) [][]byte {
		return append(scr(script.NewP2PKHFromPubKeyHashStr(hx(a))), scr(script.NewP2PKHFromPubKeyHashStr(hx(b)))...)
	}},
	{"NewP2PKHUnlockingScript", 33, 70, func(a, b []byte) [][]byte {
		return scr(script.NewP2PKHUnlockingScript(a, b, sighash.AllForkID))
	}},
	{"NewFromPublicKeyHash", 20, 20, func(a, b []byte) [][]byte {
		x, _ := address.NewFromPublicKeyHash(a, true)
		y, _ := address.NewFromPublicKeyHash(b, false)
		return [][]byte{[]byte(x.AddressString), []byte(y.AddressString)}
	}},
	{"Base58EncodeMissingChecksum", 21, 22, func(a, b []byte) [][]byte {
		return [][]byte{[]byte(address.Base58EncodeMissingChecksum(a)), []byte(address.Base58EncodeMissingChecksum(b))}
	}},
	{"EncodeBIP276", 5, 6, func(a, b []byte) [][]byte {
		x := address.EncodeBIP276("bitcoin-script", 1, 1, a)
		y := address.EncodeBIP276("bitcoin-script", 1, 1, b)
		return [][]byte{[]byte(x), []byte(y)}
	}},
	{"NewOpReturn", 3, 4, func(a, b []byte) [][]byte {
		r := append(outp(output.NewOpReturn(a)), outp(output.NewOpReturn(b))...)
		return append(r, outp(output.NewOpReturnParts([][]byte{a, b, a}))...)
	}},
	{"NewHashPuzzle", 3, 20, func(a, b []byte) [][]byte {
		return outp(output.NewHashPuzzle(string(a), hx(b), 1))
	}},
	{"BuildBlockHeader", 32, 32, func(a, b []byte) [][]byte {
		return [][]byte{block.BuildBlockHeader(1, hx(b), a, b[:4], b[4:8], b[8:12])}
	}},
	{"BuildMerkleRootFromCoinbase", 32, 32, func(a, b []byte) [][]byte {
		return [][]byte{block.BuildMerkleRootFromCoinbase(a, []string{hx(b), hx(a)})}
	}},
	{"BuildCoinbase", 7, 5, func(a, b []byte) [][]byte {
		return [][]byte{block.BuildCoinbase(a, b, "01020304", "0102030405060708")}
	}},
	{"GetCoinbaseParts", 3, 4, func(a, b []byte) [][]byte {
		x, y, _ := block.GetCoinbaseParts(7, 8, "6a24aa", string(a), "1BoatSLRHtKNngkdXEeobR76b53LETtpyT", b)
		return [][]byte{x, y}
	}},
	{"Hashes", 32, 33, func(a, b []byte) [][]byte {
		return [][]byte{crypto.Sha256(a), crypto.Sha256d(a), crypto.Ripemd160(b), crypto.Hash160(b)}
	}},
	{"ReverseBytes", 32, 5, func(a, b []byte) [][]byte {
		return [][]byte{utils.ReverseBytes(a), utils.ReverseBytes(b)}
	}},
	{"VarInt", 1, 9, func(a, b []byte) [][]byte {
		n, _ := utils.DecodeVarInt(a)
		m, _ := utils.DecodeVarInt(b)
		return [][]byte{utils.VarInt(n), utils.VarInt(m), utils.GetLittleEndianBytes(uint32(m), 4)}
	}},
	{"Encrypt", 5, 16, func(a, b []byte) [][]byte {
		rand.Reader = &Reader{}
		x, _ := crypto.Encrypt(Block{}, a)
		y, _ := crypto.Decrypt(Block{}, b)
		z, _ := crypto.Decrypt(Block{}, x)
		return [][]byte{x, y, z}
	}},
	{"Classify", 5, 25, func(a, b []byte) [][]byte {
		for _, x := range [][]byte{a, b} {
			s := script.NewFromBytes(x)
			s.IsP2PKH()
			s.IsP2SH()
			s.IsData()
			s.ToString()
		}
		return nil
	}},
	{"Equals", 3, 3, func(a, b []byte) [][]byte {
		utils.Equals(a, b)
		return nil
	}},
}

// Every function on buffers with spare room: they stay as they are, also when the results are extended, and no later
// call changes the results.
func libCall(i int) {
	c := libCalls[i]
	w := &watch{}
	spare := Choose("spare", 0, 2) * 40
	var args [][]byte
	for _, n := range []string{"a", "b", "other a", "other b"} {
		l := c.la
		if n[len(n)-1] == 'b' {
			l = c.lb
		}
		args = append(args, w.add(BytesCap(n, l, spare)))
	}
	res := c.f(args[0], args[1])
	w.check("arguments-kept")
	was := [][]byte{}
	for _, r := range res {
		was = append(was, dup(r))
	}
	kept := func(label string) {
		w.check("arguments-kept")
		for j, r := range res {
			EqBytes(r, was[j], label)
		}
	}
	c.f(args[2], args[3])
	kept("results-kept-by-later-calls")
	for _, r := range res {
		_ = append(r, 0xa5, 0x5a, U8("more"))
	}
	kept("results-kept-when-others-are-extended")
	again := c.f(args[0], args[1])
	if c.name != "Encrypt" { // a vector of its own
		Assert(len(again) == len(was), "same-results-again")
		for j := range again {
			EqBytes(again[j], was[j], "same-results-again")
		}
	}
}

func C24_calls() { libCall(Choose("call", 0, len(libCalls)-1)) }

// Transactions: reading one changes none of its buffers, and what was read is not changed later.
func C24_transaction() {
	w := &watch{}
	t := transaction.New()
	scriptOf := func(n string) *script.Script {
		s := script.Script(w.add(BytesCap(n, 3, 20)))
		return &s
	}
	for i := 0; i < 2; i++ {
		t.AddInput(&input.Input{PreviousTxID: hx(Bytes(fmt.Sprint("id", i), 32)), PreviousTxOutIndex: U32(fmt.Sprint("index", i)),
			PreviousTxSatoshis: U64(fmt.Sprint("spent", i)), SequenceNumber: U32(fmt.Sprint("seq", i)),
			PreviousTxScript: scriptOf(fmt.Sprint("prev", i)), UnlockingScript: scriptOf(fmt.Sprint("unlock", i))})
		t.AddOutput(&output.Output{Satoshis: U64(fmt.Sprint("sats", i)), LockingScript: scriptOf(fmt.Sprint("lock", i))})
	}
	flag := sighash.Flag([]uint8{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3}[Choose("flag", 0, 5)])
	read := func() [][]byte {
		h, err := t.GetInputSignatureHash(1, flag)
		Assert(err == nil, "hash")
		return [][]byte{t.ToBytes(), t.ToBytesWithClearedInputs(0, *t.Inputs[0].PreviousTxScript), h, t.Inputs[0].ToBytes(false), t.Inputs[1].ToBytes(true),
			t.Outputs[0].ToBytes(), t.Outputs[1].GetBytesForSigHash(), []byte(t.GetTxID()), []byte(t.ToString())}
	}
	r := read()
	w.check("buffers-kept")
	was := [][]byte{}
	for _, x := range r {
		was = append(was, dup(x))
	}
	for _, x := range r {
		_ = append(x, 1, 2, 3)
	}
	w.check("buffers-kept")
	again := read()
	for i := range r {
		EqBytes(r[i], was[i], "results-kept")
		EqBytes(again[i], was[i], "same-results-again")
	}
	// another transaction
	t.Version = U32("other version")
	t.Outputs[0], t.Outputs[1] = t.Outputs[1], t.Outputs[0]
	read()
	w.check("buffers-kept")
	for i := range r {
		EqBytes(r[i], was[i], "results-kept")
	}
}

// Signing: the new scripts are the inputs' own.
func C24_signed() {
	key := PrivKey("key")
	own := p2pkh(hash160(key.PubKey().SerializeCompressed()))
	t := transaction.New()
	whole := make([]byte, 40)
	copy(whole, own)
	shared := whole[:25] // both inputs spend scripts in the same buffer
	for i := 0; i < 2; i++ {
		s := script.Script(shared)
		t.AddInput(&input.Input{PreviousTxID: hx(Bytes(fmt.Sprint("id", i), 32)), PreviousTxScript: &s, SequenceNumber: 0xffffffff})
	}
	t.AddOutput(&output.Output{Satoshis: U64("sats"), LockingScript: sc(own)})
	kept := dup(whole)
	signer := &signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.AllForkID}
	Assert(t.SignAuto(signer) == nil, "signed")
	EqBytes(whole, kept, "previous-scripts-kept")
	a, b := dup(*t.Inputs[0].UnlockingScript), dup(*t.Inputs[1].UnlockingScript)
	i := Choose("which", 0, 1)
	t.Inputs[i].UnlockingScript.AppendOpCode(U8("op"))
	EqBytes(*t.Inputs[1-i].UnlockingScript, [][]byte{b, a}[i], "other-unlocking-script-kept")
	EqBytes(whole, kept, "previous-scripts-kept")
	EqBytes(*t.Outputs[0].LockingScript, own, "output-kept")
}

// Redeem scripts: reading one changes no key.
func C24_redeem() {
	w := &watch{}
	rs, err := script.NewRedeemScript(2)
	Assert(err == nil, "made")
	for i := 0; i < 3; i++ {
		rs.PublicKeys = append(rs.PublicKeys, w.add(BytesCap(fmt.Sprint("key", i), 2, 10)))
	}
	r := [][]byte{rs.GetRedeemScript(), rs.GetRedeemScriptHash()}
	was := [][]byte{dup(r[0]), dup(r[1])}
	w.check("keys-kept")
	_ = append(r[0], 1, 2)
	_ = append(r[1], 1, 2)
	other, _ := script.NewRedeemScript(3)
	other.PublicKeys = [][]byte{Bytes("other", 33)}
	other.GetRedeemScript()
	rs.PublicKeys = append(rs.PublicKeys, Bytes("more", 2))
	rs.GetRedeemScript()
	w.check("keys-kept")
	for i := range r {
		EqBytes(r[i], was[i], "results-kept")
	}
}
