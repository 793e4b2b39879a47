package props

import (
	"fmt"

	"github.com/bitcoinsv/bsvutil/base58"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"

	. "verif/harness/vsym"
)

// Histories of two calls: whatever was asked before, the second answer is right, and the first one stays as it was.
// The arguments of both are arbitrary, so they may agree in any part.

func C01_twice() {
	a, b := U64("a"), U64("b")
	x := utils.VarInt(a)
	kept := dup(x)
	y := utils.VarInt(b)
	EqBytes(y, refVarInt(b), "second")
	EqBytes(x, kept, "first-kept")
	v, n := utils.DecodeVarInt(y)
	Assert(v == b && n == len(y), "second-decoded")
	v, n = utils.DecodeVarInt(x)
	Assert(v == a && n == len(x), "first-decoded")
}

func C02_twice() {
	sizes := []int{0, 1, 75, 76, 255, 256, 65535, 65536}
	a, b := Bytes("a", sizes[Choose("first", 0, 7)]), Bytes("b", sizes[Choose("second", 0, 7)])
	p, err := script.GetPushDataPrefix(a)
	Assert(err == nil, "accepted")
	q, err := script.GetPushDataPrefix(b)
	Assert(err == nil, "accepted")
	EqBytes(p, pushPrefix(uint64(len(a))), "first-prefix")
	EqBytes(q, pushPrefix(uint64(len(b))), "second-prefix")
	if len(a) > 256 || len(b) > 256 {
		return
	}
	s, t := &script.Script{}, &script.Script{}
	Assert(s.AppendPushData(a) == nil, "accepted")
	Assert(t.AppendPushDataArray([][]byte{b, a}) == nil, "accepted")
	Assert(s.AppendPushDataStrings([]string{string(b), string(a)}) == nil, "accepted")
	EqBytes(*t, cat(push(b), push(a)), "second-script")
	EqBytes(*s, cat(push(a), push(b), push(a)), "first-script")
}

func C03_twice() {
	n := 3
	a, b := Bytes("a", Choose("first", 0, n)), Bytes("b", Choose("second", 0, n))
	kept := dup(a)
	ps, err := script.DecodeParts(a)
	checkSplit(b)
	es, ok := refSplit(kept)
	Assert((err == nil) == ok, "accepted-iff-complete")
	if !ok {
		return
	}
	Assert(len(ps) == len(es), "number-of-parts")
	for i, e := range es {
		if e.push {
			EqBytes(ps[i], e.data, "part")
		} else {
			EqBytes(ps[i], []byte{e.op}, "opcode")
		}
	}
}

// Two parsed transactions; the first one is worked on.
func C04_twice() {
	_, m := anyTx(2, 1, func(n string) []byte { return Bytes(n, Choose(n, 0, 1)) })
	w := refWire(m.wireTx)
	t, err := transaction.NewFromBytes(w)
	Assert(err == nil, "accepted")
	sameTx(t, m.wireTx)
	for _, in := range t.Inputs {
		in.UnlockingScript.AppendOpCode(0x51)
	}
	t.Outputs[0].LockingScript.AppendOpCode(0x52)
	for i, in := range t.Inputs {
		EqBytes(*in.UnlockingScript, cat(m.ins[i].script, []byte{0x51}), "own-script")
	}
	EqBytes(*t.Outputs[0].LockingScript, cat(m.outs[0].script, []byte{0x52}), "own-script")
	u, err := transaction.NewFromBytes(w)
	Assert(err == nil, "accepted")
	sameTx(u, m.wireTx)
}

// A transaction parsed after another one.
func C04_then() {
	_, a := anyTx(1, 1, short)
	_, b := anyTx(1, 1, short)
	t, err := transaction.NewFromBytes(refWire(a.wireTx))
	Assert(err == nil, "accepted")
	u, err := transaction.NewFromBytes(refWire(b.wireTx))
	Assert(err == nil, "accepted")
	sameTx(u, b.wireTx)
	sameTx(t, a.wireTx)
}

func C05_twice() {
	t, a := anyTx(1, 1, short)
	u, b := anyTx(1, 1, short)
	x := t.ToBytes()
	xi, xo := t.Inputs[0].ToBytes(false), t.Outputs[0].ToBytes()
	y := u.ToBytes()
	yi, yo := u.Inputs[0].ToBytes(false), u.Outputs[0].ToBytes()
	EqBytes(x, refWire(a.wireTx), "first")
	EqBytes(y, refWire(b.wireTx), "second")
	Assert(len(xi) == 44 && len(yi) == 44, "input-lengths")
	EqBytes(xi, x[5:49], "first-input")
	EqBytes(yi, y[5:49], "second-input")
	EqBytes(xo, refOut(a.outs[0]), "first-output")
	EqBytes(yo, refOut(b.outs[0]), "second-output")
}

func C06_twice() {
	t, a := anyTx(1, 1, short)
	u, b := anyTx(1, 1, short)
	x := t.GetTxID()
	EqStr(u.GetTxID(), hx(rev(sha256d(refWire(b.wireTx)))), "second-id")
	EqStr(x, hx(rev(sha256d(refWire(a.wireTx)))), "first-id")
	EqStr(t.GetTxID(), x, "same-id-again")
}

func C07_twice() {
	t, a := anyTx(1, 1, short)
	u, b := anyTx(1, 1, short)
	f, g := U8("flag"), U8("flag2")
	x, err := t.GetInputSignatureHash(0, sighash.Flag(f))
	Assert(err == nil, "hash-computed")
	y, err := u.GetInputSignatureHash(0, sighash.Flag(g))
	Assert(err == nil, "hash-computed")
	EqBytes(x, sigHashOf(a, 0, f), "first-hash")
	EqBytes(y, sigHashOf(b, 0, g), "second-hash")
}

// An input signed again with another key and flag.
func C08_twice() {
	t, m := anyTx(1, 1, short)
	for k := 0; k < 2; k++ {
		key, flag := PrivKey(fmt.Sprint("key", k)), U8(fmt.Sprint("flag", k))
		Assert(t.Sign(0, &signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)}) == nil, "signed")
		signedOnly(t, m, map[int][]byte{0: refUnlock(key, m, 0, flag)}, "after-signing")
	}
}

// Two transactions with two keys, each of which has an input in both.
func C09_twice() {
	var keys [2][]byte
	ka, kb := PrivKey("key0"), PrivKey("key1")
	keys[0], keys[1] = p2pkh(hash160(ka.PubKey().SerializeCompressed())), p2pkh(hash160(kb.PubKey().SerializeCompressed()))
	for k := 0; k < 2; k++ {
		t, m := anyTx(2, 0, short)
		for i := range t.Inputs {
			t.Inputs[i].PreviousTxScript = sc(keys[i])
			m.spent[i].script = keys[i]
		}
		key := ka
		if k == 1 {
			key = kb
		}
		flag := U8(fmt.Sprint("flag", k))
		Assert(t.SignAuto(&signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)}) == nil, "signed")
		signedAuto(t, m, key, flag)
	}
}

// The classification follows the script's bytes.
func C10_followed() {
	before := [][]byte{p2pkh(make([]byte, 20)), cat([]byte{0xa9, 0x14}, make([]byte, 20), []byte{0x87}), {0x6a, 1, 2}, {0, 0x6a, 1}, {0x51, 1, 2, 0x51, 0xae}, {}}
	s := script.NewFromBytes(cat(before[Choose("before", 0, len(before)-1)]))
	s.IsP2PKH()
	s.IsP2SH()
	s.IsData()
	s.IsP2PK()
	s.IsMultisigOut()
	var x []byte
	n := 3
	switch Choose("after", 0, 4) {
	case 0:
		x = Bytes("after25", 25)
		*s = append((*s)[:0], x...)
		Assert(s.IsP2PKH() == refP2PKH(x), "IsP2PKH")
		return
	case 1:
		x = Bytes("after23", 23)
		*s = append((*s)[:0], x...)
		Assert(s.IsP2SH() == refP2SH(x), "IsP2SH")
		return
	case 2:
		x = cat([]byte{33}, Bytes("key", 33), Bytes("last", 1))
		*s = append((*s)[:0], x...)
		Assert(s.IsP2PK() == refP2PK(x), "IsP2PK")
		return
	case 3:
		n = Choose("length", 0, 2)
	}
	x = Bytes("other", n)
	*s = append((*s)[:0], x...)
	Assert(s.IsP2PKH() == refP2PKH(x), "IsP2PKH")
	Assert(s.IsP2SH() == refP2SH(x), "IsP2SH")
	Assert(s.IsData() == refData(x), "IsData")
	Assert(s.IsP2PK() == refP2PK(x), "IsP2PK")
	Assert(s.IsMultisigOut() == refMultisig(x), "IsMultisigOut")
}

func C11_twice() {
	var ss []*script.Script
	var hs [][]byte
	for k := 0; k < 2; k++ {
		var s *script.Script
		var h []byte
		var err error
		switch Choose("from", 0, 3) {
		case 0:
			p := Bytes(fmt.Sprint("key", k), []int{33, 65}[Choose("long", 0, 1)])
			h = hash160(p)
			s, err = script.NewP2PKHFromPubKeyBytes(p)
		case 1:
			t, p := anyHex(fmt.Sprint("key", k), 33)
			h = hash160(p)
			s, err = script.NewP2PKHFromPubKeyStr(t)
		case 2:
			t, p := anyHex(fmt.Sprint("hash", k), 20)
			h = p
			s, err = script.NewP2PKHFromPubKeyHashStr(t)
		case 3:
			h = Bytes(fmt.Sprint("hash", k), 20)
			s, err = script.NewP2PKHFromAddress(base58check(cat(addressVersion(Bool("mainnet")), h)))
		}
		checkP2PKH(s, err, h)
		ss, hs = append(ss, s), append(hs, h)
	}
	checkP2PKH(ss[0], nil, hs[0])
	(*ss[0])[5] ^= 0xff
	ss[0].AppendOpCode(0x61)
	checkP2PKH(ss[1], nil, hs[1])
}

// The ASM form follows the bytes, and a parsed script is the caller's own.
func C12_followed() {
	s := script.NewFromBytes(dup(someElem()))
	first, err := s.ToASM()
	Assert(err == nil, "has-ASM-form")
	b := cat(*s, someElem())
	*s = append((*s)[:0], b...)
	second, err := s.ToASM()
	Assert(err == nil, "has-ASM-form")
	for k := 0; k < 2; k++ {
		back, err := script.NewFromASM(second)
		Assert(err == nil, "ASM-parses")
		EqBytes(*back, b, "same-bytes")
		(*back)[0] ^= 0x11
		back.AppendOpCode(0x61)
	}
	back, err := script.NewFromASM(first)
	Assert(err == nil, "ASM-parses")
	Assert(len(*back) < len(b), "first-kept")
}

func C13_twice() {
	h, g := Bytes("hash", 20), Bytes("other", 20)
	m, n := Bool("mainnet"), Bool("othernet")
	a, err := address.NewFromPublicKeyHash(h, m)
	Assert(err == nil, "derived")
	b, err := address.NewFromPublicKeyHash(g, n)
	Assert(err == nil, "derived")
	goodAddress(a, h, m)
	goodAddress(b, g, n)
	text := a.AddressString
	c, err := address.NewFromString(text)
	Assert(err == nil, "own-address-parsed")
	a.AddressString, a.PublicKeyHash = "", ""
	c.AddressString, c.PublicKeyHash = "x", "y"
	goodAddress(b, g, n)
	a, err = address.NewFromPublicKeyHash(h, m)
	Assert(err == nil, "derived")
	goodAddress(a, h, m)
}

func C13_keys() {
	s, p := anyHex("key", 33)
	t, q := anyHex("other", 33)
	m, n := Bool("mainnet"), Bool("othernet")
	a, err := address.NewFromPublicKeyString(s, m)
	Assert(err == nil, "derived")
	b, err := address.NewFromPublicKeyString(t, n)
	Assert(err == nil, "derived")
	goodAddress(a, hash160(p), m)
	goodAddress(b, hash160(q), n)
	k, l := PrivKey("key0").PubKey(), PrivKey("key1").PubKey()
	a, err = address.NewFromPublicKey(k, m)
	Assert(err == nil, "derived")
	b, err = address.NewFromPublicKey(l, n)
	Assert(err == nil, "derived")
	goodAddress(a, hash160(k.SerializeCompressed()), m)
	goodAddress(b, hash160(l.SerializeCompressed()), n)
}

// A right text, then one of the same payload with any checksum, and both once more.
func C13_parsedTwice() {
	p := cat(addressVersion(Bool("mainnet")), Bytes("hash", 20))
	good := cat(p, sha256d(p)[:4])
	q := cat(addressVersion(Bool("othernet")), Bytes("other", 20))
	bad := cat(q, Bytes("checksum", 4))
	if Bool("badFirst") {
		parsed(base58.Encode(bad), bad)
	}
	parsed(base58.Encode(good), good)
	parsed(base58.Encode(bad), bad)
	parsed(base58.Encode(good), good)
}

func C14_twice() {
	s := []byte(knownAddress(Choose("address", 0, 3)))
	good := string(s)
	s[[]int{0, 1, 12, len(s) - 1}[Choose("at", 0, 3)]] = U8("character")
	for k := 0; k < 2; k++ {
		if Bool("good") {
			validated(good)
		}
		validated(string(s))
	}
}

func C15_twice() {
	p := prefix276()
	ns := []int{1, 2, 16, 255}
	var texts []string
	var n, v [2]int
	var d [2][]byte
	for k := 0; k < 2; k++ {
		n[k], v[k] = ns[Choose("network", 0, 1+2*k)], ns[Choose("version", 0, 1)]
		d[k] = Bytes(fmt.Sprint("data", k), 2)
		texts = append(texts, address.EncodeBIP276(p, n[k], v[k], d[k]))
	}
	for k := 0; k < 2; k++ {
		EqStr(texts[k], refBIP276(p, byte(n[k]), byte(v[k]), d[k]), "encoded")
		decodesRight(texts[k])
	}
}

// A right text, then one like it with any checksum.
func C15_decodedTwice() {
	p := prefix276()
	d := Bytes("data0", 1)
	good := refBIP276(p, 1, 1, d)
	_, _, _, x, err := address.DecodeBIP276(good)
	Assert(err == nil, "decoded")
	bad := cat([]byte{byte(Choose("network", 1, 2)), 1}, d, Bytes("checksum", 4))
	decodesRight(p + ":" + hx(bad))
	EqBytes(x, d, "first-kept")
	decodesRight(good)
}

// Two scripts that get their keys in turns.
func C16_twice() {
	var rs [2]*script.RedeemScript
	var keys [2][][]byte
	for k := range rs {
		r, err := script.NewRedeemScript(2 + k)
		Assert(err == nil, "accepted")
		rs[k] = r
	}
	for k := 0; k < 3; k++ {
		i, j := U32(fmt.Sprint("i", k)), U32(fmt.Sprint("j", k))
		x := []string{xpub1, xpub2}[Choose("xpub", 0, 1)]
		at := Choose("script", 0, 1)
		err := rs[at].AddPublicKey(x, []uint32{i, j})
		key, ok := derivedKey(x, i, j)
		Assert((err == nil) == ok, "added-iff-derivable")
		if !ok {
			return
		}
		keys[at] = append(keys[at], key)
	}
	for k := range rs {
		goodRedeem(rs[k], 2+k, keys[k])
	}
}

func C17_twice() {
	var os []*output.Output
	var wants [][]byte
	var sats []uint64
	for k := 0; k < 2; k++ {
		var o *output.Output
		var err error
		var want []byte
		v := U64(fmt.Sprint("sats", k))
		t, h := anyHex(fmt.Sprint("hash", k), 20)
		switch Choose("kind", 0, 4) {
		case 0:
			o, err = output.NewP2PkhFromPubKeyHash(t, v)
			want = p2pkh(h)
		case 1:
			o, err = output.NewP2PKHFromAddress(base58check(cat(addressVersion(Bool("mainnet")), h)), v)
			want = p2pkh(h)
		case 2:
			s := Str(fmt.Sprint("secret", k), 3)
			o, err = output.NewHashPuzzle(s, t, v)
			want = puzzle(s, h)
		case 3:
			v = 0
			d := Bytes(fmt.Sprint("data", k), 3)
			o, err = output.NewOpReturn(d)
			want = cat([]byte{0, 0x6a}, push(d))
		case 4:
			v = 0
			d, e := Bytes(fmt.Sprint("data", k), 3), Bytes(fmt.Sprint("more", k), 2)
			o, err = output.NewOpReturnParts([][]byte{d, e})
			want = cat([]byte{0, 0x6a}, push(d), push(e))
		}
		built(o, err, v, want)
		os, wants, sats = append(os, o), append(wants, want), append(sats, v)
	}
	built(os[0], nil, sats[0], wants[0])
	os[0].Satoshis++
	(*os[0].LockingScript)[1] ^= 0xff
	os[0].LockingScript.AppendOpCode(0x61)
	built(os[1], nil, sats[1], wants[1])
}

func C18_twice() {
	var got, want [2][]byte
	for k := range got {
		v := U32(fmt.Sprint("version", k))
		t, p := anyHex(fmt.Sprint("previous", k), 32)
		a, b, c, d := Bytes(fmt.Sprint("root", k), 32), Bytes(fmt.Sprint("time", k), 4), Bytes(fmt.Sprint("bits", k), 4), Bytes(fmt.Sprint("nonce", k), 4)
		got[k] = block.BuildBlockHeader(v, t, a, b, c, d)
		want[k] = cat(le(uint64(v), 4), rev(p), a, b, c, d)
	}
	for k := range got {
		EqBytes(got[k], want[k], "header")
	}
}

// Two blocks: the branches of the first are kept, and both roots come out right.
func C19_twice() {
	var branches [2][]string
	var levels [2][][][]byte
	for k := range branches {
		n := Choose("transactions", 1, 5)
		leaves := [][]byte{}
		template := []string{}
		for i := 0; i < n; i++ {
			l := Bytes(fmt.Sprintf("tx%d.%d", k, i), 32)
			leaves, template = append(leaves, l), append(template, hx(rev(l)))
		}
		branches[k] = block.GetMerkleBranches(template)
		levels[k] = merkleLevels(leaves)
	}
	for k := range branches {
		Assert(len(branches[k]) == len(levels[k])-1, "one-branch-per-level")
		for i := range branches[k] {
			EqStr(branches[k][i], hx(levels[k][i][1%len(levels[k][i])]), "branch")
		}
		root := block.BuildMerkleRootFromCoinbase(levels[k][0][0], branches[k])
		EqBytes(root, levels[k][len(levels[k])-1][0], "root")
	}
}

// Two paths combined one after the other.
func C19_pathTwice() {
	for k := 0; k < 2; k++ {
		n := Choose("path", 0, 2)
		pos := Choose("position", 0, 1<<uint(n)-1)
		id, acc := anyHex(fmt.Sprint("id", k), 32)
		acc = rev(acc)
		path := []string{}
		for i := 0; i < n; i++ {
			t, b := anyHex(fmt.Sprintf("branch%d.%d", k, i), 32)
			path = append(path, t)
			if pos>>uint(i)&1 == 1 {
				acc = sha256d(cat(rev(b), acc))
			} else {
				acc = sha256d(cat(acc, rev(b)))
			}
		}
		root, err := block.MerkleRootFromBranches(id, pos, path)
		Assert(err == nil, "combined")
		EqStr(root, hx(rev(acc)), "root")
	}
}

func C20_twice() {
	var c1, c2, want [2][]byte
	for k := range c1 {
		height, value := U32(fmt.Sprint("height", k)), U64(fmt.Sprint("value", k))
		addr, h := wallet(fmt.Sprint("wallet", k))
		text := Str(fmt.Sprint("text", k), 3)
		outs, n := txOut(value, p2pkh(h)), byte(1)
		var com []byte
		if Bool("commitment") {
			com = Bytes(fmt.Sprint("witness", k), 38)
			outs, n = cat(outs, txOut(0, com)), 2
		}
		var err error
		c1[k], c2[k], err = block.GetCoinbaseParts(height, value, hx(com), text, addr, nil)
		Assert(err == nil, "built")
		want[k] = refCoinbase(height, []byte(text), make([]byte, 12), n, outs)
	}
	for k := range c1 {
		EqBytes(block.BuildCoinbase(c1[k], c2[k], "00000000", "0000000000000000"), want[k], "coinbase-transaction")
	}
}

// Two targets; the first one is changed by the caller and asked for again.
func C21_twice() {
	var text [2]string
	var want [2][]byte
	for k := range text {
		b := Bytes(fmt.Sprint("compact", k), 4)
		b[0] = []byte{0x02, 0x03, 0x04, 0x1d, 0x20}[Choose("exponent", 0, 4)]
		Assume(b[1] < 0x80)
		text[k] = hx(b)
		want[k], _ = refTarget(b)
	}
	n, err := block.ExpandTargetFromAsInt(text[0])
	Assert(err == nil, "expanded")
	m, err := block.ExpandTargetFromAsInt(text[1])
	Assert(err == nil, "expanded")
	EqBytes(m.Bytes(), want[1], "second")
	EqBytes(n.Bytes(), want[0], "first-kept")
	n.Add(n, n)
	m.SetInt64(5)
	for k := range text {
		s, err := block.ExpandTargetFrom(text[k])
		Assert(err == nil, "expanded")
		EqStr(s, hx(cat(make([]byte, 32-len(want[k])), want[k])), "digits")
	}
}

// A buffer hashed, changed and hashed again; the digests are kept.
func C23_twice() {
	n := []int{0, 1, 20, 32, 33, 64, 100}[Choose("length", 0, 6)]
	b := Bytes("bytes", n)
	f := []func([]byte) []byte{crypto.Sha256, crypto.Sha256d, crypto.Ripemd160, crypto.Hash160}
	g := []func([]byte) []byte{refSha, sha256d, refRipe, hash160}
	i, j := Choose("function", 0, 3), Choose("then", 0, 3)
	x := f[i](b)
	was := dup(b)
	if n > 0 {
		b[Choose("at", 0, 1)*(n-1)] = U8("change")
	}
	y := f[j](b)
	EqBytes(x, g[i](was), "first")
	EqBytes(y, g[j](b), "second")
	c := Bytes("other", n)
	EqBytes(f[i](c), g[i](c), "third")
	EqBytes(f[i](was), x, "first-again")
}

func C25_twice() {
	a, b := Bytes("a", Choose("first", 0, 5)), Bytes("b", Choose("second", 0, 5))
	x, y := utils.ReverseBytes(a), utils.ReverseBytes(b)
	EqBytes(x, rev(a), "first-reversed")
	EqBytes(y, rev(b), "second-reversed")
	u, v := U32("u"), U32("v")
	l, m := utils.GetLittleEndianBytes(u, 4), utils.GetLittleEndianBytes(v, 4)
	EqBytes(l, le(uint64(u), 4), "first-number")
	EqBytes(m, le(uint64(v), 4), "second-number")
	s, t := Str("s", 4), Str("t", 4)
	EqStr(utils.ReverseHexString(s), s[2:]+s[:2], "first-text")
	EqStr(utils.ReverseHexString(t), t[2:]+t[:2], "second-text")
}

// Two scripts of keys and paths that may agree.
// Extended keys that share the chain code or the key.
var alike = []string{xpub1, xpub2, xpub3, xpub4}

func C27_twice() {
	for k := 0; k < 2; k++ {
		x := alike[Choose("xpub", 0, 3)]
		b := cat([]byte{byte(0x52 + k)}, pushed(electrumKey(x, Bytes(fmt.Sprint("path", k), 4))))
		electrum(cat(b, pushed(electrumKey(xpub1, Bytes(fmt.Sprint("other", k), 4))), []byte{0x52, 0xae}))
	}
}

func C28_twice() {
	first := []string{"1d00ffff", "1b0404cb", "207fffff"}[Choose("first", 0, 2)]
	_, err := block.DifficultyFromBits(first)
	Assert(err == nil, "no-error")
	b := Bytes("compact", 4)
	b[0] = []byte{0x03, 0x1d}[Choose("exponent", 0, 1)]
	Assume(b[1] < 0x80)
	m := uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
	Assume(m > 0)
	d, err := block.DifficultyFromBits(hx(b))
	Assert(err == nil, "no-error")
	t := float64(m)
	for sh := uint(b[0]-3) * 8; sh > 0; sh -= 8 {
		t *= 256
	}
	sameFloat(d, perUnit(1, 0)/perUnit(65535, 208)/t, "quotient")
}

func C28_rateTwice() {
	for k := 0; k < 2; k++ {
		coin := Str(fmt.Sprint("coin", k), Choose("length", 0, 2))
		diff := U64(fmt.Sprint("difficulty", k))
		r := block.DifficultyToHashrate(coin, diff, 600)
		unit := perUnit(65535, 208)
		if len(coin) > 0 && coin[0] == 'R' {
			unit = perUnit(0x7fffff, 232)
		}
		sameFloat(r, float64(diff)*unit/600, "rate")
	}
}

func C29_twice() {
	t, a := anyTx(1, 1, short)
	u, b := anyTx(1, 1, short)
	s, r := short("code"), short("code2")
	x := t.ToBytesWithClearedInputs(0, s)
	y := u.ToBytesWithClearedInputs(0, r)
	EqBytes(x, refWire(cleared(a.wireTx, 0, s)), "first")
	EqBytes(y, refWire(cleared(b.wireTx, 0, r)), "second")
	EqBytes(u.ToBytes(), refWire(b.wireTx), "then-whole")
}

// Scripts applied to two transactions in turns.
func C30_twice() {
	t, a := anyTx(1, 0, short)
	u, b := anyTx(1, 0, short)
	x, y := short("script"), short("other")
	Assert(t.ApplyUnlockingScript(0, sc(x)) == nil, "installed")
	Assert(u.ApplyUnlockingScript(0, sc(y)) == nil, "installed")
	signedOnly(t, a, map[int][]byte{0: x}, "first")
	signedOnly(u, b, map[int][]byte{0: y}, "second")
}

func C31_twice() {
	var ins [2]*input.Input
	var texts [2]string
	var ws [2]wireIn
	for k := range ins {
		ws[k] = wireIn{prev: Bytes(fmt.Sprint("prev", k), 32), index: 7, seq: 9, script: short(fmt.Sprint("script", k))}
		ins[k] = &input.Input{PreviousTxID: hx(rev(ws[k].prev)), PreviousTxOutIndex: 7, SequenceNumber: 9, UnlockingScript: sc(ws[k].script)}
		texts[k] = ins[k].String()
	}
	for k := range ins {
		EqStr(texts[k], refPrintIn(ws[k]), "printed-input")
	}
}
