package props

import (
	"bytes"
	"strconv"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	. "verif/harness/vsym"
)

// spend gives input i a previous script of some kind.
func spend(t *transaction.Transaction, m *model, i int, key *bsvec.PrivateKey, kinds int) {
	own := p2pkh(hash160(key.PubKey().SerializeCompressed()))
	n := strconv.Itoa(i)
	var s []byte
	switch Choose("kind"+n, 0, kinds) {
	case 0: // the key's
		s = own
	case 1: // nothing
		noPrevScript(t, m, i)
		return
	case 2: // arbitrary
		s = Bytes("other"+n, Choose("short"+n, 0, 4))
	case 3: // P2PKH of any hash
		s = p2pkh(Bytes("hash"+n, 20))
	case 4: // anything of about the size of a P2PKH script
		s = Bytes("near"+n, Choose("near-length"+n, 24, 26))
	case 5: // the key's hash in another template
		s = [][]byte{
			cat([]byte{script.OpHASH160, 20}, own[3:23], []byte{script.OpEQUAL}),
			cat(own, []byte{script.OpNOP}),
			cat([]byte{script.OpNOP}, own),
			cat(own[:2], []byte{script.OpPUSHDATA1}, own[2:]),
			own[:24],
			push(own),
			cat(own[:24], []byte{script.OpCHECKSIGVERIFY}),
			cat(own[:23], []byte{script.OpEQUAL, script.OpCHECKSIG}),
			push(key.PubKey().SerializeCompressed()),
			cat(push(key.PubKey().SerializeCompressed()), []byte{script.OpCHECKSIG}),
			p2pkh(key.PubKey().SerializeCompressed()[:20]),
			p2pkh(hash160(key.PubKey().SerializeUncompressed())),
		}[Choose("template"+n, 0, 11)]
	}
	t.Inputs[i].PreviousTxScript = sc(s)
	m.spent[i].script = s
}

// signedAuto: exactly the inputs of the key are signed.
func signedAuto(t *transaction.Transaction, m model, key *bsvec.PrivateKey, flag byte) {
	own := p2pkh(hash160(key.PubKey().SerializeCompressed()))
	done := map[int][]byte{}
	for i := range m.ins {
		if !m.spent[i].none && bytes.Equal(m.spent[i].script, own) {
			Cover("signed")
			done[i] = refUnlock(key, m, i, flag)
		} else {
			Cover("left")
		}
	}
	signedOnly(t, m, done, "after-signing")
}

// One input of every kind.
func C09_one() {
	WantCover("signed")
	WantCover("left")
	t, m := anyTx(1, Choose("outs", 0, 1), short)
	key := PrivKey("key")
	spend(t, &m, 0, key, 5)
	if Bool("unsigned") {
		noUnlock(t, &m, 0)
	}
	flag := U8("flag")
	err := t.SignAuto(&signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)})
	Assert(err == nil, "signed")
	signedAuto(t, m, key, flag)
}

// Several inputs, any of them the key's.
func C09_mixed() {
	n, kinds := Choose("ins", 2, 3), 2
	if Thorough() {
		kinds = 3
	}
	t, m := anyTx(n, 1, short)
	key := PrivKey("key")
	for i := range t.Inputs {
		spend(t, &m, i, key, kinds)
	}
	noUnlock(t, &m, Choose("unsigned", 0, n-1))
	flag := U8("flag")
	err := t.SignAuto(&signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)})
	Assert(err == nil, "signed")
	signedAuto(t, m, key, flag)
}

// Two keys, one after the other.
func C09_keys() {
	t, m := anyTx(2, 1, short)
	first, second := PrivKey("key"), PrivKey("key2")
	h1 := hash160(first.PubKey().SerializeCompressed())
	h2 := hash160(second.PubKey().SerializeCompressed())
	Assume(!bytes.Equal(h1, h2))
	i := Choose("first", 0, 1)
	m.spent[i].script, m.spent[1-i].script = p2pkh(h1), p2pkh(h2)
	for k := range t.Inputs {
		t.Inputs[k].PreviousTxScript = sc(m.spent[k].script)
		noUnlock(t, &m, k)
	}
	f1, f2 := U8("flag"), U8("flag2")
	Assert(t.SignAuto(&signature.InternalSigner{PrivateKey: first, SigHashFlag: sighash.Flag(f1)}) == nil, "signed")
	signedOnly(t, m, map[int][]byte{i: refUnlock(first, m, i, f1)}, "after-first-key")
	Assert(t.SignAuto(&signature.InternalSigner{PrivateKey: second, SigHashFlag: sighash.Flag(f2)}) == nil, "signed")
	signedOnly(t, m, map[int][]byte{i: refUnlock(first, m, i, f1), 1 - i: refUnlock(second, m, 1-i, f2)}, "after-second-key")
}

// An input of the key that cannot be signed: not passed over in silence.
func C09_refused() {
	n := Choose("ins", 1, 2)
	t, m := anyTx(n, 1, short)
	key := PrivKey("key")
	own := p2pkh(hash160(key.PubKey().SerializeCompressed()))
	i := Choose("input", 0, n-1)
	t.Inputs[i].PreviousTxScript = sc(own)
	t.Inputs[i].PreviousTxID = ""
	err := t.SignAuto(&signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(U8("flag"))})
	Assert(err != nil, "error-reported")
	sameScript(t.Inputs[i].UnlockingScript, m.ins[i].script, false, "unlocking-script-kept")
}

// Many inputs, most of them the key's: none is passed over and none too many is signed.
func C09_many() {
	n := []int{4, 9, 16, 17, 33}[Choose("many", 0, 4)]
	t, m := anyTx(n, 1, func(n string) []byte { return []byte{1, 2} })
	key := PrivKey("key")
	own := p2pkh(hash160(key.PubKey().SerializeCompressed()))
	except := Choose("except", 0, 3) * (n - 1) / 3
	for i := range t.Inputs {
		s := own
		if i == except {
			s = cat(own[:24], []byte{U8("last")})
		}
		t.Inputs[i].PreviousTxScript = sc(s)
		m.spent[i].script = s
	}
	flag := []byte{0, 0x41, 0xc3}[Choose("flag", 0, 2)]
	err := t.SignAuto(&signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)})
	Assert(err == nil, "signed")
	signedAuto(t, m, key, flag)
}
