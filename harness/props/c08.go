package props

import (
	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	. "verif/harness/vsym"
)

// refUnlock is the P2PKH unlocking script of key for input i; flag 0 stands for ALL|FORKID.
func refUnlock(key *bsvec.PrivateKey, m model, i int, flag byte) []byte {
	if flag == 0 {
		flag = 0x41
	}
	sig, err := key.Sign(sha256d(refPreimage(m, i, flag)))
	Assert(err == nil, "reference-signature")
	return cat(push(cat(sig.Serialize(), []byte{flag})), push(key.PubKey().SerializeCompressed()))
}

// scripts of one symbolic length for the spent output, short ones elsewhere.
func signScripts(n string) []byte {
	if n[0] == 'p' {
		return long(n)
	}
	return short(n)
}

// signedOnly: input i has got this unlocking script and nothing else has changed.
func signedOnly(t *transaction.Transaction, m model, done map[int][]byte, label string) {
	Assert(t.Version == m.version && t.Locktime == m.locktime, label)
	Assert(len(t.Inputs) == len(m.ins) && len(t.Outputs) == len(m.outs), label)
	for k, in := range t.Inputs {
		unchangedInput(in, m, k, label)
		if s, ok := done[k]; ok {
			sameScript(in.UnlockingScript, s, false, label+"-unlocking")
		} else {
			sameScript(in.UnlockingScript, m.ins[k].script, m.none[k], label+"-others")
		}
	}
	unchangedOutputs(t, m, label)
}

func C08_sign() {
	n := 2
	if Thorough() {
		n = 3
	}
	ins, outs := Choose("ins", 1, n), Choose("outs", 0, 2)
	t, m := anyTx(ins, outs, signScripts)
	if Bool("unsigned") {
		for k := range t.Inputs {
			noUnlock(t, &m, k)
		}
	}
	i := Choose("input", 0, ins-1)
	flag := U8("flag")
	key := PrivKey("key")
	err := t.Sign(uint32(i), &signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)})
	Assert(err == nil, "signed")
	signedOnly(t, m, map[int][]byte{i: refUnlock(key, m, i, flag)}, "after-signing")
}

// One input of many.
func C08_many() {
	n := []int{17, 255, 256, 257, 300}[Choose("many", 0, 4)]
	t, m := manyTx(n, 1+Choose("outs", 0, 1)*(n-1))
	i := []int{0, n / 2, n - 2, n - 1}[Choose("input", 0, 3)]
	flag := U8("flag")
	key := PrivKey("key")
	Assert(t.Sign(uint32(i), &signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)}) == nil, "signed")
	signedOnly(t, m, map[int][]byte{i: refUnlock(key, m, i, flag)}, "after-signing")
}

// Signing every input in turn, with one key each.
func C08_each() {
	t, m := anyTx(2, 1, short)
	done := map[int][]byte{}
	first := Choose("first", 0, 1)
	for k := 0; k < 2; k++ {
		i := first
		if k == 1 {
			i = 1 - first
		}
		flag := U8("flag")
		key := PrivKey("key")
		Assert(t.Sign(uint32(i), &signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)}) == nil, "signed")
		done[i] = refUnlock(key, m, i, flag)
		signedOnly(t, m, done, "after-signing")
	}
}

// One signer used for two transactions.
func C08_signer() {
	s := &signature.InternalSigner{PrivateKey: PrivKey("key"), SigHashFlag: sighash.Flag(U8("flag"))}
	flag := byte(s.SigHashFlag)
	key := s.PrivateKey
	for k := 0; k < 2; k++ {
		t, m := anyTx(1, 1, short)
		Assert(t.Sign(0, s) == nil, "signed")
		signedOnly(t, m, map[int][]byte{0: refUnlock(key, m, 0, flag)}, "after-signing")
		Assert(s.PrivateKey == key, "same-key")
	}
}

// The hash cannot be computed: an error, and everything stays as it was.
func C08_refused() {
	ins := Choose("ins", 1, 3)
	t, m := anyTx(ins, 1, short)
	i := Choose("input", 0, ins-1)
	what := Choose("what", 0, 1)
	if what == 0 {
		noPrevScript(t, &m, i)
	} else {
		t.Inputs[i].PreviousTxID = ""
	}
	if Bool("unsigned") {
		noUnlock(t, &m, i)
	}
	err := t.Sign(uint32(i), &signature.InternalSigner{PrivateKey: PrivKey("key"), SigHashFlag: sighash.Flag(U8("flag"))})
	Assert(err != nil, "refused")
	Assert(len(t.Inputs) == ins && len(t.Outputs) == 1, "counts")
	for k, in := range t.Inputs {
		sameScript(in.UnlockingScript, m.ins[k].script, m.none[k], "unlocking-scripts-kept")
	}
	if what == 0 {
		unchanged(t, m, "unchanged-when-refused")
	}
}

// The unlocking script itself, for keys and signatures of every length.
func C08_script() {
	pub, sig := Blob("pub", 1, maxBlob), Blob("sig", 1, maxBlob)
	flag := U8("flag")
	p, g := dup(pub), dup(sig)
	s, err := script.NewP2PKHUnlockingScript(p, g, sighash.Flag(flag))
	Assert(err == nil, "built")
	EqBytes(*s, cat(push(cat(sig, []byte{flag})), push(pub)), "signature-and-key")
	EqBytes(p, pub, "key-kept")
	EqBytes(g, sig, "signature-kept")
}
