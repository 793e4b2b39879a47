package props

import (
	"errors"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"

	. "verif/harness/vsym"
)

// A script from elsewhere, for any index.
func C30_apply() {
	WantCover("installed")
	WantCover("refused")
	ins, outs := Choose("ins", 0, 3), Choose("outs", 0, 1)
	t, m := anyTx(ins, outs, short)
	if ins > 0 && Bool("unsigned") {
		noUnlock(t, &m, Choose("without", 0, ins-1))
	}
	x := Blob("script", 0, maxBlob)
	s := sc(x)
	objects := append([]*input.Input{}, t.Inputs...)
	var olds []*script.Script
	for _, in := range t.Inputs {
		olds = append(olds, in.UnlockingScript)
	}
	i := U32("index")
	err := t.ApplyUnlockingScript(i, s)
	Assert((err == nil) == (uint64(i) < uint64(ins)), "refused-beyond-the-inputs")
	EqBytes(*s, x, "argument-kept")
	if err != nil {
		Cover("refused")
		unchanged(t, m, "unchanged-when-refused")
		return
	}
	Cover("installed")
	signedOnly(t, m, map[int][]byte{int(i): x}, "after-installing")
	for k := range objects {
		Assert(t.Inputs[k] == objects[k], "same-inputs")
		sameScript(olds[k], m.ins[k].script, m.none[k], "replaced-script-kept")
	}
	m.ins[i].script, m.none[i] = x, false
	EqBytes(t.ToBytes(), refWire(m.wireTx), "wire-format")
}

// Inputs that share one script object, and one script applied to several of them.
func C30_shared() {
	t, m := anyTx(3, 1, short)
	one := sc(m.ins[0].script)
	for i := range t.Inputs {
		t.Inputs[i].UnlockingScript = one
		m.ins[i].script = m.ins[0].script
	}
	x := short("script")
	i, k := Choose("index", 0, 2), Choose("then", 0, 2)
	s := sc(x)
	Assert(t.ApplyUnlockingScript(uint32(i), s) == nil, "installed")
	signedOnly(t, m, map[int][]byte{i: x}, "after-installing")
	Assert(t.ApplyUnlockingScript(uint32(k), s) == nil, "installed")
	signedOnly(t, m, map[int][]byte{i: x, k: x}, "after-installing")
	Assert(t.Sign(0, &signature.InternalSigner{PrivateKey: PrivKey("key")}) == nil, "signed")
	if i != 0 {
		sameScript(t.Inputs[i].UnlockingScript, x, false, "after-signing-another")
	}
	EqBytes(*s, x, "argument-kept")
	EqBytes(*one, m.ins[0].script, "replaced-script-kept")
}

// One input of many.
func C30_many() {
	n := []int{17, 257}[Choose("many", 0, 1)]
	t, m := manyTx(n, 1)
	i := U32("index")
	x := short("script")
	err := t.ApplyUnlockingScript(i, sc(x))
	Assert((err == nil) == (uint64(i) < uint64(n)), "refused-beyond-the-inputs")
	if err != nil {
		unchanged(t, m, "unchanged-when-refused")
		return
	}
	signedOnly(t, m, map[int][]byte{int(i): x}, "after-installing")
}

// An input that is not there.
func C30_absent() {
	ins := Choose("ins", 1, 3)
	t, m := anyTx(ins, 1, short)
	i := Choose("at", 0, ins-1)
	kept := t.Inputs[i]
	t.Inputs[i] = nil
	Assert(t.ApplyUnlockingScript(uint32(i), sc(short("script"))) != nil, "refused")
	Assert(t.Inputs[i] == nil && len(t.Inputs) == ins, "still-absent")
	t.Inputs[i] = kept
	unchanged(t, m, "unchanged-when-refused")
}

// Scripts installed one after the other: the last one at each index stays.
func C30_sequence() {
	ins := 2
	t, m := anyTx(ins, 1, short)
	done := map[int][]byte{}
	for k := 0; k < 3; k++ {
		x := short("script")
		i := Choose("index", 0, ins)
		err := t.ApplyUnlockingScript(uint32(i), sc(x))
		Assert((err == nil) == (i < ins), "refused-beyond-the-inputs")
		if i < ins {
			done[i] = x
		}
		signedOnly(t, m, done, "after-installing")
	}
}

// outside is a signer of the caller's own.
type outside struct {
	how   int // 0 an error, 1 the same transaction, 2 another one, 3 an error and a transaction
	other *transaction.Transaction
	calls int
	index uint32
	got   *transaction.Transaction
	auto  bool
	s     *script.Script
}

var errOutside = errors.New("outside")

func (o *outside) sign(t *transaction.Transaction) (*transaction.Transaction, error) {
	o.calls++
	o.got = t
	switch o.how {
	case 0:
		return nil, errOutside
	case 1:
		t.Inputs[o.index].UnlockingScript = o.s
		return t, nil
	case 2:
		return o.other, nil
	}
	return o.other, errOutside
}

func (o *outside) Sign(i uint32, t *transaction.Transaction) (*transaction.Transaction, error) {
	o.index = i
	return o.sign(t)
}

func (o *outside) SignAuto(t *transaction.Transaction) (*transaction.Transaction, error) {
	o.auto = true
	return o.sign(t)
}

// A signer of the caller's own: asked once, about this transaction and index, and its answer counts.
func C30_signer() {
	t, m := anyTx(2, 1, short)
	x, y := short("script"), short("otherScript")
	u := &transaction.Transaction{Version: U32("otherVersion"), Locktime: U32("otherLocktime"),
		Inputs:  []*input.Input{{PreviousTxID: hx(Bytes("otherPrev", 32)), UnlockingScript: sc(y), SequenceNumber: U32("otherSeq")}},
		Outputs: []*output.Output{}}
	ur := u.ToBytes()
	o := &outside{how: Choose("how", 0, 3), other: u, s: sc(x)}
	i := Choose("index", 0, 1)
	var err error
	auto := Bool("auto")
	if auto {
		o.index = uint32(i)
		err = t.SignAuto(o)
	} else {
		err = t.Sign(uint32(i), o)
	}
	Assert(o.calls == 1 && o.auto == auto && o.index == uint32(i), "asked-once")
	Assert(o.got == t, "about-this-transaction")
	switch o.how {
	case 0, 3:
		Assert(err == errOutside, "error-handed-on")
		unchanged(t, m, "unchanged-when-refused")
	case 1:
		Assert(err == nil, "signed")
		signedOnly(t, m, map[int][]byte{i: x}, "after-signing")
	case 2:
		Assert(err == nil, "signed")
		EqBytes(t.ToBytes(), ur, "the-signers-transaction")
		Assert(len(t.Inputs) == 1 && t.Inputs[0] == u.Inputs[0], "the-signers-inputs")
	}
}

// Hashing and signing for an index that names no input.
func C30_beyond() {
	ins := Choose("ins", 0, 2)
	t, m := anyTx(ins, 1, short)
	i := U32("index")
	Assume(uint64(i) >= uint64(ins))
	flag := sighash.Flag(U8("flag"))
	_, err := t.GetInputSignatureHash(i, flag)
	Assert(err != nil, "hash-refused")
	unchanged(t, m, "unchanged-when-refused")
	Assert(t.Sign(i, &signature.InternalSigner{PrivateKey: PrivKey("key"), SigHashFlag: flag}) != nil, "signing-refused")
	unchanged(t, m, "unchanged-when-refused")
}
