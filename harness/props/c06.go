package props

import (
	"github.com/libsv/libsv/script"

	. "verif/harness/vsym"
)

func C06_id() {
	ins, outs := counts()
	t, m := anyTx(ins, outs, wireOnly)
	if len(t.Inputs) > 0 && Bool("none") {
		noUnlock(t, &m, 0)
	}
	want := hx(rev(sha256d(refWire(m.wireTx))))
	EqStr(t.GetTxID(), want, "id")
	unchanged(t, m, "unchanged-by-id")
	EqStr(t.GetTxID(), want, "same-id-again")
}

// What the inputs spend is not part of the id.
func C06_metadata() {
	t, m := anyTx(Choose("ins", 1, 2), Choose("outs", 0, 1), long)
	want := hx(rev(sha256d(refWire(m.wireTx))))
	for i, in := range t.Inputs {
		if Bool("noscript") {
			in.PreviousTxScript = nil
		} else {
			in.PreviousTxScript = script.NewFromBytes(Blob("other", 0, maxBlob))
		}
		in.PreviousTxSatoshis = U64("othersats")
		_ = i
	}
	EqStr(t.GetTxID(), want, "id-without-metadata")
}

// The id follows the transaction: asked for, the transaction changed in one way, asked for again.
func C06_followed() {
	t, m := anyTx(2, 2, short)
	EqStr(t.GetTxID(), hx(rev(sha256d(refWire(m.wireTx)))), "id")
	change(t, &m, "", Choose("change", 0, changes-1))
	EqStr(t.GetTxID(), hx(rev(sha256d(refWire(m.wireTx)))), "id-after-change")
}
