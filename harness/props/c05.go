package props

import (
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	. "verif/harness/vsym"
)

func C05_serialise() {
	ins, outs := counts()
	t, m := anyTx(ins, outs, wireOnly)
	for i := range t.Inputs {
		if i == 0 && Bool("none") {
			noUnlock(t, &m, 0)
		}
	}
	EqBytes(t.ToBytes(), refWire(m.wireTx), "wire-format")
	unchanged(t, m, "unchanged-by-serialising")
}

// Serialise, then parse.
func C05_roundtrip() {
	ins, outs := counts()
	t, m := anyTx(ins, outs, wireOnly)
	back, err := transaction.NewFromBytes(t.ToBytes())
	Assert(err == nil, "own-serialisation-parses")
	sameTx(back, m.wireTx)
}

// Parse, then serialise.
func C05_parsed() {
	n := bound()
	b, _ := wire(Choose("ins", 0, n), Choose("outs", 0, n), -1)
	t, err := transaction.NewFromBytes(b)
	Assert(err == nil, "well-formed-accepted")
	EqBytes(t.ToBytes(), b, "same-bytes")
}

// Inputs and outputs on their own.
func C05_parts() {
	t, m := anyTx(1, 1, wireOnly)
	if Bool("none") {
		noUnlock(t, &m, 0)
	}
	w := m.ins[0]
	EqBytes(t.Inputs[0].ToBytes(false), cat(w.prev, le(uint64(w.index), 4), refVarInt(uint64(len(w.script))), w.script, le(uint64(w.seq), 4)), "input")
	EqBytes(t.Inputs[0].ToBytes(true), cat(w.prev, le(uint64(w.index), 4), []byte{0}, le(uint64(w.seq), 4)), "cleared-input")
	EqBytes(t.Outputs[0].ToBytes(), refOut(m.outs[0]), "output")
	EqBytes(t.Outputs[0].GetBytesForSigHash(), refOut(m.outs[0]), "output-for-signature-hash")
	unchanged(t, m, "unchanged-by-serialising")
}

// The hexadecimal forms.
func C05_hex() {
	t, m := anyTx(Choose("ins", 0, 2), Choose("outs", 0, 2), func(n string) []byte { return Bytes(n, Choose(n, 0, 2)) })
	s := t.ToString()
	EqStr(s, hx(refWire(m.wireTx)), "hex-form")
	back, err := transaction.NewFromString(s)
	Assert(err == nil, "own-hex-parses")
	sameTx(back, m.wireTx)
}

// Numbers of inputs and outputs around the boundaries of the VarInt forms.
func C05_many() {
	many := []int{252, 253, 254}
	if Thorough() {
		many = []int{252, 253, 254, 255, 256, 257, 65535, 65536}
	}
	n := many[Choose("many", 0, len(many)-1)]
	in := wireIn{prev: Bytes("prev", 32), index: U32("index"), seq: U32("seq"), script: Bytes("unlock", 2)}
	out := wireOut{sats: U64("sats"), script: Bytes("lock", 2)}
	m := wireTx{version: U32("version"), locktime: U32("locktime")}
	t := &transaction.Transaction{Version: m.version, Locktime: m.locktime}
	outs := Bool("outputs")
	for i := 0; i < n; i++ {
		if outs {
			s := script.Script(out.script)
			t.Outputs = append(t.Outputs, &output.Output{Satoshis: out.sats, LockingScript: &s})
			m.outs = append(m.outs, out)
		} else {
			s := script.Script(in.script)
			t.Inputs = append(t.Inputs, &input.Input{PreviousTxID: hx(rev(in.prev)), PreviousTxOutIndex: in.index, SequenceNumber: in.seq, UnlockingScript: &s})
			m.ins = append(m.ins, in)
		}
	}
	b := t.ToBytes()
	one := cat(in.prev, le(uint64(in.index), 4), []byte{2}, in.script, le(uint64(in.seq), 4))
	head := cat(le(uint64(m.version), 4), refVarInt(uint64(n)))
	tail := []byte{0}
	if outs {
		head = cat(le(uint64(m.version), 4), []byte{0}, refVarInt(uint64(n)))
		one = refOut(out)
		tail = nil
	}
	EqBytes(b[:len(head)], head, "head")
	Assert(len(b) == len(head)+n*len(one)+len(tail)+4, "size")
	for _, i := range []int{0, 1, n / 2, n - 1} {
		EqBytes(b[len(head)+i*len(one):len(head)+(i+1)*len(one)], one, "element")
	}
	EqBytes(b[len(head)+n*len(one):], cat(tail, le(uint64(m.locktime), 4)), "tail")
	back, err := transaction.NewFromBytes(b)
	Assert(err == nil, "own-serialisation-parses")
	Assert(back.InputCount() == len(m.ins) && back.OutputCount() == len(m.outs), "counts")
}

// The bytes follow the transaction: serialised, changed in one way, serialised again; both when built and when parsed.
func C05_followed() {
	t, m := anyTx(2, 2, short)
	first := t.ToBytes()
	EqBytes(first, refWire(m.wireTx), "wire-format")
	if Bool("parsed") {
		p, err := transaction.NewFromBytes(dup(first))
		Assert(err == nil, "own-serialisation-parses")
		t = p
		EqBytes(t.ToBytes(), first, "same-bytes")
	}
	before := dup(first)
	change(t, &m, "", Choose("change", 0, changes-1))
	EqBytes(first, before, "earlier-bytes-kept")
	EqBytes(t.ToBytes(), refWire(m.wireTx), "wire-format-after-change")
	EqStr(t.ToString(), hx(refWire(m.wireTx)), "hex-form-after-change")
}
