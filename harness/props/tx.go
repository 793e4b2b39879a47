package props

import (
	"crypto/sha256"
	"strconv"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"golang.org/x/crypto/ripemd160"

	. "verif/harness/vsym"
)

// sha256d is the double hash, independent of the library's helper.
func sha256d(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

// hash160 is the 160-bit hash, independent of the library's helper.
func hash160(b []byte) []byte {
	h := sha256.Sum256(b)
	r := ripemd160.New()
	r.Write(h[:])
	return r.Sum(nil)
}

// model describes a transaction: the wire fields and the metadata of its inputs.
type model struct {
	wireTx
	spent []spent
	none  []bool // no unlocking script
}

type spent struct {
	sats   uint64
	script []byte
	none   bool // no previous script
}

func sc(b []byte) *script.Script { return script.NewFromBytes(dup(b)) }

// anyTx is an arbitrary transaction with the given numbers of inputs and outputs; gen makes the scripts.
func anyTx(ins, outs int, gen func(name string) []byte) (*transaction.Transaction, model) {
	var m model
	m.version, m.locktime = U32("version"), U32("locktime")
	t := &transaction.Transaction{Version: m.version, Locktime: m.locktime}
	for i := 0; i < ins; i++ {
		n := strconv.Itoa(i)
		w := wireIn{prev: Bytes("prev"+n, 32), index: U32("index" + n), seq: U32("seq" + n)}
		p := spent{sats: U64("psats" + n)}
		in := &input.Input{
			PreviousTxID:       hx(rev(w.prev)),
			PreviousTxOutIndex: w.index,
			PreviousTxSatoshis: p.sats,
			SequenceNumber:     w.seq,
		}
		w.script = gen("unlock" + n)
		in.UnlockingScript = sc(w.script)
		p.script = gen("pscript" + n)
		in.PreviousTxScript = sc(p.script)
		m.ins, m.spent, m.none = append(m.ins, w), append(m.spent, p), append(m.none, false)
		t.Inputs = append(t.Inputs, in)
	}
	for i := 0; i < outs; i++ {
		n := strconv.Itoa(i)
		w := wireOut{sats: U64("sats" + n), script: gen("lock" + n)}
		t.Outputs = append(t.Outputs, &output.Output{Satoshis: w.sats, LockingScript: sc(w.script)})
		m.outs = append(m.outs, w)
	}
	return t, m
}

// long scripts have any length and content, short ones a few bytes.
func long(n string) []byte  { return Blob(n, 0, maxBlob) }
func short(n string) []byte { return Bytes(n, 3) }

// wireOnly: previous scripts, which are not serialised, are short.
func wireOnly(n string) []byte {
	if n[0] == 'p' {
		return short(n)
	}
	return long(n)
}

// counts of inputs and outputs: up to two of each, up to three of each in the thorough tier.
func counts() (int, int) {
	n := 2
	if Thorough() {
		n = 3
	}
	ins, outs := Choose("ins", 0, n), Choose("outs", 0, n)
	if !Thorough() {
		Assume(ins+outs <= 3)
	}
	return ins, outs
}

// noUnlock takes the unlocking script of input i away.
func noUnlock(t *transaction.Transaction, m *model, i int) {
	t.Inputs[i].UnlockingScript = nil
	m.none[i] = true
	m.ins[i].script = nil
}

func noPrevScript(t *transaction.Transaction, m *model, i int) {
	t.Inputs[i].PreviousTxScript = nil
	m.spent[i].none = true
	m.spent[i].script = nil
}

// refWire is the wire serialisation.
func refWire(w wireTx) []byte {
	b := cat(le(uint64(w.version), 4), refVarInt(uint64(len(w.ins))))
	for _, in := range w.ins {
		b = cat(b, in.prev, le(uint64(in.index), 4), refVarInt(uint64(len(in.script))), in.script, le(uint64(in.seq), 4))
	}
	b = cat(b, refVarInt(uint64(len(w.outs))))
	for _, out := range w.outs {
		b = cat(b, refOut(out))
	}
	return cat(b, le(uint64(w.locktime), 4))
}

func refOut(out wireOut) []byte {
	return cat(le(out.sats, 8), refVarInt(uint64(len(out.script))), out.script)
}

// sameScript: the script is there and holds these bytes, or is absent.
func sameScript(s *script.Script, want []byte, none bool, label string) {
	Assert((s == nil) == none, label)
	if !none {
		EqBytes(*s, want, label)
	}
}

// unchanged: every field of the transaction is as in the model.
func unchanged(t *transaction.Transaction, m model, label string) {
	Assert(t.Version == m.version && t.Locktime == m.locktime, label)
	Assert(len(t.Inputs) == len(m.ins) && len(t.Outputs) == len(m.outs), label)
	for i, in := range t.Inputs {
		unchangedInput(in, m, i, label)
		sameScript(in.UnlockingScript, m.ins[i].script, m.none[i], label)
	}
	unchangedOutputs(t, m, label)
}

// unchangedInput leaves the unlocking script aside.
func unchangedInput(in *input.Input, m model, i int, label string) {
	EqStr(in.PreviousTxID, hx(rev(m.ins[i].prev)), label)
	Assert(in.PreviousTxOutIndex == m.ins[i].index && in.SequenceNumber == m.ins[i].seq && in.PreviousTxSatoshis == m.spent[i].sats, label)
	sameScript(in.PreviousTxScript, m.spent[i].script, m.spent[i].none, label)
}

func unchangedOutputs(t *transaction.Transaction, m model, label string) {
	for i, o := range t.Outputs {
		Assert(o.Satoshis == m.outs[i].sats, label)
		EqBytes(*o.LockingScript, m.outs[i].script, label)
	}
}

// changes is the number of ways change knows.
const changes = 14

// change alters one thing about a transaction with at least two inputs and two outputs, through its exported fields.
func change(t *transaction.Transaction, m *model, n string, how int) {
	i := Choose("at"+n, 0, 1)
	in, out := t.Inputs[i], t.Outputs[i]
	switch how {
	case 0:
		m.version = U32("newVersion" + n)
		t.Version = m.version
	case 1:
		m.locktime = U32("newLocktime" + n)
		t.Locktime = m.locktime
	case 2:
		m.ins[i].seq = U32("newSeq" + n)
		in.SequenceNumber = m.ins[i].seq
	case 3:
		m.ins[i].index = U32("newIndex" + n)
		in.PreviousTxOutIndex = m.ins[i].index
	case 4:
		m.ins[i].prev = Bytes("newPrev"+n, 32)
		in.PreviousTxID = hx(rev(m.ins[i].prev))
	case 5: // another unlocking script
		m.ins[i].script = Bytes("newUnlock"+n, 3)
		m.none[i] = false
		in.UnlockingScript = sc(m.ins[i].script)
	case 6:
		m.outs[i].sats = U64("newSats" + n)
		out.Satoshis = m.outs[i].sats
	case 7:
		m.outs[i].script = Bytes("newLock"+n, 3)
		out.LockingScript = sc(m.outs[i].script)
	case 8: // a byte of the locking script, in place
		m.outs[i].script = dup(m.outs[i].script)
		m.outs[i].script[1] = U8("newByte" + n)
		(*out.LockingScript)[1] = m.outs[i].script[1]
	case 9:
		m.spent[i].sats = U64("newPsats" + n)
		in.PreviousTxSatoshis = m.spent[i].sats
	case 10:
		m.spent[i].script = Bytes("newPscript"+n, 3)
		in.PreviousTxScript = sc(m.spent[i].script)
	case 11:
		t.Inputs[0], t.Inputs[1] = t.Inputs[1], t.Inputs[0]
		m.ins[0], m.ins[1] = m.ins[1], m.ins[0]
		m.spent[0], m.spent[1] = m.spent[1], m.spent[0]
		m.none[0], m.none[1] = m.none[1], m.none[0]
	case 12:
		t.Outputs[0], t.Outputs[1] = t.Outputs[1], t.Outputs[0]
		m.outs[0], m.outs[1] = m.outs[1], m.outs[0]
	case 13: // another output object in the same place
		w := wireOut{sats: U64("newSats" + n), script: Bytes("newLock"+n, 3)}
		m.outs[i] = w
		t.Outputs[i] = &output.Output{Satoshis: w.sats, LockingScript: sc(w.script)}
	}
}

// manyTx is a transaction of many inputs and outputs, the first ones arbitrary.
func manyTx(ins, outs int) (*transaction.Transaction, model) {
	t, m := anyTx(1, 1, short)
	for len(t.Inputs) < ins {
		w := wireIn{prev: make([]byte, 32), index: uint32(len(t.Inputs)), seq: uint32(7 * len(t.Inputs)), script: []byte{1}}
		w.prev[3] = byte(len(t.Inputs))
		p := spent{sats: uint64(len(t.Inputs)) << 20, script: []byte{byte(len(t.Inputs)), 0x51}}
		t.Inputs = append(t.Inputs, &input.Input{PreviousTxID: hx(rev(w.prev)), PreviousTxOutIndex: w.index, PreviousTxSatoshis: p.sats,
			SequenceNumber: w.seq, PreviousTxScript: sc(p.script), UnlockingScript: sc(w.script)})
		m.ins, m.spent, m.none = append(m.ins, w), append(m.spent, p), append(m.none, false)
	}
	for len(t.Outputs) < outs {
		w := wireOut{sats: uint64(len(t.Outputs)), script: []byte{byte(len(t.Outputs)), 0x52}}
		t.Outputs = append(t.Outputs, &output.Output{Satoshis: w.sats, LockingScript: sc(w.script)})
		m.outs = append(m.outs, w)
	}
	return t, m
}
