package props

import (
	"github.com/libsv/libsv/transaction/signature/sighash"

	. "verif/harness/vsym"
)

// refPreimage is the replay-protected signature preimage of input i under the flag byte.
func refPreimage(m model, i int, flag byte) []byte {
	prevouts, seqs, outs := make([]byte, 32), make([]byte, 32), make([]byte, 32)
	base := flag & 0x1f
	if flag&0x80 == 0 {
		b := []byte{}
		for _, in := range m.ins {
			b = cat(b, in.prev, le(uint64(in.index), 4))
		}
		prevouts = sha256d(b)
	}
	if flag&0x80 == 0 && base != 2 && base != 3 {
		b := []byte{}
		for _, in := range m.ins {
			b = cat(b, le(uint64(in.seq), 4))
		}
		seqs = sha256d(b)
	}
	if base != 2 && base != 3 {
		b := []byte{}
		for _, o := range m.outs {
			b = cat(b, refOut(o))
		}
		outs = sha256d(b)
	} else if base == 3 && i < len(m.outs) {
		outs = sha256d(refOut(m.outs[i]))
	}
	in, p := m.ins[i], m.spent[i]
	return cat(le(uint64(m.version), 4), prevouts, seqs, in.prev, le(uint64(in.index), 4),
		refVarInt(uint64(len(p.script))), p.script, le(p.sats, 8), le(uint64(in.seq), 4), outs,
		le(uint64(m.locktime), 4), []byte{flag, 0, 0, 0})
}

func sigHashOf(m model, i int, flag byte) []byte { return rev(sha256d(refPreimage(m, i, flag))) }

// noScripts gives unlocking scripts a fixed size: they are not part of the preimage.
func scriptsOut(n string) []byte {
	if n[0] == 'u' {
		return short(n)
	}
	return long(n)
}

func C07_hash() {
	ins, outs := Choose("ins", 1, 3), Choose("outs", 0, 3)
	if !Thorough() {
		Assume(ins+outs <= 4)
	}
	t, m := anyTx(ins, outs, scriptsOut)
	i := Choose("input", 0, ins-1)
	flag := U8("flag")
	h, err := t.GetInputSignatureHash(uint32(i), sighash.Flag(flag))
	Assert(err == nil, "hash-computed")
	EqBytes(h, sigHashOf(m, i, flag), "hash")
	unchanged(t, m, "unchanged-by-hashing")
}

// Every input of one transaction, one after the other, under different flags.
func C07_sequence() {
	t, m := anyTx(2, 2, short)
	f, g := U8("flag"), U8("flag2")
	for i := 0; i < 2; i++ {
		h, err := t.GetInputSignatureHash(uint32(i), sighash.Flag(f))
		Assert(err == nil, "hash-computed")
		EqBytes(h, sigHashOf(m, i, f), "hash")
		k, err := t.GetInputSignatureHash(uint32(1-i), sighash.Flag(g))
		Assert(err == nil, "hash-computed")
		EqBytes(k, sigHashOf(m, 1-i, g), "hash")
		EqBytes(h, sigHashOf(m, i, f), "earlier-hash-kept")
	}
}

// A missing previous id or script is an error; of another input it is none for the script.
func C07_missing() {
	ins := Choose("ins", 1, 3)
	t, m := anyTx(ins, 1, short)
	i, j := Choose("input", 0, ins-1), Choose("missing", 0, ins-1)
	flag := U8("flag")
	what := Choose("what", 0, 2)
	if what != 1 {
		noPrevScript(t, &m, j)
	}
	if what != 0 {
		t.Inputs[j].PreviousTxID = ""
	}
	h, err := t.GetInputSignatureHash(uint32(i), sighash.Flag(flag))
	if i == j {
		Assert(err != nil, "missing-refused")
		return
	}
	if what == 0 {
		Assert(err == nil, "other-input-not-needed")
		EqBytes(h, sigHashOf(m, i, flag), "hash")
		unchanged(t, m, "unchanged-by-hashing")
	}
}

// The hash follows the transaction: computed, the transaction changed in one way, computed again.
func C07_followed() {
	t, m := anyTx(2, 2, short)
	i := Choose("input", 0, 1)
	f := U8("flag")
	h, err := t.GetInputSignatureHash(uint32(i), sighash.Flag(f))
	Assert(err == nil, "hash-computed")
	EqBytes(h, sigHashOf(m, i, f), "hash")
	change(t, &m, "", Choose("change", 0, changes-1))
	h, err = t.GetInputSignatureHash(uint32(i), sighash.Flag(f))
	Assert(err == nil, "hash-computed")
	EqBytes(h, sigHashOf(m, i, f), "hash-after-change")
}

// Many inputs and outputs: positions beyond a byte.
func C07_many() {
	n := []int{17, 255, 256, 257, 300}[Choose("many", 0, 4)]
	outs := n + Choose("more", 0, 2) - 1
	t, m := manyTx(n, outs)
	i := []int{0, n / 2, n - 2, n - 1}[Choose("input", 0, 3)]
	flag := U8("flag")
	h, err := t.GetInputSignatureHash(uint32(i), sighash.Flag(flag))
	Assert(err == nil, "hash-computed")
	EqBytes(h, sigHashOf(m, i, flag), "hash")
}
