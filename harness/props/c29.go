package props

import (
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"

	. "verif/harness/vsym"
)

// cleared: the model with every unlocking script empty but that of input i, which is s.
func cleared(m wireTx, i int, s []byte) wireTx {
	c := m
	c.ins = append([]wireIn{}, m.ins...)
	for j := range c.ins {
		c.ins[j].script = nil
		if j == i {
			c.ins[j].script = s
		}
	}
	return c
}

func clearedBytes(gen func(string) []byte, ins, outs int) {
	t, m := anyTx(ins, outs, gen)
	if ins > 0 && Bool("none") {
		noUnlock(t, &m, Choose("without", 0, ins-1))
	}
	s := gen("scriptCode")
	i := Choose("index", 0, ins+1) - 1
	code := dup(s)
	EqBytes(t.ToBytesWithClearedInputs(i, code), refWire(cleared(m.wireTx, i, s)), "cleared-wire-format")
	EqBytes(code, s, "argument-unchanged")
	unchanged(t, m, "unchanged-by-serialising")
	EqBytes(t.ToBytes(), refWire(m.wireTx), "serialised-as-before")
}

func C29_cleared() {
	ins, outs := Choose("ins", 0, 2), Choose("outs", 0, 1)
	clearedBytes(wireOnly, ins, outs)
}

// Empty scripts are not absent ones.
func C29_empty() {
	clearedBytes(func(n string) []byte { return Bytes(n, Choose(n, 0, 1)) }, Choose("ins", 0, 2), Choose("outs", 0, 1))
}

// Without a script nothing is cleared.
func C29_nil() {
	ins, outs := counts()
	t, m := anyTx(ins, outs, wireOnly)
	EqBytes(t.ToBytesWithClearedInputs(Choose("index", 0, ins+1)-1, nil), refWire(m.wireTx), "wire-format")
	unchanged(t, m, "unchanged-by-serialising")
}

// The bytes follow the transaction and do not share memory with the scripts.
func C29_followed() {
	t, m := anyTx(2, 2, short)
	s := short("scriptCode")
	i := Choose("index", 0, 1)
	first := t.ToBytesWithClearedInputs(i, s)
	kept := dup(first)
	change(t, &m, "changed", Choose("change", 0, changes-1))
	i = Choose("then", 0, 1)
	EqBytes(t.ToBytesWithClearedInputs(i, s), refWire(cleared(m.wireTx, i, s)), "follows")
	EqBytes(first, kept, "earlier-result-kept")
	back, err := transaction.NewFromBytes(first)
	Assert(err == nil, "parses")
	Assert(back.InputCount() == 2 && back.OutputCount() == 2, "counts")
}

// Every int as index.
func C29_anyIndex() {
	t, m := anyTx(2, 1, short)
	s := short("scriptCode")
	i := Int("index")
	EqBytes(t.ToBytesWithClearedInputs(i, s), refWire(cleared(m.wireTx, i, s)), "cleared-wire-format")
}

// Many inputs.
func C29_many() {
	n := []int{17, 255, 256, 257, 300}[Choose("inputs", 0, 4)]
	t := transaction.New()
	m := wireTx{version: 1}
	for k := 0; k < n; k++ {
		w := wireIn{prev: make([]byte, 32), index: uint32(k), seq: uint32(3 * k), script: []byte{1, byte(k)}}
		w.prev[5] = byte(k)
		if k == n-1 {
			w.seq = U32("seq")
		}
		t.AddInput(&input.Input{PreviousTxID: hx(rev(w.prev)), PreviousTxOutIndex: w.index, SequenceNumber: w.seq, UnlockingScript: sc(w.script)})
		m.ins = append(m.ins, w)
	}
	s := short("scriptCode")
	i := []int{0, 1, n / 2, n - 2, n - 1, n, -1, 256, 512}[Choose("index", 0, 8)]
	EqBytes(t.ToBytesWithClearedInputs(i, s), refWire(cleared(m, i, s)), "cleared-wire-format")
}
