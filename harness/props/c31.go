package props

import (
	"fmt"
	"strconv"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	. "verif/harness/vsym"
)

func refPrintIn(w wireIn) string {
	return "prevTxHash:   " + hx(rev(w.prev)) + "\nprevOutIndex: " + fmt.Sprintf("%d", w.index) + "\nscriptLen:    " + strconv.Itoa(len(w.script)) +
		"\nscript:       " + hx(w.script) + "\nsequence:     " + fmt.Sprintf("%x", w.seq) + "\n"
}

func refPrintOut(w wireOut) string {
	return "value:     " + fmt.Sprintf("%d", w.sats) + "\nscriptLen: " + strconv.Itoa(len(w.script)) + "\nscript:    " + hx(w.script) + "\n"
}

func printed(n string, k int) []byte { return Bytes(n, Choose(n+"Length", 0, k)) }

// Every field of an input.
func C31_input() {
	w := wireIn{prev: Bytes("prev", 32), index: 17, seq: 0xfffffffe, script: short("script")}
	switch Choose("field", 0, 2) {
	case 0:
		w.index = U32("index")
	case 1:
		w.seq = U32("sequence")
	case 2:
		w.script = printed("script", 24)
	}
	in := &input.Input{PreviousTxID: hx(rev(w.prev)), PreviousTxOutIndex: w.index, SequenceNumber: w.seq, UnlockingScript: sc(w.script),
		PreviousTxSatoshis: U64("sats"), PreviousTxScript: sc(short("spent"))}
	kept, spent := *in, dup(*in.PreviousTxScript)
	EqStr(in.String(), refPrintIn(w), "printed-input")
	Assert(*in == kept, "unchanged-by-printing")
	EqBytes(*in.UnlockingScript, w.script, "unchanged-by-printing")
	EqBytes(*in.PreviousTxScript, spent, "unchanged-by-printing")
}

// Inputs that have no unlocking script yet.
func C31_unsigned() {
	var in *input.Input
	w := wireIn{prev: Bytes("prev", 32), index: uint32(U8("lowIndex")), seq: 0xffffffff}
	switch Choose("how", 0, 4) {
	case 0:
		w.seq = uint32(U8("lowSeq"))
		i, err := input.NewFromUTXO(hx(rev(w.prev)), w.index, U64("sats"), hx(short("script")), w.seq)
		Assert(err == nil, "built")
		in = i
	case 1:
		t := transaction.New()
		Assert(t.From(hx(rev(w.prev)), w.index, hx(short("script")), U64("sats")) == nil, "built")
		in = t.Inputs[0]
	case 2:
		in = input.New()
		in.PreviousTxID, in.PreviousTxOutIndex = hx(rev(w.prev)), w.index
	case 3:
		in = &input.Input{PreviousTxID: hx(rev(w.prev)), PreviousTxOutIndex: w.index, SequenceNumber: w.seq}
	case 4:
		in = &input.Input{PreviousTxID: hx(rev(w.prev)), PreviousTxOutIndex: w.index, SequenceNumber: w.seq, UnlockingScript: &script.Script{}}
	}
	EqStr(in.String(), refPrintIn(w), "printed-input")
}

// Every field of an output.
func C31_output() {
	w := wireOut{sats: 50, script: short("script")}
	if Bool("amount") {
		w.sats = U64("sats")
	} else {
		w.script = printed("script", 24)
	}
	o := &output.Output{Satoshis: w.sats, LockingScript: sc(w.script)}
	kept := *o
	EqStr(o.String(), refPrintOut(w), "printed-output")
	Assert(*o == kept, "unchanged-by-printing")
	EqBytes(*o.LockingScript, w.script, "unchanged-by-printing")
}

// Long scripts: their length and every byte.
func C31_long() {
	k := []int{75, 76, 99, 100, 252, 253, 1000}[Choose("length", 0, 6)]
	b := make([]byte, k)
	for i := range b {
		b[i] = byte(i)
	}
	b[0], b[k/2], b[k-1] = U8("first"), U8("middle"), U8("last")
	o := &output.Output{Satoshis: 5000000000, LockingScript: sc(b)}
	EqStr(o.String(), refPrintOut(wireOut{5000000000, b}), "printed-output")
	in := &input.Input{PreviousTxID: hx(make([]byte, 32)), PreviousTxOutIndex: 7, UnlockingScript: sc(b), SequenceNumber: 10}
	EqStr(in.String(), refPrintIn(wireIn{make([]byte, 32), 7, b, 10}), "printed-input")
	EqStr(in.UnlockingScript.ToString(), hx(b), "script-hex")
	EqStr(o.GetLockingScriptHexString(), hx(b), "script-hex")
}

// The printed form follows the fields.
func C31_followed() {
	w := wireIn{prev: Bytes("prev", 32), index: 17, seq: 0xfffffffe, script: short("script")}
	in := &input.Input{PreviousTxID: hx(rev(w.prev)), PreviousTxOutIndex: w.index, SequenceNumber: w.seq, UnlockingScript: sc(w.script)}
	v := wireOut{sats: 50, script: short("lock")}
	o := &output.Output{Satoshis: v.sats, LockingScript: sc(v.script)}
	EqStr(in.String(), refPrintIn(w), "printed-input")
	EqStr(o.String(), refPrintOut(v), "printed-output")
	switch Choose("change", 0, 6) {
	case 0:
		w.index = uint32(U8("newIndex"))
		in.PreviousTxOutIndex = w.index
	case 1:
		w.seq = uint32(U8("newSeq"))
		in.SequenceNumber = w.seq
	case 2:
		w.prev = Bytes("newPrev", 32)
		in.PreviousTxID = hx(rev(w.prev))
	case 3:
		w.script = printed("newScript", 4)
		in.UnlockingScript = sc(w.script)
	case 4:
		w.script = dup(w.script)
		w.script[1] = U8("newByte")
		(*in.UnlockingScript)[1] = w.script[1]
	case 5:
		v.sats = uint64(U16("newSats"))
		o.Satoshis = v.sats
	case 6:
		v.script = dup(v.script)
		v.script[1] = U8("newByte")
		(*o.LockingScript)[1] = v.script[1]
	}
	EqStr(in.String(), refPrintIn(w), "printed-input-follows")
	EqStr(o.String(), refPrintOut(v), "printed-output-follows")
}
