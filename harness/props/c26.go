package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	. "verif/harness/vsym"
)

// wanted is what the calls so far asked for.
type wanted struct {
	ins  []wantedIn
	outs []wantedOut
}

type wantedIn struct {
	id     string
	index  uint32
	sats   uint64
	script []byte
	seq    uint32
	ptr    *input.Input // the caller's own
	unlock []byte
}

type wantedOut struct {
	sats   uint64
	script []byte
	ptr    *output.Output
}

// builtTx: the transaction is what was asked for.
func builtTx(t *transaction.Transaction, w *wanted) {
	Assert(t.Version == 1 && t.Locktime == 0, "version-and-locktime")
	Assert(t.InputCount() == len(w.ins) && len(t.Inputs) == len(w.ins) && len(t.GetInputs()) == len(w.ins), "input-count")
	Assert(t.OutputCount() == len(w.outs) && len(t.Outputs) == len(w.outs) && len(t.GetOutputs()) == len(w.outs), "output-count")
	for i, in := range t.GetInputs() {
		x := w.ins[i]
		Assert(in == t.Inputs[i] && (x.ptr == nil || in == x.ptr), "same-input")
		EqStr(in.PreviousTxID, x.id, "previous-id")
		Assert(in.PreviousTxOutIndex == x.index, "index")
		Assert(in.PreviousTxSatoshis == x.sats, "satoshis-spent")
		Assert(in.SequenceNumber == x.seq, "sequence")
		EqBytes(*in.PreviousTxScript, x.script, "previous-script")
		if x.unlock == nil {
			Assert(in.UnlockingScript == nil || len(*in.UnlockingScript) == 0, "no-unlocking-script")
		} else {
			EqBytes(*in.UnlockingScript, x.unlock, "unlocking-script")
		}
	}
	total := uint64(0)
	for i, o := range t.GetOutputs() {
		x := w.outs[i]
		Assert(o == t.Outputs[i] && (x.ptr == nil || o == x.ptr), "same-output")
		Assert(o.Satoshis == x.sats, "satoshis")
		EqBytes(*o.LockingScript, x.script, "locking-script")
		total += x.sats
	}
	Assert(t.GetTotalOutputSatoshis() == total, "output-total")
}

// steps makes n arbitrary builder calls of the given kinds, checking the transaction after each.
func steps(n, kinds int) {
	t := transaction.New()
	w := &wanted{}
	builtTx(t, w)
	Assert(!t.IsCoinbase(), "empty-is-no-coinbase")
	for i := 0; i < n; i++ {
		p := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
		switch Choose(p("call"), 0, kinds-1) {
		case 0: // an input of the caller's
			x := wantedIn{id: Str(p("id"), 64), index: U32(p("index")), sats: U64(p("spent")), seq: U32(p("seq")), script: Bytes(p("script"), 3), unlock: Bytes(p("unlock"), 2)}
			x.ptr = &input.Input{PreviousTxID: x.id, PreviousTxOutIndex: x.index, PreviousTxSatoshis: x.sats, SequenceNumber: x.seq,
				PreviousTxScript: sc(x.script), UnlockingScript: sc(x.unlock)}
			t.AddInput(x.ptr)
			w.ins = append(w.ins, x)
		case 1: // an unspent output
			hex, b := anyHex(p("script"), Choose(p("length"), 0, 2))
			x := wantedIn{id: Str(p("id"), 64), index: U32(p("index")), sats: U64(p("spent")), seq: 0xffffffff, script: b}
			err := t.From(x.id, x.index, hex, x.sats)
			Assert(err == nil, "accepted")
			w.ins = append(w.ins, x)
		case 2: // an output of the caller's
			x := wantedOut{sats: U64(p("sats")), script: Bytes(p("lock"), 3)}
			x.ptr = &output.Output{Satoshis: x.sats, LockingScript: sc(x.script)}
			t.AddOutput(x.ptr)
			w.outs = append(w.outs, x)
		case 3: // an address
			h := Bytes(p("hash"), 20)
			x := wantedOut{sats: U64(p("sats")), script: p2pkh(h)}
			err := t.PayTo(base58check(cat(addressVersion(Bool(p("mainnet"))), h)), x.sats)
			Assert(err == nil, "accepted")
			w.outs = append(w.outs, x)
		case 4: // a script that is not hexadecimal
			s := Str(p("text"), 2)
			Assume(hexVal(s[0]) < 0 || hexVal(s[1]) < 0)
			Assert(t.From(Str(p("id"), 64), U32(p("index")), s+[]string{"", "00", "0"}[Choose(p("more"), 0, 2)], U64(p("spent"))) != nil, "bad-script-refused")
		case 5: // no address
			Assert(t.PayTo([]string{"", "x", "1111111111111111111114oLvT3", "0", "1BoatSLRHtKNngkdXEeobR76b53LETtpyu"}[Choose(p("which"), 0, 4)], U64(p("sats"))) != nil, "bad-address-refused")
		}
		builtTx(t, w)
	}
}

// The same output or input added again is another one.
func C26_again() {
	t := transaction.New()
	w := &wanted{}
	x := wantedOut{sats: U64("sats"), script: short("lock")}
	x.ptr = &output.Output{Satoshis: x.sats, LockingScript: sc(x.script)}
	y := wantedIn{id: Str("id", 64), index: U32("index"), sats: U64("spent"), seq: U32("seq"), script: short("script"), unlock: short("unlock")}
	y.ptr = &input.Input{PreviousTxID: y.id, PreviousTxOutIndex: y.index, PreviousTxSatoshis: y.sats, SequenceNumber: y.seq,
		PreviousTxScript: sc(y.script), UnlockingScript: sc(y.unlock)}
	h := Bytes("hash", 20)
	for i := 0; i < 4; i++ {
		switch Choose(fmt.Sprint("call", i), 0, 5) {
		case 0:
			t.AddOutput(x.ptr)
			w.outs = append(w.outs, x)
		case 1:
			t.AddInput(y.ptr)
			w.ins = append(w.ins, y)
		case 2: // one like it
			z := x
			z.ptr = &output.Output{Satoshis: x.sats, LockingScript: sc(x.script)}
			t.AddOutput(z.ptr)
			w.outs = append(w.outs, z)
		case 3:
			z := y
			c := *y.ptr
			z.ptr = &c
			t.AddInput(z.ptr)
			w.ins = append(w.ins, z)
		case 4:
			Assert(t.PayTo(base58check(cat([]byte{0}, h)), x.sats) == nil, "accepted")
			w.outs = append(w.outs, wantedOut{sats: x.sats, script: p2pkh(h)})
		case 5:
			Assert(t.From(y.id, y.index, "51", y.sats) == nil, "accepted")
			w.ins = append(w.ins, wantedIn{id: y.id, index: y.index, sats: y.sats, seq: 0xffffffff, script: []byte{0x51}})
		}
		builtTx(t, w)
	}
}

func C26_steps() {
	n := 3
	if Thorough() {
		n = 4
	}
	steps(n, 6)
}

// Longer histories of the calls that succeed.
func C26_more() {
	n := 4
	if Thorough() {
		n = 5
	}
	t := transaction.New()
	w := &wanted{}
	for i := 0; i < n; i++ {
		if Bool(fmt.Sprint("in", i)) {
			x := wantedIn{id: strings.Repeat("ab", 32), index: U32(fmt.Sprint("index", i)), sats: U64(fmt.Sprint("spent", i)), script: []byte{0x51}, seq: 0xffffffff}
			Assert(t.From(x.id, x.index, "51", x.sats) == nil, "accepted")
			w.ins = append(w.ins, x)
		} else {
			x := wantedOut{sats: U64(fmt.Sprint("sats", i)), script: []byte{byte(i)}}
			t.AddOutput(&output.Output{Satoshis: x.sats, LockingScript: sc(x.script)})
			w.outs = append(w.outs, x)
		}
	}
	builtTx(t, w)
}

// Scripts of any length, many inputs and outputs.
func C26_many() {
	n := []int{20, 255, 256, 257, 300, 700}[Choose("n", 0, 5)]
	t := transaction.New()
	w := &wanted{}
	sats := U64("sats")
	for i := 0; i < n; i++ {
		x := wantedIn{id: strings.Repeat("0c", 32), index: uint32(i), sats: sats + uint64(i), script: []byte{byte(i)}, seq: 0xffffffff}
		Assert(t.From(x.id, x.index, hx(x.script), x.sats) == nil, "accepted")
		w.ins = append(w.ins, x)
		o := wantedOut{sats: sats ^ uint64(i), script: []byte{1, byte(i)}}
		t.AddOutput(&output.Output{Satoshis: o.sats, LockingScript: sc(o.script)})
		w.outs = append(w.outs, o)
	}
	builtTx(t, w)
}

// Two transactions that are built at the same time have nothing in common.
func C26_two() {
	a, b := transaction.New(), transaction.New()
	wa, wb := &wanted{}, &wanted{}
	h := Bytes("hash", 20)
	addr := base58check(cat([]byte{0}, h))
	for i := 0; i < 2; i++ {
		t, w := a, wa
		if Bool(fmt.Sprint("second", i)) {
			t, w = b, wb
		}
		v := U64(fmt.Sprint("sats", i))
		Assert(t.PayTo(addr, v) == nil, "accepted")
		w.outs = append(w.outs, wantedOut{sats: v, script: p2pkh(h)})
		Assert(t.From("00", uint32(i), "5152", v) == nil, "accepted")
		w.ins = append(w.ins, wantedIn{id: "00", index: uint32(i), sats: v, script: []byte{0x51, 0x52}, seq: 0xffffffff})
		builtTx(a, wa)
		builtTx(b, wb)
	}
	for _, o := range a.Outputs {
		o.LockingScript.AppendOpCode(0x61)
	}
	for _, i := range a.Inputs {
		i.PreviousTxScript.AppendOpCode(0x61)
	}
	builtTx(b, wb)
}

// The constructors of inputs.
func C26_inputs() {
	hex, b := anyHex("script", Choose("length", 0, 30))
	id, index, sats, seq := Str("id", 64), U32("index"), U64("spent"), U32("seq")
	in, err := input.NewFromUTXO(id, index, sats, hex, seq)
	Assert(err == nil, "accepted")
	EqStr(in.PreviousTxID, id, "previous-id")
	Assert(in.PreviousTxOutIndex == index && in.PreviousTxSatoshis == sats && in.SequenceNumber == seq, "fields")
	EqBytes(*in.PreviousTxScript, b, "previous-script")
	bad := U8("character")
	Assume(hexVal(bad) < 0)
	_, err = input.NewFromUTXO(id, index, sats, hex+"0"+string([]byte{bad}), seq)
	Assert(err != nil, "bad-script-refused")
	_, err = input.NewFromUTXO(id, index, sats, hex+"0", seq)
	Assert(err != nil, "bad-script-refused")
	e := input.New()
	Assert(e.SequenceNumber == 0xffffffff && e.PreviousTxID == "" && e.PreviousTxOutIndex == 0 && e.PreviousTxSatoshis == 0 && e.PreviousTxScript == nil, "empty-input")
	Assert(e.UnlockingScript != nil && len(*e.UnlockingScript) == 0, "empty-unlocking-script")
}

// Coinbase: one input, null previous id, index or sequence all ones.
func C26_coinbase() {
	WantCover("coinbase")
	WantCover("other")
	t := transaction.New()
	n := Choose("ins", 0, 2)
	want := n == 1
	for i := 0; i < n; i++ {
		id := Bytes(fmt.Sprint("id", i), 32)
		if Choose(fmt.Sprint("null", i), 0, 1) == 1 {
			id = make([]byte, 32)
		}
		in := &input.Input{PreviousTxID: hx(id), PreviousTxOutIndex: U32(fmt.Sprint("index", i)), SequenceNumber: U32(fmt.Sprint("seq", i)),
			UnlockingScript: sc(Bytes(fmt.Sprint("unlock", i), 2))}
		t.AddInput(in)
		zero := bytes.Equal(id, make([]byte, 32))
		if !zero || in.PreviousTxOutIndex != 0xffffffff && in.SequenceNumber != 0xffffffff {
			want = false
		}
	}
	for i, n := 0, Choose("outs", 0, 2); i < n; i++ {
		t.AddOutput(&output.Output{Satoshis: U64(fmt.Sprint("sats", i)), LockingScript: sc(nil)})
	}
	got := t.IsCoinbase()
	Assert(got == want, "coinbase")
	if got {
		Cover("coinbase")
	} else {
		Cover("other")
	}
	// the same of the parsed transaction
	back, err := transaction.NewFromBytes(t.ToBytes())
	Assert(err == nil && back.IsCoinbase() == want, "coinbase-when-parsed")
}

// The address type and the address text lead to the same output.
func C26_payTo() {
	h, mainnet := Bytes("hash", 20), Bool("mainnet")
	a, err := address.NewFromPublicKeyHash(h, mainnet)
	Assert(err == nil, "address")
	t := transaction.New()
	v := U64("sats")
	Assert(t.PayTo(a.AddressString, v) == nil, "accepted")
	builtTx(t, &wanted{outs: []wantedOut{{sats: v, script: p2pkh(h)}}})
}
