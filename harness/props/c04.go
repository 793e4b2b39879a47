package props

import (
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"

	. "verif/harness/vsym"
)

// wireIn and wireOut are inputs and outputs as the wire format defines them.
type wireIn struct {
	prev   []byte // in wire order
	index  uint32
	script []byte
	seq    uint32
}

type wireOut struct {
	sats   uint64
	script []byte
}

func u32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func u64(b []byte) uint64 { return uint64(u32(b)) | uint64(u32(b[4:]))<<32 }

// refInput parses an input at the start of b: its size is 0 when there is none.
func refInput(b []byte) (w wireIn, size int) {
	if len(b) < 36 {
		return w, 0
	}
	w.prev, w.index = b[:32], u32(b[32:])
	l, n := refDecVarInt(b[36:])
	if n == 0 {
		return w, 0
	}
	rest := b[36+n:]
	if uint64(len(rest)) < l || uint64(len(rest))-l < 4 {
		return w, 0
	}
	w.script, w.seq = rest[:l], u32(rest[l:])
	return w, 36 + n + int(l) + 4
}

func refOutput(b []byte) (w wireOut, size int) {
	if len(b) < 8 {
		return w, 0
	}
	w.sats = u64(b)
	l, n := refDecVarInt(b[8:])
	if n == 0 {
		return w, 0
	}
	rest := b[8+n:]
	if uint64(len(rest)) < l {
		return w, 0
	}
	w.script = rest[:l]
	return w, 8 + n + int(l)
}

type wireTx struct {
	version  uint32
	ins      []wireIn
	outs     []wireOut
	locktime uint32
}

func refTx(b []byte) (w wireTx, ok bool) {
	if len(b) < 4 {
		return w, false
	}
	w.version = u32(b)
	b = b[4:]
	c, n := refDecVarInt(b)
	if n == 0 {
		return w, false
	}
	b = b[n:]
	for i := uint64(0); i < c; i++ {
		in, n := refInput(b)
		if n == 0 {
			return w, false
		}
		w.ins = append(w.ins, in)
		b = b[n:]
	}
	c, n = refDecVarInt(b)
	if n == 0 {
		return w, false
	}
	b = b[n:]
	for i := uint64(0); i < c; i++ {
		out, n := refOutput(b)
		if n == 0 {
			return w, false
		}
		w.outs = append(w.outs, out)
		b = b[n:]
	}
	if len(b) != 4 {
		return w, false
	}
	w.locktime = u32(b)
	return w, true
}

func sameIn(got *input.Input, want wireIn) {
	EqStr(got.PreviousTxID, hx(rev(want.prev)), "input-previous-id")
	Assert(got.PreviousTxOutIndex == want.index, "input-index")
	Assert(got.UnlockingScript != nil, "input-script-present")
	EqBytes(*got.UnlockingScript, want.script, "input-script")
	Assert(got.SequenceNumber == want.seq, "input-sequence")
	Assert(got.PreviousTxSatoshis == 0 && got.PreviousTxScript == nil, "input-nothing-else")
}

func sameOut(got *output.Output, want wireOut) {
	Assert(got.Satoshis == want.sats, "output-value")
	Assert(got.LockingScript != nil, "output-script-present")
	EqBytes(*got.LockingScript, want.script, "output-script")
}

func sameTx(got *transaction.Transaction, want wireTx) {
	Assert(got.Version == want.version, "version")
	Assert(got.Locktime == want.locktime, "locktime")
	Assert(len(got.Inputs) == len(want.ins), "input-count")
	Assert(len(got.Outputs) == len(want.outs), "output-count")
	for i := range want.ins {
		sameIn(got.Inputs[i], want.ins[i])
	}
	for i := range want.outs {
		sameOut(got.Outputs[i], want.outs[i])
	}
}

func checkTx(b []byte) {
	want, ok := refTx(b)
	got, err := transaction.NewFromBytes(b)
	Assert((err == nil) == ok, "accepted-exactly-when-well-formed")
	if ok {
		Cover("well-formed")
		sameTx(got, want)
	} else {
		Cover("malformed")
	}
}

func checkInput(b []byte) {
	want, n := refInput(b)
	got, size, err := input.NewFromBytes(b)
	Assert((err == nil) == (n > 0), "input-accepted-exactly-when-well-formed")
	if n > 0 {
		Cover("well-formed")
		Assert(size == n, "input-size")
		sameIn(got, want)
	} else {
		Cover("malformed")
	}
}

func checkOutput(b []byte) {
	want, n := refOutput(b)
	got, size, err := output.NewFromBytes(b)
	Assert((err == nil) == (n > 0), "output-accepted-exactly-when-well-formed")
	if n > 0 {
		Cover("well-formed")
		Assert(size == n, "output-size")
		sameOut(got, want)
	} else {
		Cover("malformed")
	}
}

// Every short byte string.
func C04_short() {
	WantCover("well-formed")
	WantCover("malformed")
	max := 12
	if Thorough() {
		max = 32
	}
	checkTx(Bytes("b", Choose("n", 0, max)))
}

func C04_hex() {
	WantCover("well-formed")
	s, b := anyHex("b", 10)
	if Bool("bad") {
		t := []byte(s)
		c := U8("char")
		Assume(hexVal(c) < 0)
		t[Choose("pos", 0, 19)] = c
		_, err := transaction.NewFromString(string(t))
		Assert(err != nil, "bad-hex-refused")
		return
	}
	want, ok := refTx(b)
	if Bool("upper") {
		t := []byte(s)
		i := Choose("pos", 0, 19)
		if t[i] >= 'a' {
			t[i] -= 32
		}
		s = string(t)
	}
	got, err := transaction.NewFromString(s)
	Assert((err == nil) == ok, "hex-accepted-exactly-when-well-formed")
	if ok {
		Cover("well-formed")
		sameTx(got, want)
	}
}

func C04_inputShort() {
	WantCover("well-formed")
	WantCover("malformed")
	max := 48
	if Thorough() {
		max = 64
	}
	checkInput(Bytes("b", Choose("n", 0, max)))
}

func C04_outputShort() {
	WantCover("well-formed")
	WantCover("malformed")
	max := 20
	if Thorough() {
		max = 40
	}
	checkOutput(Bytes("b", Choose("n", 0, max)))
}

// anyVarInt is any encoding of v, minimal or not.
func anyVarInt(name string, v uint64) []byte {
	switch Choose(name+".form", 0, 3) {
	case 0:
		Assume(v < 0xfd)
		return []byte{byte(v)}
	case 1:
		Assume(v <= 0xffff)
		return cat([]byte{0xfd}, le(v, 2))
	case 2:
		Assume(v <= 0xffffffff)
		return cat([]byte{0xfe}, le(v, 4))
	}
	return cat([]byte{0xff}, le(v, 8))
}

// freeVarInt is a VarInt of any form and value.
func freeVarInt(name string) []byte {
	switch Choose(name+".form", 0, 3) {
	case 0:
		return []byte{byte(Range(name+".v0", 0, 0xfc))}
	case 1:
		return cat([]byte{0xfd}, Bytes(name+".v1", 2))
	case 2:
		return cat([]byte{0xfe}, Bytes(name+".v2", 4))
	}
	return cat([]byte{0xff}, Bytes(name+".v3", 8))
}

// Complete inputs and outputs with any length encoding, script length and bytes after them.
func C04_inputLong() {
	s := Blob("script", 0, maxBlob)
	p, q := Bytes("prev", 36), Bytes("seq", 4)
	v := anyVarInt("l", uint64(len(s)))
	b := cat(p, v, s, q)
	n := len(b)
	got, size, err := input.NewFromBytes(cat(b, Blob("tail", 0, 8)))
	Assert(err == nil, "complete-input-accepted")
	Assert(size == n, "input-size")
	sameIn(got, wireIn{p[:32], u32(p[32:]), s, u32(q)})
}

func C04_outputLong() {
	s := Blob("script", 0, maxBlob)
	p := Bytes("sats", 8)
	v := anyVarInt("l", uint64(len(s)))
	b := cat(p, v, s)
	n := len(b)
	got, size, err := output.NewFromBytes(cat(b, Blob("tail", 0, 8)))
	Assert(err == nil, "complete-output-accepted")
	Assert(size == n, "output-size")
	sameOut(got, wireOut{u64(p), s})
}

// Any declared script length against less data than that.
func C04_inputTruncated() {
	v := freeVarInt("l")
	l, _ := refDecVarInt(v)
	d := Blob("rest", 0, maxBlob)
	Assume(uint64(len(d)) < 4 || uint64(len(d))-4 < l)
	_, _, err := input.NewFromBytes(cat(Bytes("prev", 36), v, d))
	Assert(err != nil, "truncated-input-refused")
}

func C04_outputTruncated() {
	v := freeVarInt("l")
	l, _ := refDecVarInt(v)
	d := Blob("rest", 0, maxBlob)
	Assume(uint64(len(d)) < l)
	_, _, err := output.NewFromBytes(cat(Bytes("sats", 8), v, d))
	Assert(err != nil, "truncated-output-refused")
}

// wire builds a transaction with free fields; form says which length (if any) is not minimally encoded.
func wire(ins, outs int, odd int) ([]byte, wireTx) {
	k := 0
	vi := func(v uint64) []byte {
		k++
		if k-1 == odd {
			return anyVarInt("odd", v)
		}
		return refVarInt(v)
	}
	ver, lt := Bytes("version", 4), Bytes("locktime", 4)
	w := wireTx{version: u32(ver), locktime: u32(lt)}
	b := cat(ver, vi(uint64(ins)))
	for i := 0; i < ins; i++ {
		s := Blob("inscript", 0, maxBlob)
		p, q := Bytes("prev", 36), Bytes("seq", 4)
		b = cat(b, p, vi(uint64(len(s))), s, q)
		w.ins = append(w.ins, wireIn{p[:32], u32(p[32:]), s, u32(q)})
	}
	b = cat(b, vi(uint64(outs)))
	for i := 0; i < outs; i++ {
		s := Blob("outscript", 0, maxBlob)
		p := Bytes("sats", 8)
		b = cat(b, p, vi(uint64(len(s))), s)
		w.outs = append(w.outs, wireOut{u64(p), s})
	}
	return cat(b, lt), w
}

func bound() int {
	if Thorough() {
		return 3
	}
	return 2
}

// Well-formed transactions with minimal and other length encodings.
func C04_wellFormed() {
	m := bound()
	ins, outs := Choose("ins", 0, m), Choose("outs", 0, m)
	odd := -1 // none
	if ins+outs <= 2 {
		odd = Choose("odd", 0, ins+outs+1)
	}
	b, w := wire(ins, outs, odd)
	got, err := transaction.NewFromBytes(b)
	Assert(err == nil, "well-formed-accepted")
	sameTx(got, w)
}

// A well-formed transaction followed by anything is not one.
func C04_trailing() {
	b, _ := wire(Choose("ins", 0, 1), Choose("outs", 0, 1), -1)
	_, err := transaction.NewFromBytes(cat(b, Blob("tail", 1, maxBlob)))
	Assert(err != nil, "trailing-bytes-refused")
}

// Cut anywhere: inside a field (whole bytes of it), a script or between them.
func C04_cut() {
	ins, outs := Choose("ins", 0, 1), Choose("outs", 0, 1)
	fields := [][]byte{Bytes("version", 4), {byte(ins)}}
	if ins > 0 {
		s := Blob("inscript", 0, maxBlob)
		fields = append(fields, Bytes("prev", 32), Bytes("index", 4), refVarInt(uint64(len(s))), s, Bytes("seq", 4))
	}
	fields = append(fields, []byte{byte(outs)})
	if outs > 0 {
		s := Blob("outscript", 0, maxBlob)
		fields = append(fields, Bytes("sats", 8), refVarInt(uint64(len(s))), s)
	}
	fields = append(fields, Bytes("locktime", 4))
	k := Choose("field", 0, len(fields)-1)
	f := fields[k]
	b := cat(fields[:k]...)
	if ins > 0 && k == 5 || outs > 0 && k == len(fields)-2 { // a script
		n := Range("part", 0, maxBlob)
		Assume(n < len(f))
		b = cat(b, f[:n])
	} else {
		b = cat(b, f[:Choose("part", 0, len(f)-1)])
	}
	_, err := transaction.NewFromBytes(b)
	Assert(err != nil, "truncated-refused")
}

// Any declared number of inputs or outputs over the bytes of at most one of each.
func C04_inputCount() {
	WantCover("malformed")
	ver := Bytes("version", 4)
	c := freeVarInt("count")
	n, _ := refDecVarInt(c)
	b := cat(ver, c)
	k := Choose("ins", 0, 1)
	for i := 0; i < k; i++ {
		s := Blob("inscript", 0, 40)
		b = cat(b, Bytes("prev", 36), refVarInt(uint64(len(s))), s, Bytes("seq", 4))
	}
	Assume(n > uint64(k))
	checkTx(cat(b, Bytes("rest", 9)))
}

func C04_outputCount() {
	WantCover("malformed")
	ver := Bytes("version", 4)
	c := freeVarInt("count")
	n, _ := refDecVarInt(c)
	b := cat(ver, []byte{0}, c)
	k := Choose("outs", 0, 1)
	for i := 0; i < k; i++ {
		s := Blob("outscript", 0, maxBlob)
		b = cat(b, Bytes("sats", 8), refVarInt(uint64(len(s))), s)
	}
	Assume(n != uint64(k))
	checkTx(cat(b, Bytes("rest", 4)))
}

// Many inputs and outputs, around the boundaries of a byte, of the VarInt forms and beyond.
func C04_many() {
	many := []int{64, 100, 128, 252, 253, 254, 255, 256, 257, 300, 513}
	if Thorough() {
		many = append(many, 1000, 1024, 4096, 10000, 65535, 65536, 65537)
	}
	n := many[Choose("many", 0, len(many)-1)]
	outs := Bool("outputs")
	prev, index, seq, sats := Bytes("prev", 32), Bytes("index", 4), Bytes("seq", 4), Bytes("sats", 8)
	w := wireTx{version: U32("version"), locktime: U32("locktime")}
	b := le(uint64(w.version), 4)
	in := func(k int) {
		i := wireIn{prev: prev, index: uint32(k), script: []byte{byte(k)}, seq: u32(seq)}
		if k == 0 {
			i.index = u32(index)
		}
		w.ins = append(w.ins, i)
		b = append(b, prev...)
		b = append(b, le(uint64(i.index), 4)...)
		b = append(b, 1, byte(k))
		b = append(b, seq...)
	}
	out := func(k int) {
		o := wireOut{sats: uint64(k), script: []byte{byte(k)}}
		if k == 0 {
			o.sats = u64(sats)
		}
		w.outs = append(w.outs, o)
		b = append(b, le(o.sats, 8)...)
		b = append(b, 1, byte(k))
	}
	if outs {
		b = append(b, 1)
		in(0)
		b = append(b, refVarInt(uint64(n))...)
		for k := 0; k < n; k++ {
			out(k)
		}
	} else {
		b = append(b, refVarInt(uint64(n))...)
		for k := 0; k < n; k++ {
			in(k)
		}
		b = append(b, 1)
		out(0)
	}
	b = append(b, le(uint64(w.locktime), 4)...)
	got, err := transaction.NewFromBytes(b)
	Assert(err == nil, "well-formed-accepted")
	sameTx(got, w)
}
