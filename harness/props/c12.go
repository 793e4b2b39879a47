package props

import (
	"strings"

	"github.com/libsv/libsv/script"

	. "verif/harness/vsym"
)

// anyElem is one element of a canonical script: a single-byte opcode or a minimally pushed item.
func anyElem(small bool) []byte {
	switch Choose("kind", 0, 2) {
	case 0:
		return []byte{0}
	case 1:
		return []byte{byte(Range("op", 0x4f, 0xff))}
	}
	sizes := []int{1, 2, 3, 20, 33, 75, 76, 80, 255, 256, 257}
	n := 2
	if !small {
		n = len(sizes) - 1
	}
	return push(Bytes("data", sizes[Choose("size", 0, n)]))
}

func asmTrip(b []byte) {
	s := script.NewFromBytes(dup(b))
	asm, err := s.ToASM()
	Assert(err == nil, "has-ASM-form")
	EqBytes(*s, b, "script-unchanged")
	back, err := script.NewFromASM(asm)
	Assert(err == nil, "ASM-parses")
	EqBytes(*back, b, "same-bytes")
}

func C12_one() { asmTrip(anyElem(false)) }

func C12_empty() { asmTrip(nil) }

// someElem is a canonical element out of a smaller choice.
func someElem() []byte {
	ops := []byte{0, 0x4f, 0x51, 0x60, 0x6a, 0x76, 0xac, 0xff}
	k := Choose("some", 0, len(ops)+1)
	if k < len(ops) {
		return []byte{ops[k]}
	}
	return push(Bytes("data", k-len(ops)+1))
}

// Sequences: an arbitrary element in an arbitrary place among others.
func C12_sequence() {
	n := 2
	if Thorough() {
		n = 3
	}
	at := Choose("at", 0, n-1)
	b := []byte{}
	for i := 0; i < n; i++ {
		if i == at {
			b = cat(b, anyElem(true))
		} else {
			b = cat(b, someElem())
		}
	}
	asmTrip(b)
}

// Every opcode has one word, which stands for it alone.
func C12_opcodeName() {
	op := byte(Choose("op", 0, 255))
	if op >= 1 && op <= 0x4e {
		op = 0
	}
	s := script.NewFromBytes([]byte{op})
	name, err := s.ToASM()
	Assert(err == nil, "has-ASM-form")
	Assert(len(name) > 3 && strings.HasPrefix(name, "OP_") && !strings.Contains(name, " "), "one-word")
	again, err := s.ToASM()
	Assert(err == nil && again == name, "same-word-every-time")
	back, err := script.NewFromASM(name)
	Assert(err == nil, "name-parses")
	EqBytes(*back, []byte{op}, "same-opcode")
}

// Scripts of raw bytes that have an ASM form: canonical ones come back, and truncated ones are refused.
func C12_short() {
	max := 3
	if Thorough() {
		max = 6
	}
	b := Bytes("b", Choose("n", 0, max))
	es, ok := refSplit(b)
	for i, e := range es {
		// further opcodes out of a few
		Assume(i == 0 || e.push || e.op == 0x00 || e.op == 0x51 || e.op == 0xac)
	}
	asm, err := script.NewFromBytes(dup(b)).ToASM()
	Assert((err == nil) == ok, "truncated-exactly-refused")
	if !ok {
		Cover("truncated")
		return
	}
	canon := []byte{}
	for _, e := range es {
		if !e.push {
			canon = append(canon, e.op)
		} else {
			Assume(len(e.data) > 0)
			canon = append(canon, push(e.data)...)
		}
	}
	back, err := script.NewFromASM(asm)
	Assert(err == nil, "ASM-parses")
	EqBytes(*back, canon, "same-elements")
}

// A malformed word anywhere gives an error.
func C12_badWord() {
	w := Str("word", Choose("n", 1, 4))
	for i := 0; i < len(w); i++ {
		Assume(w[i] != ' ')
	}
	_, isHex := unhex(w)
	Assume(!isHex)
	Assume(!strings.HasPrefix(w, "OP_"))
	t := w
	switch Choose("where", 0, 2) {
	case 1:
		t = "OP_DUP " + w
	case 2:
		t = w + " OP_DUP"
	}
	_, err := script.NewFromASM(t)
	Assert(err != nil, "malformed-word-refused")
}

// Names of no opcode: opcode names consist of capitals, digits and underscores.
func C12_unknownName() {
	w := "OP_" + Str("word", Choose("n", 0, 3))
	for i := 3; i < len(w); i++ {
		Assume(w[i] != ' ' && w[i] != '_' && (w[i] < '0' || w[i] > '9'))
		Assume(w[i] < 'A' || w[i] > 'Z')
	}
	_, err := script.NewFromASM(w)
	Assert(err != nil, "unknown-opcode-name-refused")
}
