package props

import (
	"github.com/libsv/libsv/script"

	. "verif/harness/vsym"
)

func refP2PKH(b []byte) bool {
	return len(b) == 25 && b[0] == 0x76 && b[1] == 0xa9 && b[2] == 0x14 && b[23] == 0x88 && b[24] == 0xac
}

func refP2SH(b []byte) bool {
	return len(b) == 23 && b[0] == 0xa9 && b[1] == 0x14 && b[22] == 0x87
}

func refData(b []byte) bool {
	return len(b) > 0 && b[0] == 0x6a || len(b) > 1 && b[0] == 0 && b[1] == 0x6a
}

func refP2PK(b []byte) bool {
	es, ok := refSplit(b)
	if !ok || len(es) != 2 || !es[0].push || es[1].push || es[1].op != 0xac {
		return false
	}
	k := es[0].data
	if len(k) == 33 {
		return k[0] == 2 || k[0] == 3
	}
	return len(k) == 65 && (k[0] == 4 || k[0] == 6 || k[0] == 7)
}

func smallInt(e elem) bool {
	return !e.push && (e.op == 0 || e.op >= 0x51 && e.op <= 0x60)
}

func refMultisig(b []byte) bool {
	es, ok := refSplit(b)
	n := len(es)
	if !ok || n < 3 {
		return false
	}
	for _, e := range es[1 : n-2] {
		if !e.push || len(e.data) == 0 {
			return false
		}
	}
	return smallInt(es[0]) && smallInt(es[n-2]) && !es[n-1].push && es[n-1].op == 0xae
}

func classify(b []byte) {
	s := script.NewFromBytes(dup(b))
	Assert(s.IsP2PKH() == refP2PKH(b), "IsP2PKH")
	Assert(s.IsP2SH() == refP2SH(b), "IsP2SH")
	Assert(s.IsData() == refData(b), "IsData")
	Assert(s.IsP2PK() == refP2PK(b), "IsP2PK")
	Assert(s.IsMultisigOut() == refMultisig(b), "IsMultisigOut")
	EqBytes(*s, b, "script-unchanged")
}

// Every short script.
func C10_short() {
	max := 6
	if Thorough() {
		max = 8
	}
	classify(Bytes("b", Choose("n", 0, max)))
}

// The lengths of the fixed-length templates, every content.
func C10_hashTemplates() {
	WantCover("p2pkh")
	WantCover("p2sh")
	b := Bytes("b", Choose("n", 22, 26))
	s := script.NewFromBytes(dup(b))
	a, c := s.IsP2PKH(), s.IsP2SH()
	Assert(a == refP2PKH(b), "IsP2PKH")
	Assert(c == refP2SH(b), "IsP2SH")
	Assert(s.IsData() == refData(b), "IsData")
	if a {
		Cover("p2pkh")
		Assert(!s.IsP2PK() && !s.IsMultisigOut(), "exclusive")
	}
	if c {
		Cover("p2sh")
		Assert(!s.IsP2PK() && !s.IsMultisigOut(), "exclusive")
	}
}

// One push of every length (minimal or not) followed by every tail of up to two bytes.
func C10_pubkey() {
	WantCover("yes")
	n := []int{0, 1, 32, 33, 34, 64, 65, 66}[Choose("n", 0, 7)]
	k := Bytes("k", n)
	var h []byte
	if n > 0 && Choose("form", 0, 2) > 0 {
		h = anyHeader("h", n)
	} else {
		h = pushPrefix(uint64(n))
	}
	b := cat(h, k, Bytes("tail", Choose("t", 0, 2)))
	s := script.NewFromBytes(dup(b))
	got := s.IsP2PK()
	Assert(got == refP2PK(b), "IsP2PK")
	if got {
		Cover("yes")
	}
	Assert(!s.IsP2PKH() || len(b) == 25, "IsP2PKH")
	Assert(s.IsMultisigOut() == refMultisig(b), "IsMultisigOut")
}

// OP_m, pushes of keys, OP_n, OP_CHECKMULTISIG, with every element free.
func C10_multisig() {
	WantCover("yes")
	n := 2
	if Thorough() {
		n = 4
	}
	b := []byte{U8("m")} // an opcode; pushes in this place are covered by the short scripts
	Assume(b[0] == 0 || b[0] > 0x4e)
	for i := Choose("keys", 0, n); i > 0; i-- {
		switch Choose("kind", 0, 3) {
		case 0:
			b = cat(b, push(Bytes("key", 33)))
		case 1:
			b = cat(b, []byte{0x4c, 1}, Bytes("one", 1))
		case 2:
			b = cat(b, []byte{0x4c, 0})
		case 3:
			b = cat(b, []byte{byte(Range("op", 0x4f, 0xff))})
		}
	}
	b = cat(b, Bytes("tail", Choose("t", 1, 3)))
	got := script.NewFromBytes(dup(b)).IsMultisigOut()
	Assert(got == refMultisig(b), "IsMultisigOut")
	if got {
		Cover("yes")
	}
}

// Multisig scripts of many keys, with arbitrary opcodes around them and an arbitrary opcode or length in one place.
func C10_manyKeys() {
	WantCover("yes")
	n := []int{1, 2, 3, 5, 15, 16, 17, 20, 21, 100}[Choose("keys", 0, 9)]
	m, k := byte(Range("m", 0x4f, 0xff)), byte(Range("n", 0x4f, 0xff))
	if Bool("zero") {
		m = 0
	}
	if Bool("zero keys") {
		k = 0
	}
	b := []byte{m}
	at := Choose("at", 0, 2) * (n - 1) / 2
	for i := 0; i < n; i++ {
		key := make([]byte, []int{33, 65, 1, 79}[(i/7)%4])
		for j := range key {
			key[j] = byte(i + j)
		}
		p := push(key)
		if i == at {
			switch Choose("odd", 0, 3) {
			case 1:
				p = []byte{byte(Range("op", 0x4f, 0xff))}
			case 2:
				p = []byte{0}
			case 3:
				p = cat([]byte{0x4d, byte(len(key)), 0}, key)
			}
		}
		b = cat(b, p)
	}
	b = cat(b, []byte{k, byte(Range("last", 0x4f, 0xff))})
	got := script.NewFromBytes(dup(b)).IsMultisigOut()
	Assert(got == refMultisig(b), "IsMultisigOut")
	if got {
		Cover("yes")
	}
}
