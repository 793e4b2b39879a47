package props

import (
	"encoding/binary"
	"fmt"

	. "verif/harness/vsym"
)

// cat joins byte strings into a fresh one.
func cat(bs ...[]byte) []byte {
	r := []byte{}
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// dup is an independent copy.
func dup(b []byte) []byte { return append([]byte{}, b...) }

// le writes the n low bytes of v, least significant first.
func le(v uint64, n int) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b[:n:n]
}

// rev is the byte-reversed copy.
func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

const hexDigits = "0123456789abcdef"

// hx is the lower-case hexadecimal form.
func hx(b []byte) string {
	r := make([]byte, 2*len(b))
	for i, c := range b {
		r[2*i], r[2*i+1] = hexDigits[c>>4], hexDigits[c&15]
	}
	return string(r)
}

// hexValues: the value of every hex digit, or -1 (a table, so that looking up decides nothing).
var hexValues = func() (t [256]int) {
	for i := range t {
		t[i] = -1
	}
	for i := range hexDigits {
		t[hexDigits[i]] = i
		if i >= 10 {
			t[hexDigits[i]-32] = i
		}
	}
	return t
}()

// hexVal is the value of a hex digit, or -1.
func hexVal(c byte) int { return hexValues[c] }

// unhex is the reference hex decoder.
func unhex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	r := []byte{}
	for i := 0; i < len(s); i += 2 {
		a, b := hexVal(s[i]), hexVal(s[i+1])
		if a < 0 || b < 0 {
			return nil, false
		}
		r = append(r, byte(a<<4|b))
	}
	return r, true
}

// anyHex is an arbitrary string that is (valid) hex of k bytes in lower case, and the bytes.
func anyHex(n string, k int) (string, []byte) {
	b := Bytes(n, k)
	return hx(b), b
}

// anyCaseHex: every spelling of k bytes.
func anyCaseHex(n string, k int) (string, []byte) {
	b := Bytes(n, k)
	r := make([]byte, 2*k)
	for i, c := range b {
		r[2*i], r[2*i+1] = hexDigits[c>>4], hexDigits[c&15]
		for j := 2 * i; j < 2*i+2; j++ {
			if r[j] >= 'a' && Bool(fmt.Sprintf("%s.up%d", n, j)) {
				r[j] -= 32
			}
		}
	}
	return string(r), b
}

// pushPrefix is the reference shortest push prefix.
func pushPrefix(n uint64) []byte {
	switch {
	case n <= 75:
		return []byte{byte(n)}
	case n <= 0xff:
		return []byte{0x4c, byte(n)}
	case n <= 0xffff:
		return []byte{0x4d, byte(n), byte(n >> 8)}
	}
	return []byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
}

// push is the reference minimal push of one item.
func push(d []byte) []byte { return cat(pushPrefix(uint64(len(d))), d) }

// elem is one element of a script: an opcode or pushed data.
type elem struct {
	op   byte
	data []byte
	push bool
}

// part is what splitting returns for the element.
func (e elem) part() []byte {
	if e.push {
		return e.data
	}
	return []byte{e.op}
}

// refSplit is the script push grammar; ok is false when a push runs past the end.
func refSplit(b []byte) (es []elem, ok bool) {
	i := 0
	for i < len(b) {
		op := b[i]
		i++
		w := 0 // width of the length field
		switch {
		case op == 0 || op > 0x4e:
			es = append(es, elem{op: op})
			continue
		case op == 0x4c:
			w = 1
		case op == 0x4d:
			w = 2
		case op == 0x4e:
			w = 4
		}
		n := uint64(op)
		if w > 0 {
			if len(b)-i < w {
				return nil, false
			}
			n = 0
			for k := w - 1; k >= 0; k-- {
				n = n<<8 | uint64(b[i+k])
			}
			i += w
		}
		if uint64(len(b)-i) < n {
			return nil, false
		}
		es = append(es, elem{op: op, data: b[i : i+int(n)], push: true})
		i += int(n)
	}
	return es, true
}
