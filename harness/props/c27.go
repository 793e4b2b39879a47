package props

import (
	"github.com/bitcoinsv/bsvutil/base58"

	"github.com/libsv/libsv/script"

	. "verif/harness/vsym"
)

// refElectrum: the threshold and the derived keys of an Electrum redeem script, or not one.
func refElectrum(b []byte) (int, [][]byte, bool) {
	es, ok := refSplit(b)
	n := len(es)
	if !ok || n < 3 || es[0].push || es[n-2].push || es[n-1].push || es[n-1].op != 0xae {
		return 0, nil, false
	}
	if es[0].op < 0x52 || es[0].op > 0x5f || int(es[n-2].op) != 0x50+n-3 || n == 3 || n > 19 {
		return 0, nil, false
	}
	keys := [][]byte{}
	for _, e := range es[1 : n-2] {
		d := e.data
		if !e.push || len(d) != 83 || d[0] != 0xff {
			return 0, nil, false
		}
		k, ok := derivedKey(base58check(d[1:79]), uint32(d[79])|uint32(d[80])<<8, uint32(d[81])|uint32(d[82])<<8)
		if !ok {
			return 0, nil, false
		}
		keys = append(keys, k)
	}
	return int(es[0].op) - 0x50, keys, true
}

func electrum(b []byte) {
	rs, err := script.NewRedeemScriptFromElectrum(hx(b))
	m, keys, ok := refElectrum(b)
	Assert((err == nil) == ok, "accepted-iff-well-formed")
	if !ok {
		Cover("refused")
		return
	}
	Cover("accepted")
	Assert(rs.SignaturesRequired == m, "threshold")
	Assert(len(rs.PublicKeys) == len(keys) && len(rs.Signatures) == 0, "number-of-keys")
	for i, k := range keys {
		EqBytes(rs.PublicKeys[i], k, "derived-key")
	}
	EqBytes(rs.GetRedeemScript(), refRedeem(m, keys), "redeem-script")
}

// Short scripts of any content.
func C27_short() {
	n := 6
	if Thorough() {
		n = 8
	}
	electrum(Bytes("script", Choose("length", 0, n)))
}

// Text that need not be hexadecimal.
func C27_text() {
	n := 5
	if Thorough() {
		n = 7
	}
	s := Str("text", Choose("length", 0, n))
	_, err := script.NewRedeemScriptFromElectrum(s)
	Assert(err != nil, "refused")
	good := hx(cat([]byte{0x52}, pushed(electrumKey(xpub1, []byte{0, 0, 1, 0})), pushed(electrumKey(xpub2, []byte{0, 0, 1, 0})), []byte{0x52, 0xae}))
	_, err = script.NewRedeemScriptFromElectrum(good)
	Assert(err == nil, "accepted")
	i := []int{0, 1, 2, 3, 4, 5, 100, 101, 171, 172, len(good) - 4, len(good) - 3, len(good) - 1}[Choose("at", 0, 12)]
	c := U8("character")
	Assume(hexVal(c) < 0)
	_, err = script.NewRedeemScriptFromElectrum(good[:i] + string([]byte{c}) + good[i+1:])
	Assert(err != nil, "bad-hex-refused")
}

// electrumKey: the key data of an extended key followed by derivation indices.
func electrumKey(x string, path []byte) []byte {
	return cat([]byte{0xff}, base58.Decode(x)[:78], path)
}

// pushed: a push in one of its forms.
func pushed(d []byte) []byte { return push(d) }

func pushedAs(d []byte, form int) []byte {
	n := len(d)
	switch form {
	case 1:
		return cat([]byte{0x4c, byte(n)}, d)
	case 2:
		return cat([]byte{0x4d, byte(n), byte(n >> 8)}, d)
	case 3:
		return cat([]byte{0x4e, byte(n), byte(n >> 8), 0, 0}, d)
	}
	return push(d)
}

// One or two keys at any indices between arbitrary opcodes.
func C27_keys() {
	WantCover("accepted")
	WantCover("refused")
	b := []byte{U8("threshold")}
	Assume(b[0] == 0 || b[0] > 0x4e)
	n := Choose("keys", 0, 2)
	if Thorough() {
		n = Choose("more keys", 0, 3)
	}
	for i := 0; i < n; i++ {
		x := []string{xpub1, xpub2}[Choose("xpub", 0, 1)]
		b = cat(b, pushedAs(electrumKey(x, Bytes("path", 4)), Choose("form", 1, 3)))
	}
	end := Bytes("end", 2)
	Assume(end[0] > 0x4e)
	electrum(cat(b, end))
}

// Three, fifteen, sixteen and seventeen keys.
func C27_manyKeys() {
	n := []int{3, 15, 16, 17}[Choose("keys", 0, 3)]
	b := []byte{0x50 + byte(Choose("threshold", 1, 17))}
	for i := 0; i < n; i++ {
		b = cat(b, push(electrumKey([]string{xpub1, xpub2}[i%2], []byte{0, 0, byte(i), 0})))
	}
	c := U8("count")
	Assume(c > 0x4e)
	electrum(cat(b, []byte{c, 0xae}))
}

// A key of any other length.
func C27_keyLength() {
	n := Choose("length", 0, 90)
	d := cat(electrumKey(xpub1, []byte{0, 0, 1, 0, 0, 0, 0}), make([]byte, 10))[:n]
	if n > 0 {
		d[0] = U8("first")
	}
	if n > 2 {
		d[n-1], d[n-2] = U8("last"), U8("last but one")
	}
	second := []byte{}
	c := 1
	if Bool("two") {
		second = push(electrumKey(xpub2, []byte{0, 0, 1, 0}))
		c = 2
	}
	keys := cat(pushedAs(d, Choose("form", 1, 2)), second)
	if Bool("last") {
		keys = cat(second, push(d))
	}
	electrum(cat([]byte{0x52}, keys, []byte{0x50 + byte(c), 0xae}))
}

// Key data of any content.
func C27_keyContent() {
	electrum(cat([]byte{0x52, 0x4c, 83}, Bytes("key", 83), []byte{0x51, 0xae}))
}

// Any one byte of a well-formed script replaced, removed or repeated, and every truncation.
func C27_changed() {
	b := cat([]byte{0x52}, push(electrumKey(xpub1, []byte{0, 0, 1, 0})), push(electrumKey(xpub2, []byte{1, 0, 0, 1})), []byte{0x52, 0xae})
	i := Choose("at", 0, len(b)-1)
	switch Choose("change", 0, 3) {
	case 0:
		b[i] = U8("byte")
	case 1:
		b = cat(b[:i], b[i+1:])
	case 2:
		b = cat(b[:i], []byte{U8("byte")}, b[i:])
	case 3:
		b = b[:i]
	}
	electrum(b)
}

// Pushed data in the place of opcodes.
func C27_pushes() {
	k := push(electrumKey(xpub1, []byte{0, 0, 1, 0}))
	part := func(op byte) []byte {
		switch Choose("part", 0, 3) {
		case 0:
			return []byte{op}
		case 1:
			return []byte{1, op}
		case 2:
			return []byte{0x4c, 1, op}
		}
		return []byte{0x4c, 0}
	}
	electrum(cat(part(0x52), k, part(0x51), part(0xae)))
}
