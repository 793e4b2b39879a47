package props

import (
	"bytes"
	"fmt"

	"github.com/bitcoinsv/bsvutil/hdkeychain"

	"github.com/libsv/libsv/script"

	. "verif/harness/vsym"
)

// refRedeem is the redeem script of a threshold and keys.
func refRedeem(m int, keys [][]byte) []byte {
	s := [][]byte{}
	for _, k := range keys {
		i := len(s)
		s = append(s, nil)
		for i > 0 && bytes.Compare(s[i-1], k) > 0 {
			s[i] = s[i-1]
			i--
		}
		s[i] = k
	}
	b := []byte{0x50 + byte(m)}
	for _, k := range s {
		b = cat(b, push(k))
	}
	return cat(b, []byte{0x50 + byte(len(s)), 0xae})
}

func goodRedeem(rs *script.RedeemScript, m int, keys [][]byte) {
	want := refRedeem(m, keys)
	EqBytes(rs.GetRedeemScript(), want, "redeem-script")
	h := hash160(want)
	EqBytes(rs.GetRedeemScriptHash(), h, "hash")
	EqStr(rs.GetAddress(), base58check(cat([]byte{5}, h)), "address")
	EqBytes(rs.GetRedeemScript(), want, "redeem-script-again")
}

func C16_threshold() {
	WantCover("refused")
	WantCover("accepted")
	m := Int("threshold")
	rs, err := script.NewRedeemScript(m)
	if m < 2 || m > 16 {
		Cover("refused")
		Assert(err != nil, "refused")
		return
	}
	Cover("accepted")
	Assert(err == nil, "accepted")
	Assert(rs.SignaturesRequired == m, "threshold-kept")
	Assert(len(rs.PublicKeys) == 0 && len(rs.Signatures) == 0, "no-keys")
}

// Arbitrary keys, in the order in which they come.
func C16_keys() {
	m := Range("threshold", 2, 16)
	rs, err := script.NewRedeemScript(m)
	Assert(err == nil, "accepted")
	n := 3
	if Thorough() {
		n = 4
	}
	n = Choose("keys", 0, n)
	keys := [][]byte{}
	for i := 0; i < n; i++ {
		k := Bytes(fmt.Sprintf("key%d", i), 33)
		keys = append(keys, dup(k))
		rs.PublicKeys = append(rs.PublicKeys, k)
	}
	goodRedeem(rs, m, keys)
}

// Keys that differ in a single arbitrary byte, up to 15 of them, in any two places swapped.
func C16_many() {
	rs, err := script.NewRedeemScript(2)
	Assert(err == nil, "accepted")
	n := []int{7, 15, 16}[Choose("keys", 0, 2)]
	keys := [][]byte{}
	for i := 0; i < n; i++ {
		k := bytes.Repeat([]byte{byte(2 + i%2), byte(i * 37), 7}, 11)
		if i == n/2 {
			k[Choose("at", 0, 1)] = U8("byte")
		}
		keys = append(keys, k)
		rs.PublicKeys = append(rs.PublicKeys, dup(k))
	}
	goodRedeem(rs, 2, keys)
}

const (
	xpub1 = "xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8"
	xpub2 = "xpub661MyMwAqRbcFW31YEwpkMuc5THy2PSt5bDMsktWQcFF8syAmRUapSCGu8ED9W6oDMSgv6Zz8idoc4a6mr8BDzTJY47LJhkJ8UB7WEGuduB"
	// The chain code of xpub1 with the key of xpub2, and the other way round.
	xpub3 = "xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ3FbjKQhFD4yphfxsHuQ8QDfkxELcbr88JQiKkrSo6Xg7wJt51o"
	xpub4 = "xpub661MyMwAqRbcFW31YEwpkMuc5THy2PSt5bDMsktWQcFF8syAmRUapSCGu77qrSRwGwac6por14rxMwCJfZ6rhU4Y5scVTA9V9U9ScPZzYUc"
)

// derivedKey: the public key of an extended key at two indices.
func derivedKey(x string, i, j uint32) ([]byte, bool) {
	k, err := hdkeychain.NewKeyFromString(x)
	if err != nil {
		return nil, false
	}
	if k, err = k.Child(i); err != nil {
		return nil, false
	}
	if k, err = k.Child(j); err != nil {
		return nil, false
	}
	p, err := k.ECPubKey()
	if err != nil {
		return nil, false
	}
	return p.SerializeCompressed(), true
}

// Keys added by extended key and path.
func C16_derived() {
	WantCover("added")
	WantCover("refused")
	rs, err := script.NewRedeemScript(2)
	Assert(err == nil, "accepted")
	keys := [][]byte{}
	for i := Choose("keys", 1, 2); i > 0; i-- {
		x := []string{xpub1, xpub2, "xpub"}[Choose("xpub", 0, 2)]
		path := make([]uint32, Choose("length", 0, 3))
		for j := range path {
			path[j] = U32("index")
		}
		err := rs.AddPublicKey(x, path)
		k, ok := []byte(nil), false
		if len(path) == 2 {
			k, ok = derivedKey(x, path[0], path[1])
		}
		Assert((err == nil) == ok, "added-iff-derivable")
		if ok {
			Cover("added")
			keys = append(keys, k)
		} else {
			Cover("refused")
		}
	}
	Assert(len(rs.PublicKeys) == len(keys), "number-of-keys")
	goodRedeem(rs, 2, keys)
}

// The script follows the exported fields: asked for, changed in one way, asked for again.
func C16_followed() {
	rs, err := script.NewRedeemScript(2)
	Assert(err == nil, "accepted")
	rs.PublicKeys = [][]byte{Bytes("key0", 33), Bytes("key1", 33)}
	goodRedeem(rs, 2, [][]byte{dup(rs.PublicKeys[0]), dup(rs.PublicKeys[1])})
	m := 2
	switch Choose("change", 0, 4) {
	case 0:
		rs.PublicKeys = append(rs.PublicKeys, Bytes("key2", 33))
	case 1:
		rs.PublicKeys[Choose("at", 0, 1)] = Bytes("key2", 33)
	case 2:
		rs.PublicKeys[0], rs.PublicKeys[1] = rs.PublicKeys[1], rs.PublicKeys[0]
	case 3:
		rs.PublicKeys[Choose("at", 0, 1)][1] = U8("byte")
	case 4:
		m = Range("threshold", 2, 16)
		rs.SignaturesRequired = m
	}
	keys := [][]byte{}
	for _, k := range rs.PublicKeys {
		keys = append(keys, dup(k))
	}
	goodRedeem(rs, m, keys)
}
