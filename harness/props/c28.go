package props

import (
	"fmt"
	"math"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/utils"

	. "verif/harness/vsym"
)

// sameFloat: the same double, bit for bit (any NaN equals any NaN).
func sameFloat(a, b float64, name string) {
	eq := math.Float64bits(a) == math.Float64bits(b)
	if !eq {
		eq = a != a && b != b
	}
	Assert(eq, name)
}

// Every compact target up to 256 bits.
func C28_difficulty() {
	WantCover("positive")
	b := Bytes("compact", 4)
	b[0] = byte(Choose("exponent", 0, 34))
	m := uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
	sh := 0
	if b[0] <= 3 {
		m >>= 8 * (3 - uint(b[0]))
	} else {
		sh = 8 * (int(b[0]) - 3)
	}
	d, err := block.DifficultyFromBits(hx(b))
	if b[1] >= 0x80 || m == 0 {
		return // not positive: no difficulty is defined
	}
	Cover("positive")
	Assert(err == nil, "no-error")
	// at most 24 bits: the target is exact in double precision
	sameFloat(d, math.Ldexp(65535, 208)/(float64(m)*math.Ldexp(1, sh)), "quotient")
}

// Targets beyond 256 bits: no panic.
func C28_huge() {
	b := Bytes("compact", 4)
	b[0] = byte(Choose("exponent", 35, 255))
	block.DifficultyFromBits(hx(b))
}

// Text that is no compact target.
func C28_malformed() {
	t := Str("text", Choose("length", 0, 10))
	d, ok := unhex(t)
	ok = ok && len(d) == 4
	Assume(!ok)
	_, err := block.DifficultyFromBits(t)
	Assert(err != nil, "refused")
}

// hashes per unit of difficulty
func perUnit(mantissa float64, shift int) float64 {
	return math.Ldexp(1, 256) / math.Ldexp(mantissa, shift)
}

func C28_hashrate() {
	WantCover("regtest")
	WantCover("other")
	coin := Str("coin", Choose("length", 0, 4))
	diff := U64("difficulty")
	secs := math.Float64frombits(U64("seconds"))
	Assume(secs == secs)
	r := block.DifficultyToHashrate(coin, diff, secs)
	unit := perUnit(65535, 208)
	if len(coin) > 0 && coin[0] == 'R' {
		Cover("regtest")
		unit = perUnit(0x7fffff, 232)
	} else {
		Cover("other")
	}
	sameFloat(r, float64(diff)*unit/secs, "rate")
}

func C28_human() {
	WantCover("small")
	WantCover("big")
	v := math.Float64frombits(U64("rate"))
	got := utils.HumanHash(v)
	units := []string{"H/s", "kH/s", "MH/s", "GH/s", "TH/s", "PH/s", "EH/s", "ZH/s"}
	scale := []float64{1, 1e3, 1e6, 1e9, 1e12, 1e15, 1e18, 1e21}
	k := 0
	for i := len(units) - 1; i > 0; i-- {
		if v >= scale[i] {
			k = i
			break
		}
	}
	if k == 0 {
		Cover("small")
		EqStr(got, fmt.Sprintf("%.2f H/s", v), "text")
		return
	}
	Cover("big")
	EqStr(got, fmt.Sprintf("%.2f %s", v/scale[k], units[k]), "text")
}
