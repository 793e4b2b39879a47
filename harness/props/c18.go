package props

import (
	"github.com/libsv/libsv/block"

	. "verif/harness/vsym"
)

func builtHeader(lens []int, spare int) {
	version := U32("version")
	prevHex, prev := anyCaseHex("prev", 1)
	if Bool("standard") {
		prevHex, prev = anyHex("previous", 32)
	}
	fs := make([][]byte, 4)
	keep := make([][]byte, 4)
	for i, n := range []string{"root", "time", "bits", "nonce"} {
		fs[i] = BytesCap(n, lens[i], spare)
		keep[i] = dup(fs[i][:lens[i]+spare])
	}
	got := block.BuildBlockHeader(version, prevHex, fs[0], fs[1], fs[2], fs[3])
	want := cat(le(uint64(version), 4), rev(prev), keep[0][:lens[0]], keep[1][:lens[1]], keep[2][:lens[2]], keep[3][:lens[3]])
	EqBytes(got, want, "header")
	for i := range fs {
		EqBytes(fs[i][:lens[i]+spare], keep[i], "argument-kept")
		Assert(!SameMemory(got, fs[i]), "fresh-result")
	}
}

func C18_standard() { builtHeader([]int{32, 4, 4, 4}, Choose("spare", 0, 1)*80) }

func C18_lengths() {
	l := make([]int, 4)
	for i := range l {
		l[i] = Choose("length", 0, 2)
	}
	builtHeader(l, 0)
}

// Fields of any length.
func C18_long() {
	version := U32("version")
	prevHex, prev := anyHex("previous", 32)
	a, b, c, d := Blob("root", 0, 1<<20), Blob("time", 0, 1<<20), Blob("bits", 0, 1<<20), Blob("nonce", 0, 1<<20)
	got := block.BuildBlockHeader(version, prevHex, a, b, c, d)
	EqBytes(got, cat(le(uint64(version), 4), rev(prev), a, b, c, d), "header")
}
