package props

import (
	"fmt"

	"github.com/libsv/libsv/block"

	. "verif/harness/vsym"
)

// merkleLevels is the merkle tree of the leaves (in internal byte order), from the leaves to the root.
func merkleLevels(leaves [][]byte) [][][]byte {
	r := [][][]byte{leaves}
	for len(leaves) > 1 {
		up := [][]byte{}
		for i := 0; i < len(leaves); i += 2 {
			j := i + 1
			if j == len(leaves) {
				j = i
			}
			up = append(up, sha256d(cat(leaves[i], leaves[j])))
		}
		r = append(r, up)
		leaves = up
	}
	return r
}

func anyLeaves() [][]byte {
	n := 9
	if Thorough() {
		n = 17
	}
	l := make([][]byte, Choose("transactions", 1, n))
	for i := range l {
		l[i] = Bytes(fmt.Sprintf("tx%d", i), 32)
	}
	return l
}

// The coinbase comes first; what the template says in its place does not matter.
func C19_coinbase() {
	leaves := anyLeaves()
	template := make([]string, len(leaves))
	for i, l := range leaves {
		template[i] = hx(rev(l))
	}
	if Bool("placeholder") {
		template[0] = hx(Bytes("other", 32))
	}
	kept := append([]string{}, template...)
	branches := block.GetMerkleBranches(template)
	for i := range kept {
		EqStr(template[i], kept[i], "template-kept")
	}
	levels := merkleLevels(leaves)
	Assert(len(branches) == len(levels)-1, "one-branch-per-level")
	for i := range branches {
		EqStr(branches[i], hx(levels[i][1%len(levels[i])]), "branch")
	}
	cb := BytesCap("coinbase", 32, 40*Choose("spare", 0, 1))
	whole := cb[:cap(cb)]
	was := dup(whole)
	leaves[0] = dup(cb)
	levels = merkleLevels(leaves)
	got := block.BuildMerkleRootFromCoinbase(cb, branches)
	EqBytes(got, levels[len(levels)-1][0], "root")
	EqBytes(whole, was, "coinbase-hash-kept")
	Assert(!SameMemory(got, cb), "fresh-root")
}

// Every transaction with its path gives the root.
func C19_path() {
	leaves := anyLeaves()
	levels := merkleLevels(leaves)
	pos := Choose("position", 0, len(leaves)-1)
	path := []string{}
	p := pos
	for _, l := range levels[:len(levels)-1] {
		s := p ^ 1
		if s == len(l) {
			s = p
		}
		path = append(path, hx(rev(l[s])))
		p /= 2
	}
	kept := append([]string{}, path...)
	root, err := block.MerkleRootFromBranches(hx(rev(leaves[pos])), pos, path)
	Assert(err == nil, "combined")
	EqStr(root, hx(rev(levels[len(levels)-1][0])), "root")
	for i := range kept {
		EqStr(path[i], kept[i], "path-kept")
	}
}

// Every position: accepted exactly when the path can lead to it.
func C19_position() {
	WantCover("accepted")
	WantCover("refused")
	n := 4
	if Thorough() {
		n = 6
	}
	n = Choose("path", 0, n)
	pos := Int("position")
	id, acc := anyHex("id", 32)
	acc = rev(acc)
	path := []string{}
	for i := 0; i < n; i++ {
		t, b := anyHex(fmt.Sprintf("branch%d", i), 32)
		b = rev(b)
		path = append(path, t)
		if pos>>uint(i)&1 == 1 {
			acc = sha256d(cat(b, acc))
		} else {
			acc = sha256d(cat(acc, b))
		}
	}
	root, err := block.MerkleRootFromBranches(id, pos, path)
	if pos < 0 || pos >= 1<<uint(n) {
		Cover("refused")
		Assert(err != nil, "position-refused")
		return
	}
	Cover("accepted")
	Assert(err == nil, "position-accepted")
	EqStr(root, hx(rev(acc)), "root")
}

// badHex is a text that denotes no 32 bytes.
func badHex(n string) string {
	t, _ := anyHex(n, 32)
	switch Choose(n+" how", 0, 2) {
	case 0:
		return t[:63]
	case 1:
		return t + Str(n+" more", 1)
	}
	b := []byte(t)
	c := U8(n + " character")
	Assume(hexVal(c) < 0)
	b[Choose(n+" at", 0, 63)] = c
	return string(b)
}

func C19_malformed() {
	id, _ := anyHex("id", 32)
	n := Choose("path", 0, 3)
	path := make([]string, n)
	for i := range path {
		path[i], _ = anyHex(fmt.Sprintf("branch%d", i), 32)
	}
	if i := Choose("which", 0, n); i == 0 {
		id = badHex("bad")
	} else {
		path[i-1] = badHex("bad")
	}
	pos := Range("position", 0, 7)
	_, err := block.MerkleRootFromBranches(id, pos, path)
	Assert(err != nil, "malformed-hex-refused")
}

// Large trees: the coinbase's path and root, and any position's.
func C19_many() {
	n := []int{10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 129, 255, 256, 257}[Choose("transactions", 0, 18)]
	leaves := make([][]byte, n)
	template := make([]string, n)
	for i := range leaves {
		leaves[i] = make([]byte, 32)
		leaves[i][0], leaves[i][1] = byte(i), byte(i>>8)
		if i < 2 || i == n-1 {
			leaves[i] = Bytes("tx", 32)
		}
		template[i] = hx(rev(leaves[i]))
	}
	levels := merkleLevels(leaves)
	root := levels[len(levels)-1][0]
	branches := block.GetMerkleBranches(template)
	Assert(len(branches) == len(levels)-1, "one-branch-per-level")
	for i := range branches {
		EqStr(branches[i], hx(levels[i][1]), "branch")
	}
	EqBytes(block.BuildMerkleRootFromCoinbase(dup(leaves[0]), branches), root, "root")
	pos := []int{0, 1, n / 2, n - 2, n - 1}[Choose("position", 0, 4)]
	path := []string{}
	p := pos
	for _, l := range levels[:len(levels)-1] {
		s := p ^ 1
		if s == len(l) {
			s = p
		}
		path = append(path, hx(rev(l[s])))
		p /= 2
	}
	got, err := block.MerkleRootFromBranches(hx(rev(leaves[pos])), pos, path)
	Assert(err == nil, "combined")
	EqStr(got, hx(rev(root)), "root")
}
