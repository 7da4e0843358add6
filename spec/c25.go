package zzverif

import (
	"encoding/hex"

	"github.com/libsv/libsv/block"
)

// branchesOf: the siblings of the first node, level by level, of a tree over
// these leaves (in the order they are hashed).
func branchesOf(nodes [][]byte) []string {
	var out []string
	for len(nodes) > 1 {
		out = append(out, hex.EncodeToString(nodes[1]))
		var up [][]byte
		for i := 0; i < len(nodes); i += 2 {
			r := nodes[i]
			if i+1 < len(nodes) {
				r = nodes[i+1]
			}
			up = append(up, dsha(cat(nodes[i], r)))
		}
		nodes = up
	}
	return out
}

func branches(n int) {
	var leaves []string
	var nodes [][]byte
	for i := 0; i < n; i++ {
		b := AnyBytesNAt("leaf", 32, i)
		leaves = append(leaves, hex.EncodeToString(b))
		nodes = append(nodes, rev(b))
	}
	got := block.GetMerkleBranches(leaves)
	want := branchesOf(nodes)
	Assert(len(got) == len(want), "one branch per level")
	for i := range want {
		AssertEqStr(got[i], want[i], "the sibling of the first node")
	}
}

func C25_branches_0_to_9() {
	for n := 0; n <= 9; n++ {
		branches(n)
	}
}

func C25_branches_10_to_16() {
	for n := 10; n <= 16; n++ {
		branches(n)
	}
}

func C25_branches_17_33() {
	branches(17)
	branches(33)
}

func C25_branches_257() { branches(257) }

// every count of leaves in a range
func anyBranches(lo, hi int) {
	n := AnyInt("n")
	Assume(lo <= n && n <= hi)
	var leaves []string
	var nodes [][]byte
	for i := 0; i < n; i++ {
		b := AnyBytesNAt("leaf", 32, i)
		leaves = append(leaves, hex.EncodeToString(b))
		nodes = append(nodes, rev(b))
	}
	got := block.GetMerkleBranches(leaves)
	want := branchesOf(nodes)
	Assert(len(got) == len(want), "one branch per level")
	for i := range want {
		AssertEqStr(got[i], want[i], "the sibling of the first node")
	}
}

func C25_18_to_64_wide()   { anyBranches(18, 64) }
func C25_65_to_128_wide()  { anyBranches(65, 128) }
func C25_129_to_256_wide() { anyBranches(129, 256) }
func C25_257_to_512_wide() { anyBranches(257, 512) }

// further leaf counts for the thorough tier

func C25T_513_to_1024_wide() { anyBranches(513, 1024) }

func C25T_branches_18_to_24() {
	for n := 18; n <= 24; n++ {
		branches(n)
	}
}

func C25T_branches_25_to_32() {
	for n := 25; n <= 32; n++ {
		branches(n)
	}
}

func C25T_branches_34_48_65() {
	branches(34)
	branches(48)
	branches(65)
}

// rootOf is the root of the tree over these nodes.
func rootOf(nodes [][]byte) []byte {
	for len(nodes) > 1 {
		var up [][]byte
		for i := 0; i < len(nodes); i += 2 {
			r := nodes[i]
			if i+1 < len(nodes) {
				r = nodes[i+1]
			}
			up = append(up, dsha(cat(nodes[i], r)))
		}
		nodes = up
	}
	return nodes[0]
}

// The listed branches lead from the first leaf to the root of the tree.
func C25_root() {
	for n := 1; n <= 9; n++ {
		var leaves []string
		var nodes [][]byte
		for i := 0; i < n; i++ {
			b := AnyBytesNAt("leaf", 32, i)
			leaves = append(leaves, hex.EncodeToString(b))
			nodes = append(nodes, rev(b))
		}
		first := AnyBytesN("first", 32)
		nodes[0] = first
		AssertEq(block.BuildMerkleRootFromCoinbase(first, block.GetMerkleBranches(leaves)), rootOf(nodes), "the branches lead to the root")
	}
}
