package zzverif

import (
	"github.com/bitcoinsv/bsvutil/base58"
	"github.com/bitcoinsv/bsvutil/hdkeychain"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/utils"
)

func C37_sort() {
	n := AnyInt("items")
	Assume(0 <= n && n <= maxN)
	var a, b [][]byte
	for i := 0; i < n; i++ {
		a = append(a, AnyBytesAt("item", i))
		b = append(b, AnyBytesAt("item", i))
	}
	s := utils.SortByteArrays(a)
	w := SortedBytes(b)
	Assert(len(s) == n, "as many items")
	k := AnyInt("k")
	if 0 <= k && k < n {
		AssertEq(s[k], w[k], "in ascending order")
	}
}

func C29_new() {
	n := AnyInt("required")
	rs, err := script.NewRedeemScript(n)
	if n < 2 || n > 16 {
		Assert(err != nil && rs == nil, "refused")
		return
	}
	Assert(err == nil && rs.SignaturesRequired == n && len(rs.PublicKeys) == 0, "accepted")
}

func anyKeys() (k [][]byte, n int) {
	n = AnyInt("keys")
	Assume(0 <= n && n <= 16)
	for i := 0; i < n; i++ {
		k = append(k, AnyBytesNAt("pub", 33, i))
	}
	return
}

func redeem(m int, keys [][]byte) []byte {
	b := []byte{byte(0x50 + m)}
	for _, k := range SortedBytes(keys) {
		b = append(b, 33)
		b = append(b, k...)
	}
	return append(b, byte(0x50+len(keys)), 0xae)
}

func C29_script() {
	m := AnyIntRange("required", 2, 16)
	k, n := anyKeys()
	k2, _ := anyKeys()
	rs := &script.RedeemScript{SignaturesRequired: m, PublicKeys: k}
	AssertEq(rs.GetRedeemScript(), redeem(m, k2), "redeem script")
	Assert(len(rs.PublicKeys) == n && rs.SignaturesRequired == m, "same keys")
}

func C29_address() {
	m := AnyIntRange("required", 2, 16)
	k, _ := anyKeys()
	k2, _ := anyKeys()
	rs := &script.RedeemScript{SignaturesRequired: m, PublicKeys: k}
	b := redeem(m, k2)
	switch {
	case AnyBool("hash"):
		AssertEq(rs.GetRedeemScriptHash(), hash160(b), "hash of the redeem script")
	default:
		p := cat([]byte{5}, hash160(b))
		AssertEqStr(rs.GetAddress(), base58.Encode(cat(p, sha(sha(p))[:4])), "address")
	}
}

func C29_add() {
	k, n := anyKeys()
	k2, _ := anyKeys()
	m := AnyIntRange("required", 2, 16)
	rs := &script.RedeemScript{SignaturesRequired: m, PublicKeys: k}
	x := AnyString("xpub")
	p, q := AnyU32("p"), AnyU32("q")
	ResetFailed()
	err := rs.AddPublicKey(x, []uint32{p, q})
	Assert(rs.SignaturesRequired == m, "threshold kept")
	i := AnyInt("i")
	if 0 <= i && i < n {
		AssertEq(rs.PublicKeys[i], k2[i], "other keys kept")
	}
	if n == 16 {
		Assert(err != nil, "no seventeenth key")
	}
	if err != nil {
		Assert(n == 16 || Failed(), "error only when a step fails")
		Assert(len(rs.PublicKeys) == n, "nothing added")
		return
	}
	Assert(!Failed(), "a failing step is an error")
	Assert(len(rs.PublicKeys) == n+1, "one more key")
	key, _ := hdkeychain.NewKeyFromString(x)
	c, _ := key.Child(p)
	d, _ := c.Child(q)
	e, _ := d.ECPubKey()
	AssertEq(rs.PublicKeys[n], e.SerializeCompressed(), "the derived key at the end")
}

func C29_path() {
	rs := &script.RedeemScript{SignaturesRequired: 2}
	var path []uint32
	n := AnyInt("levels")
	Assume(0 <= n && n <= maxN && n != 2)
	for i := 0; i < n; i++ {
		path = append(path, AnyU32At("level", i))
	}
	err := rs.AddPublicKey(AnyString("xpub"), path)
	Assert(err != nil && len(rs.PublicKeys) == 0, "only two levels")
}
