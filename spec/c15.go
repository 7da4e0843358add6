package zzverif

import (
	"encoding/hex"
	"math/big"

	"github.com/libsv/libsv/block"

	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/utils"
)

func C15_roundtrip() {
	prefix := AnyString("prefix")
	Assume(len(prefix) > 0 && OneLine(prefix))
	network, version := AnyInt("network"), AnyInt("ver")
	Assume(1 <= network && network <= 255 && 1 <= version && version <= 255)
	data := maybeNil("data")
	p, v, n, d, err := address.DecodeBIP276(address.EncodeBIP276(prefix, network, version, data))
	Assert(err == nil, "decoded")
	AssertEqStr(p, prefix, "prefix")
	Assert(v == version, "version")
	Assert(n == network, "network")
	AssertEq(d, data, "data")
}

func C15_range() {
	prefix := AnyString("prefix")
	network, version := AnyInt("network"), AnyInt("ver")
	Assume(network < 1 || network > 255 || version < 1 || version > 255)
	AssertEqStr(address.EncodeBIP276(prefix, network, version, maybeNil("data")), "ERROR", "refused")
}

func C15_sound() {
	text := AnyString("text")
	p, v, n, d, err := address.DecodeBIP276(text)
	if err == nil {
		body := p + ":" + hex.EncodeToString([]byte{byte(n), byte(v)}) + hex.EncodeToString(d)
		Assert(0 <= n && n <= 255 && 0 <= v && v <= 255, "ranges")
		AssertEqStr(text[len(text)-8:], hex.EncodeToString(dsha([]byte(body))[:4]), "checksum matches")
	}
}

func C37_hexrev() {
	s := AnyString("s")
	t := s
	if len(t)%2 != 0 {
		t = "0" + t
	}
	w := ""
	for i := 0; i < len(t)/2; i++ {
		w = t[2*i:2*i+2] + w
	}
	AssertEqStr(utils.ReverseHexString(s), w, "pairs reversed")
}

func C37_hexrev_hex() {
	b := maybeNil("b")
	AssertEqStr(utils.ReverseHexString(hex.EncodeToString(b)), hex.EncodeToString(rev(b)), "bytes reversed")
}

func C37_le() {
	v := AnyU32("v")
	n := AnyInt("n")
	Assume(4 <= n && n <= 1<<20)
	AssertEq(utils.GetLittleEndianBytes(v, uint32(n)), cat(le32(v), make([]byte, n-4)), "little endian")
}

func C37_equals() {
	a, b := AnyBytes("a"), AnyBytes("b")
	Assert(utils.Equals(a, b) == (string(a) == string(b)), "same contents")
}

func C37_fresh() {
	b := maybeNil("b")
	Protect()
	r := utils.ReverseBytes(b)
	AssertNoEffects("argument unchanged")
	AssertFresh(r, "new slice")
}

func C28_int() {
	s := AnyString("bits")
	n, err := block.ExpandTargetFromAsInt(s)
	if !HexOK(s) || len(s) != 8 {
		Assert(err != nil && n == nil, "refused")
		return
	}
	Assert(err == nil, "decoded")
	Assert(n.Cmp(compactSpec(unhex(s))) == 0, "mantissa times 256^(exponent-3)")
}

func compactSpec(b []byte) *big.Int {
	m := int64(b[1]&0x7f)<<16 | int64(b[2])<<8 | int64(b[3])
	e := uint(b[0])
	n := new(big.Int)
	switch e {
	case 0:
		n.SetInt64(m >> 24)
	case 1:
		n.SetInt64(m >> 16)
	case 2:
		n.SetInt64(m >> 8)
	default:
		n.SetInt64(m)
		n.Lsh(n, 8*(e-3))
	}
	if b[1]&0x80 != 0 {
		n.Neg(n)
	}
	return n
}

func C28_hex() {
	s := AnyString("bits")
	t, err := block.ExpandTargetFrom(s)
	if !HexOK(s) || len(s) != 8 {
		Assert(err != nil && t == "", "refused")
		return
	}
	n := compactSpec(unhex(s))
	nb := n.Bytes()
	if n.Sign() < 0 || len(nb) > 32 {
		Assert(err != nil, "does not fit")
		return
	}
	Assert(err == nil, "expanded")
	AssertEqStr(t, hex.EncodeToString(cat(make([]byte, 32-len(nb)), nb)), "32 bytes")
}

func C28_difficulty() {
	s := AnyString("bits")
	_, err := block.DifficultyFromBits(s)
	if !HexOK(s) || len(s) != 8 {
		Assert(err != nil, "refused")
	}
}

func C24_fold() {
	id := AnyString("txid")
	branches := anyTexts("branch")
	i := AnyInt("index")
	got, err := block.MerkleRootFromBranches(id, i, branches)
	if i < 0 || !HexOK(id) {
		Assert(err != nil, "refused")
		return
	}
	h := rev(unhex(id))
	idx := i
	bad := false
	for _, b := range branches {
		if !HexOK(b) {
			bad = true
			break
		}
		r := rev(unhex(b))
		if idx%2 == 1 {
			h = dsha(cat(r, h))
		} else {
			h = dsha(cat(h, r))
		}
		idx = idx / 2
	}
	if bad || idx > 0 {
		Assert(err != nil, "refused")
		return
	}
	Assert(err == nil, "accepted")
	AssertEqStr(got, hex.EncodeToString(rev(h)), "root")
}

func anyTexts(tag string) []string {
	n := AnyInt("texts")
	Assume(0 <= n && n <= maxN)
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, AnyStringAt(tag, i))
	}
	return r
}

func C24_coinbase() {
	h := maybeNil("hash")
	n := AnyInt("branches")
	Assume(0 <= n && n <= maxN)
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, hex.EncodeToString(AnyBytesAt("branch", i)))
	}
	w := h
	for _, b := range r {
		w = dsha(cat(w, unhex(b)))
	}
	AssertEq(block.BuildMerkleRootFromCoinbase(h, r), w, "fold")
}

func C32_text() {
	s := AnyString("text")
	_, _ = address.NewFromString(s)
	_, _ = utils.Decode32Byte(s)
	_, _ = block.ExpandTargetFrom(s)
	_, _ = block.DifficultyFromBits(s)
	_ = block.DifficultyToHashrate(s, AnyU64("difficulty"), 1)
	Assert(true, "no panic")
}

func C32_bip276() {
	s := AnyString("text")
	_, _, _, _, _ = address.DecodeBIP276(s)
	Assert(true, "no panic")
}

func C32_validate() {
	_, _ = address.ValidateAddress(AnyString("text"))
	Assert(true, "no panic")
}

func C32_merkle() {
	_, _ = block.MerkleRootFromBranches(AnyString("id"), AnyInt("index"), anyTexts("branch"))
	Assert(true, "no panic")
}

func C32_decode32() {
	s := AnyString("text")
	b, err := utils.Decode32Byte(s)
	if HexOK(s) && len(s) == 64 {
		Assert(err == nil, "decoded")
		AssertEq(b[:], unhex(s), "bytes")
	} else {
		Assert(err != nil, "refused")
	}
}
