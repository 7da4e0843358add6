package zzverif

import (
	"encoding/hex"

	"github.com/bitcoinsv/bsvutil/base58"
	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/transaction"
)

func C27_layout() {
	height, value := AnyU32("height"), AnyU64("value")
	wc, text, addr, miner := maybeNil("wc"), AnyString("text"), AnyString("address"), maybeNil("miner")
	e1 := AnyBytesRange("e1", 0, 12)
	e2 := AnyBytesRange("e2", 0, 12)
	Assume(len(e1)+len(e2) == 12)
	hasWC := AnyBool("haswc")
	w := ""
	if hasWC {
		w = hex.EncodeToString(wc)
		Assume(len(wc) > 0)
	}
	c1, c2, err := block.GetCoinbaseParts(height, value, w, text, addr, miner)
	if !wellFormed(addr) {
		Assert(err != nil, "refused")
		return
	}
	Assert(err == nil, "built")
	got := block.BuildCoinbase(c1, c2, hex.EncodeToString(e1), hex.EncodeToString(e2))
	sc := cat([]byte{3}, le32(height)[:3], []byte(text))
	if len(sc) > 88 {
		sc = sc[:88]
	}
	sc = cat(sc, e1, e2)
	outs := cat(le64(value), []byte{25}, p2pkh(base58.Decode(addr)[1:21]))
	n := 1
	if hasWC {
		n++
		outs = cat(outs, le64(0), vbytes(wc))
	}
	if len(miner) > 0 {
		n++
		outs = cat(outs, le64(0), vbytes(miner))
	}
	want := cat(le32(1), []byte{1}, make([]byte, 32), le32(0xffffffff), []byte{byte(len(sc))}, sc, le32(0xffffffff), []byte{byte(n)}, outs, le32(0))
	AssertEq(got, want, "coinbase layout")
}

func C27_parses() {
	value := AnyU64("value")
	text, h, miner := AnyString("text"), AnyBytesN("hash", 20), maybeNil("miner")
	e1 := AnyBytesN("e1", 8)
	e2 := AnyBytesN("e2", 4)
	addr := check58(cat([]byte{0}, h))
	c1, c2, err := block.GetCoinbaseParts(AnyU32("height"), value, "", text, addr, miner)
	Assert(err == nil, "built")
	t, err := transaction.NewFromBytes(block.BuildCoinbase(c1, c2, hex.EncodeToString(e1), hex.EncodeToString(e2)))
	Assert(err == nil, "parses")
	Assert(t.IsCoinbase(), "is a coinbase")
	Assert(t.Version == 1 && t.Locktime == 0, "version and locktime")
	Assert(t.Outputs[0].Satoshis == value, "value")
	AssertEq(*t.Outputs[0].LockingScript, p2pkh(h), "pays the address")
}

func C27_badwc() {
	w := AnyString("wc")
	Assume(len(w) > 0 && !HexOK(w))
	_, _, err := block.GetCoinbaseParts(AnyU32("height"), AnyU64("value"), w, AnyString("text"), AnyString("address"), maybeNil("miner"))
	Assert(err != nil, "refused")
}
