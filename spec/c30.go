package zzverif

import (
	"encoding/hex"

	"github.com/bitcoinsv/bsvutil/base58"
	"github.com/bitcoinsv/bsvutil/hdkeychain"

	"github.com/libsv/libsv/script"
)

// electrumKey pushes an extended key with its two-level path
func electrumKey(k []byte) []byte { return push(cat([]byte{0xff}, k)) }

func derived(k []byte) (pub []byte, ok bool) {
	x := k[:78]
	key, err := hdkeychain.NewKeyFromString(base58.Encode(cat(x, sha(sha(x))[:4])))
	if err != nil {
		return nil, false
	}
	c, err := key.Child(uint32(k[78]) | uint32(k[79])<<8)
	if err != nil {
		return nil, false
	}
	d, err := c.Child(uint32(k[80]) | uint32(k[81])<<8)
	if err != nil {
		return nil, false
	}
	e, err := d.ECPubKey()
	if err != nil {
		return nil, false
	}
	return e.SerializeCompressed(), true
}

// up to three keys, any threshold, count and last opcode
func C30_parse() {
	m, n, last := AnyU8("m"), AnyU8("n"), AnyU8("last")
	Assume(isOp(m) && isOp(n) && isOp(last))
	k0, k1, k2 := AnyBytesN("k0", 82), AnyBytesN("k1", 82), AnyBytesN("k2", 82)
	b := cat([]byte{m}, electrumKey(k0))
	count := 1
	if AnyBool("two") {
		b = cat(b, electrumKey(k1))
		count = 2
		if AnyBool("three") {
			b = cat(b, electrumKey(k2))
			count = 3
		}
	}
	b = cat(b, []byte{n, last})
	ResetFailed()
	rs, err := script.NewRedeemScriptFromElectrum(hex.EncodeToString(b))
	if err != nil {
		Assert(rs == nil, "no result with an error")
		Assert(m < 0x52 || m > 0x5f || int(n) != 0x50+count || last != 0xae || Failed(), "well-formed scripts are accepted")
		return
	}
	Assert(!Failed(), "a failing derivation is an error")
	Assert(0x52 <= m && m <= 0x60 && int(n) == 0x50+count && last == 0xae, "only well-formed scripts are accepted")
	Assert(rs.SignaturesRequired == int(m)-0x50, "threshold")
	Assert(len(rs.PublicKeys) == count, "a key for each extended key")
	p, _ := derived(k0)
	AssertEq(rs.PublicKeys[0], p, "derived first key")
	if count > 1 {
		p, _ = derived(k1)
		AssertEq(rs.PublicKeys[1], p, "derived second key")
	}
	if count > 2 {
		p, _ = derived(k2)
		AssertEq(rs.PublicKeys[2], p, "derived third key")
	}
}

// keys of another shape
func C30_badkey() {
	k := AnyBytesRange("k", 1, 75)
	l := AnyBytesRange("l", 76, 255)
	switch {
	case AnyBool("short"):
		rs, err := script.NewRedeemScriptFromElectrum(hex.EncodeToString(cat([]byte{0x52}, push(k), []byte{0x51, 0xae})))
		Assert(err != nil && rs == nil, "short key")
	default:
		Assume(len(l) != 83 || l[0] != 0xff)
		rs, err := script.NewRedeemScriptFromElectrum(hex.EncodeToString(cat([]byte{0x52}, push(l), []byte{0x51, 0xae})))
		Assert(err != nil && rs == nil, "not an extended key")
	}
}

// an opcode instead of a key, or data instead of an opcode
func C30_shape() {
	op := AnyU8("op")
	Assume(isOp(op))
	k := electrumKey(AnyBytesN("k0", 82))
	d := AnyBytesRange("d", 1, 75)
	var b []byte
	switch {
	case AnyBool("op"):
		b = cat([]byte{0x52, op, 0x51, 0xae})
	case AnyBool("threshold"):
		b = cat(push(d), k, []byte{0x51, 0xae})
	case AnyBool("count"):
		b = cat([]byte{0x52}, k, push(d), []byte{0xae})
	case AnyBool("last"):
		b = cat([]byte{0x52}, k, []byte{0x51}, push(d))
	default:
		b = []byte{0x52, 0x51, 0xae}
	}
	rs, err := script.NewRedeemScriptFromElectrum(hex.EncodeToString(b))
	Assert(err != nil && rs == nil, "refused")
}

func C30_total() {
	ResetFailed()
	rs, err := script.NewRedeemScriptFromElectrum(AnyString("text"))
	if err == nil {
		Assert(rs != nil && !Failed(), "a result when nothing failed")
	} else {
		Assert(rs == nil, "no result with an error")
	}
}

func C30_short() {
	switch {
	case AnyBool("empty"):
		_, err := script.NewRedeemScriptFromElectrum("")
		Assert(err != nil, "empty")
	case AnyBool("one"):
		_, err := script.NewRedeemScriptFromElectrum(hex.EncodeToString([]byte{AnyU8("a")}))
		Assert(err != nil, "one byte")
	default:
		_, err := script.NewRedeemScriptFromElectrum(hex.EncodeToString([]byte{AnyU8("a"), AnyU8("b")}))
		Assert(err != nil, "two bytes")
	}
}
