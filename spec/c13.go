package zzverif

import (
	"strings"

	"encoding/hex"

	"github.com/bitcoinsv/bsvutil/base58"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction/output"
)

func hash160(b []byte) []byte { return ripemd(sha(b)) }

// check58 is base58 with the four checksum bytes appended.
func check58(b []byte) string { return base58.Encode(cat(b, dsha(b)[:4])) }

func netByte(mainnet bool) byte {
	if mainnet {
		return 0
	}
	return 0x6f
}

func addrIs(a *address.Address, err error, hash []byte, mainnet bool) {
	Assert(err == nil, "address built")
	AssertEqStr(a.AddressString, check58(cat([]byte{netByte(mainnet)}, hash)), "version, hash, checksum")
	AssertEqStr(a.PublicKeyHash, hex.EncodeToString(hash), "reported hash")
}

func C13_hash() {
	h, m := AnyBytesN("hash", 20), AnyBool("mainnet")
	a, err := address.NewFromPublicKeyHash(h, m)
	addrIs(a, err, h, m)
}

func C13_hex() {
	k, m := maybeNil("key"), AnyBool("mainnet")
	a, err := address.NewFromPublicKeyString(hex.EncodeToString(k), m)
	addrIs(a, err, hash160(k), m)
}

func C13_badhex() {
	s, m := AnyString("key"), AnyBool("mainnet")
	Assume(!HexOK(s))
	a, err := address.NewFromPublicKeyString(s, m)
	Assert(err != nil && a == nil, "not hex is an error")
}

func C13_key() {
	k, m := AnyPublicKey("key"), AnyBool("mainnet")
	a, err := address.NewFromPublicKey(k, m)
	addrIs(a, err, hash160(k.SerializeCompressed()), m)
}

func C13_checksum() {
	b := maybeNil("b")
	AssertEqStr(address.Base58EncodeMissingChecksum(b), check58(b), "checksum appended")
}

// wellFormed: 25 bytes, version of a key-hash address, right checksum.
func wellFormed(s string) bool {
	d := base58.Decode(s)
	if len(d) != 25 {
		return false
	}
	if d[0] != 0 && d[0] != 0x6f {
		return false
	}
	c := dsha(d[:21])
	return d[21] == c[0] && d[22] == c[1] && d[23] == c[2] && d[24] == c[3]
}

func C14_parse() {
	s := AnyString("address")
	a, err := address.NewFromString(s)
	if wellFormed(s) {
		Assert(err == nil, "accepted")
		AssertEqStr(a.AddressString, s, "text kept")
		AssertEqStr(a.PublicKeyHash, hex.EncodeToString(base58.Decode(s)[1:21]), "hash")
	} else {
		Assert(err != nil && a == nil, "refused")
	}
}

func C14_pay() {
	s, v := AnyString("address"), AnyU64("value")
	o, err := output.NewP2PKHFromAddress(s, v)
	if wellFormed(s) {
		Assert(err == nil, "accepted")
		AssertEq(*o.LockingScript, p2pkh(base58.Decode(s)[1:21]), "script")
	} else {
		Assert(err != nil && o == nil, "refused")
	}
}

func C14_validate() {
	s := AnyString("address")
	Assume(!strings.HasPrefix(s, "bitcoin-script:"))
	ok, err := address.ValidateAddress(s)
	Assert(ok == (err == nil), "an error says why not")
	Assert(ok == wellFormed(s), "validation accepts what parsing accepts")
}

func p2pkh(h []byte) []byte { return cat([]byte{0x76, 0xa9, 0x14}, h, []byte{0x88, 0xac}) }

func C16_key() {
	k := maybeNil("key")
	s, err := script.NewP2PKHFromPubKeyBytes(k)
	Assert(err == nil, "built")
	AssertEq(*s, p2pkh(hash160(k)), "template")
	Assert(s.IsP2PKH(), "classified")
}

func C16_keyhex() {
	t := AnyString("key")
	s, err := script.NewP2PKHFromPubKeyStr(t)
	if HexOK(t) {
		Assert(err == nil, "built")
		AssertEq(*s, p2pkh(hash160(unhex(t))), "template")
		Assert(s.IsP2PKH(), "classified")
	} else {
		Assert(err != nil && s == nil, "not hex is an error")
	}
}

func C16_hash() {
	t := AnyString("hash")
	s, err := script.NewP2PKHFromPubKeyHashStr(t)
	if HexOK(t) && len(t) == 40 {
		Assert(err == nil, "built")
		AssertEq(*s, p2pkh(unhex(t)), "template")
		Assert(s.IsP2PKH(), "classified")
	} else {
		Assert(err != nil && s == nil, "refused")
	}
}

func C16_address() {
	t := AnyString("address")
	s, err := script.NewP2PKHFromAddress(t)
	if wellFormed(t) {
		Assert(err == nil, "built")
		AssertEq(*s, p2pkh(base58.Decode(t)[1:21]), "template")
		Assert(s.IsP2PKH(), "classified")
	} else {
		Assert(err != nil && s == nil, "refused")
	}
}

func C16_output_hash() {
	t, v := AnyString("hash"), AnyU64("value")
	o, err := output.NewP2PkhFromPubKeyHash(t, v)
	if HexOK(t) && len(t) == 40 {
		Assert(err == nil, "built")
		AssertEq(*o.LockingScript, p2pkh(unhex(t)), "template")
	} else {
		Assert(err != nil && o == nil, "refused")
	}
}

func isP2PKH(b []byte) bool {
	return len(b) == 25 && b[0] == 0x76 && b[1] == 0xa9 && b[2] == 20 && b[23] == 0x88 && b[24] == 0xac
}

func C17_p2pkh() {
	b := maybeNil("script")
	Assert(scr(b).IsP2PKH() == isP2PKH(b), "P2PKH template")
}

func C17_p2sh() {
	b := maybeNil("script")
	Assert(scr(b).IsP2SH() == (len(b) == 23 && b[0] == 0xa9 && b[1] == 20 && b[22] == 0x87), "P2SH template")
}

func C17_data() {
	b := maybeNil("script")
	Assert(scr(b).IsData() == (len(b) > 0 && b[0] == 0x6a || len(b) > 1 && b[0] == 0 && b[1] == 0x6a), "data prefix")
}

func C17_p2pk() {
	b := maybeNil("script")
	want := len(b) == 35 && b[0] == 33 && (b[1] == 2 || b[1] == 3) && b[34] == 0xac ||
		len(b) == 67 && b[0] == 65 && (b[1] == 4 || b[1] == 6 || b[1] == 7) && b[66] == 0xac
	Assert(scr(b).IsP2PK() == want, "P2PK template")
}

func C18_extract() {
	b := maybeNil("script")
	h, err := scr(b).GetPublicKeyHash()
	if isP2PKH(b) {
		Assert(err == nil, "extracted")
		AssertEq(h, b[3:23], "hash")
	} else {
		Assert(err != nil, "refused")
	}
}

func C18_nil() {
	var s *script.Script
	_, err := s.GetPublicKeyHash()
	Assert(err != nil, "nil refused")
}

func C19_data() {
	parts := anyParts()
	o, err := output.NewOpReturnParts(parts)
	Assert(err == nil, "built")
	Assert(o.Satoshis == 0, "value zero")
	AssertEq(*o.LockingScript, cat([]byte{0, 0x6a}, pushes(parts)), "data script")
}

func C19_single() {
	d := AnyBytesRange("item", 0, 0xffffffff)
	o, err := output.NewOpReturn(d)
	Assert(err == nil, "built")
	Assert(o.Satoshis == 0, "value zero")
	AssertEq(*o.LockingScript, cat([]byte{0, 0x6a}, PushPrefixSpec(len(d)), d), "data script")
}

func C19_puzzle() {
	secret, h, v := AnyString("secret"), AnyBytesN("hash", 20), AnyU64("value")
	o, err := output.NewHashPuzzle(secret, hex.EncodeToString(h), v)
	Assert(err == nil, "built")
	Assert(o.Satoshis == v, "value")
	AssertEq(*o.LockingScript, cat([]byte{0xa9, 20}, hash160([]byte(secret)), []byte{0x88, 0x76, 0xa9, 20}, h, []byte{0x88, 0xac}), "puzzle script")
}

func C19_puzzle_badhex() {
	secret, h, v := AnyString("secret"), AnyString("hash"), AnyU64("value")
	Assume(!HexOK(h))
	o, err := output.NewHashPuzzle(secret, h, v)
	Assert(err != nil && o == nil, "refused")
}

func C19_p2pkh_hash() {
	h, v := AnyBytesN("hash", 20), AnyU64("value")
	o, err := output.NewP2PkhFromPubKeyHash(hex.EncodeToString(h), v)
	Assert(err == nil, "built")
	Assert(o.Satoshis == v, "value")
	AssertEq(*o.LockingScript, p2pkh(h), "script")
}

func C19_p2pkh_address() {
	s, v := AnyString("address"), AnyU64("value")
	Assume(wellFormed(s))
	o, err := output.NewP2PKHFromAddress(s, v)
	Assert(err == nil, "built")
	Assert(o.Satoshis == v, "value")
	AssertEq(*o.LockingScript, p2pkh(base58.Decode(s)[1:21]), "script")
}
