package zzverif

import (
	"crypto/sha256"
	"encoding/hex"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/utils"
	"golang.org/x/crypto/ripemd160"
)

func sha(b []byte) []byte {
	h := sha256.Sum256(b)
	return h[:]
}

func ripemd(b []byte) []byte {
	h := ripemd160.New()
	h.Write(b)
	return h.Sum(nil)
}

func dsha(b []byte) []byte { return sha(sha(b)) }

func C22_hashes() {
	b := maybeNil("b")
	AssertEq(crypto.Sha256(b), sha(b), "sha256")
	AssertEq(crypto.Sha256d(b), sha(sha(b)), "double sha256")
	AssertEq(crypto.Ripemd160(b), ripemd(b), "ripemd160")
	AssertEq(crypto.Hash160(b), ripemd(sha(b)), "hash160")
}

func le32(v uint32) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func cat(xs ...[]byte) []byte {
	r := []byte{}
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

func C26_header() {
	v := AnyU32("version")
	root, tm, bits, nonce := maybeNil("root"), maybeNil("time"), maybeNil("bits"), maybeNil("nonce")
	prev := AnyString("prev")
	Assume(HexOK(prev))
	p, _ := hex.DecodeString(prev)
	got := block.BuildBlockHeader(v, prev, root, tm, bits, nonce)
	AssertEq(got, cat(le32(v), rev(p), root, tm, bits, nonce), "header layout")
}

func C37_reverse() {
	b := maybeNil("b")
	AssertEq(utils.ReverseBytes(b), rev(b), "reversed")
}
