package zzverif

import "github.com/libsv/libsv/utils"

func varint(n uint64) []byte {
	if n < 0xfd {
		return []byte{byte(n)}
	}
	if n <= 0xffff {
		return []byte{0xfd, byte(n), byte(n >> 8)}
	}
	if n <= 0xffffffff {
		return []byte{0xfe, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	}
	return []byte{0xff, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24), byte(n >> 32), byte(n >> 40), byte(n >> 48), byte(n >> 56)}
}

func C03_encode() {
	n := AnyU64("n")
	AssertEq(utils.VarInt(n), varint(n), "shortest form")
}

func C03_decode() {
	n := AnyU64("n")
	enc := varint(n)
	b := append(append([]byte{}, enc...), AnyBytes("rest")...)
	v, size := utils.DecodeVarInt(b)
	Assert(v == n, "same count")
	Assert(size == len(enc), "exact size")
}

func C03_roundtrip() {
	n := AnyU64("n")
	enc := utils.VarInt(n)
	v, size := utils.DecodeVarInt(enc)
	Assert(v == n, "same count")
	Assert(size == len(enc), "exact size")
}

func C03_truncated() {
	n := AnyU64("n")
	enc := varint(n)
	k := AnyInt("k")
	Assume(0 <= k && k < len(enc))
	_, size := utils.DecodeVarInt(enc[:k])
	Assert(size == 0, "size zero for a truncated prefix")
}
