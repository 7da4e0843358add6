package zzverif

import (
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/utils"
)

// Lemmas: the summaries the analyzer uses for small helpers. Whenever a check
// used a summary, the same run establishes its lemma from the current source
// (and falls back to interpreting the helper itself when that fails).

func LEMMA_VarInt() {
	n := AnyU64("n")
	Protect()
	b := utils.VarInt(n)
	AssertNoEffects("VarInt writes only its result")
	AssertFresh(b, "VarInt returns new memory")
	AssertEq(b, varint(n), "VarInt is the shortest form")
}

func LEMMA_DecodeVarInt() {
	n := AnyU64("n")
	enc := varint(n)
	b := cat(enc, AnyBytes("rest"))
	Protect()
	v, size := utils.DecodeVarInt(b)
	AssertNoEffects("DecodeVarInt writes nothing")
	Assert(v == n, "DecodeVarInt value")
	Assert(size == len(enc), "DecodeVarInt size")
}

func LEMMA_GetPushDataPrefix() {
	data := AnyBytes("data")
	Protect()
	b, err := script.GetPushDataPrefix(data)
	AssertNoEffects("GetPushDataPrefix writes only its result")
	if len(data) <= 0xffffffff {
		Assert(err == nil, "GetPushDataPrefix accepts")
		AssertFresh(b, "GetPushDataPrefix returns new memory")
		AssertEq(b, pushPrefix(len(data)), "GetPushDataPrefix is the shortest form")
	} else {
		Assert(err != nil, "GetPushDataPrefix refuses")
	}
}

// pushPrefix is the shortest push prefix for n bytes.
func pushPrefix(n int) []byte {
	if n <= 75 {
		return []byte{byte(n)}
	}
	if n <= 0xff {
		return []byte{0x4c, byte(n)}
	}
	if n <= 0xffff {
		return []byte{0x4d, byte(n), byte(n >> 8)}
	}
	return []byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
}
