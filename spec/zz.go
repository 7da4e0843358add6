// Package zzverif holds reference specifications of libsv. It is only ever
// analysed (as an overlay next to the checked tree), never run: the functions
// below are given their meaning by the analyzer.
package zzverif

import (
	"crypto/cipher"

	"github.com/bitcoinsv/bsvd/bsvec"
)

// Assume restricts the inputs considered.
func Assume(c bool) {}

// Assert states an obligation.
func Assert(c bool, name string) {}

// AssertEq states that two byte strings are equal.
func AssertEq(got, want []byte, name string) {}

// AssertEqStr states that two texts are equal.
func AssertEqStr(got, want string, name string) {}

// Arbitrary values (the tag names the input).
func AnyU8(tag string) uint8                              { return 0 }
func AnyU16(tag string) uint16                            { return 0 }
func AnyU32(tag string) uint32                            { return 0 }
func AnyU64(tag string) uint64                            { return 0 }
func AnyU8At(tag string, i int) uint8                     { return 0 }
func AnyU32At(tag string, i int) uint32                   { return 0 }
func AnyU64At(tag string, i int) uint64                   { return 0 }
func AnyInt(tag string) int                               { return 0 }
func AnyIntRange(tag string, min, max int) int            { return 0 }
func AnyIntRangeAt(tag string, min, max, i int) int       { return 0 }
func AnyBool(tag string) bool                             { return false }
func AnyBoolAt(tag string, i int) bool                    { return false }
func AnyBytes(tag string) []byte                          { return nil }
func AnyBytesAt(tag string, i int) []byte                 { return nil }
func AnyBytesN(tag string, n int) []byte                  { return nil }
func AnyBytesNAt(tag string, n int, i int) []byte         { return nil }
func AnyBytesRange(tag string, min, max int) []byte       { return nil }
func AnyBytesRangeAt(tag string, min, max, i int) []byte  { return nil }
func AnyStringRange(tag string, min, max int) string      { return "" }
func AnyStringRangeAt(tag string, min, max, i int) string { return "" }
func AnyString(tag string) string                         { return "" }
func AnyStringAt(tag string, i int) string                { return "" }
func AnyPrivateKey(tag string) *bsvec.PrivateKey          { return nil }
func AnyPublicKey(tag string) *bsvec.PublicKey            { return nil }

// SortedBytes lists the items in ascending byte order.
func SortedBytes(x [][]byte) [][]byte { return nil }

// AnyCipher is a block cipher with 16-byte blocks.
func AnyCipher(tag string) cipher.Block { return nil }

// RandomOK: the i-th read of the cryptographic random source succeeds, and
// RandomBytes is what it reads.
func RandomOK(i int) bool         { return false }
func RandomBytes(i, n int) []byte { return nil }

// DER is the signature of a hash under a key, in strict DER.
func DER(key *bsvec.PrivateKey, hash []byte) []byte { return nil }

// HexOK: the text is an even number of hexadecimal digits.
func HexOK(s string) bool { return false }

// OneLine: the text has no line break.
func OneLine(s string) bool { return false }

// VarIntSpec is the shortest Bitcoin variable-length form of n.
func VarIntSpec(n uint64) []byte { return nil }

// PushPrefixSpec is the shortest push prefix for n bytes.
func PushPrefixSpec(n int) []byte { return nil }

// Failed: some modelled step has failed since ResetFailed.
func Failed() bool { return false }
func ResetFailed() {}

// Raised: a modelled step has failed or the code made an error since
// ResetFailed (only in C09).
func Raised() bool { return false }

// AllocLimit bounds the allocations that are allowed.
func AllocLimit(n int) {}

// Protect: from here on, writes to memory that exists now are recorded.
func Protect()   {}
func Unprotect() {}

// Allow exempts one object from protection.
func Allow(p interface{}) {}

// AssertNoEffects: no protected memory has been written since Protect.
func AssertNoEffects(name string) {}

// AssertFresh: p shares no memory with what existed at Protect.
func AssertFresh(p interface{}, name string) {}

// AssertDisjoint: two slices share no memory, spare capacity included.
func AssertDisjoint(a, b interface{}, name string) {}

// Note prints abstract values while debugging.
func Note(b []byte) {}
