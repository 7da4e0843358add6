package zzverif

import (
	"encoding/hex"

	"github.com/libsv/libsv/script"
)

// isOp: an opcode that is not a push.
func isOp(op byte) bool { return op == 0 || op > 0x4e }

func asmRoundTrip(b []byte) {
	t, err := scr(b).ToASM()
	Assert(err == nil, "rendered")
	s, err := script.NewFromASM(t)
	Assert(err == nil, "read")
	AssertEq(*s, b, "same bytes")
}

// any number of data pushes
func C21_pushes() {
	n := AnyInt("items")
	Assume(0 <= n && n <= maxN)
	var b []byte
	for i := 0; i < n; i++ {
		d := AnyBytesRangeAt("item", 1, 0xffffffff, i)
		b = append(b, PushPrefixSpec(len(d))...)
		b = append(b, d...)
	}
	asmRoundTrip(b)
}

// any number of opcodes
func C21_opcodes() {
	n := AnyInt("items")
	Assume(0 <= n && n <= maxN)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, byte(AnyIntRangeAt("op", 0x4f, 0xff, i)))
	}
	asmRoundTrip(b)
}

// opcodes around a push
func C21_mixed() {
	o1, o2, o3 := AnyU8("o1"), AnyU8("o2"), AnyU8("o3")
	Assume(isOp(o1) && isOp(o2) && isOp(o3))
	d := AnyBytesRange("d", 1, 0xffffffff)
	e := AnyBytesRange("e", 1, 75)
	if AnyBool("op first") {
		asmRoundTrip(cat([]byte{o1}, pushPrefix(len(d)), d, []byte{o2}))
	} else {
		asmRoundTrip(cat(pushPrefix(len(d)), d, []byte{o1, o2}, pushPrefix(len(e)), e))
	}
}

func C21_text_op() {
	op := AnyU8("op")
	Assume(isOp(op))
	t, err := scr([]byte{op}).ToASM()
	Assert(err == nil, "rendered")
	Assert(t != "", "an opcode is rendered by its name")
	Assert(!HexOK(t), "the name is no data")
}

func C21_text_data() {
	d := AnyBytesRange("d", 1, 0xffffffff)
	t, err := scr(cat(pushPrefix(len(d)), d)).ToASM()
	Assert(err == nil, "rendered")
	AssertEqStr(t, hex.EncodeToString(d), "data is rendered in hex")
}

func C21_empty() {
	t, err := scr(nil).ToASM()
	Assert(err == nil && t == "", "empty script, empty text")
	s, err := script.NewFromASM("")
	Assert(err == nil, "read")
	AssertEq(*s, nil, "empty text, empty script")
}

func C21_bad() {
	w := AnyString("word")
	Assume(!HexOK(w))
	_, err := script.NewFromASM("OP_DUP " + "zz" + " OP_HASH160")
	Assert(err != nil, "unknown word refused")
	_, err = script.NewFromASM("OP_DUP 0a1")
	Assert(err != nil, "odd hex refused")
}
