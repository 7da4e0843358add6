package zzverif

import "github.com/libsv/libsv/script"

func C04_prefix() {
	d := maybeNil("d")
	Assume(len(d) <= 0xffffffff)
	p, err := script.GetPushDataPrefix(d)
	Assert(err == nil, "no error")
	AssertEq(p, pushPrefix(len(d)), "shortest prefix")
}

// anyParts: an arbitrary list of data items.
func anyParts() [][]byte {
	n := AnyInt("items")
	Assume(0 <= n && n <= maxN)
	var parts [][]byte
	for i := 0; i < n; i++ {
		parts = append(parts, AnyBytesRangeAt("item", 0, 0xffffffff, i))
	}
	return parts
}

func pushes(parts [][]byte) []byte {
	var b []byte
	for _, p := range parts {
		b = append(b, PushPrefixSpec(len(p))...)
		b = append(b, p...)
	}
	return b
}

func C04_encode() {
	parts := anyParts()
	b, err := script.EncodeParts(parts)
	Assert(err == nil, "no error")
	AssertEq(b, pushes(parts), "pushes in order")
}

func C04_append() {
	s := maybeNil("s")
	d := maybeNil("d")
	Assume(len(d) <= 0xffffffff)
	c := scr(cat(s))
	err := c.AppendPushData(d)
	Assert(err == nil, "no error")
	AssertEq(*c, cat(s, pushPrefix(len(d)), d), "appended push")
}

func C04_append_array() {
	s := maybeNil("s")
	parts := anyParts()
	c := scr(cat(s))
	err := c.AppendPushDataArray(parts)
	Assert(err == nil, "no error")
	AssertEq(*c, cat(s, pushes(parts)), "appended pushes")
}

func C04_decode() {
	n := AnyInt("items")
	Assume(0 <= n && n <= maxN)
	var parts [][]byte
	for i := 0; i < n; i++ {
		parts = append(parts, AnyBytesRangeAt("item", 1, 0xffffffff, i))
	}
	got, err := script.DecodeParts(pushes(parts))
	Assert(err == nil, "no error")
	Assert(len(got) == len(parts), "as many items")
	k := AnyInt("k")
	if 0 <= k && k < len(parts) {
		AssertEq(got[k], parts[k], "same item")
	}
}

func C04_opcode() {
	op := AnyU8("op")
	Assume(op == 0 || op > 0x4e)
	got, err := script.DecodeParts([]byte{op})
	Assert(err == nil, "no error")
	Assert(len(got) == 1, "one part")
	AssertEq(got[0], []byte{op}, "the opcode")
}

func C04_truncated() {
	d := maybeNil("d")
	n := AnyInt("n")
	Assume(len(d) < n && n <= 0xffffffff)
	_, err := script.DecodeParts(cat(PushPrefixSpec(n), d))
	Assert(err != nil, "truncated push is an error")
}
