package zzverif

func smallInt(op byte) bool { return op == 0 || 0x51 <= op && op <= 0x60 }

// threshold, up to three keys of any direct-push or PUSHDATA1 length, count, final opcode
func C17_multisig() {
	m, n, last := AnyU8("threshold"), AnyU8("count"), AnyU8("last")
	Assume(isOp(m) && isOp(n) && isOp(last))
	b := []byte{m}
	switch {
	case AnyBool("none"):
	case AnyBool("one"):
		b = cat(b, push(AnyBytesRange("key0", 1, 255)))
	case AnyBool("two"):
		b = cat(b, push(AnyBytesRange("key0", 1, 75)), push(AnyBytesRange("key1", 1, 75)))
	default:
		b = cat(b, push(AnyBytesRange("key0", 1, 75)), push(AnyBytesRange("key1", 33, 33)), push(AnyBytesRange("key2", 1, 75)))
	}
	b = append(b, n, last)
	want := smallInt(m) && smallInt(n) && last == 0xae
	Assert(scr(b).IsMultisigOut() == want, "multisig template")
}

// opcodes between the threshold and the count
func C17_multisig_ops() {
	m, n, op := AnyU8("threshold"), AnyU8("count"), AnyU8("op")
	Assume(smallInt(m) && smallInt(n) && isOp(op))
	Assert(scr([]byte{m, op, n, 0xae}).IsMultisigOut(), "anything but an empty push")
	Assert(scr([]byte{m, n, 0xae}).IsMultisigOut(), "no keys")
	Assert(!scr([]byte{n, 0xae}).IsMultisigOut(), "no threshold")
	Assert(!scr([]byte{0xae}).IsMultisigOut(), "just the opcode")
	Assert(!scr(nil).IsMultisigOut(), "empty script")
}

// data that looks like the opcodes
func C17_multisig_data() {
	m, n := AnyU8("threshold"), AnyU8("count")
	Assume(smallInt(m) && smallInt(n))
	d := AnyBytesRange("data", 1, 75)
	key := AnyBytesN("key", 33)
	switch {
	case AnyBool("threshold is data"):
		Assert(!scr(cat(push(d), push(key), []byte{n, 0xae})).IsMultisigOut(), "threshold must be an opcode")
	case AnyBool("count is data"):
		Assert(!scr(cat([]byte{m}, push(key), push(d), []byte{0xae})).IsMultisigOut(), "count must be an opcode")
	case AnyBool("last is data"):
		Assert(!scr(cat([]byte{m}, push(key), []byte{n}, push(d))).IsMultisigOut(), "the last opcode must be an opcode")
	case AnyBool("empty key"):
		Assert(!scr(cat([]byte{m, 0x4c, 0, n, 0xae})).IsMultisigOut(), "no empty key")
		Assert(!scr(cat([]byte{m}, push(key), []byte{0x4d, 0, 0, n, 0xae})).IsMultisigOut(), "no empty key among others")
	default:
		Assert(!scr(cat([]byte{m}, push(key), []byte{n, 0xae, 5})).IsMultisigOut(), "no truncated script")
	}
}

func push(d []byte) []byte { return cat(PushPrefixSpec(len(d)), d) }
