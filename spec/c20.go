package zzverif

import "github.com/libsv/libsv/script"

// every accepted name is read as the byte of its definition
func C20_names() {
	for _, o := range opNames {
		s, err := script.NewFromASM(o.name)
		Assert(err == nil, "known name")
		AssertEq(*s, []byte{o.b}, "byte of the name")
	}
}

func C20_constants() {
	for _, c := range opConsts {
		Assert(c[0] == c[1], "value of the constant")
	}
}

// every opcode byte is rendered by its name, which is read back as the byte
func C20_bytes() {
	for i := 0; i < 256; i++ {
		if !isOp(byte(i)) {
			continue
		}
		t, err := scr([]byte{byte(i)}).ToASM()
		Assert(err == nil && t == opOfByte[i], "name of the byte")
		s, err := script.NewFromASM(t)
		Assert(err == nil, "read")
		AssertEq(*s, []byte{byte(i)}, "same byte")
	}
}
