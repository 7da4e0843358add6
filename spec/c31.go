package zzverif

import (
	"github.com/libsv/libsv/script"
)

func C31_decode() {
	b := maybeNil("script")
	script.DecodeParts(b)
}

func C31_decode_text() {
	script.DecodeStringParts(AnyString("text"))
}

func C31_classify() {
	b := maybeNil("script")
	switch {
	case AnyBool("p2pkh"):
		scr(b).IsP2PKH()
	case AnyBool("p2pk"):
		scr(b).IsP2PK()
	case AnyBool("p2sh"):
		scr(b).IsP2SH()
	case AnyBool("data"):
		scr(b).IsData()
	default:
		scr(b).IsMultisigOut()
	}
}

func C31_asm() {
	b := maybeNil("script")
	scr(b).ToASM()
}

func C31_extract() {
	b := maybeNil("script")
	if AnyBool("nil") {
		b = nil
	}
	scr(b).GetPublicKeyHash()
	scr(b).ToString()
}

func C31_read_asm() {
	script.NewFromASM(AnyString("asm"))
}

func C31_read_hex() {
	script.NewFromHexString(AnyString("hex"))
}
