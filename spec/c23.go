package zzverif

import "github.com/libsv/libsv/crypto"

func C23_roundtrip() {
	k, d := AnyCipher("key"), maybeNil("d")
	ResetFailed()
	c, err := crypto.Encrypt(k, d)
	if err != nil {
		Assert(Failed(), "fails only without randomness")
		return
	}
	Assert(!Failed(), "fails without randomness")
	Assert(len(c) >= 16, "the IV is in front")
	p, err := crypto.Decrypt(k, c)
	Assert(err == nil, "decrypts")
	AssertEq(p, d, "same plaintext")
}

func C23_iv() {
	k, d := AnyCipher("key"), AnyBytes("d")
	c, err := crypto.Encrypt(k, d)
	Assert((err == nil) == RandomOK(0), "fails when there is no randomness")
	if err != nil {
		Assert(c == nil, "no ciphertext on failure")
		return
	}
	AssertEq(c[:16], RandomBytes(0, 16), "the IV is a full block from the random source")
	c, err = crypto.Encrypt(k, d)
	Assert((err == nil) == RandomOK(1), "fails when there is no randomness")
	if err == nil {
		AssertEq(c[:16], RandomBytes(1, 16), "a fresh IV for each encryption")
	}
}

func C23_short() {
	b := maybeNil("b")
	Assume(len(b) < 16)
	p, err := crypto.Decrypt(AnyCipher("key"), b)
	Assert(err != nil && p == nil, "shorter than the IV")
}

func C23_effects() {
	b, k := AnyBytes("b"), AnyCipher("key")
	Protect()
	_, _ = crypto.Encrypt(k, b)
	_, _ = crypto.Decrypt(k, b)
	AssertNoEffects("arguments are left alone")
}

func C32_ciphertext() {
	ResetFailed()
	_, err := crypto.Decrypt(AnyCipher("key"), maybeNil("b"))
	Assert(err != nil || !Failed(), "malformed text is an error")
}
