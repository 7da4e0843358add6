package zzverif

import (
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
)

func sameInput(a, b *input.Input) {
	AssertEqStr(a.PreviousTxID, b.PreviousTxID, "previous id kept")
	Assert(a.PreviousTxOutIndex == b.PreviousTxOutIndex, "index kept")
	Assert(a.PreviousTxSatoshis == b.PreviousTxSatoshis, "previous value kept")
	AssertEq(*a.PreviousTxScript, *b.PreviousTxScript, "previous script kept")
	Assert(a.SequenceNumber == b.SequenceNumber, "sequence kept")
}

func sameOutput(a, b *output.Output) {
	Assert(a.Satoshis == b.Satoshis, "value kept")
	AssertEq(*a.LockingScript, *b.LockingScript, "locking script kept")
}

// sameShape: everything but the inputs' unlocking scripts is as in u.
func sameTx(t, u *transaction.Transaction) {
	Assert(t.Version == u.Version, "version kept")
	Assert(t.Locktime == u.Locktime, "locktime kept")
	Assert(len(t.Inputs) == len(u.Inputs), "input count kept")
	Assert(len(t.Outputs) == len(u.Outputs), "output count kept")
	k := AnyInt("k")
	if 0 <= k && k < len(u.Inputs) {
		sameInput(t.Inputs[k], u.Inputs[k])
	}
	if 0 <= k && k < len(u.Outputs) {
		sameOutput(t.Outputs[k], u.Outputs[k])
	}
}

// defaultFlag: no flag means ALL|FORKID.
func defaultFlag(f uint8) uint8 {
	if f == 0 {
		return 0x41
	}
	return f
}

func C07_sign() {
	t, u := anyTx(), anyTx()
	i := AnyInt("i")
	Assume(0 <= i && i < len(u.Inputs))
	flag := AnyU8("flag")
	key := AnyPrivateKey("key")
	s := &signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)}
	ResetFailed()
	err := t.Sign(uint32(i), s)
	Assert((err != nil) == Failed(), "error exactly when signing failed")
	Assert(uint8(s.SigHashFlag) == flag, "signer keeps its flag")
	sameTx(t, u)
	k := AnyInt("k")
	if err != nil {
		if 0 <= k && k < len(u.Inputs) {
			AssertEq(*t.Inputs[k].UnlockingScript, *u.Inputs[k].UnlockingScript, "nothing signed on failure")
		}
		return
	}
	if 0 <= k && k < len(u.Inputs) && k != i {
		AssertEq(*t.Inputs[k].UnlockingScript, *u.Inputs[k].UnlockingScript, "other inputs untouched")
	}
	der := cat(DER(key, rev(sigHashSpec(u, i, defaultFlag(flag)))), []byte{defaultFlag(flag)})
	pub := key.PubKey().SerializeCompressed()
	AssertEq(*t.Inputs[i].UnlockingScript, cat([]byte{byte(len(der))}, der, []byte{33}, pub), "signature and key pushed")
}

// inputs which are not signed yet, or whose spent script is not known
func C07_mixed() {
	n := AnyInt("inputs")
	Assume(0 <= n && n <= maxN)
	t, u := mixedTx(n), mixedTx(n)
	i := AnyInt("i")
	Assume(0 <= i && i < n)
	flag := AnyU8("flag")
	key := AnyPrivateKey("key")
	s := &signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)}
	known := u.Inputs[i].PreviousTxScript != nil
	ResetFailed()
	err := t.Sign(uint32(i), s)
	Assert((err != nil) == (Failed() || !known), "error exactly when signing failed")
	Assert(len(t.Inputs) == n, "same inputs")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	if err != nil || k != i {
		sameUnlocking(t.Inputs[k], u.Inputs[k], "other inputs untouched")
		return
	}
	der := cat(DER(key, rev(sigHashSpec(u, i, defaultFlag(flag)))), []byte{defaultFlag(flag)})
	pub := key.PubKey().SerializeCompressed()
	AssertEq(*t.Inputs[i].UnlockingScript, cat([]byte{byte(len(der))}, der, []byte{33}, pub), "signature and key pushed")
}

func C07_unlocking() {
	pub, sig, flag := AnyBytesN("pub", 33), AnyBytesRange("sig", 8, 74), AnyU8("flag")
	s, err := script.NewP2PKHUnlockingScript(pub, sig, sighash.Flag(flag))
	Assert(err == nil, "built")
	AssertEq(*s, cat([]byte{byte(len(sig) + 1)}, sig, []byte{flag, 33}, pub), "signature and key pushed")
}

func autoSign(t, u *transaction.Transaction, n int, flag uint8) {
	key := AnyPrivateKey("key")
	s := &signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.Flag(flag)}
	ResetFailed()
	err := t.SignAuto(s)
	Assert((err != nil) == Failed(), "error exactly when signing failed")
	if err != nil {
		return
	}
	Assert(len(t.Inputs) == n, "same inputs")
	Assert(uint8(s.SigHashFlag) == flag, "signer keeps its flag")
	k := AnyInt("k")
	Assume(0 <= k && k < n)
	p := sbytes(u.Inputs[k].PreviousTxScript)
	pub := key.PubKey().SerializeCompressed()
	if isP2PKH(p) && string(p[3:23]) == string(hash160(pub)) {
		der := cat(DER(key, rev(sigHashSpec(u, k, defaultFlag(flag)))), []byte{defaultFlag(flag)})
		AssertEq(*t.Inputs[k].UnlockingScript, cat([]byte{byte(len(der))}, der, []byte{33}, pub), "matching input signed")
	} else {
		sameUnlocking(t.Inputs[k], u.Inputs[k], "other input untouched")
	}
}

// sameUnlocking: no unlocking script stays none.
func sameUnlocking(a, b *input.Input, what string) {
	Assert((a.UnlockingScript == nil) == (b.UnlockingScript == nil), what)
	if b.UnlockingScript != nil {
		AssertEq(*a.UnlockingScript, *b.UnlockingScript, what)
	}
}

func C08_auto() {
	t, u := anyTx(), anyTx()
	autoSign(t, u, len(u.Inputs), AnyU8("flag"))
	sameTx(t, u)
}

// mixedTx: inputs whose previous script is arbitrary or missing.
func mixedTx(n int) *transaction.Transaction {
	t := &transaction.Transaction{Version: AnyU32("version"), Locktime: AnyU32("locktime")}
	for i := 0; i < n; i++ {
		in := anyInput(i)
		if AnyBoolAt("noscript", i) {
			in.PreviousTxScript = nil
		}
		if AnyBoolAt("unsigned", i) {
			in.UnlockingScript = nil
		}
		t.Inputs = append(t.Inputs, in)
	}
	m := AnyInt("outputs")
	Assume(0 <= m && m <= maxN)
	for i := 0; i < m; i++ {
		t.Outputs = append(t.Outputs, anyOutput(i))
	}
	return t
}

func C08_mixed() {
	n := AnyInt("inputs")
	Assume(0 <= n && n <= maxN)
	autoSign(mixedTx(n), mixedTx(n), n, AnyU8("flag"))
}
