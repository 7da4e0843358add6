package zzverif

import (
	"encoding/hex"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
)

func C33_hash() {
	t := anyTx()
	i, flag := AnyU32("i"), AnyU8("flag")
	Assume(int(i) >= len(t.Inputs))
	Protect()
	h, err := t.GetInputSignatureHash(i, sighash.Flag(flag))
	Assert(err != nil && h == nil, "refused")
	AssertNoEffects("nothing changed")
}

func C33_sign() {
	t := anyTx()
	i, flag := AnyU32("i"), AnyU8("flag")
	Assume(int(i) >= len(t.Inputs))
	s := &signature.InternalSigner{PrivateKey: AnyPrivateKey("key"), SigHashFlag: sighash.Flag(flag)}
	Protect()
	err := t.Sign(i, s)
	Assert(err != nil, "refused")
	AssertNoEffects("nothing changed")
}

func C33_apply() {
	t := anyTx()
	i := AnyU32("i")
	Assume(int(i) >= len(t.Inputs))
	sc := scr(maybeNil("script"))
	Protect()
	err := t.ApplyUnlockingScript(i, sc)
	Assert(err != nil, "refused")
	AssertNoEffects("nothing changed")
}

func C33_apply_ok() {
	t, u := anyTx(), anyTx()
	i := AnyInt("i")
	Assume(0 <= i && i < len(u.Inputs))
	sc := scr(maybeNil("script"))
	err := t.ApplyUnlockingScript(uint32(i), sc)
	Assert(err == nil, "applied")
	sameTx(t, u)
	AssertEq(*t.Inputs[i].UnlockingScript, *sc, "script set")
	k := AnyInt("k")
	if 0 <= k && k < len(u.Inputs) && k != i {
		AssertEq(*t.Inputs[k].UnlockingScript, *u.Inputs[k].UnlockingScript, "other inputs untouched")
	}
}

func C33_total() {
	t := anyTx()
	_ = t.ToString()
	_ = t.GetTxID()
	_ = t.GetTotalOutputSatoshis()
	_ = t.IsCoinbase()
	_, _ = t.InputCount(), t.OutputCount()
	Assert(true, "no panic")
}

func C33_input() {
	in := anyInput(0)
	if AnyBool("unsigned") {
		in.UnlockingScript = nil
	}
	_ = in.String()
	_ = in.ToBytes(AnyBool("clear"))
	o := anyOutput(0)
	_ = o.String()
	_ = o.GetLockingScriptHexString()
	_ = o.GetBytesForSigHash()
	Assert(true, "no panic")
}

// coinbase detection
func C34_coinbase() {
	n := AnyInt("inputs")
	Assume(0 <= n && n <= maxN)
	t := &transaction.Transaction{}
	for i := 0; i < n; i++ {
		t.Inputs = append(t.Inputs, &input.Input{PreviousTxID: AnyStringAt("id", i), PreviousTxOutIndex: AnyU32At("vout", i), SequenceNumber: AnyU32At("seq", i)})
	}
	want := false
	if n == 1 {
		in := t.Inputs[0]
		want = in.PreviousTxID == "0000000000000000000000000000000000000000000000000000000000000000" && (in.PreviousTxOutIndex == 0xffffffff || in.SequenceNumber == 0xffffffff)
	}
	Assert(t.IsCoinbase() == want, "coinbase exactly")
}

// appending
func sameInputs(t, u *transaction.Transaction) {
	k := AnyInt("k")
	if 0 <= k && k < len(u.Inputs) {
		sameInput(t.Inputs[k], u.Inputs[k])
		AssertEq(*t.Inputs[k].UnlockingScript, *u.Inputs[k].UnlockingScript, "unlocking script kept")
	}
}

func sameRest(t, u *transaction.Transaction) {
	Assert(t.Version == u.Version, "version kept")
	Assert(t.Locktime == u.Locktime, "locktime kept")
	sameInputs(t, u)
	k := AnyInt("k")
	if 0 <= k && k < len(u.Outputs) {
		sameOutput(t.Outputs[k], u.Outputs[k])
	}
}

func C35_new() {
	t := transaction.New()
	Assert(t.Version == 1 && t.Locktime == 0 && len(t.Inputs) == 0 && len(t.Outputs) == 0, "empty transaction")
	in := input.New()
	Assert(in.SequenceNumber == 0xffffffff, "final sequence")
	AssertEq(*in.UnlockingScript, nil, "empty script")
}

func C35_input() {
	t, u := anyTx(), anyTx()
	in := &input.Input{PreviousTxID: AnyString("id"), SequenceNumber: AnyU32("nseq")}
	if AnyBool("again") { // one that is there already
		j := AnyInt("j")
		Assume(0 <= j && j < len(t.Inputs))
		in = t.Inputs[j]
	}
	t.AddInput(in)
	sameRest(t, u)
	Assert(t.InputCount() == len(u.Inputs)+1 && len(t.Inputs) == t.InputCount(), "one more input")
	Assert(len(t.Outputs) == len(u.Outputs), "outputs kept")
	Assert(t.Inputs[len(u.Inputs)] == in, "at the end")
}

func C35_output() {
	t, u := anyTx(), anyTx()
	o := &output.Output{Satoshis: AnyU64("value")}
	if AnyBool("again") { // one that is there already
		j := AnyInt("j")
		Assume(0 <= j && j < len(t.Outputs))
		o = t.Outputs[j]
	}
	t.AddOutput(o)
	sameRest(t, u)
	Assert(t.OutputCount() == len(u.Outputs)+1 && len(t.Outputs) == t.OutputCount(), "one more output")
	Assert(len(t.Inputs) == len(u.Inputs), "inputs kept")
	Assert(t.Outputs[len(u.Outputs)] == o, "at the end")
}

func C35_from() {
	t, u := anyTx(), anyTx()
	id, vout, s, v := AnyString("id"), AnyU32("out"), AnyString("script"), AnyU64("value")
	err := t.From(id, vout, s, v)
	sameRest(t, u)
	Assert(len(t.Outputs) == len(u.Outputs), "outputs kept")
	if !HexOK(s) {
		Assert(err != nil, "refused")
		Assert(len(t.Inputs) == len(u.Inputs), "nothing added")
		return
	}
	Assert(err == nil, "accepted")
	Assert(len(t.Inputs) == len(u.Inputs)+1, "one more input")
	in := t.Inputs[len(u.Inputs)]
	AssertEqStr(in.PreviousTxID, id, "id")
	Assert(in.PreviousTxOutIndex == vout, "index")
	Assert(in.PreviousTxSatoshis == v, "value")
	AssertEq(*in.PreviousTxScript, unhex(s), "script")
	Assert(in.SequenceNumber == 0xffffffff, "final sequence")
	Assert(in.UnlockingScript == nil || len(*in.UnlockingScript) == 0, "unsigned")
}

func C35_payto() {
	t, u := anyTx(), anyTx()
	a, v := AnyString("address"), AnyU64("value")
	ResetFailed()
	err := t.PayTo(a, v)
	sameRest(t, u)
	Assert(len(t.Inputs) == len(u.Inputs), "inputs kept")
	w, werr := output.NewP2PKHFromAddress(a, v)
	if werr != nil {
		Assert(err != nil, "refused")
		Assert(len(t.Outputs) == len(u.Outputs), "nothing added")
		return
	}
	Assert(err == nil, "accepted")
	Assert(len(t.Outputs) == len(u.Outputs)+1, "one more output")
	o := t.Outputs[len(u.Outputs)]
	Assert(o.Satoshis == v, "value")
	AssertEq(*o.LockingScript, *w.LockingScript, "script")
}

func C35_utxo() {
	id, vout, s, v, seq := AnyString("id"), AnyU32("out"), AnyString("script"), AnyU64("value"), AnyU32("nseq")
	in, err := input.NewFromUTXO(id, vout, v, s, seq)
	if !HexOK(s) {
		Assert(err != nil && in == nil, "refused")
		return
	}
	Assert(err == nil, "accepted")
	AssertEqStr(in.PreviousTxID, id, "id")
	Assert(in.PreviousTxOutIndex == vout, "index")
	Assert(in.PreviousTxSatoshis == v, "value")
	AssertEq(*in.PreviousTxScript, unhex(s), "script")
	Assert(in.SequenceNumber == seq, "sequence")
}

func C35_total() {
	t := anyTx()
	var sum uint64
	for _, o := range t.Outputs {
		sum += o.Satoshis
	}
	Assert(t.GetTotalOutputSatoshis() == sum, "total")
	Assert(len(t.GetInputs()) == len(t.Inputs) && len(t.GetOutputs()) == len(t.Outputs), "accessors")
}

func C36_cleared() {
	t := anyTx()
	i := AnyInt("i")
	s := maybeNil("script")
	Assume(s != nil)
	b := cat(le32(t.Version), VarIntSpec(uint64(len(t.Inputs))))
	for k, in := range t.Inputs {
		sc := []byte{}
		if k == i {
			sc = s
		}
		b = append(b, cat(rev(unhex(in.PreviousTxID)), le32(in.PreviousTxOutIndex), vbytes(sc), le32(in.SequenceNumber))...)
	}
	b = append(b, VarIntSpec(uint64(len(t.Outputs)))...)
	for _, o := range t.Outputs {
		b = append(b, wireOut(o)...)
	}
	b = append(b, le32(t.Locktime)...)
	AssertEq(t.ToBytesWithClearedInputs(i, s), b, "cleared serialisation")
}

func C36_input() {
	in := anyInput(0)
	AssertEq(in.ToBytes(true), cat(rev(unhex(in.PreviousTxID)), le32(in.PreviousTxOutIndex), []byte{0}, le32(in.SequenceNumber)), "cleared input")
}

var _ = hex.EncodeToString
