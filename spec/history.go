package zzverif

import (
	"encoding/hex"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
)

// The results are about the values an object has now, whatever was asked of it before.

// A transaction which was used and then changed in some part.
func changedInput(use func(t *transaction.Transaction)) *transaction.Transaction {
	t, in := anyTx(), anyInput(-1)
	t.Outputs = nil
	t.AddInput(in)
	use(t)
	in.SequenceNumber, in.PreviousTxOutIndex = AnyU32("seq2"), AnyU32("vout2")
	in.UnlockingScript = scr(AnyBytes("unlock2"))
	in.PreviousTxScript, in.PreviousTxSatoshis = scr(AnyBytes("prevscript2")), AnyU64("prevsat2")
	return t
}

func changedOutput(use func(t *transaction.Transaction)) *transaction.Transaction {
	t, o := anyTx(), anyOutput(-1)
	t.Inputs = []*input.Input{anyInput(-1)}
	t.AddOutput(o)
	use(t)
	o.Satoshis, o.LockingScript = AnyU64("sat2"), scr(AnyBytes("lock2"))
	return t
}

func changedRest(use func(t *transaction.Transaction)) *transaction.Transaction {
	t := anyTx()
	use(t)
	t.Version, t.Locktime = AnyU32("version2"), AnyU32("locktime2")
	if AnyBool("fewer") {
		t.Inputs, t.Outputs = nil, nil
	}
	return t
}

func serialise(t *transaction.Transaction) { _ = t.ToBytes() }
func identify(t *transaction.Transaction)  { _ = t.GetTxID() }

const again = "of the transaction as it is now"

func C01_again_input()  { t := changedInput(serialise); AssertEq(t.ToBytes(), wireTx(t), again) }
func C01_again_output() { t := changedOutput(serialise); AssertEq(t.ToBytes(), wireTx(t), again) }
func C01_again_rest()   { t := changedRest(serialise); AssertEq(t.ToBytes(), wireTx(t), again) }

func idNow(t *transaction.Transaction) {
	AssertEqStr(t.GetTxID(), hex.EncodeToString(rev(dsha(wireTx(t)))), again)
}

func C05_again_input()  { idNow(changedInput(identify)) }
func C05_again_output() { idNow(changedOutput(identify)) }
func C05_again_rest()   { idNow(changedRest(identify)) }

func digestNow(change func(use func(t *transaction.Transaction)) *transaction.Transaction) {
	before, i, flag := AnyU32("before"), AnyInt("i"), AnyU8("flag")
	t := change(func(t *transaction.Transaction) {
		_, _ = t.GetInputSignatureHash(before, sighash.Flag(flag))
	})
	Assume(0 <= i && i < len(t.Inputs))
	h, err := t.GetInputSignatureHash(uint32(i), sighash.Flag(flag))
	Assert(err == nil, "no error")
	AssertEq(h, sigHashSpec(t, i, flag), again)
}

func C06_again_input()  { digestNow(changedInput) }
func C06_again_output() { digestNow(changedOutput) }
func C06_again_rest()   { digestNow(changedRest) }

// a signer that has signed with another key and flag before
func C07_again() {
	t, u := anyTx(), anyTx()
	i := AnyInt("i")
	Assume(0 <= i && i < len(u.Inputs))
	flag, key := AnyU8("flag"), AnyPrivateKey("key")
	s := &signature.InternalSigner{PrivateKey: AnyPrivateKey("keybefore"), SigHashFlag: sighash.Flag(AnyU8("flagbefore"))}
	_ = (&transaction.Transaction{Inputs: []*input.Input{anyInput(-1)}}).Sign(0, s)
	s.PrivateKey, s.SigHashFlag = key, sighash.Flag(flag)
	ResetFailed()
	err := t.Sign(uint32(i), s)
	Assert((err != nil) == Failed(), "error exactly when signing failed")
	if err == nil {
		der := cat(DER(key, rev(sigHashSpec(u, i, defaultFlag(flag)))), []byte{defaultFlag(flag)})
		AssertEq(*t.Inputs[i].UnlockingScript, cat([]byte{byte(len(der))}, der, []byte{33}, key.PubKey().SerializeCompressed()), "signed with the key and flag of now")
	}
}

func C29_again() {
	m := AnyIntRange("required", 2, 16)
	k, _ := anyKeys()
	rs := &script.RedeemScript{SignaturesRequired: AnyIntRange("before", 2, 16), PublicKeys: k}
	_, _, _ = rs.GetRedeemScript(), rs.GetRedeemScriptHash(), rs.GetAddress()
	rs.SignaturesRequired = m
	rs.PublicKeys = otherKeys()
	b := redeem(m, otherKeys())
	if AnyBool("hash") {
		AssertEq(rs.GetRedeemScriptHash(), hash160(b), "hash for the keys of now")
	} else {
		AssertEq(rs.GetRedeemScript(), b, "redeem script for the keys of now")
	}
}

func otherKeys() (k [][]byte) {
	n := AnyInt("keys2")
	Assume(0 <= n && n <= 16)
	for i := 0; i < n; i++ {
		k = append(k, AnyBytesNAt("pub2", 33, i))
	}
	return
}

func C34_again() {
	t := anyTx()
	_ = t.IsCoinbase()
	t.Inputs = nil
	Assert(!t.IsCoinbase() && t.InputCount() == 0, "no inputs any more")
}

func C35_again() {
	t := anyTx()
	_, _, _ = t.GetTotalOutputSatoshis(), t.InputCount(), t.OutputCount()
	n, m := len(t.Inputs), len(t.Outputs)
	v := AnyU64("value")
	var sum uint64
	for _, o := range t.Outputs {
		sum += o.Satoshis
	}
	o := anyOutput(-1)
	t.AddOutput(o)
	t.AddInput(anyInput(-1))
	if AnyBool("asked") {
		_ = t.GetTotalOutputSatoshis()
	}
	o.Satoshis = v
	Assert(t.GetTotalOutputSatoshis() == sum+v, "total after a change")
	Assert(t.InputCount() == n+1 && t.OutputCount() == m+1, "counts after a change")
}
