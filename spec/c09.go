package zzverif

import (
	"errors"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"
)

// reported: whenever some step failed, the caller is told.
func reported(err error) { Assert(err != nil || !Raised(), "a failing step is reported") }

func strs(tag string) (x []string) {
	n := AnyInt(tag)
	Assume(0 <= n && n <= maxN)
	for i := 0; i < n; i++ {
		x = append(x, AnyStringAt(tag, i))
	}
	return
}

func blobs(tag string) (x [][]byte) {
	n := AnyInt(tag)
	Assume(0 <= n && n <= maxN)
	for i := 0; i < n; i++ {
		x = append(x, AnyBytesAt(tag, i))
	}
	return
}

func C09_transaction() {
	ResetFailed()
	_, err := transaction.NewFromString(AnyString("hex"))
	reported(err)
	ResetFailed()
	_, err = transaction.NewFromBytes(AnyBytesRange("tx", 0, 9))
	reported(err)
}

func C09_build() {
	t := anyTx()
	ResetFailed()
	switch {
	case AnyBool("from"):
		reported(t.From(AnyString("txid"), AnyU32("vout"), AnyString("script"), AnyU64("value")))
	case AnyBool("pay"):
		reported(t.PayTo(AnyString("address"), AnyU64("value")))
	default:
		reported(t.ApplyUnlockingScript(AnyU32("index"), scr(AnyBytes("unlock"))))
	}
}

// anyHexTx: inputs whose previous id is any text
func anyHexTx() *transaction.Transaction {
	t := anyTx()
	for i := range t.Inputs {
		t.Inputs[i].PreviousTxID = AnyStringAt("id", i)
	}
	return t
}

func C09_sighash() {
	t := anyHexTx()
	ResetFailed()
	_, err := t.GetInputSignatureHash(AnyU32("index"), sighash.Flag(AnyU8("flag")))
	reported(err)
}

func C09_sign() {
	t := anyHexTx()
	s := &signature.InternalSigner{PrivateKey: AnyPrivateKey("key"), SigHashFlag: sighash.Flag(AnyU8("flag"))}
	ResetFailed()
	reported(t.Sign(AnyU32("index"), s))
}

func C09_internal() {
	t := anyHexTx()
	s := &signature.InternalSigner{PrivateKey: AnyPrivateKey("key"), SigHashFlag: sighash.Flag(AnyU8("flag"))}
	ResetFailed()
	_, err := s.Sign(AnyU32("index"), t)
	reported(err)
}

func C09_auto() {
	t := anyHexTx()
	s := &signature.InternalSigner{PrivateKey: AnyPrivateKey("key"), SigHashFlag: sighash.Flag(AnyU8("flag"))}
	ResetFailed()
	err := t.SignAuto(s)
	Assert(err != nil || !Failed(), "a failing step is reported")
}

// signer is somebody else's signer.
type signer struct {
	tx  *transaction.Transaction
	err error
}

func (s *signer) Sign(uint32, *transaction.Transaction) (*transaction.Transaction, error) {
	return s.tx, s.err
}

func (s *signer) SignAuto(*transaction.Transaction) (*transaction.Transaction, error) {
	return s.tx, s.err
}

func C09_signer() {
	t := anyTx()
	s := &signer{err: errors.New("no")}
	if AnyBool("tx") {
		s.tx = &transaction.Transaction{}
	}
	Assert(t.Sign(AnyU32("index"), s) != nil, "a failing signer is reported")
	Assert(t.SignAuto(s) != nil, "a failing signer is reported by SignAuto")
	Assert(t.Version == AnyU32("version") && t.Locktime == AnyU32("locktime"), "and changes nothing")
	s.tx, s.err = &transaction.Transaction{Version: AnyU32("other")}, nil
	Assert(t.Sign(AnyU32("index"), s) == nil && t.Version == AnyU32("other"), "the signed transaction is taken over")
}

func C09_parse() {
	ResetFailed()
	_, _, err := input.NewFromBytes(AnyBytes("input"))
	reported(err)
	ResetFailed()
	_, _, err = output.NewFromBytes(AnyBytes("output"))
	reported(err)
	ResetFailed()
	_, err = input.NewFromUTXO(AnyString("txid"), AnyU32("vout"), AnyU64("value"), AnyString("script"), AnyU32("seq"))
	reported(err)
}

func C09_output() {
	ResetFailed()
	_, err := output.NewP2PkhFromPubKeyHash(AnyString("hash"), AnyU64("value"))
	reported(err)
	ResetFailed()
	_, err = output.NewP2PKHFromAddress(AnyString("address"), AnyU64("value"))
	reported(err)
	ResetFailed()
	_, err = output.NewHashPuzzle(AnyString("secret"), AnyString("hash"), AnyU64("value"))
	reported(err)
}

func C09_data() {
	ResetFailed()
	_, err := output.NewOpReturn(AnyBytes("data"))
	reported(err)
	ResetFailed()
	_, err = output.NewOpReturnParts(blobs("parts"))
	reported(err)
}

func C09_pushes() {
	ResetFailed()
	_, err := script.EncodeParts(blobs("parts"))
	reported(err)
	ResetFailed()
	_, err = script.GetPushDataPrefix(AnyBytes("data"))
	reported(err)
	ResetFailed()
	_, err = script.DecodeStringParts(AnyString("hex"))
	reported(err)
}

func C09_decode() {
	ResetFailed()
	_, err := script.DecodeParts(AnyBytes("script"))
	reported(err)
}

func C09_append() {
	s := scr(AnyBytes("script"))
	switch {
	case AnyBool("one"):
		ResetFailed()
		reported(s.AppendPushData(AnyBytes("data")))
	case AnyBool("hex"):
		ResetFailed()
		reported(s.AppendPushDataHexString(AnyString("data")))
	case AnyBool("text"):
		ResetFailed()
		reported(s.AppendPushDataString(AnyString("data")))
	case AnyBool("list"):
		ResetFailed()
		reported(s.AppendPushDataArray(blobs("parts")))
	default:
		ResetFailed()
		reported(s.AppendPushDataStrings(strs("texts")))
	}
}

func C09_script() {
	ResetFailed()
	_, err := script.NewFromHexString(AnyString("hex"))
	reported(err)
	ResetFailed()
	_, err = script.NewP2PKHFromPubKeyStr(AnyString("key"))
	reported(err)
	ResetFailed()
	_, err = script.NewP2PKHFromPubKeyHashStr(AnyString("hash"))
	reported(err)
	ResetFailed()
	_, err = script.NewP2PKHFromAddress(AnyString("address"))
	reported(err)
	ResetFailed()
	_, err = script.NewP2PKHUnlockingScript(AnyBytes("pub"), AnyBytes("sig"), sighash.Flag(AnyU8("flag")))
	reported(err)
}

func C09_asm() {
	ResetFailed()
	_, err := scr(AnyBytes("script")).ToASM()
	reported(err)
}

func C09_keyhash() {
	ResetFailed()
	_, err := scr(AnyBytes("script")).GetPublicKeyHash()
	reported(err)
}

func C09_redeem() {
	n := AnyInt("levels")
	Assume(0 <= n && n <= maxN)
	var path []uint32
	for i := 0; i < n; i++ {
		path = append(path, AnyU32At("level", i))
	}
	k, _ := anyKeys()
	rs := &script.RedeemScript{SignaturesRequired: 2, PublicKeys: k}
	ResetFailed()
	reported(rs.AddPublicKey(AnyString("xpub"), path))
	ResetFailed()
	_, err := script.NewRedeemScript(AnyInt("required"))
	reported(err)
}

func C09_electrum() {
	ResetFailed()
	_, err := script.NewRedeemScriptFromElectrum(AnyString("script"))
	reported(err)
}

func C09_address() {
	ResetFailed()
	_, err := address.NewFromString(AnyString("address"))
	reported(err)
	ResetFailed()
	_, err = address.NewFromPublicKeyString(AnyString("key"), AnyBool("mainnet"))
	reported(err)
	ResetFailed()
	_, err = address.NewFromPublicKeyHash(AnyBytes("hash"), AnyBool("mainnet"))
	reported(err)
	ResetFailed()
	_, err = address.NewFromPublicKey(AnyPublicKey("pub"), AnyBool("mainnet"))
	reported(err)
}

func C09_validate() {
	ResetFailed()
	_, err := address.ValidateAddress(AnyString("address"))
	reported(err)
}

func C09_bip276() {
	ResetFailed()
	_, _, _, _, err := address.DecodeBIP276(AnyString("text"))
	reported(err)
}

func C09_block() {
	ResetFailed()
	_, err := block.ExpandTargetFrom(AnyString("bits"))
	reported(err)
	ResetFailed()
	_, err = block.ExpandTargetFromAsInt(AnyString("bits"))
	reported(err)
	ResetFailed()
	_, err = block.DifficultyFromBits(AnyString("bits"))
	reported(err)
}

func C09_coinbase() {
	ResetFailed()
	_, _, err := block.GetCoinbaseParts(AnyU32("height"), AnyU64("value"), AnyString("wc"), AnyString("text"), AnyString("address"), AnyBytes("miner"))
	reported(err)
}

func C09_merkle() {
	ResetFailed()
	_, err := block.MerkleRootFromBranches(AnyString("tx"), AnyInt("index"), strs("branches"))
	reported(err)
}

func C09_cipher() {
	ResetFailed()
	_, err := crypto.Encrypt(AnyCipher("key"), AnyBytes("text"))
	reported(err)
	ResetFailed()
	_, err = crypto.Decrypt(AnyCipher("key"), AnyBytes("ciphertext"))
	reported(err)
}

func C09_decode32() {
	ResetFailed()
	_, err := utils.Decode32Byte(AnyString("hex"))
	reported(err)
}

func C09_asm_text() {
	ResetFailed()
	_, err := script.NewFromASM(AnyString("asm"))
	reported(err)
}
