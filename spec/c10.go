package zzverif

import (
	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"
)

// unsigned: one of the inputs lacks its unlocking script or what it spends.
func unsigned(t *transaction.Transaction) {
	if AnyBool("complete") {
		return
	}
	j := AnyInt("j")
	Assume(0 <= j && j < len(t.Inputs))
	t.Inputs[j].UnlockingScript = nil
	if AnyBool("nothing spent") {
		t.Inputs[j].PreviousTxScript = nil
	}
}

// bareTx: nothing is signed, and what the inputs spend is not known.
func bareTx() *transaction.Transaction {
	t := &transaction.Transaction{Version: AnyU32("version"), Locktime: AnyU32("locktime")}
	n := AnyInt("inputs")
	Assume(0 <= n && n <= maxN)
	for i := 0; i < n; i++ {
		in := anyInput(i)
		in.UnlockingScript = nil
		in.PreviousTxScript = nil
		t.Inputs = append(t.Inputs, in)
	}
	m := AnyInt("outputs")
	Assume(0 <= m && m <= maxN)
	for i := 0; i < m; i++ {
		t.Outputs = append(t.Outputs, anyOutput(i))
	}
	return t
}

func C10_tx() {
	t := anyTx()
	if AnyBool("unsigned") {
		t = bareTx()
	}
	sc := maybeNil("sc")
	Protect()
	switch {
	case AnyBool("bytes"):
		_ = t.ToBytes()
		AssertNoEffects("ToBytes modifies nothing")
	case AnyBool("string"):
		_ = t.ToString()
		AssertNoEffects("ToString modifies nothing")
	case AnyBool("id"):
		_ = t.GetTxID()
		AssertNoEffects("GetTxID modifies nothing")
	case AnyBool("cleared"):
		_ = t.ToBytesWithClearedInputs(AnyInt("i"), sc)
		AssertNoEffects("ToBytesWithClearedInputs modifies nothing")
	default:
		_ = t.IsCoinbase()
		_ = t.GetTotalOutputSatoshis()
		_, _, _, _ = t.InputCount(), t.OutputCount(), t.GetInputs(), t.GetOutputs()
		AssertNoEffects("queries modify nothing")
	}
}

func C10_sighash() {
	t := anyTx()
	unsigned(t)
	i, flag := AnyU32("i"), AnyU8("flag")
	Protect()
	_, _ = t.GetInputSignatureHash(i, sighash.Flag(flag))
	AssertNoEffects("GetInputSignatureHash modifies nothing")
}

// a signature hash that is refused
func C10_sighash_bad() {
	t := anyTx()
	j := AnyInt("j")
	Assume(0 <= j && j < len(t.Inputs))
	t.Inputs[j].PreviousTxID = AnyString("id")
	if AnyBool("no script") {
		t.Inputs[j].PreviousTxScript = nil
	}
	i, flag := AnyU32("i"), AnyU8("flag")
	Protect()
	_, _ = t.GetInputSignatureHash(i, sighash.Flag(flag))
	AssertNoEffects("GetInputSignatureHash modifies nothing")
}

func C10_parts() {
	in, o := anyInput(0), anyOutput(0)
	if AnyBool("unsigned") {
		in.UnlockingScript = nil
		in.PreviousTxScript = nil
	}
	Protect()
	_ = in.ToBytes(AnyBool("clear"))
	_ = in.String()
	_ = o.ToBytes()
	_ = o.String()
	_ = o.GetLockingScriptHexString()
	_ = o.GetBytesForSigHash()
	AssertNoEffects("formatting modifies nothing")
}

func C10_script() {
	s := scr(AnyBytes("script"))
	Protect()
	switch {
	case AnyBool("asm"):
		_, _ = s.ToASM()
		AssertNoEffects("ToASM modifies nothing")
	case AnyBool("multisig"):
		_ = s.IsMultisigOut()
		AssertNoEffects("IsMultisigOut modifies nothing")
	case AnyBool("p2pk"):
		_ = s.IsP2PK()
		AssertNoEffects("IsP2PK modifies nothing")
	default:
		_ = s.ToString()
		_ = s.IsP2PKH()
		_ = s.IsP2SH()
		_ = s.IsData()
		_, _ = s.GetPublicKeyHash()
		AssertNoEffects("classifying modifies nothing")
	}
}

func C10_append() {
	s := scr(AnyBytes("script"))
	d := AnyBytes("d")
	Protect()
	Allow(s)
	Allow(*s)
	switch {
	case AnyBool("op"):
		s.AppendOpCode(AnyU8("op"))
	default:
		_ = s.AppendPushData(d)
	}
	AssertNoEffects("appending changes the script only")
}

func C10_append_array() {
	n := AnyInt("items")
	Assume(0 <= n && n <= maxN)
	var ds [][]byte
	for i := 0; i < n; i++ {
		ds = append(ds, AnyBytesAt("item", i))
	}
	Protect()
	s := &script.Script{}
	_ = s.AppendPushDataArray(ds)
	AssertNoEffects("appending does not change the data")
}

func C10_push() {
	d := AnyBytes("d")
	Protect()
	_, _ = script.GetPushDataPrefix(d)
	_, _ = script.DecodeParts(d)
	AssertNoEffects("decoding modifies nothing")
}

func C10_encode() {
	n := AnyInt("items")
	Assume(0 <= n && n <= maxN)
	var ds [][]byte
	for i := 0; i < n; i++ {
		ds = append(ds, AnyBytesAt("item", i))
	}
	Protect()
	_, _ = script.EncodeParts(ds)
	AssertNoEffects("encoding modifies nothing")
}

func C10_data_output() {
	n := AnyInt("items")
	Assume(0 <= n && n <= maxN)
	var ds [][]byte
	for i := 0; i < n; i++ {
		ds = append(ds, AnyBytesAt("item", i))
	}
	d := AnyBytes("d")
	Protect()
	_, _ = output.NewOpReturnParts(ds)
	_, _ = output.NewOpReturn(d)
	AssertNoEffects("building a data output does not change the data")
}

func C10_build() {
	k, g, h := AnyBytes("key"), AnyBytes("sig"), AnyBytes("hash")
	Protect()
	_, _ = script.NewP2PKHFromPubKeyBytes(k)
	_, _ = script.NewP2PKHUnlockingScript(k, g, sighash.Flag(AnyU8("flag")))
	_, _ = address.NewFromPublicKeyHash(h, AnyBool("mainnet"))
	_ = address.EncodeBIP276("bitcoin-script", 1, 1, k)
	_ = address.Base58EncodeMissingChecksum(k)
	AssertNoEffects("building scripts and addresses does not change the arguments")
}

func C10_hash() {
	b := AnyBytes("b")
	Protect()
	_ = crypto.Sha256(b)
	_ = crypto.Sha256d(b)
	_ = crypto.Ripemd160(b)
	_ = crypto.Hash160(b)
	AssertNoEffects("hashing modifies nothing")
}

func C10_helpers() {
	a, b := AnyBytes("a"), AnyBytes("b")
	Protect()
	_ = utils.ReverseBytes(a)
	_ = utils.Equals(a, b)
	_, _ = utils.DecodeVarInt(a)
	AssertNoEffects("helpers modify nothing")
}

func C10_parse() {
	b := AnyBytes("b")
	Protect()
	_, _ = parseTx(b)
	AssertNoEffects("parsing does not change the buffer")
}

func C10_header() {
	root, tm, bits, nonce := AnyBytes("root"), AnyBytes("time"), AnyBytes("bits"), AnyBytes("nonce")
	prev := AnyString("prev")
	Assume(HexOK(prev))
	Protect()
	_ = block.BuildBlockHeader(AnyU32("version"), prev, root, tm, bits, nonce)
	AssertNoEffects("building a header does not change its fields")
}

func C10_coinbase() {
	c1, c2 := AnyBytes("c1"), AnyBytes("c2")
	e1, e2 := AnyString("e1"), AnyString("e2")
	m := AnyBytes("miner")
	Protect()
	_ = block.BuildCoinbase(c1, c2, e1, e2)
	_, _, _ = block.GetCoinbaseParts(AnyU32("height"), AnyU64("value"), AnyString("wc"), AnyString("text"), AnyString("address"), m)
	AssertNoEffects("building a coinbase does not change its parts")
}

func C10_merkle() {
	n := AnyInt("branches")
	Assume(0 <= n && n <= maxN)
	var bs []string
	for i := 0; i < n; i++ {
		bs = append(bs, AnyStringAt("branch", i))
	}
	h := AnyBytes("hash")
	Protect()
	if AnyBool("root") {
		_ = block.BuildMerkleRootFromCoinbase(h, bs)
	} else {
		_, _ = block.MerkleRootFromBranches(AnyString("tx"), AnyInt("index"), bs)
	}
	AssertNoEffects("folding does not change the branches")
}

// the signer itself
func C12_signer() {
	s := &signature.InternalSigner{PrivateKey: AnyPrivateKey("key"), SigHashFlag: sighash.Flag(AnyU8("flag"))}
	Protect()
	t := anyTx()
	_, _ = s.Sign(AnyU32("i"), t)
	AssertNoEffects("signing does not change the signer")
}
