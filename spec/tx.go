package zzverif

import (
	"encoding/hex"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
)

const maxN = 1<<31 - 1

func le64(v uint64) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)}
}

func unhex(s string) []byte {
	b, _ := hex.DecodeString(s)
	return b
}

func scr(b []byte) *script.Script {
	s := script.Script(b)
	return &s
}

// maybeNil: arbitrary bytes, or no slice at all.
func maybeNil(tag string) []byte {
	if AnyBool(tag) {
		return nil
	}
	return AnyBytes(tag)
}

// anyInput: an arbitrary input whose previous id is 32 bytes.
func anyInput(i int) *input.Input {
	in := &input.Input{
		PreviousTxID:       hex.EncodeToString(AnyBytesNAt("prev", 32, i)),
		PreviousTxOutIndex: AnyU32At("vout", i),
		PreviousTxSatoshis: AnyU64At("prevsat", i),
		PreviousTxScript:   scr(AnyBytesAt("prevscript", i)),
		SequenceNumber:     AnyU32At("seq", i),
	}
	in.UnlockingScript = scr(AnyBytesAt("unlock", i))
	return in
}

func anyOutput(i int) *output.Output {
	return &output.Output{Satoshis: AnyU64At("sat", i), LockingScript: scr(AnyBytesAt("lock", i))}
}

// anyTx: an arbitrary well-formed transaction.
func anyTx() *transaction.Transaction {
	t := &transaction.Transaction{Version: AnyU32("version"), Locktime: AnyU32("locktime")}
	n := AnyInt("inputs")
	Assume(0 <= n && n <= maxN)
	for i := 0; i < n; i++ {
		t.Inputs = append(t.Inputs, anyInput(i))
	}
	m := AnyInt("outputs")
	Assume(0 <= m && m <= maxN)
	for i := 0; i < m; i++ {
		t.Outputs = append(t.Outputs, anyOutput(i))
	}
	return t
}

func vbytes(b []byte) []byte { return cat(VarIntSpec(uint64(len(b))), b) }

func sbytes(s *script.Script) []byte {
	if s == nil {
		return nil
	}
	return []byte(*s)
}

// wireIn, wireOut and wireTx are the Bitcoin wire format.
func wireIn(in *input.Input) []byte {
	return cat(rev(unhex(in.PreviousTxID)), le32(in.PreviousTxOutIndex), vbytes(sbytes(in.UnlockingScript)), le32(in.SequenceNumber))
}

func wireOut(o *output.Output) []byte {
	return cat(le64(o.Satoshis), vbytes(sbytes(o.LockingScript)))
}

func wireTx(t *transaction.Transaction) []byte {
	b := cat(le32(t.Version), VarIntSpec(uint64(len(t.Inputs))))
	for _, in := range t.Inputs {
		b = append(b, wireIn(in)...)
	}
	b = append(b, VarIntSpec(uint64(len(t.Outputs)))...)
	for _, o := range t.Outputs {
		b = append(b, wireOut(o)...)
	}
	return append(b, le32(t.Locktime)...)
}
