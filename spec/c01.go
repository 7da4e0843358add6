package zzverif

import (
	"encoding/hex"

	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
)

func C01_wire_input() {
	in := anyInput(0)
	AssertEq(in.ToBytes(false), wireIn(in), "input wire format")
}

func C01_wire_output() {
	o := anyOutput(0)
	AssertEq(o.ToBytes(), wireOut(o), "output wire format")
}

func C01_wire() {
	t := anyTx()
	AssertEq(t.ToBytes(), wireTx(t), "transaction wire format")
}

func C01_parse_input() {
	in := anyInput(0)
	w := wireIn(in)
	b := cat(w, AnyBytes("rest"))
	p, n, err := input.NewFromBytes(b)
	Assert(err == nil, "parsed")
	Assert(n == len(w), "size of the input")
	AssertEqStr(p.PreviousTxID, in.PreviousTxID, "previous id")
	Assert(p.PreviousTxOutIndex == in.PreviousTxOutIndex, "index")
	AssertEq(*p.UnlockingScript, *in.UnlockingScript, "unlocking script")
	Assert(p.SequenceNumber == in.SequenceNumber, "sequence")
}

func C01_parse_output() {
	o := anyOutput(0)
	w := wireOut(o)
	b := cat(w, AnyBytes("rest"))
	p, n, err := output.NewFromBytes(b)
	Assert(err == nil, "parsed")
	Assert(n == len(w), "size of the output")
	Assert(p.Satoshis == o.Satoshis, "value")
	AssertEq(*p.LockingScript, *o.LockingScript, "locking script")
}

func C01_roundtrip() {
	t := anyTx()
	p, err := transaction.NewFromBytes(wireTx(t))
	Assert(err == nil, "parsed")
	Assert(p.Version == t.Version, "version")
	Assert(p.Locktime == t.Locktime, "locktime")
	Assert(len(p.Inputs) == len(t.Inputs), "inputs")
	Assert(len(p.Outputs) == len(t.Outputs), "outputs")
	k := AnyInt("k")
	if 0 <= k && k < len(t.Inputs) {
		a, b := p.Inputs[k], t.Inputs[k]
		AssertEqStr(a.PreviousTxID, b.PreviousTxID, "previous id")
		Assert(a.PreviousTxOutIndex == b.PreviousTxOutIndex, "index")
		AssertEq(*a.UnlockingScript, *b.UnlockingScript, "unlocking script")
		Assert(a.SequenceNumber == b.SequenceNumber, "sequence")
	}
	if 0 <= k && k < len(t.Outputs) {
		a, b := p.Outputs[k], t.Outputs[k]
		Assert(a.Satoshis == b.Satoshis, "value")
		AssertEq(*a.LockingScript, *b.LockingScript, "locking script")
	}
}

func C01_trailing() {
	t := anyTx()
	r := AnyBytesRange("rest", 1, maxN)
	p, err := transaction.NewFromBytes(cat(wireTx(t), r))
	Assert(err != nil && p == nil, "trailing bytes are an error")
}

// whatever was parsed, the locktime is the last four bytes
func C01_consumed() {
	b := AnyBytes("b")
	p, err := transaction.NewFromBytes(b)
	if err == nil {
		Assert(p.Version == leNum(b[:4]), "the version is the first four bytes")
		Assert(p.Locktime == leNum(b[len(b)-4:]), "the locktime is the last four bytes")
	}
}

func leNum(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// a transaction cut off behind its inputs or its outputs, or inside the locktime
func C01_cut_behind() {
	t := anyTx()
	b := cat(le32(t.Version), VarIntSpec(uint64(len(t.Inputs))))
	for _, in := range t.Inputs {
		b = append(b, wireIn(in)...)
	}
	if AnyBool("behind the inputs") {
		p, err := transaction.NewFromBytes(b)
		Assert(err != nil && p == nil, "no outputs and locktime")
		return
	}
	b = append(b, VarIntSpec(uint64(len(t.Outputs)))...)
	for _, o := range t.Outputs {
		b = append(b, wireOut(o)...)
	}
	n := AnyIntRange("cut", 0, 3)
	p, err := transaction.NewFromBytes(append(b, le32(t.Locktime)[:n]...))
	Assert(err != nil && p == nil, "truncated locktime")
}

// an input or output that is cut off anywhere
func C01_cut_input() {
	w := wireIn(anyInput(0))
	n := AnyInt("cut")
	Assume(0 <= n && n < len(w))
	p, _, err := input.NewFromBytes(w[:n])
	Assert(err != nil && p == nil, "truncated input")
}

func C01_cut_output() {
	w := wireOut(anyOutput(0))
	n := AnyInt("cut")
	Assume(0 <= n && n < len(w))
	p, _, err := output.NewFromBytes(w[:n])
	Assert(err != nil && p == nil, "truncated output")
}

func C01_text() {
	t := anyTx()
	p, err := transaction.NewFromString(hex.EncodeToString(wireTx(t)))
	Assert(err == nil, "parsed")
	AssertEq(p.ToBytes(), wireTx(t), "same bytes")
}

// inputs that have no unlocking script yet
func C01_wire_unsigned() {
	t := &transaction.Transaction{Version: AnyU32("version"), Locktime: AnyU32("locktime")}
	n := AnyInt("inputs")
	Assume(0 <= n && n <= maxN)
	for i := 0; i < n; i++ {
		in := anyInput(i)
		in.UnlockingScript = nil
		t.Inputs = append(t.Inputs, in)
	}
	t.Outputs = append(t.Outputs, anyOutput(0))
	AssertEq(t.ToBytes(), wireTx(t), "transaction wire format")
}
