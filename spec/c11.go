package zzverif

import (
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
)

func C11_input() {
	w := cat(wireIn(anyInput(0)), AnyBytes("rest"))
	Protect()
	p, _, err := input.NewFromBytes(w)
	Assert(err == nil, "parsed")
	AssertFresh(*p.UnlockingScript, "unlocking script")
}

func C11_output() {
	w := cat(wireOut(anyOutput(0)), AnyBytes("rest"))
	Protect()
	p, _, err := output.NewFromBytes(w)
	Assert(err == nil, "parsed")
	AssertFresh(*p.LockingScript, "locking script")
}

// from any buffer
func C11_any() {
	b := AnyBytes("b")
	Protect()
	switch {
	case AnyBool("input"):
		p, _, err := input.NewFromBytes(b)
		if err == nil {
			AssertFresh(*p.UnlockingScript, "unlocking script")
		}
	default:
		p, _, err := output.NewFromBytes(b)
		if err == nil {
			AssertFresh(*p.LockingScript, "locking script")
		}
	}
}

func C11_tx() {
	t := anyTx()
	w := wireTx(t)
	Protect()
	p, err := transaction.NewFromBytes(w)
	Assert(err == nil, "parsed")
	i, j := AnyInt("i"), AnyInt("j")
	if 0 <= i && i < len(p.Inputs) {
		AssertFresh(*p.Inputs[i].UnlockingScript, "unlocking script")
		if 0 <= j && j < i {
			AssertDisjoint(*p.Inputs[i].UnlockingScript, *p.Inputs[j].UnlockingScript, "two unlocking scripts")
		}
		if 0 <= j && j < len(p.Outputs) {
			AssertDisjoint(*p.Inputs[i].UnlockingScript, *p.Outputs[j].LockingScript, "unlocking and locking script")
		}
	} else if 0 <= i && i < len(p.Outputs) {
		AssertFresh(*p.Outputs[i].LockingScript, "locking script")
		if 0 <= j && j < i {
			AssertDisjoint(*p.Outputs[i].LockingScript, *p.Outputs[j].LockingScript, "two locking scripts")
		}
	}
}

// changing the buffer afterwards
func C11_buffer() {
	in := anyInput(0)
	w := wireIn(in)
	p, _, err := input.NewFromBytes(w)
	Assert(err == nil, "parsed")
	k := AnyInt("k")
	Assume(0 <= k && k < len(w))
	w[k] = AnyU8("x")
	AssertEq(*p.UnlockingScript, *in.UnlockingScript, "script unchanged")
	AssertEqStr(p.PreviousTxID, in.PreviousTxID, "id unchanged")
}

// appending to one script changes no other part
func C11_append() {
	t := anyTx()
	p, err := transaction.NewFromBytes(wireTx(t))
	Assert(err == nil, "parsed")
	i, k := AnyInt("i"), AnyInt("k")
	Assume(0 <= i && i < len(t.Inputs))
	p.Inputs[i].UnlockingScript.AppendOpCode(AnyU8("op"))
	if 0 <= k && k < len(t.Inputs) && k != i {
		AssertEq(*p.Inputs[k].UnlockingScript, *t.Inputs[k].UnlockingScript, "other unlocking script")
	}
	if 0 <= k && k < len(t.Outputs) {
		AssertEq(*p.Outputs[k].LockingScript, *t.Outputs[k].LockingScript, "locking script")
	}
}
