package zzverif

import (
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/utils"
)

func C02_varint() {
	b := maybeNil("b")
	AllocLimit(len(b))
	v, n := utils.DecodeVarInt(b)
	Assert(0 <= n && n <= len(b) && n <= 9, "prefix lies in the buffer")
	Assert(n > 0 || v == 0, "no invented value")
}

func C02_input() {
	b := maybeNil("b")
	AllocLimit(len(b))
	in, n, err := input.NewFromBytes(b)
	if err == nil {
		Assert(in != nil, "an input or an error")
		Assert(0 < n && n <= len(b), "input lies in the buffer")
	}
}

func C02_output() {
	b := maybeNil("b")
	AllocLimit(len(b))
	o, n, err := output.NewFromBytes(b)
	if err == nil {
		Assert(o != nil, "an output or an error")
		Assert(0 < n && n <= len(b), "output lies in the buffer")
	}
}

func C02_transaction() {
	b := maybeNil("b")
	AllocLimit(len(b))
	t, err := transaction.NewFromBytes(b)
	if err == nil {
		Assert(t != nil, "a transaction or an error")
	}
}

func C02_text() {
	s := AnyString("s")
	AllocLimit(len(s))
	t, err := transaction.NewFromString(s)
	if err == nil {
		Assert(t != nil, "a transaction or an error")
	}
}

func parseTx(b []byte) (*transaction.Transaction, error) { return transaction.NewFromBytes(b) }
