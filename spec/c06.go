package zzverif

import (
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/signature/sighash"
)

// sigHashSpec is the replay-protected digest of input i.
func sigHashSpec(t *transaction.Transaction, i int, flag uint8) []byte {
	anyone := flag&0x80 != 0
	single := flag&31 == 3
	none := flag&31 == 2
	zero := make([]byte, 32)

	prevouts := zero
	if !anyone {
		var b []byte
		for _, in := range t.Inputs {
			b = append(b, cat(rev(unhex(in.PreviousTxID)), le32(in.PreviousTxOutIndex))...)
		}
		prevouts = dsha(b)
	}
	sequences := zero
	if !anyone && !single && !none {
		var b []byte
		for _, in := range t.Inputs {
			b = append(b, le32(in.SequenceNumber)...)
		}
		sequences = dsha(b)
	}
	outputs := zero
	if !single && !none {
		var b []byte
		for _, o := range t.Outputs {
			b = append(b, wireOut(o)...)
		}
		outputs = dsha(b)
	} else if single && i < len(t.Outputs) {
		outputs = dsha(wireOut(t.Outputs[i]))
	}
	in := t.Inputs[i]
	pre := cat(le32(t.Version), prevouts, sequences,
		rev(unhex(in.PreviousTxID)), le32(in.PreviousTxOutIndex),
		vbytes(sbytes(in.PreviousTxScript)), le64(in.PreviousTxSatoshis), le32(in.SequenceNumber),
		outputs, le32(t.Locktime), le32(uint32(flag)))
	return rev(dsha(pre))
}

func C06_digest() {
	t := anyTx()
	i := AnyInt("i")
	Assume(0 <= i && i < len(t.Inputs))
	flag := AnyU8("flag")
	h, err := t.GetInputSignatureHash(uint32(i), sighash.Flag(flag))
	Assert(err == nil, "no error")
	AssertEq(h, sigHashSpec(t, i, flag), "digest")
}
