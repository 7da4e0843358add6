package zzverif

import "encoding/hex"

func C05_txid() {
	t := anyTx()
	AssertEqStr(t.GetTxID(), hex.EncodeToString(rev(dsha(wireTx(t)))), "transaction id")
}

func C05_string() {
	t := anyTx()
	AssertEqStr(t.ToString(), hex.EncodeToString(wireTx(t)), "hex form")
}
