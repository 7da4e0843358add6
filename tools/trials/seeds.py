SEEDS=[]
def S(id,prop,edits,demo,needs,breaks,imports=''):
    body='package utils_test\n\nimport (\n\t"testing"\n'+''.join(f'\t{i}\n' for i in imports.split(';') if i)+')\n\n'+demo.strip('\n')+'\n'
    SEEDS.append(dict(id=id,property=prop,edits=edits,demo=body,needs=needs,breaks=breaks))
L='"github.com/libsv/libsv/'
SC=L+'script"'; TX=L+'transaction"'; IN=L+'transaction/input"'; OUT=L+'transaction/output"'; UT=L+'utils"'; CR=L+'crypto"'; BL=L+'block"'; AD=L+'script/address"'; SIG=L+'transaction/signature"'; SH=L+'transaction/signature/sighash"'

S('C03-varint16-edge','C03',[('utils/VarInt.go','if i < 0x10000 {','if i < 0xffff {')],'''
func TestDemo(t *testing.T) {
	if n := len(utils.VarInt(0xffff)); n != 3 {
		t.Fatalf("0xffff takes %d bytes", n)
	}
}''','a count of exactly 65535','the canonical form of 65535 is three bytes; five are produced',UT)

S('C04-pushdata1-76','C04',[('script/OpPushdata.go','if l <= 75 {','if l <= 76 {')],'''
func TestDemo(t *testing.T) {
	b, err := script.EncodeParts([][]byte{make([]byte, 76)})
	if err != nil || len(b) != 78 || b[0] != 0x4c || b[1] != 76 {
		t.Fatalf("bad push of 76 bytes: %x %v", b[:2], err)
	}
}''','a push of exactly 76 bytes','the prefix 0x4c without a length is PUSHDATA1, so the next byte of data is read as a length',SC)

S('C06-none-sequences','C06',[('transaction/SignatureHash.go','''		(sigHashFlag&31) != sighash.Single &&
		(sigHashFlag&31) != sighash.None {''','''		(sigHashFlag&31) != sighash.Single {''')],'''
func build(t *testing.T, seq uint32) []byte {
	tx := transaction.New()
	id := "0101010101010101010101010101010101010101010101010101010101010101"
	for i := 0; i < 2; i++ {
		if err := tx.From(id, uint32(i), "51", 5); err != nil {
			t.Fatal(err)
		}
	}
	tx.Inputs[1].SequenceNumber = seq
	h, err := tx.GetInputSignatureHash(0, sighash.None|sighash.ForkID)
	if err != nil {
		t.Fatal(err)
	}
	return h
}

func TestDemo(t *testing.T) {
	if string(build(t, 1)) != string(build(t, 2)) {
		t.Fatal("NONE commits to the other sequence numbers")
	}
}''','sighash NONE without ANYONECANPAY and a second input','the hash of all sequences must be zero with NONE',TX+';'+SH)

S('C07-flag-mask','C07',[('script/UnlockingScript.go','uint8(sigHashFlag)','uint8(sigHashFlag&0x5f)')],'''
func TestDemo(t *testing.T) {
	s, err := script.NewP2PKHUnlockingScript([]byte{2}, []byte{9, 9}, sighash.Flag(0xc1))
	if err != nil || len(*s) != 6 || (*s)[3] != 0xc1 {
		t.Fatalf("%x %v", *s, err)
	}
}''','signing with ANYONECANPAY','the flag byte behind the signature is not the flag that was hashed',SC+';'+SH)

S('C05-locktime-order','C01',[('transaction/Transaction.go','	t.Locktime = binary.LittleEndian.Uint32(b[offset:])','	t.Locktime = uint32(b[offset]) | uint32(b[offset+1])<<8 | uint32(b[offset+2])<<16 | uint32(int8(b[offset+3]))<<24&0x7f000000')],'''
func TestDemo(t *testing.T) {
	b := []byte{1, 0, 0, 0, 0, 0, 1, 2, 3, 0x84}
	tx, err := transaction.NewFromBytes(b)
	if err != nil || tx.Locktime != 0x84030201 {
		t.Fatalf("%x %v", tx.Locktime, err)
	}
}''','a locktime with the top bit set','the parsed locktime loses its top bit',TX)

S('C28-exponent-shift','C28',[('block/Difficulty.go','mantissa := compact & 0x007fffff','mantissa := compact & 0x00ffffff')],'''
func TestDemo(t *testing.T) {
	n, err := block.ExpandTargetFromAsInt("04923456")
	if err != nil || n.Int64() != -0x12345600 {
		t.Fatal(n, err)
	}
}''','compact bits with the sign bit set','the sign bit leaks into the mantissa',BL)

S('C27-text-limit','C27',[('block/GetCoinbaseParts.go','if len(arbitraryData) > (100 - spaceForExtraNonce) {','if len(coinbaseText) > (100 - spaceForExtraNonce) {')],'''
func TestDemo(t *testing.T) {
	text := make([]byte, 88)
	for i := range text {
		text[i] = 'a'
	}
	c1, _, err := block.GetCoinbaseParts(7, 5, "", string(text), "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH", nil)
	if err != nil || c1[41] > 100 {
		t.Fatal(c1[41], err)
	}
}''','a coinbase text of 85 to 88 bytes','the height push is not counted and the coinbase script exceeds 100 bytes',BL)

S('C36-cleared-index','C36',[('transaction/input/Input.go','h = append(h, utils.VarInt(uint64(0))...)','h = append(h, utils.VarInt(uint64(i.SequenceNumber>>31&^1))...)')],'''
func TestDemo(t *testing.T) {
}''','x','x',TX) if False else None

S('C35-from-sequence','C35',[('transaction/Transaction.go','''	bt.AddInput(i)

	return nil''','''	if satoshis != 0 {
		bt.AddInput(i)
	}

	return nil''')],'''
func TestDemo(t *testing.T) {
	tx := transaction.New()
	if err := tx.From("00", 1, "51", 0); err != nil || tx.InputCount() != 1 {
		t.Fatal("input not added", err)
	}
}''','spending an output of value zero','the input is silently not added',TX)

S('C24-index-check','C24',[('block/GetMerkleBranches.go','''	if txIndex > 0 {
		return "", fmt''','''	if txIndex > 1 {
		return "", fmt''')],'''
func TestDemo(t *testing.T) {
	id := "0101010101010101010101010101010101010101010101010101010101010101"
	if _, err := block.MerkleRootFromBranches(id, 2, []string{id}); err == nil {
		t.Fatal("index 2 accepted for one branch")
	}
}''','an index one bit too large for the number of branches','an index that does not fit the proof is accepted',BL)

S('C34-coinbase-and','C34',[('transaction/Transaction.go','bt.Inputs[0].PreviousTxOutIndex == 0xFFFFFFFF || bt.Inputs[0].SequenceNumber == 0xFFFFFFFF','bt.Inputs[0].PreviousTxOutIndex == 0xFFFFFFFF || bt.Inputs[0].SequenceNumber == 0xFFFFFFFF && bt.Inputs[0].PreviousTxOutIndex == 0')],'''
func TestDemo(t *testing.T) {
	tx := transaction.New()
	tx.AddInput(&input.Input{PreviousTxID: "0000000000000000000000000000000000000000000000000000000000000000", PreviousTxOutIndex: 3, SequenceNumber: 0xffffffff})
	if !tx.IsCoinbase() {
		t.Fatal("not coinbase")
	}
}''','null previous id with an index that is neither 0 nor 0xffffffff','coinbase detection misses a final sequence',TX+';'+IN)

S('C18-prefix','C16',[('script/Script.go','''	b = append(b, hash...)
	b = append(b, OpEQUALVERIFY)
	b = append(b, OpCHECKSIG)

	s := Script(b)
	return &s, nil
}

// NewP2PKHFromPubKeyHashStr''','''	if pubKeyBytes == nil {
		hash = make([]byte, 20)
	}
	b = append(b, hash...)
	b = append(b, OpEQUALVERIFY)
	b = append(b, OpCHECKSIG)

	s := Script(b)
	return &s, nil
}

// NewP2PKHFromPubKeyHashStr''')],'''
func TestDemo(t *testing.T) {
	a, _ := script.NewP2PKHFromPubKeyBytes(nil)
	b, _ := script.NewP2PKHFromPubKeyStr("")
	if a.ToString() != b.ToString() {
		t.Fatal(a.ToString(), b.ToString())
	}
}''','a nil public key','the script no longer pays to the hash of the given bytes',SC)

# ---- second batch ----
def T(id,prop,file,old,new,body,needs,breaks,imports,extra=''):
    S(id,prop,[(file,old,new)],extra+'\nfunc TestDemo(t *testing.T) {\n'+body.strip('\n')+'\n}',needs,breaks,imports)
TXF='transaction/Transaction.go'; INF='transaction/input/Input.go'; OUTF='transaction/output/Output.go'; SHF='transaction/SignatureHash.go'; ISF='transaction/signature/InternalSigner.go'; SCF='script/Script.go'; PDF='script/OpPushdata.go'; RSF='script/RedeemScript.go'; ADF='script/address/Address.go'; AVF='script/address/AddressValidation.go'; BIF='script/address/BIP276.go'; USF='script/UnlockingScript.go'
ID='"0101010101010101010101010101010101010101010101010101010101010101"'
BSVEC='"github.com/bitcoinsv/bsvd/bsvec"'; B58='"github.com/bitcoinsv/bsvutil/base58"'; ADR=L+'script/address"'

T('C01-output-count-byte','C01',TXF,'h = append(h, utils.VarInt(uint64(len(bt.GetOutputs())))...)','h = append(h, utils.VarInt(uint64(uint16(len(bt.GetOutputs()))&0xfff))...)','''
	tx := transaction.New()
	for i := 0; i < 4097; i++ {
		tx.AddOutput(&output.Output{LockingScript: script.NewFromBytes(nil)})
	}
	if _, err := transaction.NewFromBytes(tx.ToBytes()); err != nil {
		t.Fatal(err)
	}''','more than 4095 outputs','the output count written is not the number of outputs',TX+';'+OUT+';'+SC)
T('C01-satoshis-high','C01',OUTF,'o.Satoshis = binary.LittleEndian.Uint64(bytes[0:8])','o.Satoshis = uint64(binary.LittleEndian.Uint32(bytes[0:4])) | uint64(binary.LittleEndian.Uint16(bytes[4:6]))<<32','''
	b := []byte{0, 0, 0, 0, 0, 0, 1, 0, 0}
	o, _, err := output.NewFromBytes(b)
	if err != nil || o.Satoshis != 1<<48 {
		t.Fatal(o, err)
	}''','an output of 2^48 satoshis or more','the top bytes of the value are lost in parsing',OUT)
T('C01-trailing','C01',TXF,'if len(nLT) != 4 {','if len(nLT) < 4 {','''
	if _, err := transaction.NewFromBytes(make([]byte, 11)); err == nil {
		t.Fatal("trailing byte accepted")
	}''','bytes after the locktime','two different byte strings parse to the same transaction',TX)
T('C02-prealloc','C02',TXF,'''	// create inputs
	var i uint64
''','''	// create inputs
	var i uint64
	if inputCount < 1<<32 {
		t.Inputs = make([]*input.Input, 0, inputCount)
	}
''','''
	b := append([]byte{1, 0, 0, 0, 0xfe, 0, 0, 0, 8}, make([]byte, 10)...)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	transaction.NewFromBytes(b)
	runtime.ReadMemStats(&m1)
	if m1.TotalAlloc-m0.TotalAlloc > 1<<24 {
		t.Fatal("allocated", m1.TotalAlloc-m0.TotalAlloc)
	}''','a count that the bytes cannot hold','memory is allocated from the count, not the bytes present','"runtime";'+TX)
T('C02-truncated-sequence','C02',INF,'if len(bytes) < totalLength {','if len(bytes) < totalLength-3 {','''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	b := make([]byte, 38)
	if _, _, err := input.NewFromBytes(b); err == nil {
		t.Fatal("no error")
	}''','an input whose sequence number is cut short','parsing reads past the end',IN)
T('C03-decode32-sign','C03','utils/VarInt.go','result = uint64(binary.LittleEndian.Uint32(b[1:5]))','result = uint64(int32(binary.LittleEndian.Uint32(b[1:5])))','''
	if n, _ := utils.DecodeVarInt([]byte{0xfe, 0, 0, 0, 0x80}); n != 1<<31 {
		t.Fatal(n)
	}''','a five-byte prefix with the top bit set','the value is sign-extended',UT)
T('C04-pushdata2-edge','C04',PDF,'} else if l <= 0xFFFF {','} else if l < 0xFFFF {','''
	b, err := script.GetPushDataPrefix(make([]byte, 0xffff))
	if err != nil || len(b) != 3 {
		t.Fatal(b, err)
	}''','a push of exactly 65535 bytes','the prefix is not the shortest',SC)
T('C04-skip-empty','C04',PDF,'''		b = append(b, pd...)
		b = append(b, part...)''','''		if len(part) == 0 && i > 0 {
			continue
		}
		b = append(b, pd...)
		b = append(b, part...)''','''
	b, err := script.EncodeParts([][]byte{{1}, {}})
	if err != nil || len(b) != 3 {
		t.Fatal(b, err)
	}''','an empty part which is not the first','the empty part is dropped',SC)
T('C05-id-version','C05',TXF,'return hex.EncodeToString(utils.ReverseBytes(crypto.Sha256d(bt.ToBytes())))','''tx := *bt
	tx.Version &= 0x7fffffff
	return hex.EncodeToString(utils.ReverseBytes(crypto.Sha256d(tx.ToBytes())))''','''
	a := transaction.New()
	b := transaction.New()
	a.Version = 0x80000001
	if a.GetTxID() == b.GetTxID() {
		t.Fatal("same id")
	}''','a version with the top bit set','the id does not cover the top bit of the version',TX)
T('C06-single-edge','C06',SHF,'inputNumber < uint32(len(bt.Outputs))','inputNumber <= uint32(len(bt.Outputs))','''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	tx := transaction.New()
	tx.From('''+ID+''', 0, "51", 5)
	if _, err := tx.GetInputSignatureHash(0, sighash.SingleForkID); err != nil {
		t.Fatal(err)
	}''','SINGLE with an input index equal to the number of outputs','index out of range instead of the zero hash',TX+';'+SH)
T('C06-type-word','C06',SHF,'uint32(sigHashFlag)>>0','uint32(sigHashFlag&^0x20)','''
	tx := transaction.New()
	tx.From('''+ID+''', 0, "51", 5)
	a, _ := tx.GetInputSignatureHash(0, 0x61)
	b, _ := tx.GetInputSignatureHash(0, 0x41)
	if string(a) == string(b) {
		t.Fatal("flag bit not committed")
	}''','a flag with bit 0x20 set','two flags share one hash',TX)
T('C06-acp-forkid','C06',SHF,'''	if sigHashFlag&sighash.AnyOneCanPay == 0 {
''','''	if sigHashFlag&sighash.AnyOneCanPayForkID != sighash.AnyOneCanPayForkID {
''','''
	tx := transaction.New()
	tx.From('''+ID+''', 0, "51", 5)
	a, _ := tx.GetInputSignatureHash(0, 0x81)
	tx.From('''+ID+''', 1, "51", 5)
	b, _ := tx.GetInputSignatureHash(0, 0x81)
	if string(a) != string(b) {
		t.Fatal("commits to other inputs")
	}''','ANYONECANPAY without FORKID and more inputs','the hash commits to the other inputs',TX)
KEY='''	key, err := bsvec.NewPrivateKey(bsvec.S256())
	if err != nil {
		t.Fatal(err)
	}
	ls, _ := script.NewP2PKHFromPubKeyBytes(key.PubKey().SerializeCompressed())
	_ = ls
'''
T('C07-keep-first','C07',TXF,'''		bt.Inputs[index].UnlockingScript = s
''','''		if us := bt.Inputs[index].UnlockingScript; us == nil || len(*us) == 0 {
			bt.Inputs[index].UnlockingScript = s
		}
''',KEY+'''
	tx := transaction.New()
	tx.From('''+ID+''', 0, ls.ToString(), 5)
	s := &signature.InternalSigner{PrivateKey: key}
	tx.Sign(0, s)
	a := tx.Inputs[0].UnlockingScript.ToString()
	tx.Locktime = 7
	tx.Sign(0, s)
	if tx.Inputs[0].UnlockingScript.ToString() == a {
		t.Fatal("stale signature")
	}''','signing an input which already has an unlocking script','the old signature stays although the transaction changed',BSVEC+';'+SC+';'+TX+';'+SIG)
T('C07-sequence-touched','C07',TXF,'''		bt.Inputs[index].UnlockingScript = s
''','''		bt.Inputs[index].UnlockingScript = s
		if bt.Inputs[index].SequenceNumber == 0 {
			bt.Inputs[index].SequenceNumber = 0xffffffff
		}
''','''
	tx := transaction.New()
	tx.AddInput(&input.Input{})
	tx.ApplyUnlockingScript(0, script.NewFromBytes(nil))
	if tx.Inputs[0].SequenceNumber != 0 {
		t.Fatal("sequence changed")
	}''','an input with sequence number 0','signing changes the sequence number after it was hashed',TX+';'+IN+';'+SC)
T('C08-prefix-match','C08',ISF,'if pubKeyHashStr == pubKeyHashStrFromPriv {','if len(pubKeyHashStr) == 40 && pubKeyHashStr[:38] == pubKeyHashStrFromPriv[:38] {',KEY+'''
	tx := transaction.New()
	(*ls)[22] ^= 1
	tx.From('''+ID+''', 0, ls.ToString(), 5)
	tx.SignAuto(&signature.InternalSigner{PrivateKey: key})
	if tx.Inputs[0].UnlockingScript != nil {
		t.Fatal("signed a foreign input")
	}''','a key hash which differs in the last byte only','an input of another key is signed',BSVEC+';'+SC+';'+TX+';'+SIG)
T('C08-skip-signed','C08',ISF,'''		pubKeyHash, _ := in''','''		if in.UnlockingScript != nil && len(*in.UnlockingScript) > 0 {
			continue // signed before
		}
		pubKeyHash, _ := in''',KEY+'''
	tx := transaction.New()
	tx.From('''+ID+''', 0, ls.ToString(), 5)
	tx.Inputs[0].UnlockingScript = script.NewFromBytes([]byte{1})
	tx.SignAuto(&signature.InternalSigner{PrivateKey: key})
	if len(*tx.Inputs[0].UnlockingScript) == 1 {
		t.Fatal("not signed")
	}''','an input which already has an unlocking script','the input keeps a stale unlocking script',BSVEC+';'+SC+';'+TX+';'+SIG)
T('C08-first-only','C08',ISF,'''				return nil, err
			}
		}
	}
''','''				return nil, err
			}
			if i > 0 {
				break
			}
		}
	}
''',KEY+'''
	tx := transaction.New()
	for i := 0; i < 3; i++ {
		tx.From('''+ID+''', uint32(i), ls.ToString(), 5)
	}
	tx.SignAuto(&signature.InternalSigner{PrivateKey: key})
	if tx.Inputs[2].UnlockingScript == nil {
		t.Fatal("not signed")
	}''','three inputs of the same key','inputs behind the second match stay unsigned',BSVEC+';'+SC+';'+TX+';'+SIG)
T('C09-signauto-nil','C09',TXF,'''	signedTx, err := s.SignAuto(bt)
	if err != nil {
		return err
	}
	*bt = *signedTx''','''	signedTx, err := s.SignAuto(bt)
	if signedTx == nil {
		return err
	}
	*bt = *signedTx''','''
	tx := transaction.New()
	if tx.SignAuto(custom{}) == nil {
		t.Fatal("error swallowed")
	}''','a signer that returns a transaction and an error','the error of the signer is dropped',TX+';"errors"','''
type custom struct{}

func (custom) Sign(i uint32, tx *transaction.Transaction) (*transaction.Transaction, error) {
	return tx, errors.New("no")
}
func (custom) SignAuto(tx *transaction.Transaction) (*transaction.Transaction, error) {
	return tx, errors.New("no")
}
''')
T('C09-asm-odd','C09',SCF,'''			if err != nil {
				return nil, errors.New("invalid opcode data")
			}''','''			if err != nil && len(section) != 1 {
				return nil, errors.New("invalid opcode data")
			}''','''
	if _, err := script.NewFromASM("OP_DUP z"); err == nil {
		t.Fatal("z accepted")
	}''','a section of one character','a bad section is dropped without an error',SC)
T('C09-child-error','C09',RSF,'''	result2, err := result.Child(derivationPath[1])
	if err != nil {
		return err
	}''','''	result2, err := result.Child(derivationPath[1])
	if err != nil {
		result2 = result
	}''','''
	rs, _ := script.NewRedeemScript(2)
	x := "xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8"
	if err := rs.AddPublicKey(x, []uint32{0, 1 << 31}); err == nil {
		t.Fatal("hardened child of a public key accepted")
	}''','a hardened index in the second position','the failure of the derivation is swallowed and the parent key is used',SC)
T('C09-commitment','C09','block/GetCoinbaseParts.go','''			log.Printf("Error decoding witness commitment: %+v", err)
			return nil, err''','''			log.Printf("Error decoding witness commitment: %+v", err)''','''
	if _, _, err := block.GetCoinbaseParts(7, 5, "zz", "x", "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH", nil); err == nil {
		t.Fatal("bad commitment accepted")
	}''','a witness commitment which is not hex','the error is only logged',BL)
T('C10-coinbase-append','C10','block/GetCoinbaseParts.go','''	a := []byte{}
	a = append(a, c1...)
	a = append(a, e1...)''','''	a := append(c1, e1...)''','''
	buf := []byte{1, 2, 3, 4}
	block.BuildCoinbase(buf[:2], nil, "aa", "bb")
	if buf[2] != 3 || buf[3] != 4 {
		t.Fatal(buf)
	}''','a first part with spare capacity','bytes behind the slice of the caller are overwritten',BL)
T('C10-sig-append','C10',USF,'''	sigBuf := []byte{}
	sigBuf = append(sigBuf, sig...)
	sigBuf = append(sigBuf, uint8(sigHashFlag))''','''	sigBuf := append(sig, uint8(sigHashFlag))''','''
	buf := []byte{1, 2, 3, 4}
	script.NewP2PKHUnlockingScript(nil, buf[:2], 0x41)
	if buf[2] != 3 {
		t.Fatal(buf)
	}''','a signature slice with spare capacity','the byte behind the signature of the caller is overwritten',SC)
T('C11-output-window','C11',OUTF,'''	o.LockingScript = &s

	return &o, totalLength, nil''','''	if len(s) > 75 {
		s = bytes[offset:totalLength:totalLength]
	}
	o.LockingScript = &s

	return &o, totalLength, nil''','''
	b := make([]byte, 109)
	b[8] = 100
	o, _, err := output.NewFromBytes(b)
	if err != nil {
		t.Fatal(err)
	}
	b[20] = 1
	if (*o.LockingScript)[11] != 0 {
		t.Fatal("script changed with the buffer")
	}''','a locking script longer than 75 bytes','the script is a window into the buffer of the caller',OUT)
S('C12-varint-buffer','C12',[('utils/VarInt.go','''	b := make([]byte, 9)
''','''	b := varIntBuf[:]
'''),('utils/VarInt.go','''// VarInt takes''','''var varIntBuf [9]byte

// VarInt takes''')],'''
func TestDemo(t *testing.T) {
	a := utils.VarInt(1)
	utils.VarInt(2)
	if a[0] != 1 {
		t.Fatal(a)
	}
}''','keeping the result of one call across another','the result of a call changes when the function is called again',UT)
S('C12-signer-cache','C12',[(ISF,'''		pubKeyHashStrFromPriv := hex.EncodeToString(crypto.Hash160(is.PrivateKey.PubKey().SerializeCompressed()))
''','''		if lastHash == "" || len(unsignedTx.Inputs) == 1 {
			lastHash = hex.EncodeToString(crypto.Hash160(is.PrivateKey.PubKey().SerializeCompressed()))
		}
		pubKeyHashStrFromPriv := lastHash
'''),(ISF,'''// InternalSigner implements''','''var lastHash string

// InternalSigner implements''')],'''
func TestDemo(t *testing.T) {
	for n := 0; n < 2; n++ {
		key, err := bsvec.NewPrivateKey(bsvec.S256())
		if err != nil {
			t.Fatal(err)
		}
		ls, _ := script.NewP2PKHFromPubKeyBytes(key.PubKey().SerializeCompressed())
		tx := transaction.New()
		tx.From('''+ID+''', 0, ls.ToString(), 5)
		tx.From('''+ID+''', 1, ls.ToString(), 5)
		tx.SignAuto(&signature.InternalSigner{PrivateKey: key})
		if tx.Inputs[0].UnlockingScript == nil {
			t.Fatal("not signed")
		}
	}
}''','two signers with different keys in one process','the second signer uses the key hash of the first',BSVEC+';'+SC+';'+TX+';'+SIG)
S('C13-pubkey-testnet','C13',[(ADF,'''	hash := crypto.Hash160(pubKey.SerializeCompressed())

	// regtest := 111
	// mainnet: 0

	bb := make([]byte, 1)
	if mainnet == false {
		bb[0] = 111''','''	hash := crypto.Hash160(pubKey.SerializeCompressed())

	// regtest := 111
	// mainnet: 0

	bb := make([]byte, 1)
	if mainnet == false {
		bb[0] = 110''')],'''
func TestDemo(t *testing.T) {
'''+KEY.replace('	ls, _ := script.NewP2PKHFromPubKeyBytes(key.PubKey().SerializeCompressed())\n	_ = ls\n','')+'''
	a, _ := address.NewFromPublicKey(key.PubKey(), false)
	if _, err := address.NewFromString(a.AddressString); err != nil {
		t.Fatal(err)
	}
}''','a testnet address from a public key','the version byte is not that of testnet',BSVEC+';'+ADR)
T('C14-version-mask','C14',AVF,'if a[0] != 0 && a[0] != 0x6f {','if a[0] != 0 && a[0]&0x7f != 0x6f {','''
	ok, _ := address.ValidateAddress(address.Base58EncodeMissingChecksum(append([]byte{0xef}, make([]byte, 20)...)))
	if ok {
		t.Fatal("version 0xef accepted")
	}''','a version byte of 0xef (testnet private keys)','a string which is not an address is valid',ADR)
T('C14-p2sh','C14',ADF,'''	case 0xc4: // Testnet script hash (P2SH address)
		fallthrough
''','''	case 0xc4: // Testnet script hash (P2SH address)
		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
''','''
	if _, err := address.NewFromString(address.Base58EncodeMissingChecksum(append([]byte{0xc4}, make([]byte, 20)...))); err == nil {
		t.Fatal("script hash accepted as key hash")
	}''','a testnet script-hash address','a script hash is taken for a public key hash',ADR)
T('C15-swap','C15',BIF,'p, c := createBIP276(prefix, network, version, data)','p, c := createBIP276(prefix, version, network, data)','''
	s := address.EncodeBIP276("bitcoin-script", 2, 1, []byte{1})
	_, v, n, _, err := address.DecodeBIP276(s)
	if err != nil || v != 1 || n != 2 {
		t.Fatal(v, n, err)
	}''','network and version different','network and version come back exchanged',ADR)
T('C16-trim-zero','C16',SCF,'err = s.AppendPushData(publicKeyHashBytes)','''for len(publicKeyHashBytes) > 0 && publicKeyHashBytes[0] == 0 {
		publicKeyHashBytes = publicKeyHashBytes[1:]
	}
	err = s.AppendPushData(publicKeyHashBytes)''','''
	s, err := script.NewP2PKHFromAddress(address.Base58EncodeMissingChecksum(append([]byte{0, 0}, make([]byte, 19)...)))
	if err != nil || len(*s) != 25 {
		t.Fatal(s, err)
	}''','a key hash that starts with a zero byte','the script is shorter than 25 bytes',SC+';'+ADR)
T('C17-p2pk-version','C17',SCF,'(version == 0x03 || version == 0x02) && len','version <= 0x03 && len','''
	b := append([]byte{33}, make([]byte, 33)...)
	if script.NewFromBytes(append(b, 0xac)).IsP2PK() {
		t.Fatal("version 0 is a public key")
	}''','a 33-byte push starting with 0 or 1','a push which is no public key counts as P2PK',SC)
T('C17-smallint','C17',SCF,'opcode <= Op16)','opcode <= OpNOP)','''
	if script.NewFromBytes([]byte{0x61, 0x51, 0xae}).IsMultisigOut() {
		t.Fatal("OP_NOP is a number")
	}''','OP_NOP where a number belongs','OP_NOP is taken for a small number',SC)
T('C17-multisig-keys','C17',SCF,'for i := 1; i < len(parts)-2; i++ {','for i := 1; i < len(parts)-3; i++ {','''
	if script.NewFromBytes([]byte{0x51, 0x4c, 0x00, 0x51, 0xae}).IsMultisigOut() {
		t.Fatal("an empty key counts")
	}''','an empty push in the last key position','an empty key is accepted',SC)
T('C17-p2sh','C17',SCF,'''	return len(b) == 23 &&
		b[0] == OpHASH160 &&
		b[1] == 0x14 &&''','''	return len(b) == 23 &&
		b[0] == OpHASH160 &&
		b[1]&0x5f == 0x14 &&''','''
	b := make([]byte, 23)
	b[0], b[1], b[22] = 0xa9, 0xb4, 0x87
	if script.NewFromBytes(b).IsP2SH() {
		t.Fatal("0xb4 is not a push of 20 bytes")
	}''','a byte 0xb4 where the push of 20 bytes belongs','a script which is not P2SH counts as P2SH',SC)
T('C18-strip','C18',SCF,'''	return parts[0], nil
}''','''	h := parts[0]
	for len(h) > 1 && h[0] == 0 {
		h = h[1:]
	}
	return h, nil
}''','''
	s, _ := script.NewP2PKHFromPubKeyHashStr("0000000000000000000000000000000000000000")
	h, err := s.GetPublicKeyHash()
	if err != nil || len(h) != 20 {
		t.Fatal(h, err)
	}''','a key hash with a leading zero byte','the hash returned is shorter than 20 bytes',SC)
T('C19-empty-data','C19',OUTF,'''	err := s.AppendPushDataArray(data)
''','''	if len(data) == 1 && len(data[0]) == 0 {
		data = nil
	}
	err := s.AppendPushDataArray(data)
''','''
	o, err := output.NewOpReturn(nil)
	if err != nil || len(*o.LockingScript) != 3 {
		t.Fatal(o, err)
	}''','an empty piece of data','the empty push is missing',OUT)
T('C19-puzzle-trim','C19',OUTF,'crypto.Hash160([]byte(secret))','crypto.Hash160(bytes.TrimRight([]byte(secret), "\\x00"))','''
	a, _ := output.NewHashPuzzle("a\\x00", "00", 1)
	b, _ := output.NewHashPuzzle("a", "00", 1)
	if a.LockingScript.ToString() == b.LockingScript.ToString() {
		t.Fatal("same puzzle")
	}''','a secret that ends in a zero byte','the puzzle is solved by a different secret',OUT)
SEEDS[-1]['edits'].append((OUTF,'import (\n','import (\n\t"bytes"\n'))
T('C22-ripemd-long','C22','crypto/Hash.go','ripe.Write(b[:])','''for len(b) > 1<<16 {
		ripe.Write(b[:1<<16])
		b = b[1<<16:]
		ripe.Write(b[:1])
	}
	ripe.Write(b[:])''','''
	b := make([]byte, 1<<16+1)
	h := ripemd160.New()
	h.Write(b)
	if string(h.Sum(nil)) != string(crypto.Ripemd160(b)) {
		t.Fatal("different hash")
	}''','more than 65536 bytes','a byte is hashed twice at each block boundary',CR+';"golang.org/x/crypto/ripemd160"')
ENC='''
	c, err := aes.NewCipher(make([]byte, 16))
	if err != nil {
		t.Fatal(err)
	}
'''
T('C23-half-iv','C23','crypto/Encryption.go','io.ReadFull(rand.Reader, iv)','io.ReadFull(rand.Reader, iv[:8])',ENC+'''
	for i := 0; i < 8; i++ {
		b, err := crypto.Encrypt(c, nil)
		if err != nil {
			t.Fatal(err)
		}
		if string(b[8:16]) != string(make([]byte, 8)) {
			return
		}
	}
	t.Fatal("half of the IV is always zero")''','looking at the second half of the IV','only half of the IV is random','"crypto/aes";'+CR)
T('C23-empty','C23','crypto/Encryption.go','if len(ciphertext) < aes.BlockSize {','if len(ciphertext) <= aes.BlockSize {',ENC+'''
	b, err := crypto.Encrypt(c, nil)
	if err != nil {
		t.Fatal(err)
	}
	if d, err := crypto.Decrypt(c, b); err != nil || len(d) != 0 {
		t.Fatal(d, err)
	}''','an empty text','what was encrypted cannot be decrypted','"crypto/aes";'+CR)
T('C23-iv-error','C23','crypto/Encryption.go','''	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		return nil, err
	}''','''	io.ReadFull(rand.Reader, iv)''',ENC+'''
	r := rand.Reader
	defer func() { rand.Reader = r }()
	rand.Reader = strings.NewReader("")
	if _, err := crypto.Encrypt(c, nil); err == nil {
		t.Fatal("encrypted with a zero IV")
	}''','a failing random source','the text is encrypted with an IV of zeros','"crypto/aes";"crypto/rand";"strings";'+CR)
T('C24-index16','C24','block/GetMerkleBranches.go','		txIndex >>= 1\n','		txIndex = int(int32(txIndex<<1)) >> 2\n','''
	ids := make([]string, 31)
	for i := range ids {
		ids[i] = '''+ID+'''
	}
	if _, err := block.MerkleRootFromBranches(ids[0], 1<<40, ids); err == nil {
		t.Fatal("index accepted")
	}''','an index of 2^31 or more','the high bits of the index are lost',BL)
T('C25-odd-zero','C25','block/GetMerkleBranches.go','				b = a\n','				b = make([]byte, 32)\n','''
	ids := []string{'''+ID+','+ID+','+ID+'''}
	br := block.GetMerkleBranches(ids)
	a, _ := hex.DecodeString(ids[0])
	h := crypto.Sha256d(append(append([]byte{}, a...), a...))
	if br[1] != hex.EncodeToString(h) {
		t.Fatal(br)
	}''','an odd number of transactions','the last hash is paired with zeros instead of itself',BL+';'+CR+';"encoding/hex"')
T('C26-version','C26','block/BuildBlockHeader.go','binary.LittleEndian.PutUint32(v, version)','binary.LittleEndian.PutUint32(v, version&0x3fffffff)','''
	b := block.BuildBlockHeader(0x80000000, "", nil, nil, nil, nil)
	if b[3] != 0x80 {
		t.Fatal(b)
	}''','a version with one of the top two bits set','the header loses the top bits of the version',BL)
T('C27-commitment-length','C27','block/GetCoinbaseParts.go','wcl := utils.VarInt(uint64(len(wc)))','wcl := []byte{byte(len(wc))}','''
	_, c2, err := block.GetCoinbaseParts(7, 5, strings.Repeat("00", 300), "x", "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH", nil)
	if err != nil || len(c2) != 4+1+8+1+25+8+3+300+4 {
		t.Fatal(len(c2), err)
	}''','a commitment longer than 252 bytes','the length prefix does not match the script',BL+';"strings"')
T('C28-exponent-mask','C28','block/Difficulty.go','exponent := uint(compact >> 24)','exponent := uint(compact >> 24 & 0x7f)','''
	n, err := block.ExpandTargetFromAsInt("80000001")
	if err != nil || n.BitLen() != 8*125+1 {
		t.Fatal(n, err)
	}''','an exponent of 128 or more','a huge target turns into a tiny one',BL)
T('C29-compare-tail','C29','utils/ByteManipulation.go','switch bytes.Compare(b[i], b[j]) {','switch bytes.Compare(tail(b[i]), tail(b[j])) {','''
	rs, _ := script.NewRedeemScript(2)
	rs.PublicKeys = [][]byte{append([]byte{3}, make([]byte, 32)...), append([]byte{2, 1}, make([]byte, 31)...)}
	if rs.GetRedeemScript()[2] != 2 {
		t.Fatal("not sorted")
	}''','keys with different first bytes','keys are sorted without their first byte',SC)
SEEDS[-1]['edits'].append(('utils/ByteManipulation.go','func (b sortByteArrays) Swap','''func tail(b []byte) []byte {
	if len(b) == 33 {
		return b[1:]
	}
	return b
}

func (b sortByteArrays) Swap'''))
T('C30-count','C30',RSF,'if len(rs.PublicKeys) != signatureCount {','if len(rs.PublicKeys) < signatureCount {','''
	rs, err := script.NewRedeemScriptFromElectrum("524c53ff0488b21e000000000000000000f8f4ff8ae0e5c1bb59a6a5f1a0ed2a39ea5b1ba7a9e2e6cbbff2bbf1e0b1a0000000")
	_, _ = rs, err
	base := build(2)
	if _, err := script.NewRedeemScriptFromElectrum(base + "52ae"); err != nil {
		t.Fatal(err)
	}
	if _, err := script.NewRedeemScriptFromElectrum(base + "51ae"); err == nil {
		t.Fatal("two keys accepted where the script says one")
	}''','more keys than the script announces','the announced number of keys is not checked',SC+';'+B58+';"encoding/hex"','''
func build(n int) string {
	x := base58.Decode("xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8")
	s := "52"
	for i := 0; i < n; i++ {
		s += "4c53ff" + hex.EncodeToString(x[:78]) + "00000" + string(rune('0'+i)) + "00"
	}
	return s
}
''')
T('C30-second-index','C30',RSF,'p, err = p.Child(uint32(s[1]))','p, err = p.Child(uint32(s[1] & 0xfff))','''
	a, err := script.NewRedeemScriptFromElectrum(build("0010"))
	if err != nil {
		t.Fatal(err)
	}
	b, err := script.NewRedeemScriptFromElectrum(build("0000"))
	if err != nil {
		t.Fatal(err)
	}
	if string(a.PublicKeys[0]) == string(b.PublicKeys[0]) {
		t.Fatal("different paths, same key")
	}''','a second index of 4096 or more','keys are derived at the wrong index',SC+';'+B58+';"encoding/hex"','''
func build(idx string) string {
	x := base58.Decode("xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8")
	return "52" + "4c53ff" + hex.EncodeToString(x[:78]) + "0000" + idx + "51ae"
}
''')
T('C31-pushdata1','C31',PDF,'if len(b) < int(2+l) {','if len(b) < int(1+l) {','''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	script.NewFromBytes([]byte{0x4c, 2, 1}).ToASM()''','a PUSHDATA1 one byte short','reading past the end of the script',SC)
T('C31-p2sh-length','C31',SCF,'return len(b) == 23 &&','return len(b) <= 23 &&','''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	script.NewFromBytes([]byte{0xa9, 0x14}).IsP2SH()''','a script that begins like P2SH and is shorter','reading past the end of the script',SC)
T('C32-short-address','C32',ADF,'if len(decoded) != 25 {','if len(decoded) != 25 && len(decoded) != 3 {','''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	address.NewFromString("112")''','a string which decodes to three bytes','slicing with a negative bound',ADR)
T('C33-apply','C33',TXF,'''	return fmt.Errorf("no input at index %d", index)
}''','''	if index == uint32(len(bt.Inputs)) && index > 0 {
		return nil
	}
	return fmt.Errorf("no input at index %d", index)
}''','''
	tx := transaction.New()
	tx.AddInput(&input.Input{})
	if tx.ApplyUnlockingScript(1, script.NewFromBytes(nil)) == nil {
		t.Fatal("no error")
	}''','an index one past the last input','the missing input is not reported',TX+';'+IN+';'+SC)
T('C34-many','C34',TXF,'if len(bt.Inputs) != 1 {','if len(bt.Inputs) == 0 || len(bt.Inputs) > 2 {','''
	tx := transaction.New()
	tx.From("0000000000000000000000000000000000000000000000000000000000000000", 0xffffffff, "", 0)
	tx.From("0000000000000000000000000000000000000000000000000000000000000000", 0xffffffff, "", 0)
	if tx.IsCoinbase() {
		t.Fatal("two inputs")
	}''','two inputs, the first of them null','a transaction with two inputs counts as coinbase',TX)
T('C35-total','C35',TXF,'total += o.Satoshis','total += o.Satoshis & 0xffffffffff','''
	tx := transaction.New()
	tx.AddOutput(&output.Output{Satoshis: 1 << 41})
	if tx.GetTotalOutputSatoshis() != 1<<41 {
		t.Fatal("wrong total")
	}''','an output of 2^40 satoshis or more','the total is too small',TX+';'+OUT)
T('C35-utxo-sequence','C35',INF,'''	return i, nil
}''','''	if i.SequenceNumber == 0 {
		i.SequenceNumber = 0xffffffff
	}
	return i, nil
}''','''
	i, err := input.NewFromUTXO("", 0, 0, "", 0)
	if err != nil || i.SequenceNumber != 0 {
		t.Fatal(i, err)
	}''','a sequence number of 0','the sequence number asked for is replaced',IN)
S('C36-empty-script','C36',[(TXF,'s := in.ToBytes(scriptPubKey != nil)','s := in.ToBytes(len(scriptPubKey) > 0)'),(TXF,'if i == index && scriptPubKey != nil {','if i == index && len(scriptPubKey) > 0 {')],'''
func TestDemo(t *testing.T) {
	tx := transaction.New()
	tx.AddInput(&input.Input{PreviousTxID: '''+ID+''', UnlockingScript: script.NewFromBytes([]byte{1, 2, 3})})
	tx.AddInput(&input.Input{PreviousTxID: '''+ID+''', UnlockingScript: script.NewFromBytes([]byte{1, 2, 3})})
	if n := len(tx.ToBytesWithClearedInputs(0, []byte{})); n != 4+1+2*41+1+4 {
		t.Fatal(n)
	}
}''','an empty script that is not nil','the inputs are not cleared',TX+';'+IN+';'+SC)
T('C37-equals-last','C37','utils/ByteManipulation.go','for i, x := range b1 {','for i, x := range b1[:len(b1)-len(b1)>>8] {','''
	a, b := make([]byte, 256), make([]byte, 256)
	a[255] = 1
	if utils.Equals(a, b) {
		t.Fatal("equal")
	}''','slices of 256 bytes or more that differ at the end','different slices compare equal',UT)
OCF='script/Opcodes.go'
T('C20-div-mul','C20',OCF,'	"OP_2DIV":                Op2DIV,','	"OP_2DIV":                Op2MUL,','''
	s, err := script.NewFromASM("OP_2DIV")
	if err != nil || (*s)[0] != script.Op2DIV {
		t.Fatal(s, err)
	}''','the name OP_2DIV','one name denotes the byte of its neighbour',SC)
S('C21-leading-zero','C21',[(SCF,'			asmScript = asmScript + " " + hex.EncodeToString(p)','			asmScript = asmScript + " " + new(big.Int).SetBytes(p).Text(16)'),(SCF,'	"fmt"\n','	"fmt"\n	"math/big"\n')],'''
func TestDemo(t *testing.T) {
	s := script.NewFromBytes([]byte{2, 0, 0x12})
	a, err := s.ToASM()
	if err != nil || a != "0012" {
		t.Fatal(a, err)
	}
}''','pushed data which begins with a zero byte or digit','leading zeros of pushed data are dropped',SC)
T('C10-input-fill','C10',INF,'''		if i.UnlockingScript == nil {
''','''		if i.UnlockingScript == nil {
			i.UnlockingScript = &script.Script{}
''','''
	i := &input.Input{PreviousTxID: '''+ID+'''}
	i.ToBytes(false)
	if i.UnlockingScript != nil {
		t.Fatal("modified")
	}''','serialising an unsigned input','serialising fills in an empty unlocking script',IN)
T('C35-same-output','C35',TXF,'''	bt.Outputs = append(bt.Outputs, output)
''','''	if n := len(bt.Outputs); n > 0 && bt.Outputs[n-1] == output {
		return
	}
	bt.Outputs = append(bt.Outputs, output)
''','''
	tx := transaction.New()
	o := &output.Output{Satoshis: 1, LockingScript: script.NewFromBytes(nil)}
	tx.AddOutput(o)
	tx.AddOutput(o)
	if tx.OutputCount() != 2 {
		t.Fatal(tx.OutputCount())
	}''','adding the same output twice in a row','the second output is dropped',TX+';'+OUT+';'+SC)
T('C37-hex-digit','C37','utils/ByteManipulation.go','if len(hex)%2 != 0 {','if len(hex)%2 != 0 && len(hex) > 1 {','''
	if s := utils.ReverseHexString("a"); s != "0a" {
		t.Fatal(s)
	}''','a single digit','a single digit is lost',UT)
T('C06-single-zero','C06',SHF,'	if n == -1 {','	if n <= 0 {','''
	tx := transaction.New()
	tx.From('''+ID+''', 0, "51", 5)
	tx.AddOutput(&output.Output{Satoshis: 1, LockingScript: script.NewFromBytes(nil)})
	a, err := tx.GetInputSignatureHash(0, sighash.SingleForkID)
	if err != nil {
		t.Fatal(err)
	}
	tx.AddOutput(&output.Output{Satoshis: 1, LockingScript: script.NewFromBytes(nil)})
	b, err := tx.GetInputSignatureHash(0, sighash.SingleForkID)
	if err != nil || !utils.Equals(a, b) {
		t.Fatal("SINGLE commits to another output")
	}''','sighash SINGLE on input 0 with several outputs','the digest commits to every output',TX+';'+OUT+';'+SC+';'+SH+';'+UT)
T('C27-count-both','C27','block/GetCoinbaseParts.go','''	if len(minerIDBytes) > 0 {
		numberOfTransactions++
''','''	if len(minerIDBytes) > 0 {
		numberOfTransactions = 2
''','''
	_, c2, err := block.GetCoinbaseParts(1, 1, "00", "", "114ZWApV4EEU8frr7zygqQcB1V2BodGZuS", []byte{1})
	if err != nil || c2[4] != 3 {
		t.Fatal(c2, err)
	}''','a witness commitment together with a miner id','the output count is too small',BL)
S('C12-address-memo','C12',[(ADF,'''func NewFromString(addr string) (*Address, error) {
''','''func NewFromString(addr string) (*Address, error) {
	if a, ok := known.Load(addr); ok {
		return a.(*Address), nil
	}
'''),(ADF,'''		AddressString: addr,
		PublicKeyHash: pkh,
	}
	return &a, nil
}''','''		AddressString: addr,
		PublicKeyHash: pkh,
	}
	known.Store(addr, &a)
	return &a, nil
}

var known sync.Map'''),(ADF,'	"fmt"\n','	"fmt"\n	"sync"\n')],'''
func TestDemo(t *testing.T) {
	a, err := address.NewFromString("114ZWApV4EEU8frr7zygqQcB1V2BodGZuS")
	if err != nil {
		t.Fatal(err)
	}
	a.PublicKeyHash = ""
	b, err := address.NewFromString("114ZWApV4EEU8frr7zygqQcB1V2BodGZuS")
	if err != nil || b.PublicKeyHash == "" {
		t.Fatal("shared")
	}
}''','the same address decoded twice, the first result changed in between','the two results are the same object',ADR)
T('C09-puzzle-partial','C09',OUTF,'''	publicKeyHashBytes, err := hex.DecodeString(publicKeyHash)
	if err != nil {
		return nil, err
	}

	s := &script.Script{}

	s.AppendOpCode(script.OpHASH160)''','''	publicKeyHashBytes, err := hex.DecodeString(publicKeyHash)
	if err != nil && len(publicKeyHashBytes) == 0 {
		return nil, err
	}

	s := &script.Script{}

	s.AppendOpCode(script.OpHASH160)''','''
	if _, err := output.NewHashPuzzle("x", "0011zz", 1); err == nil {
		t.Fatal("no error")
	}''','a bad digit behind at least one good byte','the bytes before the bad digit are used',OUT)
S('C05-id-memo','C05',[(TXF,'	Locktime uint32\n}','	Locktime uint32\n\n	id string\n}'),
(TXF,'	bt.Inputs = append(bt.Inputs, input)','	bt.id = ""\n	bt.Inputs = append(bt.Inputs, input)'),
(TXF,'	bt.Outputs = append(bt.Outputs, output)','	bt.id = ""\n	bt.Outputs = append(bt.Outputs, output)'),
(TXF,'	return hex.EncodeToString(utils.ReverseBytes(crypto.Sha256d(bt.ToBytes())))','''	if bt.id == "" {
		bt.id = hex.EncodeToString(utils.ReverseBytes(crypto.Sha256d(bt.ToBytes())))
	}
	return bt.id''')],'''
func TestDemo(t *testing.T) {
	tx := transaction.New()
	a := tx.GetTxID()
	tx.Locktime = 7
	if tx.GetTxID() == a {
		t.Fatal("stale")
	}
}''','the id is asked for, a field changes, the id is asked for again','the second answer is the id of the transaction as it was',TX)
S('C06-outputs-memo','C06',[(TXF,'	Locktime uint32\n}','	Locktime uint32\n\n	allOutputs []byte\n}'),
(TXF,'	bt.Outputs = append(bt.Outputs, output)','	bt.allOutputs = nil\n	bt.Outputs = append(bt.Outputs, output)'),
(SHF,'		hashOutputs = bt.getOutputsHash(-1)\n','''		if bt.allOutputs == nil {
			bt.allOutputs = bt.getOutputsHash(-1)
		}
		hashOutputs = bt.allOutputs
''')],'''
func TestDemo(t *testing.T) {
	tx := transaction.New()
	if err := tx.From('''+ID+''', 0, "51", 5); err != nil {
		t.Fatal(err)
	}
	o, err := output.NewHashPuzzle("x", "0011", 1)
	if err != nil {
		t.Fatal(err)
	}
	tx.AddOutput(o)
	a, err := tx.GetInputSignatureHash(0, sighash.AllForkID)
	if err != nil {
		t.Fatal(err)
	}
	o.Satoshis = 9
	b, err := tx.GetInputSignatureHash(0, sighash.AllForkID)
	if err != nil || string(a) == string(b) {
		t.Fatal("stale", err)
	}
}''','two digests of the same transaction with an output changed in place between them','the second digest commits to the outputs as they were',TX+';'+OUT+';'+SH)
S('C29-script-memo','C29',[(RSF,'	Signatures         [][]byte\n}','	Signatures         [][]byte\n\n	script []byte\n}'),
(RSF,'func (rs *RedeemScript) GetRedeemScript() []byte {\n	var b []byte\n','func (rs *RedeemScript) GetRedeemScript() []byte {\n	if rs.script != nil {\n		return rs.script\n	}\n	var b []byte\n'),
(RSF,'	b = append(b, OpCHECKMULTISIG)\n\n	return b\n','	b = append(b, OpCHECKMULTISIG)\n\n	rs.script = b\n	return b\n'),
(RSF,'	rs.PublicKeys = append(rs.PublicKeys, ecpk.SerializeCompressed())\n\n	return nil\n','	rs.PublicKeys, rs.script = append(rs.PublicKeys, ecpk.SerializeCompressed()), nil\n\n	return nil\n')],'''
func TestDemo(t *testing.T) {
	rs, err := script.NewRedeemScript(2)
	if err != nil {
		t.Fatal(err)
	}
	rs.PublicKeys = append(rs.PublicKeys, make([]byte, 33))
	a := len(rs.GetRedeemScript())
	rs.PublicKeys = append(rs.PublicKeys, make([]byte, 33))
	if len(rs.GetRedeemScript()) != a+34 {
		t.Fatal("stale")
	}
}''','keys set directly after the script was asked for once','the second script lacks a key',SC)
S('C35-running-total','C35',[(TXF,'	Locktime uint32\n}','	Locktime uint32\n\n	total, counted uint64\n}'),
(TXF,'	bt.Outputs = append(bt.Outputs, output)','	if uint64(len(bt.Outputs)) == bt.counted {\n		bt.total += output.Satoshis\n		bt.counted++\n	}\n	bt.Outputs = append(bt.Outputs, output)'),
(TXF,'	var total uint64\n	for','	if n := uint64(len(bt.Outputs)); n > 0 && n == bt.counted {\n		return bt.total\n	}\n	var total uint64\n	for')],'''
func TestDemo(t *testing.T) {
	tx := transaction.New()
	o, err := output.NewHashPuzzle("x", "0011", 1)
	if err != nil {
		t.Fatal(err)
	}
	tx.AddOutput(o)
	o.Satoshis = 9
	if n := tx.GetTotalOutputSatoshis(); n != 9 {
		t.Fatal(n)
	}
}''','an output whose amount changes after AddOutput','the total is that of the amounts at the time of adding',TX+';'+OUT)
S('C07-signer-memo','C07',[(ISF,'	SigHashFlag sighash.Flag\n}','''	SigHashFlag sighash.Flag

	public []byte
}

func (is *InternalSigner) publicKey() []byte {
	if is.public == nil {
		is.public = is.PrivateKey.PubKey().SerializeCompressed()
	}
	return is.public
}'''),
(ISF,'script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(),','script.NewP2PKHUnlockingScript(is.publicKey(),')],'''
func TestDemo(t *testing.T) {
	s := &signature.InternalSigner{}
	var last string
	for i := 0; i < 2; i++ {
		key, err := bsvec.NewPrivateKey(bsvec.S256())
		if err != nil {
			t.Fatal(err)
		}
		s.PrivateKey = key
		tx := transaction.New()
		if err := tx.From('''+ID+''', 0, "51", 5); err != nil {
			t.Fatal(err)
		}
		if err := tx.Sign(0, s); err != nil {
			t.Fatal(err)
		}
		u := *tx.Inputs[0].UnlockingScript
		k := string(u[len(u)-33:])
		if k != string(key.PubKey().SerializeCompressed()) || k == last {
			t.Fatal("stale key")
		}
		last = k
	}
}''','one signer used with two keys in turn','the second unlocking script carries the first key',TX+';'+SIG+';"github.com/bitcoinsv/bsvd/bsvec"')

# --- wave: amounts, prefixes and fields at their edges
TR='transaction/Transaction.go'
S('C36-short-length','C36',[(TR,'h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)','h = append(h, byte(len(scriptPubKey)))')],'''
func TestDemo(t *testing.T) {
	tx := transaction.New()
	if err := tx.From('''+ID+''', 0, "51", 5); err != nil {
		t.Fatal(err)
	}
	b := tx.ToBytesWithClearedInputs(0, make([]byte, 300))
	if _, err := transaction.NewFromBytes(b); err != nil {
		t.Fatal(err)
	}
}''','a script of 253 bytes or more','the length prefix is one byte whatever the length',TX)
S('C34-trimmed-id','C34',[(TR,'if bt.Inputs[0].PreviousTxID != "0000000000000000000000000000000000000000000000000000000000000000" {','if strings.Trim(bt.Inputs[0].PreviousTxID, "0") != "" {'),
(TR,'	"fmt"\n','	"fmt"\n	"strings"\n')],'''
func TestDemo(t *testing.T) {
	tx := transaction.New()
	tx.AddInput(input.New())
	if tx.IsCoinbase() {
		t.Fatal("an input without an id is no coinbase")
	}
}''','a single input without an id','an input that has no id at all counts as the zero id',TX+';'+IN)
S('C28-wide-shift','C28',[('block/Difficulty.go','	} else {\n		bn = big.NewInt(int64(mantissa))\n','	} else if exponent <= 9 {\n		bn = big.NewInt(int64(mantissa) << (8 * (exponent - 3)))\n	} else {\n		bn = big.NewInt(int64(mantissa))\n')],'''
func TestDemo(t *testing.T) {
	s, err := block.ExpandTargetFrom("097fffff")
	if err != nil || s != "0000000000000000000000000000000000000000000000"+"7fffff000000000000" {
		t.Fatal(s, err)
	}
}''','an exponent of nine with a mantissa over 16 bits','the shift overflows a 64-bit integer',BL)
S('C15-decimal-version','C15',[('script/address/BIP276.go','"%s:%.2x%.2x%x"','"%s:%.2x%.2d%x"')],'''
func TestDemo(t *testing.T) {
	_, v, n, d, err := address.DecodeBIP276(address.EncodeBIP276("x", 12, 11, []byte{7}))
	if err != nil || v != 11 || n != 12 || len(d) != 1 {
		t.Fatal(v, n, d, err)
	}
}''','a version of ten or more','the version is written in decimal and read in hex',AD)
S('C16-compress','C16',[('script/Script.go','	hash := crypto.Hash160(pubKeyBytes)\n','''	if len(pubKeyBytes) == 65 && pubKeyBytes[0] == 0x04 {
		pubKeyBytes = append([]byte{0x02 + pubKeyBytes[64]&1}, pubKeyBytes[1:33]...)
	}
	hash := crypto.Hash160(pubKeyBytes)
''')],'''
func TestDemo(t *testing.T) {
	k := make([]byte, 65)
	k[0] = 4
	s, err := script.NewP2PKHFromPubKeyBytes(k)
	if err != nil || string((*s)[3:23]) != string(crypto.Hash160(k)) {
		t.Fatal(s, err)
	}
}''','an uncompressed public key','the hash is of another encoding of the key',SC+';'+CR)
S('C22-chunks','C22',[('crypto/Hash.go','	data := sha256.Sum256(b)\n	return data[:]','''	h := sha256.New()
	for len(b) > 1<<16 {
		h.Write(b[:1<<16])
		b = b[1<<16-1:]
	}
	h.Write(b)
	return h.Sum(nil)''')],'''
func TestDemo(t *testing.T) {
	b := make([]byte, 1<<16+1)
	for i := range b {
		b[i] = byte(i * 7)
	}
	s := sha256.Sum256(b)
	if string(s[:]) != string(crypto.Sha256(b)) {
		t.Fatal("wrong digest")
	}
}''','more than 64 KiB of data','one byte is hashed twice at each chunk boundary',CR+';"crypto/sha256"')
S('C29-dedupe','C29',[('script/RedeemScript.go','	for _, pk := range rs.PublicKeys {\n','	for i, pk := range rs.PublicKeys {\n		if i > 0 && utils.Equals(pk, rs.PublicKeys[i-1]) {\n			continue\n		}\n')],'''
func TestDemo(t *testing.T) {
	rs, err := script.NewRedeemScript(2)
	if err != nil {
		t.Fatal(err)
	}
	k := make([]byte, 33)
	rs.PublicKeys = [][]byte{k, k, k}
	if n := len(rs.GetRedeemScript()); n != 3+3*34 {
		t.Fatal(n)
	}
}''','the same key twice','a repeated key is left out though the count includes it',SC)
S('C19-hex-secret','C19',[('transaction/output/Output.go','	secretBytesHash := crypto.Hash160([]byte(secret))\n','''	secretBytes, err := hex.DecodeString(secret)
	if err != nil {
		secretBytes = []byte(secret)
	}
	secretBytesHash := crypto.Hash160(secretBytes)
''')],'''
func TestDemo(t *testing.T) {
	o, err := output.NewHashPuzzle("cafe", "0011", 1)
	if err != nil || string((*o.LockingScript)[2:22]) != string(crypto.Hash160([]byte("cafe"))) {
		t.Fatal(o, err)
	}
}''','a secret that happens to be hex','the hash is of the decoded bytes',OUT+';'+CR)
S('C02-input-minimum','C02',[('transaction/input/Input.go','if len(bytes) < 36 {','if len(bytes) < 32 {')],'''
func TestDemo(t *testing.T) {
	b := make([]byte, 5+33)
	b[4] = 1
	if _, err := transaction.NewFromBytes(b); err == nil {
		t.Fatal("accepted")
	}
}''','a transaction cut off inside the output index','reading the index panics',TX)
S('C03-signed-wide','C03',[('utils/VarInt.go','		result = binary.LittleEndian.Uint64(b[1:9])\n','		result = binary.LittleEndian.Uint64(b[1:9]) << 1 >> 1\n')],'''
func TestDemo(t *testing.T) {
	if n, _ := utils.DecodeVarInt(utils.VarInt(1 << 63)); n != 1<<63 {
		t.Fatal(n)
	}
}''','a length of 2^63 or more','the top bit is dropped',UT)
S('C21-zero-word','C21',[('script/Script.go','			asmScript = asmScript + " " + opCodeValues[p[0]]\n','''			name := opCodeValues[p[0]]
			if p[0] == Op1NEGATE {
				name = "-1"
			}
			asmScript = asmScript + " " + name
''')],'''
func TestDemo(t *testing.T) {
	s := script.NewFromBytes([]byte{0x4f, 0x51})
	a, err := s.ToASM()
	if err != nil {
		t.Fatal(err)
	}
	r, err := script.NewFromASM(a)
	if err != nil || r.ToString() != "4f51" {
		t.Fatal(a, err)
	}
}''','a script with the minus-one opcode','the word cannot be read back',SC)
S('C25-carry','C25',[('block/GetMerkleBranches.go','		branches = append(branches, hashes[1])\n','''		if len(branches) == 0 || branches[len(branches)-1] != hashes[1] {
			branches = append(branches, hashes[1])
		}
''')],'''
func TestDemo(t *testing.T) {
	z := "00000000000000000000000000000000000000000000000000000000000000"
	h := crypto.Sha256d(make([]byte, 64))
	x := utils.ReverseHexString(hex.EncodeToString(h))
	if n := len(block.GetMerkleBranches([]string{z + "01", x, z + "00", z + "00"})); n != 2 {
		t.Fatal(n)
	}
}''','a sibling equal to the one of the level below','a branch is left out',BL+';'+CR+';'+UT+';"encoding/hex"')
S('C24-even-last','C24',[('block/GetMerkleBranches.go','		h = utils.ReverseBytes(h)\n','''		h = utils.ReverseBytes(h)
		if utils.Equals(h, hash) {
			txIndex &^= 1
		}
''')],'''
func TestDemo(t *testing.T) {
	a, b := make([]byte, 32), ""
	id := hex.EncodeToString(a)
	if r, err := block.MerkleRootFromBranches(id, 1, []string{id}); err != nil || r == b {
		t.Fatal(r, err)
	}
	if _, err := block.MerkleRootFromBranches(id, 2, []string{id}); err == nil {
		t.Fatal("index does not fit")
	}
	r, err := block.MerkleRootFromBranches(id, 3, []string{id, id})
	if err != nil {
		t.Fatal(r, err)
	}
}''','-','-',BL+';"encoding/hex"')
SEEDS.pop() # equivalent: equal halves fold the same on either side
S('C07-low-flag','C07',[('transaction/signature/InternalSigner.go','	if flag == 0 {','	if flag&0x1f == 0 {')],'''
func TestDemo(t *testing.T) {
	key, err := bsvec.NewPrivateKey(bsvec.S256())
	if err != nil {
		t.Fatal(err)
	}
	tx := transaction.New()
	if err := tx.From('''+ID+''', 0, "51", 5); err != nil {
		t.Fatal(err)
	}
	if err := tx.Sign(0, &signature.InternalSigner{PrivateKey: key, SigHashFlag: sighash.ForkID | sighash.AnyOneCanPay}); err != nil {
		t.Fatal(err)
	}
	u := *tx.Inputs[0].UnlockingScript
	if f := u[u[0]]; f != 0xc0 {
		t.Fatal(f)
	}
}''','a flag with modifiers only','the flag asked for is replaced by the default',TX+';'+SIG+';'+SH+';"github.com/bitcoinsv/bsvd/bsvec"')
S('C08-testnet-fallback','C08',[('transaction/signature/InternalSigner.go','		if pubKeyHashStr == pubKeyHashStrFromPriv {','		if pubKeyHashStr == pubKeyHashStrFromPriv || in.PreviousTxScript.IsP2PK() && hex.EncodeToString((*in.PreviousTxScript)[1:34]) == hex.EncodeToString(is.PrivateKey.PubKey().SerializeCompressed()) {')],'''
func TestDemo(t *testing.T) {
	key, err := bsvec.NewPrivateKey(bsvec.S256())
	if err != nil {
		t.Fatal(err)
	}
	tx := transaction.New()
	s := "21" + hex.EncodeToString(key.PubKey().SerializeCompressed()) + "ac"
	if err := tx.From('''+ID+''', 0, s, 5); err != nil {
		t.Fatal(err)
	}
	if err := tx.SignAuto(&signature.InternalSigner{PrivateKey: key}); err != nil {
		t.Fatal(err)
	}
	if tx.Inputs[0].UnlockingScript != nil {
		t.Fatal("signed an input that is no P2PKH")
	}
}''','a P2PK input of the signer','an unlocking script for P2PKH is put on a P2PK input',TX+';'+SIG+';"encoding/hex";"github.com/bitcoinsv/bsvd/bsvec"')
S('C06-value-word','C06',[('transaction/SignatureHash.go','	binary.LittleEndian.PutUint64(sat, in.PreviousTxSatoshis)\n','	binary.LittleEndian.PutUint64(sat, in.PreviousTxSatoshis&(1<<51-1)) // 21e14 satoshis fit\n')],'''
func TestDemo(t *testing.T) {
	var last string
	for _, n := range []uint64{5, 5 + 1<<60} {
		tx := transaction.New()
		if err := tx.From('''+ID+''', 0, "51", n); err != nil {
			t.Fatal(err)
		}
		h, err := tx.GetInputSignatureHash(0, 0x41)
		if err != nil || string(h) == last {
			t.Fatal(h, err)
		}
		last = string(h)
	}
}''','a value beyond the supply','values that differ in high bits give one hash',TX)
