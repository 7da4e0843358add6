REFS=[]
def R(id,props,*edits): REFS.append(dict(id=id,property='',properties=props.split(),edits=list(edits)))
VI='utils/VarInt.go'; BM='utils/ByteManipulation.go'; PD='script/OpPushdata.go'; SC='script/Script.go'; TX='transaction/Transaction.go'; SH='transaction/SignatureHash.go'
IN='transaction/input/Input.go'; OUT='transaction/output/Output.go'; SG='transaction/signature/InternalSigner.go'; US='script/UnlockingScript.go'
DI='block/Difficulty.go'; CB='block/GetCoinbaseParts.go'; BH='block/BuildBlockHeader.go'; MB='block/GetMerkleBranches.go'; MR='block/BuildMerkleRootFromCoinbase.go'
AD='script/address/Address.go'; AV='script/address/AddressValidation.go'; BI='script/address/BIP276.go'; RS='script/RedeemScript.go'; EN='crypto/Encryption.go'; HA='crypto/Hash.go'
WIRE='C01 C02 C05 C36 C06'
# --- utils
R('varint-switch','C03 C01 C26 C27',(VI,'''	b := make([]byte, 9)
	if i < 0xfd {
		b[0] = byte(i)
		return b[:1]
	}
	if i < 0x10000 {
		b[0] = 0xfd
		binary.LittleEndian.PutUint16(b[1:3], uint16(i))
		return b[:3]
	}
	if i < 0x100000000 {
		b[0] = 0xfe
		binary.LittleEndian.PutUint32(b[1:5], uint32(i))
		return b[:5]
	}
	b[0] = 0xff
	binary.LittleEndian.PutUint64(b[1:9], i)
	return b
''','''	switch {
	case i < 0xfd:
		return []byte{byte(i)}
	case i <= 0xffff:
		return []byte{0xfd, byte(i), byte(i >> 8)}
	case i <= 0xffffffff:
		b := make([]byte, 5)
		b[0] = 0xfe
		binary.LittleEndian.PutUint32(b[1:], uint32(i))
		return b
	default:
		b := make([]byte, 9)
		b[0] = 0xff
		binary.LittleEndian.PutUint64(b[1:], i)
		return b
	}
'''))
R('varint-loop','C03',(VI,'''	b[0] = 0xff
	binary.LittleEndian.PutUint64(b[1:9], i)
	return b
}

''','''	b[0] = 0xff
	for k := 0; k < 8; k++ {
		b[1+k] = byte(i >> (8 * uint(k)))
	}
	return b
}

'''))
R('decodevarint-if','C03 C01 C02',(VI,'''	switch b[0] {
	case 0xff:
		if len(b) < 9 {
			return 0, 0
		}
		result = binary.LittleEndian.Uint64(b[1:9])
		size = 9

	case 0xfe:''','''	if b[0] == 0xff {
		if len(b) < 9 {
			return 0, 0
		}
		return binary.LittleEndian.Uint64(b[1:]), 9
	}
	switch b[0] {
	case 0xfe:'''),(VI,'''		result = uint64(binary.LittleEndian.Uint16([]byte{b[0], 0x00}))
''','''		result = uint64(b[0])
'''))
R('decodevarint-helper','C03 C01 C02',(VI,'''		if len(b) < 5 {
			return 0, 0
		}
		result = uint64(binary.LittleEndian.Uint32(b[1:5]))
		size = 5
''','''		result, size = decodeFour(b)
'''),(VI,'''func DecodeVarInt''','''func decodeFour(b []byte) (uint64, int) {
	if len(b) < 5 {
		return 0, 0
	}
	return uint64(binary.LittleEndian.Uint32(b[1:5])), 5
}

// DecodeVarInt decodes
func DecodeVarInt'''))
R('reverse-simple','C37 C01 C05 C06 C24 C26',(BM,'''	tmp := make([]byte, len(a))
	copy(tmp, a)

	for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
		tmp[i], tmp[j] = tmp[j], tmp[i]
	}
	return tmp''','''	tmp := make([]byte, len(a))
	for i := range a {
		tmp[len(a)-1-i] = a[i]
	}
	return tmp'''))
R('reverse-append','C37 C01 C24',(BM,'''	tmp := make([]byte, len(a))
	copy(tmp, a)

	for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
		tmp[i], tmp[j] = tmp[j], tmp[i]
	}
	return tmp''','''	tmp := make([]byte, 0, len(a))
	for i := len(a) - 1; i >= 0; i-- {
		tmp = append(tmp, a[i])
	}
	return tmp'''))
R('reverse-half','C37 C05',(BM,'''	for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
		tmp[i], tmp[j] = tmp[j], tmp[i]
	}''','''	n := len(tmp)
	for i := 0; i < n/2; i++ {
		tmp[i], tmp[n-1-i] = tmp[n-1-i], tmp[i]
	}'''))
R('revhex-forward','C37 C25',(BM,'''	res := ""
	if len(hex)%2 != 0 {
		hex = "0" + hex
	}

	for i := len(hex); i >= 2; i -= 2 {

		res += hex[i-2 : i]
	}
	return res''','''	if len(hex)%2 == 1 {
		hex = "0" + hex
	}
	res := ""
	for i := 0; i < len(hex); i += 2 {
		res = hex[i:i+2] + res
	}
	return res'''))
R('equals-bytes','C37',(BM,'''	if len(b1) != len(b2) {
		return false
	}
	for i, x := range b1 {
		if x != b2[i] {
			return false
		}
	}
	return true''','''	return bytes.Equal(b1, b2)'''))
R('equals-index','C37',(BM,'''	for i, x := range b1 {
		if x != b2[i] {
			return false
		}
	}
	return true''','''	for i := 0; i < len(b2); i++ {
		if b2[i] != b1[i] {
			return false
		}
	}
	return true'''))
R('le-shift','C37 C01',(BM,'''	buf := make([]byte, l)

	binary.LittleEndian.PutUint32(buf, v)

	return buf''','''	buf := make([]byte, l)
	_ = buf[3]
	buf[0] = byte(v)
	buf[1] = byte(v >> 8)
	buf[2] = byte(v >> 16)
	buf[3] = byte(v >> 24)
	return buf'''),(BM,'''	"encoding/binary"
''',''))
R('less-compare','C37 C29',(BM,'''	switch bytes.Compare(b[i], b[j]) {
	case -1:
		return true
	case 0, 1:
		return false
	default:
		log.Panic("not fail-able with `bytes.Comparable` bounded [-1, 1].")
		return false
	}''','''	return bytes.Compare(b[i], b[j]) < 0'''),(BM,'''	"log"
''',''))
R('sort-slice','C37 C29',(BM,'''	sorted := sortByteArrays(src)
	sort.Sort(sorted)
	return sorted''','''	sort.Slice(src, func(i, j int) bool { return bytes.Compare(src[i], src[j]) < 0 })
	return src'''))
R('decode32-noslice','C32 C37',(BM,'''	copy(b32[:], b[0:32])

	return b32, nil''','''	for i := range b32 {
		b32[i] = b[i]
	}
	return b32, nil'''))
# --- crypto
R('sha256d-inline','C22 C05 C13 C24',(HA,'''	first := Sha256(b)
	second := Sha256(first[:])
	return second''','''	return Sha256(Sha256(b))'''))
R('sha256d-direct','C22 C05 C13 C15 C24',(HA,'''	first := Sha256(b)
	second := Sha256(first[:])
	return second''','''	first := sha256.Sum256(b)
	second := sha256.Sum256(first[:])
	return second[:]'''))
R('sha256-new','C22 C05',(HA,'''	data := sha256.Sum256(b)
	return data[:]''','''	h := sha256.New()
	h.Write(b)
	return h.Sum(nil)'''))
R('decrypt-helper','C23 C32',(EN,'''	iv := ciphertext[:aes.BlockSize]
	cfb := cipher.NewCFBDecrypter(ciph, iv)
	text := make([]byte, len(ciphertext)-aes.BlockSize)
	cfb.XORKeyStream(text, ciphertext[aes.BlockSize:])
''','''	iv, body := ciphertext[:aes.BlockSize], ciphertext[aes.BlockSize:]
	text := make([]byte, len(body))
	cipher.NewCFBDecrypter(ciph, iv).XORKeyStream(text, body)
'''))
# --- pushdata
R('prefix-switch','C04 C19 C21',(PD,'''	b := make([]byte, 0)
	l := int64(len(data))

	if l <= 75 {
		b = append(b, byte(l))

	} else if l <= 0xFF {
		b = append(b, 0x4c) // OP_PUSHDATA1
		b = append(b, byte(len(data)))

	} else if l <= 0xFFFF {''','''	var b []byte
	l := len(data)

	if l < int(OpPUSHDATA1) {
		return []byte{byte(l)}, nil
	}
	if l < 256 {
		return append(b, OpPUSHDATA1, byte(l)), nil
	}
	if l <= 0xFFFF {'''))
R('encode-helper','C04 C19 C21 C07',(PD,'''	b := make([]byte, 0)

	for i, part := range parts {
		pd, err := GetPushDataPrefix(part)
		if err != nil {
			return nil, fmt.Errorf("part %d is too big", i)
		}

		b = append(b, pd...)
		b = append(b, part...)
	}

	return b, nil
}
''','''	b := []byte{}
	for i := 0; i < len(parts); i++ {
		var err error
		if b, err = appendPart(b, parts[i]); err != nil {
			return nil, fmt.Errorf("part %d is too big", i)
		}
	}
	return b, nil
}

func appendPart(b, part []byte) ([]byte, error) {
	pd, err := GetPushDataPrefix(part)
	if err != nil {
		return nil, err
	}
	return append(append(b, pd...), part...), nil
}
'''))
PD1='''		case OpPUSHDATA1:
			if len(b) < 2 {
				return r, push, errors.New("Not enough data")
			}
			l := uint64(b[1])
			if len(b) < int(2+l) {
				return r, push, errors.New("Not enough data")
			}
			part := b[2 : 2+l]
			r = append(r, part)
			push = append(push, true)
			b = b[2+l:]
'''
R('decode-local','C04 C17 C18 C21 C31',(PD,PD1,'''		case OpPUSHDATA1:
			if len(b) < 2 {
				return r, push, errors.New("Not enough data")
			}
			rest := b[2:]
			n := int(b[1])
			if n > len(rest) {
				return r, push, errors.New("Not enough data")
			}
			r = append(r, rest[:n])
			push = append(push, true)
			b = rest[n:]
'''))
FULL=open('/repo/script/OpPushdata.go').read()
dec=FULL[FULL.index('	var r [][]byte\n	var push []bool'):]
R('decode-helper','C04 C17 C18 C21 C31',(PD,dec,'''	var r [][]byte
	var push []bool
	for len(b) > 0 {
		head, size, ok := pushHeader(b)
		if !ok || size > uint64(len(b)-head) {
			return r, push, errors.New("Not enough data")
		}
		if head == 0 {
			r, push = append(r, []byte{b[0]}), append(push, false)
			b = b[1:]
			continue
		}
		end := head + int(size)
		r, push = append(r, b[head:end]), append(push, true)
		b = b[end:]
	}

	return r, push, nil
}

// pushHeader returns the size of the push prefix (0 for an opcode) and the size of the data.
func pushHeader(b []byte) (int, uint64, bool) {
	switch op := b[0]; {
	case op == OpPUSHDATA1:
		if len(b) < 2 {
			return 0, 0, false
		}
		return 2, uint64(b[1]), true
	case op == OpPUSHDATA2:
		if len(b) < 3 {
			return 0, 0, false
		}
		return 3, uint64(binary.LittleEndian.Uint16(b[1:])), true
	case op == OpPUSHDATA4:
		if len(b) < 5 {
			return 0, 0, false
		}
		return 5, uint64(binary.LittleEndian.Uint32(b[1:])), true
	case op >= 1 && op < OpPUSHDATA1:
		return 1, uint64(op), true
	}
	return 0, 0, true
}
'''))
R('decode-offset','C04 C17 C31',(PD,dec,dec.replace('for len(b) > 0 {','for pos := 0; pos < len(b); {\n\t\tb := b[pos:]').replace('b = b[2+l:]','pos += int(2 + l)').replace('b = b[3+l:]','pos += int(3 + l)').replace('b = b[5+l:]','pos += int(5 + l)').replace('b = b[1+l:]','pos += 1 + int(l)').replace('b = b[1:]\n','pos++\n')))
# --- script
R('p2pkh-shared','C16 C13 C18 C19',(SC,'''	hash := crypto.Hash160(pubKeyBytes)

	b := []byte{
		OpDUP,
		OpHASH160,
		0x14,
	}
	b = append(b, hash...)
	b = append(b, OpEQUALVERIFY)
	b = append(b, OpCHECKSIG)

	s := Script(b)
	return &s, nil
}
''','''	return p2pkhFor(crypto.Hash160(pubKeyBytes)), nil
}

func p2pkhFor(hash []byte) *Script {
	b := make([]byte, 0, 25)
	b = append(b, OpDUP, OpHASH160, byte(len(hash)))
	b = append(b, hash...)
	b = append(b, OpEQUALVERIFY, OpCHECKSIG)
	return NewFromBytes(b)
}
'''),(SC,'''		return nil, fmt.Errorf("invalid public key hash length %d", len(hash))
	}

	b := []byte{
		OpDUP,
		OpHASH160,
		0x14,
	}
	b = append(b, hash...)
	b = append(b, OpEQUALVERIFY)
	b = append(b, OpCHECKSIG)

	s := Script(b)
	return &s, nil
''','''		return nil, fmt.Errorf("invalid public key hash length %d", len(hash))
	}

	return p2pkhFor(hash), nil
'''),(SC,'''	s := &Script{}
	s.AppendOpCode(OpDUP)
	s.AppendOpCode(OpHASH160)
	err = s.AppendPushData(publicKeyHashBytes)
	if err != nil {
		return nil, err
	}
	s.AppendOpCode(OpEQUALVERIFY)
	s.AppendOpCode(OpCHECKSIG)

	return s, nil
''','''	return p2pkhFor(publicKeyHashBytes), nil
'''))
R('isp2pkh-early','C16 C17 C18',(SC,'''	b := []byte(*s)
	return len(b) == 25 &&
		b[0] == OpDUP &&
		b[1] == OpHASH160 &&
		b[2] == 0x14 &&
		b[23] == OpEQUALVERIFY &&
		b[24] == OpCHECKSIG''','''	b := []byte(*s)
	if len(b) != 25 {
		return false
	}
	head := b[0] == OpDUP && b[1] == OpHASH160 && b[2] == 20
	tail := b[24] == OpCHECKSIG && b[23] == OpEQUALVERIFY
	return head && tail'''))
R('isp2pkh-prefix','C16 C17 C18',(SC,'''	return len(b) == 25 &&
		b[0] == OpDUP &&
		b[1] == OpHASH160 &&
		b[2] == 0x14 &&
		b[23] == OpEQUALVERIFY &&
		b[24] == OpCHECKSIG''','''	return len(b) == 25 &&
		bytes.HasPrefix(b, []byte{OpDUP, OpHASH160, 0x14}) &&
		bytes.HasSuffix(b, []byte{OpEQUALVERIFY, OpCHECKSIG})'''),(SC,'''import (
''','''import (
	"bytes"
'''))
R('isdata-switch','C17 C31',(SC,'''	return len(b) > 0 && b[0] == 0x6a ||
		len(b) > 1 && b[0] == 0x00 && b[1] == 0x6a''','''	switch {
	case len(b) == 0:
		return false
	case b[0] == OpRETURN:
		return true
	case len(b) == 1:
		return false
	}
	return b[0] == OpFALSE && b[1] == OpRETURN'''))
R('multisig-early','C17 C31',(SC,'''	if isSmallIntOp(parts[0][0]) == false {
		return false
	}

	for i := 1; i < len(parts)-2; i++ {
		if len(parts[i]) < 1 {
			return false
		}
	}

	return isSmallIntOp(parts[len(parts)-2][0]) &&
		parts[len(parts)-1][0] == OpCHECKMULTISIG''','''	n := len(parts)
	if !isSmallIntOp(parts[0][0]) || !isSmallIntOp(parts[n-2][0]) || parts[n-1][0] != OpCHECKMULTISIG {
		return false
	}
	for _, key := range parts[1 : n-2] {
		if len(key) == 0 {
			return false
		}
	}
	return true'''))
R('p2pk-switch','C17 C31',(SC,'''		if (version == 0x04 || version == 0x06 || version == 0x07) && len(pubkey) == 65 {
			return true
		} else if (version == 0x03 || version == 0x02) && len(pubkey) == 33 {
			return true
		}
	}
	return false''','''		switch version {
		case 0x04, 0x06, 0x07:
			return len(pubkey) == 65
		case 0x02, 0x03:
			return len(pubkey) == 33
		}
	}
	return false'''))
R('toasm-builder','C21 C31',(SC,'''	var asmScript string
	for i, p := range parts {
		if !push[i] {
			asmScript = asmScript + " " + opCodeValues[p[0]]
		} else {
			asmScript = asmScript + " " + hex.EncodeToString(p)
		}
	}

	return strings.TrimSpace(asmScript), nil''','''	words := make([]string, 0, len(parts))
	for i, p := range parts {
		if push[i] {
			words = append(words, hex.EncodeToString(p))
		} else {
			words = append(words, opCodeValues[p[0]])
		}
	}

	return strings.Join(words, " "), nil'''))
R('toasm-swap','C21 C31',(SC,'''		if !push[i] {
			asmScript = asmScript + " " + opCodeValues[p[0]]
		} else {
			asmScript = asmScript + " " + hex.EncodeToString(p)
		}
''','''		word := hex.EncodeToString(p)
		if !push[i] {
			word = opCodeValues[p[0]]
		}
		asmScript += " " + word
'''))
R('fromasm-err','C21 C31',(SC,'''		if val, ok := opCodeStrings[section]; ok {
			s.AppendOpCode(val)
		} else {
			err := s.AppendPushDataHexString(section)
			if err != nil {
				return nil, errors.New("invalid opcode data")
			}
		}
''','''		val, ok := opCodeStrings[section]
		if ok {
			s.AppendOpCode(val)
			continue
		}
		if err := s.AppendPushDataHexString(section); err != nil {
			return nil, errors.New("invalid opcode data")
		}
'''))
R('gpkh-slice','C18 C08 C31',(SC,'''	parts, err := DecodeParts((*s)[2:])
	if err != nil {
		return nil, err
	}

	return parts[0], nil''','''	return (*s)[3:23], nil'''))
R('unlock-flat','C07',(US,'''	sigBuf := []byte{}
	sigBuf = append(sigBuf, sig...)
	sigBuf = append(sigBuf, uint8(sigHashFlag))

	scriptBuf := [][]byte{sigBuf, pubKey}

	s := &Script{}
	err := s.AppendPushDataArray(scriptBuf)

	return s, err''','''	sigBuf := make([]byte, 0, len(sig)+1)
	sigBuf = append(sigBuf, sig...)
	sigBuf = append(sigBuf, byte(sigHashFlag))

	s := &Script{}
	if err := s.AppendPushData(sigBuf); err != nil {
		return s, err
	}
	return s, s.AppendPushData(pubKey)'''))
# --- transaction
R('tx-helper','C01 C05 C36 C33',(TX,'''	h = append(h, utils.VarInt(uint64(len(bt.GetOutputs())))...)
	for _, out := range bt.GetOutputs() {
		h = append(h, out.ToBytes()...)
	}

	lt := make([]byte, 4)
	binary.LittleEndian.PutUint32(lt, bt.Locktime)
	h = append(h, lt...)

	return h
}
''','''	h = bt.appendOutputs(h)

	return append(h, utils.GetLittleEndianBytes(bt.Locktime, 4)...)
}

func (bt *Transaction) appendOutputs(h []byte) []byte {
	outs := bt.GetOutputs()
	h = append(h, utils.VarInt(uint64(len(outs)))...)
	for i := 0; i < len(outs); i++ {
		h = append(h, outs[i].ToBytes()...)
	}
	return h
}
'''))
R('tx-clear-branch','C36 C01 C05',(TX,'''		s := in.ToBytes(scriptPubKey != nil)
		if i == index && scriptPubKey != nil {
			// s is the outpoint, an empty script (one zero byte) and the sequence
			h = append(h, s[:len(s)-5]...)
			h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
			h = append(h, scriptPubKey...)
			h = append(h, s[len(s)-4:]...)
		} else {
			h = append(h, s...)
		}
''','''		if scriptPubKey == nil {
			h = append(h, in.ToBytes(false)...)
			continue
		}
		s := in.ToBytes(true)
		if i != index {
			h = append(h, s...)
			continue
		}
		n := len(s) - 5
		h = append(h, s[:n]...)
		h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
		h = append(h, scriptPubKey...)
		h = append(h, s[n+1:]...)
'''))
R('tx-parse-rest','C01 C02 C11',(TX,'''	nLT := b[offset:]

	if len(nLT) != 4 {
		return nil, fmt.Errorf("nLockTime length must be 4 bytes long")
	}

	t.Locktime = binary.LittleEndian.Uint32(b[offset:])
	offset += 4

	return &t, nil''','''	if len(b)-offset != 4 {
		return nil, fmt.Errorf("nLockTime length must be 4 bytes long")
	}

	t.Locktime = binary.LittleEndian.Uint32(b[len(b)-4:])

	return &t, nil'''))
R('tx-parse-rest-slice','C01 C02',(TX,'''	var i uint64
	for ; i < inputCount; i++ {
		i, size, err := input.NewFromBytes(b[offset:])
		if err != nil {
			return nil, err
		}
		offset += size

		t.Inputs = append(t.Inputs, i)
	}
''','''	var i uint64
	for ; inputCount > 0; inputCount-- {
		in, n, err := input.NewFromBytes(b[offset:])
		if err != nil {
			return nil, err
		}
		t.Inputs = append(t.Inputs, in)
		offset += n
	}
'''))
R('tx-parse-helper','C01 C02',(TX,'''	// create outputs
	outputCount, size := utils.DecodeVarInt(b[offset:])
	if size == 0 {
		return nil, fmt.Errorf("output count is truncated")
	}
	offset += size
	for i = 0; i < outputCount; i++ {
		o, size, err := output.NewFromBytes(b[offset:])
		if err != nil {
			return nil, err
		}
		offset += size
		t.Outputs = append(t.Outputs, o)
	}

	nLT := b[offset:]
''','''	// create outputs
	n, err := t.parseOutputs(b[offset:])
	if err != nil {
		return nil, err
	}
	offset += n

	nLT := b[offset:]
'''),(TX,'''// AddInput adds''','''func (bt *Transaction) parseOutputs(b []byte) (int, error) {
	outputCount, size := utils.DecodeVarInt(b)
	if size == 0 {
		return 0, fmt.Errorf("output count is truncated")
	}
	offset := size
	for i := uint64(0); i < outputCount; i++ {
		o, size, err := output.NewFromBytes(b[offset:])
		if err != nil {
			return 0, err
		}
		offset += size
		bt.Outputs = append(bt.Outputs, o)
	}
	return offset, nil
}

// AddInput adds'''))
R('tx-total-index','C35 C33',(TX,'''	var total uint64
	for _, o := range bt.GetOutputs() {
		total += o.Satoshis
	}

	return total''','''	total := uint64(0)
	outs := bt.Outputs
	for i := len(outs) - 1; i >= 0; i-- {
		total += outs[i].Satoshis
	}
	return total'''))
R('tx-coinbase','C34',(TX,'''	if bt.Inputs[0].PreviousTxID != "0000000000000000000000000000000000000000000000000000000000000000" {
		return false
	}

	if bt.Inputs[0].PreviousTxOutIndex == 0xFFFFFFFF || bt.Inputs[0].SequenceNumber == 0xFFFFFFFF {
		return true
	}

	return false''','''	in := bt.Inputs[0]
	null := in.PreviousTxID == "0000000000000000000000000000000000000000000000000000000000000000"
	final := in.SequenceNumber == 0xFFFFFFFF || in.PreviousTxOutIndex == 0xFFFFFFFF

	return null && final'''))
R('tx-coinbase-repeat','C34',(TX,'''	if bt.Inputs[0].PreviousTxID != "0000000000000000000000000000000000000000000000000000000000000000" {''','''	if bt.Inputs[0].PreviousTxID != strings.Repeat("0", 64) {'''),(TX,'''	"fmt"
''','''	"fmt"
	"strings"
'''))
R('tx-from-new','C35',(TX,'''	pts, err := script.NewFromHexString(scriptSig)
	if err != nil {
		return err
	}

	i := &input.Input{
		PreviousTxOutIndex: vout,
		PreviousTxScript:   pts,
		PreviousTxSatoshis: satoshis,
		SequenceNumber:     0xffffffff,
	}

	i.PreviousTxID = txID

	bt.AddInput(i)
''','''	i, err := input.NewFromUTXO(txID, vout, satoshis, scriptSig, 0xffffffff)
	if err != nil {
		return err
	}

	bt.AddInput(i)
'''),(TX,'''	"github.com/libsv/libsv/script"
''','''	"github.com/libsv/libsv/script"
'''))
R('tx-txid-steps','C05',(TX,'''	return hex.EncodeToString(utils.ReverseBytes(crypto.Sha256d(bt.ToBytes())))''','''	raw := bt.ToBytes()
	first := crypto.Sha256(raw)
	return utils.ReverseHexString(hex.EncodeToString(crypto.Sha256(first)))'''))
R('tx-apply','C33 C07',(TX,'''	if uint64(index) < uint64(len(bt.Inputs)) && bt.Inputs[index] != nil {
		bt.Inputs[index].UnlockingScript = s
		return nil
	}

	return fmt.Errorf("no input at index %d", index)''','''	if int(index) >= len(bt.Inputs) {
		return fmt.Errorf("no input at index %d", index)
	}
	in := bt.Inputs[index]
	if in == nil {
		return fmt.Errorf("no input at index %d", index)
	}
	in.UnlockingScript = s
	return nil'''))
R('input-helper','C01 C02 C11 C36 C05',(IN,'''	if clear {
		h = append(h, 0x00)
	} else {
		if i.UnlockingScript == nil {
			h = append(h, utils.VarInt(0)...)
		} else {
			h = append(h, utils.VarInt(uint64(len(*i.UnlockingScript)))...)
			h = append(h, *i.UnlockingScript...)
		}
	}
''','''	var us []byte
	if !clear && i.UnlockingScript != nil {
		us = *i.UnlockingScript
	}
	h = append(h, utils.VarInt(uint64(len(us)))...)
	h = append(h, us...)
'''))
R('input-parse','C01 C02 C11',(IN,'''	totalLength := offset + int(l) + 4 // 4 bytes for nSeq

	if len(bytes) < totalLength {
		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
	}

	us := append([]byte{}, bytes[offset:offset+int(l)]...) // own copy, not a window into the buffer
	i.UnlockingScript = script.NewFromBytes(us)

	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[offset+int(l):])

	return &i, totalLength, nil''','''	end := offset + int(l)
	if len(bytes)-end < 4 {
		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
	}

	us := make([]byte, l)
	copy(us, bytes[offset:])
	i.UnlockingScript = script.NewFromBytes(us)

	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[end : end+4])

	return &i, end + 4, nil'''))
R('output-share','C01 C06 C05 C36',(OUT,'''	buf := make([]byte, 0)

	satoshis := make([]byte, 8)
	binary.LittleEndian.PutUint64(satoshis, o.Satoshis)
	buf = append(buf, satoshis...)

	buf = append(buf, utils.VarInt(uint64(len(*o.LockingScript)))...)
	buf = append(buf, *o.LockingScript...)

	return buf''','''	return o.ToBytes()'''))
R('output-prealloc','C01 C05 C10',(OUT,'''	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, o.Satoshis)

	h := make([]byte, 0)
	h = append(h, b...)
	h = append(h, utils.VarInt(uint64(len(*o.LockingScript)))...)
	h = append(h, *o.LockingScript...)
''','''	h := make([]byte, 8, 8+9+len(*o.LockingScript))
	binary.LittleEndian.PutUint64(h, o.Satoshis)
	h = append(h, utils.VarInt(uint64(len(*o.LockingScript)))...)
	h = append(h, *o.LockingScript...)
'''))
R('output-puzzle','C19',(OUT,'''	s := &script.Script{}

	s.AppendOpCode(script.OpHASH160)
	secretBytesHash := crypto.Hash160([]byte(secret))
	err = s.AppendPushData(secretBytesHash)
	if err != nil {
		return nil, err
	}
	s.AppendOpCode(script.OpEQUALVERIFY)
''','''	s := script.NewFromBytes([]byte{script.OpHASH160})
	if err = s.AppendPushData(crypto.Hash160([]byte(secret))); err != nil {
		return nil, err
	}
	s.AppendOpCode(script.OpEQUALVERIFY)
'''))
R('output-opreturn','C19',(OUT,'''	s := &script.Script{}

	s.AppendOpCode(script.OpFALSE)
	s.AppendOpCode(script.OpRETURN)
	err := s.AppendPushDataArray(data)
	if err != nil {
		return nil, err
	}
	o := Output{}
	o.LockingScript = s
	return &o, nil''','''	s := script.Script{script.OpFALSE, script.OpRETURN}
	for _, d := range data {
		if err := s.AppendPushData(d); err != nil {
			return nil, err
		}
	}
	return &Output{LockingScript: &s}, nil'''))
R('sighash-base','C06 C07 C33',(SH,'''	if sigHashFlag&sighash.AnyOneCanPay == 0 {
		// This will be executed in the usual BSV case (where sigHashType = SighashAllForkID)
		var err error
		if hashPrevouts, err = bt.getPrevoutHash(); err != nil {
			return nil, err
		}
	}

	if sigHashFlag&sighash.AnyOneCanPay == 0 &&
		(sigHashFlag&31) != sighash.Single &&
		(sigHashFlag&31) != sighash.None {
		// This will be executed in the usual BSV case (where sigHashType = SighashAllForkID)
		hashSequence = bt.getSequenceHash()
	}

	if (sigHashFlag&31) != sighash.Single && (sigHashFlag&31) != sighash.None {
		// This will be executed in the usual BSV case (where sigHashType = SighashAllForkID)
		hashOutputs = bt.getOutputsHash(-1)
	} else if (sigHashFlag&31) == sighash.Single && inputNumber < uint32(len(bt.Outputs)) {
		// This will *not* be executed in the usual BSV case (where sigHashType = SighashAllForkID)
		hashOutputs = bt.getOutputsHash(int32(inputNumber))
	}
''','''	anyone := sigHashFlag&sighash.AnyOneCanPay != 0
	base := sigHashFlag & sighash.Mask
	all := base != sighash.Single && base != sighash.None

	if !anyone {
		var err error
		if hashPrevouts, err = bt.getPrevoutHash(); err != nil {
			return nil, err
		}
		if all {
			hashSequence = bt.getSequenceHash()
		}
	}

	switch {
	case all:
		hashOutputs = bt.getOutputsHash(-1)
	case base == sighash.Single && inputNumber < uint32(len(bt.Outputs)):
		hashOutputs = bt.getOutputsHash(int32(inputNumber))
	}
'''))
R('sighash-preimage','C06 C07 C33',(SH,'''	buf := make([]byte, 0)

	// Version
	v := make([]byte, 4)
	binary.LittleEndian.PutUint32(v, bt.Version)
	buf = append(buf, v...)

	// Input''','''	txid, err := decodeTxID(in.PreviousTxID)
	if err != nil {
		return nil, err
	}

	buf := make([]byte, 4, 182+len(*in.PreviousTxScript))

	// Version
	binary.LittleEndian.PutUint32(buf, bt.Version)

	// Input'''),(SH,'''	//  outpoint (32-byte hash + 4-byte little endian)
	txid, err := decodeTxID(in.PreviousTxID)
	if err != nil {
		return nil, err
	}
	buf''','''	//  outpoint (32-byte hash + 4-byte little endian)
	buf'''))
R('sighash-helper','C06 C07',(SH,'''		txid, err := decodeTxID(in.PreviousTxID)
		if err != nil {
			return nil, err
		}
		buf = append(buf, utils.ReverseBytes(txid)...)
		oi := make([]byte, 4)
		binary.LittleEndian.PutUint32(oi, in.PreviousTxOutIndex)
		buf = append(buf, oi...)
''','''		op, err := outpoint(in.PreviousTxID, in.PreviousTxOutIndex)
		if err != nil {
			return nil, err
		}
		buf = append(buf, op...)
'''),(SH,'''func (bt *Transaction) getPrevoutHash''','''func outpoint(id string, index uint32) ([]byte, error) {
	txid, err := decodeTxID(id)
	if err != nil {
		return nil, err
	}
	op := make([]byte, 36)
	copy(op, utils.ReverseBytes(txid))
	binary.LittleEndian.PutUint32(op[32:], index)
	return op, nil
}

func (bt *Transaction) getPrevoutHash'''))
R('sighash-outputs','C06',(SH,'''	buf := make([]byte, 0)

	if n == -1 {
		for _, out := range bt.Outputs {
			buf = append(buf, out.GetBytesForSigHash()...)
		}
	} else {
		buf = append(buf, bt.Outputs[n].GetBytesForSigHash()...)
	}

	return crypto.Sha256d(buf)''','''	outs := bt.Outputs
	if n >= 0 {
		outs = outs[n : n+1]
	}
	var buf []byte
	for _, out := range outs {
		buf = append(buf, out.GetBytesForSigHash()...)
	}
	return crypto.Sha256d(buf)'''))
R('signauto-equal','C08 C10',(SG,'''	for i, in := range unsignedTx.Inputs {

		pubKeyHash, _ := in.PreviousTxScript.GetPublicKeyHash() // doesn't matter if returns error (not p2pkh)
		pubKeyHashStr := hex.EncodeToString(pubKeyHash)

		pubKeyHashStrFromPriv := hex.EncodeToString(crypto.Hash160(is.PrivateKey.PubKey().SerializeCompressed()))

		// check if able to sign (public key matches pubKeyHash in script)
		if pubKeyHashStr == pubKeyHashStrFromPriv {
''','''	own := hex.EncodeToString(crypto.Hash160(is.PrivateKey.PubKey().SerializeCompressed()))
	for i, in := range unsignedTx.Inputs {
		pubKeyHash, err := in.PreviousTxScript.GetPublicKeyHash()
		if err != nil {
			continue // not p2pkh
		}
		if hex.EncodeToString(pubKeyHash) == own {
'''))
R('sign-helper','C07 C33 C09',(SG,'''	flag := is.SigHashFlag
	if flag == 0 {
		flag = sighash.AllForkID
	}

	sh, err''','''	flag := is.flag()
	sh, err'''),(SG,'''// Sign a transaction at''','''func (is *InternalSigner) flag() sighash.Flag {
	if is.SigHashFlag != 0 {
		return is.SigHashFlag
	}
	return sighash.AllForkID
}

// Sign a transaction at'''),(SG,'''	err = unsignedTx.ApplyUnlockingScript(index, s)
	if err != nil {
		return nil, err
	}
''','''	if err = unsignedTx.ApplyUnlockingScript(index, s); err != nil {
		return nil, err
	}
'''))
# --- block
R('header-cat','C26',(BH,'''	a := []byte{}
	a = append(a, v...)
	a = append(a, p...)
	a = append(a, merkleRoot...)
	a = append(a, time...)
	a = append(a, bits...)
	a = append(a, nonce...)
	return a''','''	a := append([]byte{}, v...)
	for _, f := range [][]byte{p, merkleRoot, time, bits, nonce} {
		a = append(a, f...)
	}
	return a'''))
R('header-join','C26',(BH,'''	a := []byte{}
	a = append(a, v...)
	a = append(a, p...)
	a = append(a, merkleRoot...)
	a = append(a, time...)
	a = append(a, bits...)
	a = append(a, nonce...)
	return a''','''	return bytes.Join([][]byte{v, p, merkleRoot, time, bits, nonce}, nil)'''),(BH,'''import (
''','''import (
	"bytes"
'''))
R('merkle-range','C24',(MR,'''	for i := 0; i < len(merkleBranches); i++ {
		branch, _ := hex.DecodeString(merkleBranches[i])
		concat := append([]byte{}, acc...) // never append to the caller's slice
		concat = append(concat, branch...)
		hash := crypto.Sha256d(concat)
		acc = hash[:]
	}''','''	for _, b := range merkleBranches {
		branch, _ := hex.DecodeString(b)
		concat := make([]byte, 0, len(acc)+len(branch))
		concat = append(concat, acc...)
		concat = append(concat, branch...)
		acc = crypto.Sha256d(concat)
	}'''))
R('merkle-fold','C24 C32',(MB,'''		if txIndex&1 > 0 {
			hash = crypto.Sha256d(append(h, hash...))
		} else {
			hash = crypto.Sha256d(append(hash, h...))
		}

		txIndex >>= 1
''','''		left, right := hash, h
		if txIndex%2 == 1 {
			left, right = h, hash
		}
		hash = crypto.Sha256d(append(append([]byte{}, left...), right...))
		txIndex /= 2
'''))
R('merkle-helper','C24 C32',(MB,'''		h, err := hex.DecodeString(b)
		if err != nil {
			return "", err
		}

		h = utils.ReverseBytes(h)

		if txIndex''','''		h, err := reversed(b)
		if err != nil {
			return "", err
		}

		if txIndex'''),(MB,'''	hash, err := hex.DecodeString(txHash)
	if err != nil {
		return "", err
	}

	hash = utils.ReverseBytes(hash)
''','''	hash, err := reversed(txHash)
	if err != nil {
		return "", err
	}
'''),(MB,'''// MerkleRootFromBranches''','''func reversed(s string) ([]byte, error) {
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil, err
	}
	return utils.ReverseBytes(b), nil
}

// MerkleRootFromBranches'''))
FM=open('/repo/block/GetMerkleBranches.go').read()
wb=FM[FM.index('	var branches []string\n	var walkBranch'):FM.index('	return branches\n}')]
R('branches-loop','C25',(MB,wb,'''	var branches []string
	for len(hashes) > 1 {
		branches = append(branches, hashes[1])
		hashes = nextLevel(hashes)
	}

'''),(MB,'''// GetMerkleBranches comment''','''func nextLevel(hashes []string) []string {
	var results []string
	for i := 0; i < len(hashes); i += 2 {
		a, _ := hex.DecodeString(hashes[i])
		b := a
		if i+1 < len(hashes) {
			b, _ = hex.DecodeString(hashes[i+1])
		}
		results = append(results, hex.EncodeToString(crypto.Sha256d(append(append([]byte{}, a...), b...))))
	}
	return results
}

// GetMerkleBranches comment'''))
R('branches-bytes','C25',(MB,wb,'''	var branches []string
	level := make([][]byte, 0, len(hashes))
	for i := range hashes {
		h, _ := hex.DecodeString(hashes[i])
		level = append(level, h)
	}
	for n := len(level); n > 1; n = (n + 1) / 2 {
		branches = append(branches, hex.EncodeToString(level[1]))
		if n%2 == 1 {
			level = append(level[:n:n], level[n-1])
		}
		next := make([][]byte, (n+1)/2)
		for j := range next {
			buf := make([]byte, 0, 64)
			buf = append(buf, level[2*j]...)
			buf = append(buf, level[2*j+1]...)
			next[j] = crypto.Sha256d(buf)
		}
		level = next
	}

'''))
R('branches-pad','C25',(MB,'''			var b []byte
			if (i + 1) < tot {
				b, _ = hex.DecodeString(hashes[i+1])
			} else {
				b = a
			}
''','''			b := a
			if i+1 != tot {
				b, _ = hex.DecodeString(hashes[i+1])
			}
'''),(MB,'''			concat := append(a, b...)
			hash := crypto.Sha256d(concat)
			results = append(results, hex.EncodeToString(hash[:]))
''','''			pair := make([]byte, len(a)+len(b))
			copy(pair, a)
			copy(pair[len(a):], b)
			results = append(results, hex.EncodeToString(crypto.Sha256d(pair)))
'''))
R('coinbase1-flat','C27',(CB,'''	arbitraryData := []byte{}
	arbitraryData = append(arbitraryData, 0x03)
	arbitraryData = append(arbitraryData, blockHeightBytes[:3]...)
	arbitraryData = append(arbitraryData, []byte(coinbaseText)...)
''','''	arbitraryData := append([]byte{0x03}, blockHeightBytes[:3]...)
	arbitraryData = append(arbitraryData, coinbaseText...)
'''),(CB,'''	if len(arbitraryData) > (100 - spaceForExtraNonce) {
		arbitraryData = arbitraryData[:100-spaceForExtraNonce] // Slice the arbitrary text so everything fits in 100 bytes
	}
''','''	if max := 100 - spaceForExtraNonce; len(arbitraryData) > max {
		arbitraryData = arbitraryData[:max]
	}
'''))
R('coinbase-outputs-helper','C27',(CB,'''	buf := make([]byte, 8)

	binary.LittleEndian.PutUint64(buf[0:], coinbaseValue)

	buf = append(buf, utils.VarInt(uint64(len(*o.LockingScript)))...)
	buf = append(buf, *o.LockingScript...)
''','''	buf := o.ToBytes()
'''),(CB,'''		byteArr := make([]byte, 8) // 8 bytes of 0 = 0 satoshis.
		buf = append(buf, byteArr...)
		buf = append(buf, utils.VarInt(uint64(len(minerIDBytes)))...)
		buf = append(buf, minerIDBytes...)
''','''		buf = append(buf, zeroOutput(minerIDBytes)...)
'''),(CB,'''func makeCoinbase1(''','''func zeroOutput(script []byte) []byte {
	b := make([]byte, 8)
	b = append(b, utils.VarInt(uint64(len(script)))...)
	return append(b, script...)
}

func makeCoinbase1('''),(CB,'''	"encoding/binary"
''','''	"encoding/binary"
'''))
R('coinbase2-order','C27',(CB,'''	sq := []byte{0xff, 0xff, 0xff, 0xff}
	lt := make([]byte, 4)

	ot = append(sq, ot...)
	ot = append(ot, lt...)

	return ot''','''	b := make([]byte, 0, len(ot)+8)
	b = append(b, 0xff, 0xff, 0xff, 0xff)
	b = append(b, ot...)
	return append(b, 0, 0, 0, 0)'''))
R('target-shift','C28 C32',(DI,'''	var bn *big.Int
	if exponent <= 3 {
		mantissa >>= 8 * (3 - exponent)
		bn = big.NewInt(int64(mantissa))
	} else {
		bn = big.NewInt(int64(mantissa))
		bn.Lsh(bn, 8*(exponent-3))
	}
''','''	bn := new(big.Int)
	switch {
	case exponent > 3:
		bn.SetInt64(int64(mantissa))
		bn.Lsh(bn, 8*(exponent-3))
	default:
		bn.SetInt64(int64(mantissa >> (8 * (3 - exponent))))
	}
'''))
R('target-neg','C28 C32',(DI,'''	if isNegative {
		bn = bn.Neg(bn)
	}

	return bn, nil''','''	if !isNegative {
		return bn, nil
	}
	return bn.Neg(bn), nil'''),(DI,'''	b := bn.Bytes()
	if bn.Sign() < 0 || len(b) > len(dst) {''','''	b := bn.Bytes()
	negative := bn.Sign() < 0
	if len(b) > 32 || negative {'''))
# --- address
R('addr-check-order','C14 C32 C16',(AD,'''	var cksum [4]byte
	copy(cksum[:], decoded[len(decoded)-4:])
	if (decoded[0] == 0x00 || decoded[0] == 0x6f) && cksum != checksum(decoded[:len(decoded)-4]) {
		return "", fmt.Errorf("checksum failed for '%s'", address)
	}

	switch decoded[0] {
	case 0x00: // Pubkey hash (P2PKH address)
		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil

	case 0x6f: // Testnet pubkey hash (P2PKH address)
		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil

	case 0x05: // Script hash (P2SH address)
		fallthrough
	case 0xc4: // Testnet script hash (P2SH address)
		fallthrough

	default:
		return "", fmt.Errorf("Address %s is not supported", address)
	}
''','''	if decoded[0] != 0x00 && decoded[0] != 0x6f {
		return "", fmt.Errorf("Address %s is not supported", address)
	}

	want := checksum(decoded[:21])
	var cksum [4]byte
	copy(cksum[:], decoded[21:])
	if cksum != want {
		return "", fmt.Errorf("checksum failed for '%s'", address)
	}

	return hex.EncodeToString(decoded[1:21]), nil
'''))
R('addr-check-bytes','C14 C32 C16',(AD,'''	var cksum [4]byte
	copy(cksum[:], decoded[len(decoded)-4:])
	if (decoded[0] == 0x00 || decoded[0] == 0x6f) && cksum != checksum(decoded[:len(decoded)-4]) {''','''	body, got := decoded[:21], decoded[21:]
	want := crypto.Sha256d(body)[:4]
	if (decoded[0] == 0x00 || decoded[0] == 0x6f) && !bytes.Equal(got, want) {'''),(AD,'''import (
''','''import (
	"bytes"
'''))
R('addr-shared','C13 C14',(AD,'''	hash := crypto.Hash160(pubKey.SerializeCompressed())

	// regtest := 111
	// mainnet: 0

	bb := make([]byte, 1)
	if mainnet == false {
		bb[0] = 111
	}

	bb = append(bb, hash...)
	addr := Base58EncodeMissingChecksum(bb)

	a := Address{
		AddressString: addr,
		PublicKeyHash: hex.EncodeToString(hash),
	}
	return &a, nil''','''	return NewFromPublicKeyHash(crypto.Hash160(pubKey.SerializeCompressed()), mainnet)'''))
R('addr-version','C13',(AD,'''func NewFromPublicKeyHash(hash []byte, mainnet bool) (*Address, error) {

	// regtest := 111
	// mainnet: 0

	bb := make([]byte, 1)
	if mainnet == false {
		bb[0] = 111
	}

	bb = append(bb, hash...)
''','''func NewFromPublicKeyHash(hash []byte, mainnet bool) (*Address, error) {
	version := byte(0x6f)
	if mainnet {
		version = 0
	}

	bb := append([]byte{version}, hash...)
'''))
R('addr-b58','C13 C30',(AD,'''	b := make([]byte, 0, len(input)+4)
	b = append(b, input[:]...)
	cksum := checksum(b)
	b = append(b, cksum[:]...)
	return base58.Encode(b)''','''	cksum := crypto.Sha256d(input)[:4]
	b := make([]byte, len(input), len(input)+4)
	copy(b, input)
	return base58.Encode(append(b, cksum...))'''))
R('addr-valid','C14 C32',(AV,'''	checksumOK := a.embeddedChecksum() == a.computeChecksum()

	if !checksumOK {
		return false, errors.New("checksum failed")
	}

	return true, nil''','''	if a.computeChecksum() != a.embeddedChecksum() {
		return false, errors.New("checksum failed")
	}
	return true, nil'''),(AV,'''	if a[0] != 0 && a[0] != 0x6f {
		return false, errors.New("not version 0 or 6f")
	}
''','''	if version := a[0]; !(version == 0 || version == 0x6f) {
		return false, errors.New("not version 0 or 6f")
	}
'''))
R('bip276-global','C15 C32 C12',(BI,'''	validBIP276 := regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)

	res :=''','''	res :='''),(BI,'''// DecodeBIP276''','''var validBIP276 = regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)

// DecodeBIP276'''))
R('bip276-range','C15',(BI,'''	if version <= 0 || version > 255 || network <= 0 || network > 255 {
		return "ERROR"
	}

	p, c := createBIP276(prefix, network, version, data)

	return p + c''','''	if !inRange(version) || !inRange(network) {
		return "ERROR"
	}

	payload, sum := createBIP276(prefix, network, version, data)
	return payload + sum'''),(BI,'''func createBIP276(''','''func inRange(v int) bool { return v > 0 && v <= 255 }

func createBIP276('''))
R('bip276-checksum','C15 C32',(BI,'''	_, checksum := createBIP276(prefix, network, version, data)
	if res[5] != checksum {
		err = errors.New("Invalid checksum")
		return
	}

	return
''','''	if _, checksum := createBIP276(prefix, network, version, data); checksum != res[5] {
		err = errors.New("Invalid checksum")
	}
	return
'''))
# --- redeem script
R('redeem-append','C29 C10',(RS,'''	var b []byte

	b = append(b, OpBASE+byte(rs.SignaturesRequired))
	rs.PublicKeys = utils.SortByteArrays(rs.PublicKeys)
	for _, pk := range rs.PublicKeys {
		b = append(b, byte(len(pk)))
		b = append(b, pk...)
	}

	b = append(b, OpBASE+byte(len(rs.PublicKeys)))

	b = append(b, OpCHECKMULTISIG)

	return b''','''	rs.PublicKeys = utils.SortByteArrays(rs.PublicKeys)
	b := []byte{OpBASE + byte(rs.SignaturesRequired)}
	for i := range rs.PublicKeys {
		b = append(append(b, byte(len(rs.PublicKeys[i]))), rs.PublicKeys[i]...)
	}
	return append(b, OpBASE+byte(len(rs.PublicKeys)), OpCHECKMULTISIG)'''))
R('electrum-path','C30 C09',(RS,'''		derivationPath := pubkey[78:]
		var s []uint16
		for len(derivationPath) > 0 {
			n := binary.LittleEndian.Uint16(derivationPath[0:2])
			s = append(s, n)
			derivationPath = derivationPath[2:]
		}

		if len(s) != 2 {
			return nil, errors.New("Derivation path should have exactly 2 items")
		}
''','''		path := pubkey[78:]
		s := [2]uint16{binary.LittleEndian.Uint16(path), binary.LittleEndian.Uint16(path[2:])}
'''))
R('addkey-helper','C29 C09',(RS,'''	result, err := pk.Child(derivationPath[0])
	if err != nil {
		return err
	}

	result2, err := result.Child(derivationPath[1])
	if err != nil {
		return err
	}

	ecpk, err := result2.ECPubKey()
	if err != nil {
		return err
	}
''','''	for _, step := range derivationPath {
		if pk, err = pk.Child(step); err != nil {
			return err
		}
	}

	ecpk, err := pk.ECPubKey()
	if err != nil {
		return err
	}
'''))

# ---- second batch: whole functions rewritten
def FN(file,head,new):
    s=open('/repo/'+file).read(); i=s.index('func '+head); j=s.index('\n}\n',i)+3
    return (file,s[i:j],new.strip('\n')+'\n')
def IM(file,*pk):
    s=open('/repo/'+file).read()
    if 'import "' in s:
        i=s.index('import "'); j=s.index('\n',i); old=s[i:j]
        return (file,old,'import (\n\t'+old[7:]+'\n'+''.join(f'\t"{p}"\n' for p in pk)+')')
    return (file,'import (\n','import (\n'+''.join(f'\t"{p}"\n' for p in pk))
R('v-append','C03 C01',(FN(VI,'VarInt(','''
func VarInt(i uint64) []byte {
	if i < 0xfd {
		return []byte{byte(i)}
	}
	if i < 1<<16 {
		return append([]byte{0xfd}, byte(i), byte(i>>8))
	}
	n := 8
	b := []byte{0xff}
	if i < 1<<32 {
		n = 4
		b[0] = 0xfe
	}
	for k := 0; k < n; k++ {
		b = append(b, byte(i))
		i >>= 8
	}
	return b
}
''')))
R('v-buffer','C03 C01',IM(VI,'bytes'),FN(VI,'VarInt(','''
func VarInt(i uint64) []byte {
	var buf bytes.Buffer
	switch {
	case i < 0xfd:
		buf.WriteByte(byte(i))
	case i < 0x10000:
		buf.WriteByte(0xfd)
		binary.Write(&buf, binary.LittleEndian, uint16(i))
	case i < 0x100000000:
		buf.WriteByte(0xfe)
		binary.Write(&buf, binary.LittleEndian, uint32(i))
	default:
		buf.WriteByte(0xff)
		binary.Write(&buf, binary.LittleEndian, i)
	}
	return buf.Bytes()
}
'''))
R('v-appendle','C03 C01',FN(VI,'VarInt(','''
func VarInt(i uint64) []byte {
	if i < 0xfd {
		return []byte{byte(i)}
	} else if i <= 0xffff {
		return binary.LittleEndian.AppendUint16([]byte{0xfd}, uint16(i))
	} else if i <= 0xffffffff {
		return binary.LittleEndian.AppendUint32([]byte{0xfe}, uint32(i))
	}
	return binary.LittleEndian.AppendUint64([]byte{0xff}, i)
}
'''))
R('dv-width','C03 C01 C02',FN(VI,'DecodeVarInt(','''
func DecodeVarInt(b []byte) (result uint64, size int) {
	if len(b) == 0 {
		return 0, 0
	}
	width := 0
	switch b[0] {
	case 0xff:
		width = 8
	case 0xfe:
		width = 4
	case 0xfd:
		width = 2
	default:
		return uint64(b[0]), 1
	}
	if len(b) < 1+width {
		return 0, 0
	}
	for k := width; k >= 1; k-- {
		result = result<<8 | uint64(b[k])
	}
	return result, 1 + width
}
'''))
R('dv-pad','C03 C01 C02',FN(VI,'DecodeVarInt(','''
func DecodeVarInt(b []byte) (uint64, int) {
	if len(b) == 0 {
		return 0, 0
	}
	var size int
	switch b[0] {
	case 0xff:
		size = 9
	case 0xfe:
		size = 5
	case 0xfd:
		size = 3
	default:
		return uint64(b[0]), 1
	}
	if len(b) < size {
		return 0, 0
	}
	var pad [8]byte
	copy(pad[:], b[1:size])
	return binary.LittleEndian.Uint64(pad[:]), size
}
'''))
R('rev-recursive','C37 C05',FN(BM,'ReverseBytes(','''
func ReverseBytes(a []byte) []byte {
	tmp := append([]byte{}, a...)
	l, r := 0, len(tmp)-1
	for l < r {
		tmp[l], tmp[r] = tmp[r], tmp[l]
		l++
		r--
	}
	return tmp
}
'''))
R('rev-range','C37 C05',FN(BM,'ReverseBytes(','''
func ReverseBytes(a []byte) []byte {
	n := len(a)
	out := make([]byte, n)
	for i, c := range a {
		out[n-1-i] = c
	}
	return out
}
'''))
R('revhex-builder','C37 C25',IM(BM,'strings'),FN(BM,'ReverseHexString(','''
func ReverseHexString(hex string) string {
	if len(hex)%2 == 1 {
		hex = "0" + hex
	}

	var sb strings.Builder
	for i := len(hex) - 2; i >= 0; i -= 2 {
		sb.WriteString(hex[i : i+2])
	}
	return sb.String()
}
'''))
R('revhex-bytes','C37 C25',FN(BM,'ReverseHexString(','''
func ReverseHexString(hex string) string {
	if len(hex)&1 != 0 {
		hex = "0" + hex
	}
	n := len(hex)
	res := make([]byte, n)
	for i := 0; i < n; i += 2 {
		res[n-2-i] = hex[i]
		res[n-1-i] = hex[i+1]
	}
	return string(res)
}
'''))
R('equals-strings','C37',FN(BM,'Equals(','''
func Equals(b1 []byte, b2 []byte) bool {
	return string(b1) == string(b2)
}
'''))
R('equals-diff','C37',FN(BM,'Equals(','''
func Equals(b1 []byte, b2 []byte) bool {
	if len(b1) != len(b2) {
		return false
	}
	same := true
	for i := range b1 {
		if b1[i] != b2[i] {
			same = false
			break
		}
	}
	return same
}
'''))
R('less-direct','C29 C37',FN(BM,'(b sortByteArrays) Less(','''
func (b sortByteArrays) Less(i, j int) bool {
	x, y := b[i], b[j]
	return bytes.Compare(x, y) == -1
}
'''),(BM,'	"log"\n',''))
R('decode32-decode','C37 C32',FN(BM,'Decode32Byte(','''
func Decode32Byte(hexStr string) ([32]byte, error) {
	var out [32]byte
	raw, err := hex.DecodeString(hexStr)
	switch {
	case err != nil:
		return out, err
	case len(raw) != len(out):
		return out, fmt.Errorf("expected 32 bytes, got %d", len(raw))
	}
	for i := range out {
		out[i] = raw[i]
	}
	return out, nil
}
'''))
R('hash-writer','C22 C05 C13',FN(HA,'Hash160(','''
func Hash160(b []byte) []byte {
	first := sha256.Sum256(b)
	h := ripemd160.New()
	h.Write(first[:])
	return h.Sum(nil)
}
'''),FN(HA,'Sha256(','''
func Sha256(b []byte) []byte {
	h := sha256.New()
	h.Write(b)
	return h.Sum(nil)
}
'''))
R('hash-sum-prefix','C22 C05 C13',FN(HA,'Ripemd160(','''
func Ripemd160(b []byte) []byte {
	ripe := ripemd160.New()
	_, _ = ripe.Write(b)
	return ripe.Sum(make([]byte, 0, ripemd160.Size))
}
'''))
R('encrypt-parts','C23 C09',FN(EN,'Encrypt(','''
func Encrypt(ciph cipher.Block, text []byte) ([]byte, error) {
	iv := make([]byte, aes.BlockSize)
	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		return nil, err
	}
	body := []byte(base64.StdEncoding.EncodeToString(text))
	cipher.NewCFBEncrypter(ciph, iv).XORKeyStream(body, body)
	return append(iv, body...), nil
}
'''))
R('encrypt-helper','C23 C09',FN(EN,'Encrypt(','''
func Encrypt(ciph cipher.Block, text []byte) ([]byte, error) {
	encoded := []byte(base64.StdEncoding.EncodeToString(text))
	out := make([]byte, aes.BlockSize+len(encoded))
	if err := fillIV(out[:aes.BlockSize]); err != nil {
		return nil, err
	}
	stream := cipher.NewCFBEncrypter(ciph, out[:aes.BlockSize])
	stream.XORKeyStream(out[aes.BlockSize:], encoded)
	return out, nil
}

func fillIV(iv []byte) error {
	_, err := io.ReadFull(rand.Reader, iv)
	return err
}
'''))
R('decrypt-direct','C23 C32 C09',FN(EN,'Decrypt(','''
func Decrypt(ciph cipher.Block, ciphertext []byte) ([]byte, error) {
	if len(ciphertext) < aes.BlockSize {
		return nil, errors.New("ciphertext too short")
	}
	iv, body := ciphertext[:aes.BlockSize], ciphertext[aes.BlockSize:]
	plain := make([]byte, len(body))
	cipher.NewCFBDecrypter(ciph, iv).XORKeyStream(plain, body)
	return base64.StdEncoding.DecodeString(string(plain))
}
'''))
R('encode-append','C04 C19 C21 C07 C16',FN(PD,'EncodeParts(','''
func EncodeParts(parts [][]byte) ([]byte, error) {
	out := []byte{}
	for i := 0; i < len(parts); i++ {
		var err error
		if out, err = appendPush(out, parts[i]); err != nil {
			return nil, fmt.Errorf("part %d is too big", i)
		}
	}
	return out, nil
}

func appendPush(dst, part []byte) ([]byte, error) {
	prefix, err := GetPushDataPrefix(part)
	if err != nil {
		return nil, err
	}
	return append(append(dst, prefix...), part...), nil
}
'''))
R('encode-buffer','C04 C19 C21 C07 C16',IM(PD,'bytes'),FN(PD,'EncodeParts(','''
func EncodeParts(parts [][]byte) ([]byte, error) {
	var buf bytes.Buffer
	for i, part := range parts {
		pd, err := GetPushDataPrefix(part)
		if err != nil {
			return nil, fmt.Errorf("part %d is too big", i)
		}
		buf.Write(pd)
		buf.Write(part)
	}
	return append([]byte{}, buf.Bytes()...), nil
}
'''))
R('encode-presize','C04 C19 C21 C07 C16 C02',FN(PD,'EncodeParts(','''
func EncodeParts(parts [][]byte) ([]byte, error) {
	total := 0
	for _, part := range parts {
		total += 5 + len(part)
	}
	b := make([]byte, 0, total)
	for i, part := range parts {
		pd, err := GetPushDataPrefix(part)
		if err != nil {
			return nil, fmt.Errorf("part %d is too big", i)
		}
		b = append(append(b, pd...), part...)
	}
	return b, nil
}
'''))
R('prefix-literals','C04 C19 C21 C07',FN(PD,'GetPushDataPrefix(','''
func GetPushDataPrefix(data []byte) ([]byte, error) {
	l := uint64(len(data))
	switch {
	case l <= 75:
		return []byte{byte(l)}, nil
	case l <= 0xFF:
		return []byte{OpPUSHDATA1, byte(l)}, nil
	case l <= 0xFFFF:
		return []byte{OpPUSHDATA2, byte(l), byte(l >> 8)}, nil
	case l <= 0xFFFFFFFF:
		p := make([]byte, 5)
		p[0] = OpPUSHDATA4
		binary.LittleEndian.PutUint32(p[1:], uint32(l))
		return p, nil
	}
	return nil, fmt.Errorf("data too big")
}
'''))
R('decode-struct','C04 C17 C18 C21 C31 C30',FN(PD,'decodeParts(','''
func decodeParts(b []byte) ([][]byte, []bool, error) {
	var r [][]byte
	var push []bool
	errShort := errors.New("Not enough data")
	for len(b) > 0 {
		header, size := 1, uint64(0)
		isPush := true
		switch op := b[0]; {
		case op == OpPUSHDATA1:
			if len(b) < 2 {
				return r, push, errShort
			}
			header, size = 2, uint64(b[1])
		case op == OpPUSHDATA2:
			if len(b) < 3 {
				return r, push, errShort
			}
			header, size = 3, uint64(binary.LittleEndian.Uint16(b[1:3]))
		case op == OpPUSHDATA4:
			if len(b) < 5 {
				return r, push, errShort
			}
			header, size = 5, uint64(binary.LittleEndian.Uint32(b[1:5]))
		case op >= 0x01 && op <= 0x4b:
			size = uint64(op)
		default:
			isPush = false
		}
		if !isPush {
			r = append(r, []byte{b[0]})
			push = append(push, false)
			b = b[1:]
			continue
		}
		if uint64(len(b)-header) < size {
			return r, push, errShort
		}
		end := header + int(size)
		r = append(r, b[header:end])
		push = append(push, true)
		b = b[end:]
	}
	return r, push, nil
}
'''))
R('decode-closure','C04 C17 C18 C21 C31 C30',FN(PD,'decodeParts(','''
func decodeParts(b []byte) ([][]byte, []bool, error) {
	var r [][]byte
	var push []bool

	take := func(header int, l uint64) bool {
		if uint64(len(b)) < uint64(header)+l {
			return false
		}
		r = append(r, b[header:uint64(header)+l])
		push = append(push, true)
		b = b[uint64(header)+l:]
		return true
	}

	for len(b) > 0 {
		ok := true
		switch {
		case b[0] == OpPUSHDATA1:
			ok = len(b) >= 2 && take(2, uint64(b[1]))
		case b[0] == OpPUSHDATA2:
			ok = len(b) >= 3 && take(3, uint64(binary.LittleEndian.Uint16(b[1:])))
		case b[0] == OpPUSHDATA4:
			ok = len(b) >= 5 && take(5, uint64(binary.LittleEndian.Uint32(b[1:])))
		case b[0] >= 0x01 && b[0] <= 0x4b:
			ok = take(1, uint64(b[0]))
		default:
			r = append(r, []byte{b[0]})
			push = append(push, false)
			b = b[1:]
		}
		if !ok {
			return r, push, errors.New("Not enough data")
		}
	}
	return r, push, nil
}
'''))
R('asm-split','C21 C09 C32',FN(SC,'NewFromASM(','''
func NewFromASM(str string) (*Script, error) {
	s := new(Script)
	for _, word := range strings.Fields(str) {
		if err := s.appendASM(word); err != nil {
			return nil, errors.New("invalid opcode data")
		}
	}
	return s, nil
}

func (s *Script) appendASM(word string) error {
	op, known := opCodeStrings[word]
	if known {
		s.AppendOpCode(op)
		return nil
	}
	return s.AppendPushDataHexString(word)
}
'''))
R('toasm-join','C21 C31',FN(SC,'(s *Script) ToASM(','''
func (s *Script) ToASM() (string, error) {
	parts, push, err := decodeParts(*s)
	if err != nil {
		return "", err
	}

	words := make([]string, 0, len(parts))
	for i, p := range parts {
		if push[i] {
			words = append(words, hex.EncodeToString(p))
		} else {
			words = append(words, opCodeValues[p[0]])
		}
	}

	return strings.TrimSpace(strings.Join(words, " ")), nil
}
'''))
R('toasm-plus','C21 C31',FN(SC,'(s *Script) ToASM(','''
func (s *Script) ToASM() (string, error) {
	parts, push, err := decodeParts(*s)
	if err != nil {
		return "", err
	}

	asm := ""
	for i := range parts {
		asm += " " + asmWord(parts[i], push[i])
	}
	return strings.TrimSpace(asm), nil
}

func asmWord(part []byte, isPush bool) string {
	if isPush {
		return hex.EncodeToString(part)
	}
	return opCodeValues[part[0]]
}
'''))
R('p2sh-prefix','C17 C31',IM(SC,'bytes'),FN(SC,'(s *Script) IsP2SH(','''
func (s *Script) IsP2SH() bool {
	b := []byte(*s)
	if len(b) != 23 {
		return false
	}
	return bytes.HasPrefix(b, []byte{OpHASH160, 0x14}) && b[len(b)-1] == OpEQUAL
}
'''),FN(SC,'(s *Script) IsData(','''
func (s *Script) IsData() bool {
	return bytes.HasPrefix(*s, []byte{OpRETURN}) || bytes.HasPrefix(*s, []byte{OpFALSE, OpRETURN})
}
'''))
R('smallint-switch','C17 C31',FN(SC,'isSmallIntOp(','''
func isSmallIntOp(opcode byte) bool {
	switch {
	case opcode == OpZERO:
		return true
	case opcode < OpONE:
		return false
	default:
		return opcode <= Op16
	}
}
'''))
R('multisig-split','C17 C31',FN(SC,'(s *Script) IsMultisigOut(','''
func (s *Script) IsMultisigOut() bool {
	parts, push, err := decodeParts(*s)
	if err != nil || len(parts) < 3 {
		return false
	}
	n := len(parts)
	isOp := func(i int) bool { return !push[i] }
	if !isOp(0) || !isOp(n-2) || !isOp(n-1) {
		return false
	}
	if parts[n-1][0] != OpCHECKMULTISIG || !isSmallIntOp(parts[0][0]) || !isSmallIntOp(parts[n-2][0]) {
		return false
	}
	for _, key := range parts[1 : n-2] {
		if len(key) == 0 {
			return false
		}
	}
	return true
}
'''))
R('multisig-allkeys','C17 C31',FN(SC,'(s *Script) IsMultisigOut(','''
func (s *Script) IsMultisigOut() bool {
	parts, push, err := decodeParts(*s)
	if err != nil || len(parts) < 3 {
		return false
	}
	last := len(parts) - 1
	if push[0] || push[last-1] || push[last] {
		return false
	}
	nonEmpty := true
	for i := 1; i < last-1; i++ {
		nonEmpty = nonEmpty && len(parts[i]) > 0
	}
	return nonEmpty && isSmallIntOp(parts[0][0]) && isSmallIntOp(parts[last-1][0]) && parts[last][0] == OpCHECKMULTISIG
}
'''))
R('p2pk-early','C17 C31',FN(SC,'(s *Script) IsP2PK(','''
func (s *Script) IsP2PK() bool {
	parts, push, err := decodeParts(*s)
	if err != nil || len(parts) != 2 {
		return false
	}
	key, op := parts[0], parts[1]
	if !push[0] || push[1] || op[0] != OpCHECKSIG {
		return false
	}
	if len(key) == 0 || int((*s)[0]) != len(key) {
		return false
	}
	switch key[0] {
	case 0x02, 0x03:
		return len(key) == 33
	case 0x04, 0x06, 0x07:
		return len(key) == 65
	}
	return false
}
'''))
R('p2pk-bytes','C17 C31',FN(SC,'(s *Script) IsP2PK(','''
func (s *Script) IsP2PK() bool {
	b := []byte(*s)
	switch len(b) {
	case 35:
		return b[0] == 33 && b[34] == OpCHECKSIG && (b[1] == 2 || b[1] == 3)
	case 67:
		return b[0] == 65 && b[66] == OpCHECKSIG && (b[1] == 4 || b[1] == 6 || b[1] == 7)
	default:
		return false
	}
}
'''))
R('gpkh-direct','C18 C08 C31 C10',FN(SC,'(s *Script) GetPublicKeyHash(','''
func (s *Script) GetPublicKeyHash() ([]byte, error) {
	if s == nil || len(*s) == 0 {
		return nil, fmt.Errorf("Script is empty")
	}
	if !s.IsP2PKH() {
		return nil, fmt.Errorf("Not a P2PKH")
	}
	hash := make([]byte, 20)
	copy(hash, (*s)[3:23])
	return hash, nil
}
'''))
R('push-strings','C04 C19',FN(SC,'(s *Script) AppendPushDataStrings(','''
func (s *Script) AppendPushDataStrings(strs []string) error {
	data := make([][]byte, len(strs))
	for i := range strs {
		data[i] = []byte(strs[i])
	}
	return s.AppendPushDataArray(data)
}
'''),FN(SC,'(s *Script) AppendPushData(','''
func (s *Script) AppendPushData(d []byte) error {
	return s.AppendPushDataArray([][]byte{d})
}
'''))
R('p2pkh-via-hash','C16 C09 C13',FN(SC,'NewP2PKHFromAddress(','''
func NewP2PKHFromAddress(addr string) (*Script, error) {
	a, err := address.NewFromString(addr)
	if err != nil {
		return nil, err
	}
	return NewP2PKHFromPubKeyHashStr(a.PublicKeyHash)
}
'''))
R('p2pkh-template','C16 C18 C19',FN(SC,'NewP2PKHFromPubKeyBytes(','''
func NewP2PKHFromPubKeyBytes(pubKeyBytes []byte) (*Script, error) {
	return p2pkh(crypto.Hash160(pubKeyBytes)), nil
}

func p2pkh(hash []byte) *Script {
	s := make(Script, 25)
	copy(s, []byte{OpDUP, OpHASH160, 0x14})
	copy(s[3:], hash)
	s[23] = OpEQUALVERIFY
	s[24] = OpCHECKSIG
	return &s
}
'''))
R('unlock-literal','C07 C10',FN(US,'NewP2PKHUnlockingScript(','''
func NewP2PKHUnlockingScript(pubKey []byte, sig []byte, sigHashFlag sighash.Flag) (*Script, error) {
	sigBuf := make([]byte, len(sig)+1)
	n := copy(sigBuf, sig)
	sigBuf[n] = byte(sigHashFlag)

	s := &Script{}
	for _, item := range [][]byte{sigBuf, pubKey} {
		if err := s.AppendPushData(item); err != nil {
			return s, err
		}
	}
	return s, nil
}
'''))
R('tx-buffer','C01 C05 C36 C10',IM(TX,'bytes'),FN(TX,'(bt *Transaction) toBytesHelper(','''
func (bt *Transaction) toBytesHelper(index int, scriptPubKey []byte) []byte {
	var buf bytes.Buffer
	buf.Write(utils.GetLittleEndianBytes(bt.Version, 4))
	buf.Write(utils.VarInt(uint64(len(bt.Inputs))))
	for i, in := range bt.Inputs {
		s := in.ToBytes(scriptPubKey != nil)
		if i == index && scriptPubKey != nil {
			buf.Write(s[:len(s)-5])
			buf.Write(utils.VarInt(uint64(len(scriptPubKey))))
			buf.Write(scriptPubKey)
			buf.Write(s[len(s)-4:])
			continue
		}
		buf.Write(s)
	}
	buf.Write(utils.VarInt(uint64(len(bt.Outputs))))
	for _, out := range bt.Outputs {
		buf.Write(out.ToBytes())
	}
	buf.Write(utils.GetLittleEndianBytes(bt.Locktime, 4))
	return buf.Bytes()
}
'''))
R('tx-split','C01 C05 C36 C10',FN(TX,'(bt *Transaction) toBytesHelper(','''
func (bt *Transaction) toBytesHelper(index int, scriptPubKey []byte) []byte {
	h := utils.GetLittleEndianBytes(bt.Version, 4)
	h = append(h, bt.inputBytes(index, scriptPubKey)...)
	h = append(h, bt.outputBytes()...)
	return append(h, utils.GetLittleEndianBytes(bt.Locktime, 4)...)
}

func (bt *Transaction) inputBytes(index int, scriptPubKey []byte) []byte {
	clear := scriptPubKey != nil
	h := utils.VarInt(uint64(len(bt.Inputs)))
	for i, in := range bt.Inputs {
		s := in.ToBytes(clear)
		if clear && i == index {
			n := len(s)
			h = append(h, s[:n-5]...)
			h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
			h = append(h, scriptPubKey...)
			s = s[n-4:]
		}
		h = append(h, s...)
	}
	return h
}

func (bt *Transaction) outputBytes() []byte {
	h := utils.VarInt(uint64(len(bt.Outputs)))
	for i := 0; i < len(bt.Outputs); i++ {
		h = append(h, bt.Outputs[i].ToBytes()...)
	}
	return h
}
'''))
R('tx-parse-cursor','C01 C02 C11 C09',FN(TX,'NewFromBytes(','''
func NewFromBytes(b []byte) (*Transaction, error) {
	if len(b) < 10 {
		return nil, fmt.Errorf("too short to be a tx - even an empty tx has 10 bytes")
	}

	t := &Transaction{Version: binary.LittleEndian.Uint32(b)}
	rest := b[4:]

	n, size := utils.DecodeVarInt(rest)
	if size == 0 {
		return nil, fmt.Errorf("input count is truncated")
	}
	rest = rest[size:]
	for ; n > 0; n-- {
		in, used, err := input.NewFromBytes(rest)
		if err != nil {
			return nil, err
		}
		t.AddInput(in)
		rest = rest[used:]
	}

	n, size = utils.DecodeVarInt(rest)
	if size == 0 {
		return nil, fmt.Errorf("output count is truncated")
	}
	rest = rest[size:]
	for ; n > 0; n-- {
		out, used, err := output.NewFromBytes(rest)
		if err != nil {
			return nil, err
		}
		t.AddOutput(out)
		rest = rest[used:]
	}

	if len(rest) != 4 {
		return nil, fmt.Errorf("nLockTime length must be 4 bytes long")
	}
	t.Locktime = binary.LittleEndian.Uint32(rest)
	return t, nil
}
'''))
R('tx-parse-split','C01 C02 C11 C09',FN(TX,'NewFromBytes(','''
func NewFromBytes(b []byte) (*Transaction, error) {
	if len(b) < 10 {
		return nil, fmt.Errorf("too short to be a tx - even an empty tx has 10 bytes")
	}

	var t Transaction
	t.Version = binary.LittleEndian.Uint32(b[:4])
	offset := 4

	used, err := t.parseInputs(b[offset:])
	if err != nil {
		return nil, err
	}
	offset += used

	used, err = t.parseOutputs(b[offset:])
	if err != nil {
		return nil, err
	}
	offset += used

	if len(b)-offset != 4 {
		return nil, fmt.Errorf("nLockTime length must be 4 bytes long")
	}
	t.Locktime = binary.LittleEndian.Uint32(b[offset:])
	return &t, nil
}

func (bt *Transaction) parseInputs(b []byte) (int, error) {
	count, offset := utils.DecodeVarInt(b)
	if offset == 0 {
		return 0, fmt.Errorf("input count is truncated")
	}
	for n := uint64(0); n < count; n++ {
		in, size, err := input.NewFromBytes(b[offset:])
		if err != nil {
			return 0, err
		}
		bt.Inputs = append(bt.Inputs, in)
		offset += size
	}
	return offset, nil
}

func (bt *Transaction) parseOutputs(b []byte) (int, error) {
	count, offset := utils.DecodeVarInt(b)
	if offset == 0 {
		return 0, fmt.Errorf("output count is truncated")
	}
	for n := uint64(0); n < count; n++ {
		out, size, err := output.NewFromBytes(b[offset:])
		if err != nil {
			return 0, err
		}
		bt.Outputs = append(bt.Outputs, out)
		offset += size
	}
	return offset, nil
}
'''))
R('tx-coinbase-and','C34',FN(TX,'(bt *Transaction) IsCoinbase(','''
func (bt *Transaction) IsCoinbase() bool {
	const nullID = "0000000000000000000000000000000000000000000000000000000000000000"
	if len(bt.Inputs) == 1 {
		in := bt.Inputs[0]
		return in.PreviousTxID == nullID && (in.PreviousTxOutIndex == 0xFFFFFFFF || in.SequenceNumber == 0xFFFFFFFF)
	}
	return false
}
'''))
R('tx-sign-else','C09 C07 C08',FN(TX,'(bt *Transaction) Sign(','''
func (bt *Transaction) Sign(index uint32, s Signer) error {
	signedTx, err := s.Sign(index, bt)
	return bt.replace(signedTx, err)
}

func (bt *Transaction) replace(tx *Transaction, err error) error {
	if err == nil {
		*bt = *tx
	}
	return err
}
'''),FN(TX,'(bt *Transaction) SignAuto(','''
func (bt *Transaction) SignAuto(s Signer) error {
	signedTx, err := s.SignAuto(bt)
	return bt.replace(signedTx, err)
}
'''))
R('tx-payto','C35 C09',FN(TX,'(bt *Transaction) PayTo(','''
func (bt *Transaction) PayTo(addr string, satoshis uint64) error {
	ls, err := script.NewP2PKHFromAddress(addr)
	if err != nil {
		return err
	}
	bt.AddOutput(&output.Output{Satoshis: satoshis, LockingScript: ls})
	return nil
}
'''))
R('sighash-buffer','C06 C07 C33 C10',IM(SH,'bytes'),FN(SH,'(bt *Transaction) GetInputSignatureHash(','''
func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sighash.Flag) ([]byte, error) {
	if uint64(inputNumber) >= uint64(len(bt.Inputs)) {
		return nil, fmt.Errorf("no input at index %d", inputNumber)
	}

	in := bt.Inputs[inputNumber]
	if in.PreviousTxID == "" {
		return nil, errors.New("'PreviousTxID' not supplied")
	}
	if in.PreviousTxScript == nil {
		return nil, errors.New("'PreviousTxScript' not supplied")
	}

	var err error
	base := sigHashFlag & 31
	anyone := sigHashFlag&sighash.AnyOneCanPay != 0
	hashPrevouts, hashSequence, hashOutputs := make([]byte, 32), make([]byte, 32), make([]byte, 32)

	if !anyone {
		hashPrevouts, err = bt.getPrevoutHash()
		if err != nil {
			return nil, err
		}
		if base != sighash.Single && base != sighash.None {
			hashSequence = bt.getSequenceHash()
		}
	}

	switch base {
	case sighash.None:
	case sighash.Single:
		if inputNumber < uint32(len(bt.Outputs)) {
			hashOutputs = bt.getOutputsHash(int32(inputNumber))
		}
	default:
		hashOutputs = bt.getOutputsHash(-1)
	}

	txid, err := decodeTxID(in.PreviousTxID)
	if err != nil {
		return nil, err
	}

	var buf bytes.Buffer
	buf.Write(utils.GetLittleEndianBytes(bt.Version, 4))
	buf.Write(hashPrevouts)
	buf.Write(hashSequence)
	buf.Write(utils.ReverseBytes(txid))
	buf.Write(utils.GetLittleEndianBytes(in.PreviousTxOutIndex, 4))
	buf.Write(utils.VarInt(uint64(len(*in.PreviousTxScript))))
	buf.Write(*in.PreviousTxScript)
	value := make([]byte, 8)
	binary.LittleEndian.PutUint64(value, in.PreviousTxSatoshis)
	buf.Write(value)
	buf.Write(utils.GetLittleEndianBytes(in.SequenceNumber, 4))
	buf.Write(hashOutputs)
	buf.Write(utils.GetLittleEndianBytes(bt.Locktime, 4))
	buf.Write(utils.GetLittleEndianBytes(uint32(sigHashFlag), 4))

	return utils.ReverseBytes(crypto.Sha256d(buf.Bytes())), nil
}
'''))
R('sighash-le','C06 C07',FN(SH,'(bt *Transaction) getSequenceHash(','''
func (bt *Transaction) getSequenceHash() []byte {
	buf := make([]byte, 4*len(bt.Inputs))
	for i, in := range bt.Inputs {
		binary.LittleEndian.PutUint32(buf[4*i:], in.SequenceNumber)
	}
	return crypto.Sha256d(buf)
}
'''))
R('sighash-seq-append','C06 C07',FN(SH,'(bt *Transaction) getSequenceHash(','''
func (bt *Transaction) getSequenceHash() []byte {
	var buf []byte
	for i := 0; i < len(bt.Inputs); i++ {
		buf = append(buf, utils.GetLittleEndianBytes(bt.Inputs[i].SequenceNumber, 4)...)
	}
	return crypto.Sha256d(buf)
}
'''))
R('sighash-outs-slice','C06 C07 C33',FN(SH,'(bt *Transaction) getOutputsHash(','''
func (bt *Transaction) getOutputsHash(n int32) []byte {
	outs := bt.Outputs
	if n != -1 {
		outs = outs[n : n+1]
	}
	var buf []byte
	for _, out := range outs {
		buf = append(buf, out.GetBytesForSigHash()...)
	}
	return crypto.Sha256d(buf)
}
'''))
R('input-switch','C01 C05 C36 C10',FN(IN,'(i *Input) ToBytes(','''
func (i *Input) ToBytes(clear bool) []byte {
	pid, _ := hex.DecodeString(i.PreviousTxID)

	var us script.Script
	if !clear && i.UnlockingScript != nil {
		us = *i.UnlockingScript
	}

	h := utils.ReverseBytes(pid)
	h = append(h, utils.GetLittleEndianBytes(i.PreviousTxOutIndex, 4)...)
	h = append(h, utils.VarInt(uint64(len(us)))...)
	h = append(h, us...)
	return append(h, utils.GetLittleEndianBytes(i.SequenceNumber, 4)...)
}
'''))
R('input-parse-rest','C01 C02 C11',FN(IN,'NewFromBytes(','''
func NewFromBytes(bytes []byte) (*Input, int, error) {
	if len(bytes) < 36 {
		return nil, 0, fmt.Errorf("input length too short < 36")
	}

	rest := bytes[36:]
	l, size := utils.DecodeVarInt(rest)
	if size == 0 || l > uint64(len(rest)-size) {
		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
	}
	rest = rest[size:]
	if len(rest) < int(l)+4 {
		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
	}

	us := make([]byte, l)
	copy(us, rest)

	return &Input{
		PreviousTxID:       hex.EncodeToString(utils.ReverseBytes(bytes[:32])),
		PreviousTxOutIndex: binary.LittleEndian.Uint32(bytes[32:]),
		UnlockingScript:    script.NewFromBytes(us),
		SequenceNumber:     binary.LittleEndian.Uint32(rest[l:]),
	}, 36 + size + int(l) + 4, nil
}
'''))
R('output-parse-lit','C01 C02 C11',FN(OUT,'NewFromBytes(','''
func NewFromBytes(bytes []byte) (*Output, int, error) {
	if len(bytes) < 8 {
		return nil, 0, fmt.Errorf("output length too short < 8")
	}

	l, size := utils.DecodeVarInt(bytes[8:])
	start := 8 + size
	if size == 0 || l > uint64(len(bytes)-start) {
		return nil, 0, fmt.Errorf("output length too short < 8 + script")
	}
	end := start + int(l)

	s := make(script.Script, 0, l)
	s = append(s, bytes[start:end]...)

	return &Output{Satoshis: binary.LittleEndian.Uint64(bytes), LockingScript: &s}, end, nil
}
'''))
R('output-tobytes','C01 C05 C06 C10',FN(OUT,'(o *Output) ToBytes(','''
func (o *Output) ToBytes() []byte {
	ls := []byte(*o.LockingScript)
	n := utils.VarInt(uint64(len(ls)))
	h := make([]byte, 8+len(n)+len(ls))
	binary.LittleEndian.PutUint64(h, o.Satoshis)
	copy(h[8:], n)
	copy(h[8+len(n):], ls)
	return h
}
'''),FN(OUT,'(o *Output) GetBytesForSigHash(','''
func (o *Output) GetBytesForSigHash() []byte {
	return o.ToBytes()
}
'''))
R('output-puzzle-parts','C19 C09',FN(OUT,'NewHashPuzzle(','''
func NewHashPuzzle(secret string, publicKeyHash string, satoshis uint64) (*Output, error) {
	pkh, err := hex.DecodeString(publicKeyHash)
	if err != nil {
		return nil, err
	}

	secretHash, err := script.EncodeParts([][]byte{crypto.Hash160([]byte(secret))})
	if err != nil {
		return nil, err
	}
	keyHash, err := script.EncodeParts([][]byte{pkh})
	if err != nil {
		return nil, err
	}

	var s script.Script
	s = append(s, script.OpHASH160)
	s = append(s, secretHash...)
	s = append(s, script.OpEQUALVERIFY, script.OpDUP, script.OpHASH160)
	s = append(s, keyHash...)
	s = append(s, script.OpEQUALVERIFY, script.OpCHECKSIG)

	return &Output{Satoshis: satoshis, LockingScript: &s}, nil
}
'''))
R('output-opret-return','C19 C09',FN(OUT,'NewOpReturn(','''
func NewOpReturn(data []byte) (*Output, error) {
	return NewOpReturnParts([][]byte{data})
}
'''),FN(OUT,'NewOpReturnParts(','''
func NewOpReturnParts(data [][]byte) (*Output, error) {
	return createOpReturnOutput(data)
}
'''))
R('signauto-can','C08 C09 C10 C12',FN(SG,'(is *InternalSigner) SignAuto(','''
func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
	for i := range unsignedTx.Inputs {
		if !is.canSign(unsignedTx.Inputs[i].PreviousTxScript) {
			continue
		}
		if _, err := is.Sign(uint32(i), unsignedTx); err != nil {
			return nil, err
		}
	}

	return unsignedTx, nil
}

func (is *InternalSigner) canSign(s *script.Script) bool {
	pubKeyHash, err := s.GetPublicKeyHash()
	if err != nil {
		return false
	}
	own := crypto.Hash160(is.PrivateKey.PubKey().SerializeCompressed())
	return hex.EncodeToString(pubKeyHash) == hex.EncodeToString(own)
}
'''))
R('signauto-hoist','C08 C09 C10 C12',FN(SG,'(is *InternalSigner) SignAuto(','''
func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
	own := hex.EncodeToString(crypto.Hash160(is.PrivateKey.PubKey().SerializeCompressed()))

	for i, in := range unsignedTx.Inputs {
		pubKeyHash, err := in.PreviousTxScript.GetPublicKeyHash()
		if err != nil || hex.EncodeToString(pubKeyHash) != own {
			continue // not ours
		}
		if _, err = is.Sign(uint32(i), unsignedTx); err != nil {
			return nil, err
		}
	}

	return unsignedTx, nil
}
'''))
R('signauto-while','C08 C09 C10 C12',FN(SG,'(is *InternalSigner) SignAuto(','''
func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
	i := uint32(0)
	n := uint32(len(unsignedTx.Inputs))
	for i < n {
		in := unsignedTx.Inputs[i]
		pkh, _ := in.PreviousTxScript.GetPublicKeyHash()
		mine := crypto.Hash160(is.PrivateKey.PubKey().SerializeCompressed())
		if utils.Equals(pkh, mine) {
			tx, err := is.Sign(i, unsignedTx)
			if err != nil {
				return nil, err
			}
			unsignedTx = tx
		}
		i++
	}
	return unsignedTx, nil
}
'''),(SG,'	"encoding/hex"\n\n',''))
R('sign-flag-method','C07 C09 C33 C12',FN(SG,'(is *InternalSigner) Sign(','''
func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
	us, err := is.unlockingScript(index, unsignedTx)
	if err != nil {
		return nil, err
	}
	if err := unsignedTx.ApplyUnlockingScript(index, us); err != nil {
		return nil, err
	}
	return unsignedTx, nil
}

func (is *InternalSigner) flag() sighash.Flag {
	if is.SigHashFlag == sighash.Old {
		return sighash.AllForkID
	}
	return is.SigHashFlag
}

func (is *InternalSigner) unlockingScript(index uint32, tx *transaction.Transaction) (*script.Script, error) {
	sh, err := tx.GetInputSignatureHash(index, is.flag())
	if err != nil {
		return nil, err
	}
	sig, err := is.PrivateKey.Sign(utils.ReverseBytes(sh)) // little endian sign
	if err != nil {
		return nil, err
	}
	pub := is.PrivateKey.PubKey().SerializeCompressed()
	return script.NewP2PKHUnlockingScript(pub, sig.Serialize(), is.flag())
}
'''))
R('header-copy','C26 C10',FN(BH,'BuildBlockHeader(','''
func BuildBlockHeader(version uint32, previousBlockHash string, merkleRoot []byte, time []byte, bits []byte, nonce []byte) []byte {
	prev, _ := hex.DecodeString(previousBlockHash)
	fields := [][]byte{utils.ReverseBytes(prev), merkleRoot, time, bits, nonce}

	header := make([]byte, 4, 80)
	binary.LittleEndian.PutUint32(header, version)
	for _, f := range fields {
		header = append(header, f...)
	}
	return header
}
'''))
R('merkle-root-helper','C24 C10',FN(MR,'BuildMerkleRootFromCoinbase(','''
func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) []byte {
	acc := coinbaseHash
	for _, branch := range merkleBranches {
		b, _ := hex.DecodeString(branch)
		acc = hashPair(acc, b)
	}
	return acc
}

func hashPair(l, r []byte) []byte {
	pair := make([]byte, 0, len(l)+len(r))
	pair = append(pair, l...)
	pair = append(pair, r...)
	return crypto.Sha256d(pair)
}
'''))
R('merkle-order','C24 C32 C09',FN(MB,'MerkleRootFromBranches(','''
func MerkleRootFromBranches(txHash string, txIndex int, branches []string) (string, error) {
	if txIndex < 0 {
		return "", fmt.Errorf("negative index %d", txIndex)
	}

	h, err := hex.DecodeString(txHash)
	if err != nil {
		return "", err
	}
	acc := utils.ReverseBytes(h)

	idx := txIndex
	for i := 0; i < len(branches); i++ {
		h, err := hex.DecodeString(branches[i])
		if err != nil {
			return "", err
		}
		left, right := acc, utils.ReverseBytes(h)
		if idx%2 == 1 {
			left, right = right, left
		}
		acc = crypto.Sha256d(append(append([]byte{}, left...), right...))
		idx /= 2
	}

	if idx != 0 {
		return "", fmt.Errorf("index %d out of range for proof of length %d", idx, len(branches))
	}
	return hex.EncodeToString(utils.ReverseBytes(acc)), nil
}
'''))
R('branches-func','C25 C09',FN(MB,'GetMerkleBranches(','''
func GetMerkleBranches(template []string) []string {
	return walk(getHashes(template), nil)
}

func walk(hashes []string, branches []string) []string {
	if len(hashes) < 2 {
		return branches
	}
	return walk(nextLevel(hashes), append(branches, hashes[1]))
}

func nextLevel(hashes []string) []string {
	var results []string
	for i := 0; i < len(hashes); i += 2 {
		j := i + 1
		if j == len(hashes) {
			j = i
		}
		a, _ := hex.DecodeString(hashes[i])
		b, _ := hex.DecodeString(hashes[j])
		results = append(results, hex.EncodeToString(crypto.Sha256d(append(a, b...))))
	}
	return results
}
'''))
R('gethashes-index','C25',FN(MB,'getHashes(','''
func getHashes(txHashes []string) []string {
	hashes := make([]string, len(txHashes))
	for i, tx := range txHashes {
		hashes[i] = utils.ReverseHexString(tx)
	}
	return hashes
}
'''))
R('coinbase-build-var','C27 C10',FN(CB,'BuildCoinbase(','''
func BuildCoinbase(c1 []byte, c2 []byte, extraNonce1 string, extraNonce2 string) []byte {
	e1, _ := hex.DecodeString(extraNonce1)
	e2, _ := hex.DecodeString(extraNonce2)

	a := make([]byte, 0, len(c1)+len(e1)+len(e2)+len(c2))
	for _, part := range [][]byte{c1, e1, e2, c2} {
		a = append(a, part...)
	}
	return a
}
'''))
R('coinbase-parts-order','C27 C09',FN(CB,'GetCoinbaseParts(','''
func GetCoinbaseParts(height uint32, coinbaseValue uint64, defaultWitnessCommitment string, coinbaseText string, walletAddress string, minerIDBytes []byte) (coinbase1 []byte, coinbase2 []byte, err error) {
	coinbase1 = makeCoinbase1(height, coinbaseText)
	outputs, err := makeCoinbaseOutputTransactions(coinbaseValue, defaultWitnessCommitment, walletAddress, minerIDBytes)
	if err != nil {
		return coinbase1, nil, err
	}
	return coinbase1, makeCoinbase2(outputs), nil
}
'''))
R('coinbase-outs-append','C27 C09',FN(CB,'makeCoinbaseOutputTransactions(','''
func makeCoinbaseOutputTransactions(coinbaseValue uint64, defaultWitnessCommitment string, wallet string, minerIDBytes []byte) ([]byte, error) {
	o, err := output.NewP2PKHFromAddress(wallet, coinbaseValue)
	if err != nil {
		return nil, err
	}

	outputs := [][]byte{o.ToBytes()}

	if defaultWitnessCommitment != "" {
		wc, err := hex.DecodeString(defaultWitnessCommitment)
		if err != nil {
			log.Printf("Error decoding witness commitment: %+v", err)
			return nil, err
		}
		outputs = append(outputs, zeroOutput(wc))
	}
	if len(minerIDBytes) > 0 {
		outputs = append(outputs, zeroOutput(minerIDBytes))
	}

	buf := utils.VarInt(uint64(len(outputs)))
	for _, out := range outputs {
		buf = append(buf, out...)
	}
	return buf, nil
}

func zeroOutput(s []byte) []byte {
	out := make([]byte, 8) // 8 bytes of 0 = 0 satoshis.
	out = append(out, utils.VarInt(uint64(len(s)))...)
	return append(out, s...)
}
'''))
R('coinbase1-min','C27',FN(CB,'makeCoinbase1(','''
func makeCoinbase1(height uint32, coinbaseText string) []byte {
	const spaceForExtraNonce = 12
	const limit = 100 - spaceForExtraNonce

	data := append([]byte{0x03, byte(height), byte(height >> 8), byte(height >> 16)}, coinbaseText...)
	if len(data) > limit {
		data = data[:limit]
	}

	buf := []byte{1, 0, 0, 0, 1}
	buf = append(buf, make([]byte, 32)...)
	for i := 0; i < 4; i++ {
		buf = append(buf, 0xff)
	}
	buf = append(buf, utils.VarInt(uint64(len(data)+spaceForExtraNonce))...)
	return append(buf, data...)
}
'''))
R('target-order','C28 C32',FN(DI,'ExpandTargetFromAsInt(','''
func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
	raw, err := hex.DecodeString(bits)
	if err != nil {
		return nil, err
	}
	if len(raw) != 4 {
		return nil, fmt.Errorf("bits must be 4 bytes, got %d", len(raw))
	}

	exponent := uint(raw[0])
	mantissa := int64(raw[1]&0x7f)<<16 | int64(raw[2])<<8 | int64(raw[3])

	bn := new(big.Int)
	if exponent <= 3 {
		bn.SetInt64(mantissa >> (8 * (3 - exponent)))
	} else {
		bn.Lsh(big.NewInt(mantissa), 8*(exponent-3))
	}
	if raw[1]&0x80 != 0 {
		bn.Neg(bn)
	}
	return bn, nil
}
'''),(DI,'	"encoding/binary"\n',''))
R('target-hex-fmt','C28 C32',FN(DI,'ExpandTargetFrom(','''
func ExpandTargetFrom(bits string) (string, error) {
	bn, err := ExpandTargetFromAsInt(bits)
	if err != nil {
		return "", err
	}
	if bn.Sign() < 0 || bn.BitLen() > 256 {
		return "", fmt.Errorf("target of bits %s does not fit in 32 bytes", bits)
	}

	b := bn.Bytes()
	padded := append(make([]byte, 32-len(b)), b...)
	return hex.EncodeToString(padded), nil
}
'''))
R('addr-decode-split','C14 C16 C32 C09',FN(AD,'addressToPubKeyHashStr(','''
func addressToPubKeyHashStr(address string) (string, error) {
	decoded := base58.Decode(address)
	if len(decoded) != 25 {
		return "", fmt.Errorf("invalid address length for '%s'", address)
	}

	version, hash, sum := decoded[0], decoded[1:21], decoded[21:]
	if version != 0x00 && version != 0x6f {
		return "", fmt.Errorf("Address %s is not supported", address)
	}

	want := checksum(decoded[:21])
	for i := range want {
		if want[i] != sum[i] {
			return "", fmt.Errorf("checksum failed for '%s'", address)
		}
	}
	return hex.EncodeToString(hash), nil
}
'''))
R('addr-from-pubkey','C13 C14',FN(AD,'NewFromPublicKey(','''
func NewFromPublicKey(pubKey *bsvec.PublicKey, mainnet bool) (*Address, error) {
	return NewFromPublicKeyHash(crypto.Hash160(pubKey.SerializeCompressed()), mainnet)
}
'''),FN(AD,'NewFromPublicKeyHash(','''
func NewFromPublicKeyHash(hash []byte, mainnet bool) (*Address, error) {
	version := byte(111)
	if mainnet {
		version = 0
	}
	return &Address{
		AddressString: Base58EncodeMissingChecksum(append([]byte{version}, hash...)),
		PublicKeyHash: hex.EncodeToString(hash),
	}, nil
}
'''))
R('addr-checksum','C13 C14 C30',FN(AD,'checksum(','''
func checksum(input []byte) [4]byte {
	h := crypto.Sha256d(input)
	return [4]byte{h[0], h[1], h[2], h[3]}
}
'''),FN(AD,'Base58EncodeMissingChecksum(','''
func Base58EncodeMissingChecksum(input []byte) string {
	sum := checksum(input)
	b := make([]byte, len(input)+4)
	copy(b[copy(b, input):], sum[:])
	return base58.Encode(b)
}
'''))
R('valid-one','C14 C32',FN(AV,'validA58(','''
func validA58(a58 []byte) (bool, error) {
	if len(base58.Decode(string(a58))) != 25 {
		return false, errors.New("not 25 bytes")
	}

	var a a25
	err := a.set58(a58)
	switch {
	case err != nil:
		return false, err
	case a[0] != 0 && a[0] != 0x6f:
		return false, errors.New("not version 0 or 6f")
	case a.embeddedChecksum() != a.computeChecksum():
		return false, errors.New("checksum failed")
	}
	return true, nil
}
'''))
R('set58-carry','C14 C32',FN(AV,'(a *a25) set58(','''
func (a *a25) set58(s []byte) error {
	for _, ch := range s {
		digit := bytes.IndexByte(tmpl, ch)
		if digit == -1 {
			return errors.New("bad char")
		}
		carry := digit
		for j := len(a) - 1; j >= 0; j-- {
			carry += 58 * int(a[j])
			a[j] = byte(carry)
			carry >>= 8
		}
		if carry != 0 {
			return errors.New("too long")
		}
	}
	return nil
}
'''))
R('set58-helper','C14 C32',FN(AV,'(a *a25) set58(','''
func (a *a25) set58(s []byte) error {
	for i := 0; i < len(s); i++ {
		c := bytes.IndexByte(tmpl, s[i])
		if c < 0 {
			return errors.New("bad char")
		}
		if a.mulAdd(c) {
			return errors.New("too long")
		}
	}
	return nil
}

func (a *a25) mulAdd(c int) bool {
	for j := 24; j >= 0; j-- {
		c += 58 * int(a[j])
		a[j] = byte(c % 256)
		c /= 256
	}
	return c > 0
}
'''))
R('bip276-concat','C15 C32',FN(BI,'createBIP276(','''
func createBIP276(prefix string, network int, version int, data []byte) (string, string) {
	payload := prefix + ":" + fmt.Sprintf("%02x%02x", network, version) + hex.EncodeToString(data)
	sum := crypto.Sha256d([]byte(payload))
	return payload, hex.EncodeToString(sum[:4])
}
'''))
R('bip276-parse','C15 C32 C09',FN(BI,'DecodeBIP276(','''
func DecodeBIP276(text string) (prefix string, version int, network int, data []byte, err error) {
	validBIP276 := regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)

	res := validBIP276.FindStringSubmatch(text)
	if res == nil {
		return prefix, version, network, data, errors.New("Invalid BIP276 format")
	}

	prefix = res[1]
	if network, err = hexByte(res[2]); err != nil {
		return
	}
	if version, err = hexByte(res[3]); err != nil {
		return
	}
	if data, err = hex.DecodeString(res[4]); err != nil {
		return
	}
	if _, checksum := createBIP276(prefix, network, version, data); checksum != res[5] {
		err = errors.New("Invalid checksum")
	}
	return
}

func hexByte(s string) (int, error) {
	n, err := strconv.ParseInt(s, 16, 0)
	if err != nil {
		return 0, err
	}
	return int(n), nil
}
'''))
R('bip276-encode','C15',FN(BI,'EncodeBIP276(','''
func EncodeBIP276(prefix string, network int, version int, data []byte) string {
	valid := func(n int) bool { return n > 0 && n < 256 }
	if !valid(version) || !valid(network) {
		return "ERROR"
	}
	payload, checksum := createBIP276(prefix, network, version, data)
	return payload + checksum
}
'''))
R('electrum-helper','C30 C09 C32',FN(RS,'NewRedeemScriptFromElectrum(','''
func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
	b, err := hex.DecodeString(script)
	if err != nil {
		return nil, err
	}

	parts, push, err := decodeParts(b)
	if err != nil {
		return nil, err
	}

	n := len(parts)
	if n < 3 {
		return nil, errors.New("There should be 5 parts in this redeemScript")
	}
	if push[0] || push[n-2] || push[n-1] {
		return nil, errors.New("Script must start with an opcode and end with two opcodes")
	}

	required := int(parts[0][0] - OpBASE)
	switch {
	case required < 2:
		return nil, errors.New("Must have 2 or more required signatures for multisig")
	case required > 15:
		return nil, errors.New("More than 15 signatures is not supported")
	}

	count := int(parts[n-2][0] - OpBASE)
	if count < 1 || count > 16 {
		return nil, errors.New("Number of public keys must be between 1 and 16")
	}
	if parts[n-1][0] != OpCHECKMULTISIG {
		return nil, errors.New("Script must end with OP_CHECKMULTISIG")
	}

	rs := &RedeemScript{SignaturesRequired: required}
	for i := 1; i < n-2; i++ {
		key, err := electrumKey(parts[i])
		if err != nil {
			return nil, err
		}
		rs.PublicKeys = append(rs.PublicKeys, key)
	}
	if len(rs.PublicKeys) != count {
		return nil, errors.New("Number of public keys must equal the required")
	}
	return rs, nil
}

func electrumKey(part []byte) ([]byte, error) {
	if len(part) == 0 || part[0] != 0xff {
		return nil, errors.New("All Electrum pubkeys should start with 0xff")
	}
	part = part[1:]
	if len(part) != 78+4 {
		return nil, errors.New("Electrum pubkeys should have a key of 78 bytes and 2 derivation path items")
	}
	key, err := hdkeychain.NewKeyFromString(address.Base58EncodeMissingChecksum(part[:78]))
	if err != nil {
		return nil, err
	}
	for path := part[78:]; len(path) > 0; path = path[2:] {
		if key, err = key.Child(uint32(binary.LittleEndian.Uint16(path))); err != nil {
			return nil, err
		}
	}
	pub, err := key.ECPubKey()
	if err != nil {
		return nil, err
	}
	return pub.SerializeCompressed(), nil
}
'''))
R('addkey-loop','C29 C09',FN(RS,'(rs *RedeemScript) AddPublicKey(','''
func (rs *RedeemScript) AddPublicKey(pkey string, derivationPath []uint32) error {
	if len(derivationPath) != 2 {
		return errors.New("We only support derivation paths with exactly 2 levels") // TODO: why only 2?
	}
	if len(rs.PublicKeys) >= 16 {
		return errors.New("More than 16 public keys is not supported")
	}

	key, err := hdkeychain.NewKeyFromString(pkey)
	if err != nil {
		return err
	}
	for _, i := range derivationPath {
		key, err = key.Child(i)
		if err != nil {
			return err
		}
	}

	ecpk, err := key.ECPubKey()
	if err != nil {
		return err
	}
	rs.PublicKeys = append(rs.PublicKeys, ecpk.SerializeCompressed())
	return nil
}
'''))
R('redeem-helper','C29 C10',FN(RS,'(rs *RedeemScript) GetRedeemScript(','''
func (rs *RedeemScript) GetRedeemScript() []byte {
	rs.PublicKeys = utils.SortByteArrays(rs.PublicKeys)
	b := []byte{smallInt(rs.SignaturesRequired)}
	for i := range rs.PublicKeys {
		pk := rs.PublicKeys[i]
		b = append(append(b, byte(len(pk))), pk...)
	}
	return append(b, smallInt(len(rs.PublicKeys)), OpCHECKMULTISIG)
}

func smallInt(n int) byte {
	return OpBASE + byte(n)
}
'''),FN(RS,'(rs *RedeemScript) getScriptPubKey(','''
func (rs *RedeemScript) getScriptPubKey() []byte {
	h := rs.GetRedeemScriptHash()
	b := []byte{OpHASH160, byte(len(h))}
	b = append(b, h...)
	return append(b, OpEQUAL)
}
'''),FN(RS,'(rs *RedeemScript) GetAddress(','''
func (rs *RedeemScript) GetAddress() string {
	return base58.CheckEncode(rs.GetRedeemScriptHash(), 0x05)
}
'''))
R('newredeem-range','C29 C30',FN(RS,'NewRedeemScript(','''
func NewRedeemScript(signaturesRequired int) (*RedeemScript, error) {
	switch n := signaturesRequired; {
	case n < 2:
		return nil, errors.New("Must have 2 or more required signatures for multisig")
	case n > 16:
		return nil, errors.New("More than 16 signatures is not supported")
	default:
		return &RedeemScript{SignaturesRequired: n}, nil
	}
}
'''))
# ---------- third batch: other libraries, types with methods, tables, control flow
R('x-tx-reader','C01 C02 C11 C09 C33',(TX,'''	t := Transaction{}

	var offset = 0

	t.Version = binary.LittleEndian.Uint32(b[offset:4])
	offset += 4

	inputCount, size := utils.DecodeVarInt(b[offset:])
	if size == 0 {
		return nil, fmt.Errorf("input count is truncated")
	}
	offset += size

	// create inputs
	var i uint64
	for ; i < inputCount; i++ {
		i, size, err := input.NewFromBytes(b[offset:])
		if err != nil {
			return nil, err
		}
		offset += size

		t.Inputs = append(t.Inputs, i)
	}

	// create outputs
	outputCount, size := utils.DecodeVarInt(b[offset:])
	if size == 0 {
		return nil, fmt.Errorf("output count is truncated")
	}
	offset += size
	for i = 0; i < outputCount; i++ {
		o, size, err := output.NewFromBytes(b[offset:])
		if err != nil {
			return nil, err
		}
		offset += size
		t.Outputs = append(t.Outputs, o)
	}

	nLT := b[offset:]

	if len(nLT) != 4 {
		return nil, fmt.Errorf("nLockTime length must be 4 bytes long")
	}

	t.Locktime = binary.LittleEndian.Uint32(b[offset:])
	offset += 4

	return &t, nil
}
''','''	r := &reader{rest: b}
	t := &Transaction{Version: r.uint32()}

	n := r.count("input")
	for ; n > 0 && r.err == nil; n-- {
		in, size, err := input.NewFromBytes(r.rest)
		if err != nil {
			return nil, err
		}
		r.skip(size)
		t.Inputs = append(t.Inputs, in)
	}

	n = r.count("output")
	for ; n > 0 && r.err == nil; n-- {
		out, size, err := output.NewFromBytes(r.rest)
		if err != nil {
			return nil, err
		}
		r.skip(size)
		t.Outputs = append(t.Outputs, out)
	}

	if r.err == nil && len(r.rest) != 4 {
		r.err = fmt.Errorf("nLockTime length must be 4 bytes long")
	}
	if r.err != nil {
		return nil, r.err
	}
	t.Locktime = r.uint32()
	return t, nil
}

// reader walks over serialised bytes and remembers the first failure.
type reader struct {
	rest []byte
	err  error
}

func (r *reader) skip(n int) {
	r.rest = r.rest[n:]
}

func (r *reader) uint32() uint32 {
	v := binary.LittleEndian.Uint32(r.rest)
	r.skip(4)
	return v
}

func (r *reader) count(what string) uint64 {
	if r.err != nil {
		return 0
	}
	n, size := utils.DecodeVarInt(r.rest)
	if size == 0 {
		r.err = fmt.Errorf("%s count is truncated", what)
		return 0
	}
	r.skip(size)
	return n
}
'''))
R('x-tx-countdown','C01 C02 C11',(TX,'''	var i uint64
	for ; i < inputCount; i++ {
		i, size, err := input''','''	for left := inputCount; left > 0; left-- {
		i, size, err := input'''),(TX,'''	for i = 0; i < outputCount; i++ {
		o, size''','''	for left := outputCount; left > 0; left-- {
		o, size'''))
R('x-tx-named','C01 C02 C11 C09',(TX,'''func NewFromBytes(b []byte) (*Transaction, error) {
	if len(b) < 10 {
		return nil, fmt.Errorf("too short to be a tx - even an empty tx has 10 bytes")
	}

	t := Transaction{}
''','''func NewFromBytes(b []byte) (tx *Transaction, err error) {
	if len(b) < 10 {
		err = errTooShort
		return
	}

	t := Transaction{}
'''),(TX,'''// NewFromBytes takes an array of bytes, constructs''','''var errTooShort = fmt.Errorf("too short to be a tx - even an empty tx has 10 bytes")

// NewFromBytes takes an array of bytes, constructs'''))
R('x-in-outpoint','C01 C02 C05 C06 C36',(IN,'''	h := make([]byte, 0)

	pid, _ := hex.DecodeString(i.PreviousTxID)

	h = append(h, utils.ReverseBytes(pid)...)
	h = append(h, utils.GetLittleEndianBytes(i.PreviousTxOutIndex, 4)...)
	if clear {
		h = append(h, 0x00)
	} else {
		if i.UnlockingScript == nil {
			h = append(h, utils.VarInt(0)...)
		} else {
			h = append(h, utils.VarInt(uint64(len(*i.UnlockingScript)))...)
			h = append(h, *i.UnlockingScript...)
		}
	}
	h = append(h, utils.GetLittleEndianBytes(i.SequenceNumber, 4)...)

	return h
}
''','''	h := i.outpoint()
	h = append(h, i.scriptBytes(clear)...)
	return append(h, utils.GetLittleEndianBytes(i.SequenceNumber, 4)...)
}

func (i *Input) outpoint() []byte {
	pid, _ := hex.DecodeString(i.PreviousTxID)
	return append(utils.ReverseBytes(pid), utils.GetLittleEndianBytes(i.PreviousTxOutIndex, 4)...)
}

// scriptBytes is the unlocking script with its length in front.
func (i *Input) scriptBytes(clear bool) []byte {
	if clear || i.UnlockingScript == nil {
		return []byte{0}
	}
	us := *i.UnlockingScript
	return append(utils.VarInt(uint64(len(us))), us...)
}
'''))
R('x-in-binwrite','C01 C05 C36 C10',(IN,'''	h = append(h, utils.GetLittleEndianBytes(i.PreviousTxOutIndex, 4)...)
	if clear {''','''	var word [4]byte
	binary.LittleEndian.PutUint32(word[:], i.PreviousTxOutIndex)
	h = append(h, word[:]...)
	if clear {'''),(IN,'''	h = append(h, utils.GetLittleEndianBytes(i.SequenceNumber, 4)...)

	return h''','''	binary.LittleEndian.PutUint32(word[:], i.SequenceNumber)
	return append(h, word[:]...)'''))
R('x-out-fixed','C01 C05 C06 C36 C10',(OUT,'''	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, o.Satoshis)

	h := make([]byte, 0)
	h = append(h, b...)
	h = append(h, utils.VarInt(uint64(len(*o.LockingScript)))...)
	h = append(h, *o.LockingScript...)

	return h
}
''','''	script := *o.LockingScript
	prefix := utils.VarInt(uint64(len(script)))

	h := make([]byte, 8+len(prefix)+len(script))
	binary.LittleEndian.PutUint64(h, o.Satoshis)
	n := 8
	n += copy(h[n:], prefix)
	copy(h[n:], script)
	return h
}
'''))
R('x-out-sighash-tobytes','C06 C01 C10',(OUT,'''	buf := make([]byte, 0)

	satoshis := make([]byte, 8)
	binary.LittleEndian.PutUint64(satoshis, o.Satoshis)
	buf = append(buf, satoshis...)

	buf = append(buf, utils.VarInt(uint64(len(*o.LockingScript)))...)
	buf = append(buf, *o.LockingScript...)

	return buf
''','''	return o.ToBytes()
'''))
R('x-varint-table','C03 C01 C26',FN(VI,'VarInt(','''
func VarInt(i uint64) []byte {
	for _, f := range varIntForms {
		if i <= f.max {
			b := []byte{f.marker}
			for n := 0; n < f.width; n++ {
				b = append(b, byte(i>>(8*uint(n))))
			}
			if f.width == 0 {
				b[0] = byte(i)
			}
			return b
		}
	}
	return nil
}

var varIntForms = []struct {
	max    uint64
	marker byte
	width  int
}{
	{0xfc, 0, 0},
	{0xffff, 0xfd, 2},
	{0xffffffff, 0xfe, 4},
	{0xffffffffffffffff, 0xff, 8},
}
'''))
R('x-decodevarint-map','C03 C02 C01',FN(VI,'DecodeVarInt(','''
func DecodeVarInt(b []byte) (result uint64, size int) {
	if len(b) == 0 {
		return 0, 0
	}
	width := 0
	if b[0] >= 0xfd {
		width = 1 << (b[0] - 0xfc)
	}
	if len(b) < 1+width {
		return 0, 0
	}
	if width == 0 {
		return uint64(b[0]), 1
	}
	for i := width; i >= 1; i-- {
		result = result<<8 | uint64(b[i])
	}
	return result, 1 + width
}
'''))
R('x-le-bytes','C37 C01 C26',(BM,'''	buf := make([]byte, l)

	binary.LittleEndian.PutUint32(buf, v)

	return buf''','''	buf := make([]byte, l)
	buf[3] = byte(v >> 24)
	buf[2] = byte(v >> 16)
	buf[1] = byte(v >> 8)
	buf[0] = byte(v)
	return buf'''),(BM,'	"encoding/binary"\n',''))
R('x-sort-slicestable','C37 C29',(BM,'''	sorted := sortByteArrays(src)
	sort.Sort(sorted)
	return sorted
''','''	sort.SliceStable(src, func(i, j int) bool { return bytes.Compare(src[i], src[j]) < 0 })
	return src
'''))
R('x-sort-insertion','C37 C29',(BM,'''	sorted := sortByteArrays(src)
	sort.Sort(sorted)
	return sorted
''','''	sort.Sort(sortByteArrays(src))
	return src
'''))
R('x-rev-stack','C37 C05 C24',FN(BM,'ReverseBytes(','''
func ReverseBytes(a []byte) []byte {
	tmp := make([]byte, 0, len(a))
	for n := len(a); n > 0; n-- {
		tmp = append(tmp, a[n-1])
	}
	return tmp
}
'''))
R('x-rev-prepend','C37 C05 C24',FN(BM,'ReverseBytes(','''
func ReverseBytes(a []byte) []byte {
	tmp := []byte{}
	for _, c := range a {
		tmp = append([]byte{c}, tmp...)
	}
	return tmp
}
'''))
R('x-revhex-decode','C37',FN(BM,'ReverseHexString(','''
func ReverseHexString(hex string) string {
	if len(hex)&1 == 1 {
		hex = "0" + hex
	}
	var pairs []string
	for len(hex) > 0 {
		pairs = append([]string{hex[:2]}, pairs...)
		hex = hex[2:]
	}
	return strings.Join(pairs, "")
}
'''),IM(BM,'strings'))
R('x-equals-compare','C37 C08',FN(BM,'Equals(','''
func Equals(b1 []byte, b2 []byte) bool {
	return bytes.Compare(b1, b2) == 0
}
'''))
R('x-equals-xor','C37',FN(BM,'Equals(','''
func Equals(b1 []byte, b2 []byte) bool {
	if len(b1) != len(b2) {
		return false
	}
	same := true
	for i := range b1 {
		same = same && b1[i] == b2[i]
	}
	return same
}
'''))
R('x-decode32-early','C37 C32 C09',(BM,'''	if len(b) != 32 {
		return b32, fmt.Errorf("expected 32 bytes, got %d", len(b))
	}
	copy(b32[:], b[0:32])

	return b32, nil''','''	if len(b) == len(b32) {
		for i := range b32 {
			b32[i] = b[i]
		}
		return b32, nil
	}
	return b32, fmt.Errorf("expected %d bytes, got %d", len(b32), len(b))'''))
R('x-decode32-decodelen','C37 C32 C09',FN(BM,'Decode32Byte(','''
func Decode32Byte(hexStr string) (b32 [32]byte, err error) {
	var b []byte
	if b, err = hex.DecodeString(hexStr); err != nil {
		return
	}
	if n := copy(b32[:], b); n != 32 || len(b) != 32 {
		return [32]byte{}, fmt.Errorf("expected 32 bytes, got %d", len(b))
	}
	return
}
'''))
R('x-p2pkh-tmpl','C19 C14 C34',(SC,'''	hash := crypto.Hash160(pubKeyBytes)

	b := []byte{
		OpDUP,
		OpHASH160,
		0x14,
	}
	b = append(b, hash...)
	b = append(b, OpEQUALVERIFY)
	b = append(b, OpCHECKSIG)

	s := Script(b)
	return &s, nil
}
''','''	return p2pkhFromHash(crypto.Hash160(pubKeyBytes)), nil
}

var (
	p2pkhHead = []byte{OpDUP, OpHASH160, 0x14}
	p2pkhTail = []byte{OpEQUALVERIFY, OpCHECKSIG}
)

func p2pkhFromHash(hash []byte) *Script {
	return NewFromBytes(bytes.Join([][]byte{p2pkhHead, hash, p2pkhTail}, nil))
}
'''),IM(SC,'bytes'))
R('x-p2pkh-copy','C19',FN(SC,'NewP2PKHFromPubKeyHashStr(','''
func NewP2PKHFromPubKeyHashStr(pubKeyHash string) (*Script, error) {
	hash, err := hex.DecodeString(pubKeyHash)
	if err != nil {
		return nil, err
	}

	const n = 20
	if len(hash) != n {
		return nil, fmt.Errorf("invalid public key hash length %d", len(hash))
	}

	s := make(Script, 3+n+2)
	s[0], s[1], s[2] = OpDUP, OpHASH160, n
	copy(s[3:], hash)
	s[3+n], s[3+n+1] = OpEQUALVERIFY, OpCHECKSIG
	return &s, nil
}
'''))
R('x-p2pkh-addr-hex','C19 C14',FN(SC,'NewP2PKHFromAddress(','''
func NewP2PKHFromAddress(addr string) (*Script, error) {
	a, err := address.NewFromString(addr)
	if err != nil {
		return nil, err
	}
	return NewP2PKHFromPubKeyHashStr(a.PublicKeyHash)
}
'''))
R('x-isp2pkh-bytes','C20 C08',FN(SC,'(s *Script) IsP2PKH(','''
func (s *Script) IsP2PKH() bool {
	b := *s
	if len(b) != 25 {
		return false
	}
	return bytes.Equal(b[:3], []byte{OpDUP, OpHASH160, 0x14}) && bytes.Equal(b[23:], []byte{OpEQUALVERIFY, OpCHECKSIG})
}
'''),IM(SC,'bytes'))
R('x-isp2pkh-prefix','C20 C08 C22',FN(SC,'(s *Script) IsP2PKH(','''
func (s *Script) IsP2PKH() bool {
	return len(*s) == 25 &&
		bytes.HasPrefix(*s, []byte{OpDUP, OpHASH160, 0x14}) &&
		bytes.HasSuffix(*s, []byte{OpEQUALVERIFY, OpCHECKSIG})
}
'''),IM(SC,'bytes'))
R('x-isp2pk-switch','C20 C22',FN(SC,'(s *Script) IsP2PK(','''
func (s *Script) IsP2PK() bool {
	parts, push, err := decodeParts(*s)
	if err != nil || len(parts) != 2 || len(parts[0]) == 0 {
		return false
	}
	if !push[0] || push[1] || parts[1][0] != OpCHECKSIG {
		return false
	}
	pubkey := parts[0]
	if int((*s)[0]) != len(pubkey) {
		return false
	}
	switch pubkey[0] {
	case 0x02, 0x03:
		return len(pubkey) == 33
	case 0x04, 0x06, 0x07:
		return len(pubkey) == 65
	default:
		return false
	}
}
'''))
R('x-isdata-prefix','C20 C22',FN(SC,'(s *Script) IsData(','''
func (s *Script) IsData() bool {
	b := []byte(*s)
	if len(b) > 0 && b[0] == OpFALSE {
		b = b[1:]
	}
	return len(b) > 0 && b[0] == OpRETURN
}
'''))
R('x-multisig-slice','C20 C22',FN(SC,'(s *Script) IsMultisigOut(','''
func (s *Script) IsMultisigOut() bool {
	parts, push, err := decodeParts(*s)
	n := len(parts)
	if err != nil || n < 3 || push[0] || push[n-2] || push[n-1] {
		return false
	}
	for _, p := range parts[1 : n-2] {
		if len(p) == 0 {
			return false
		}
	}
	return isSmallIntOp(parts[0][0]) && isSmallIntOp(parts[n-2][0]) && parts[n-1][0] == OpCHECKMULTISIG
}
'''))
R('x-asm-join','C21 C22',FN(SC,'(s *Script) ToASM(','''
func (s *Script) ToASM() (string, error) {
	parts, push, err := decodeParts(*s)
	if err != nil {
		return "", err
	}
	words := make([]string, len(parts))
	for i := range parts {
		if push[i] {
			words[i] = hex.EncodeToString(parts[i])
			continue
		}
		words[i] = opCodeValues[parts[i][0]]
	}
	return strings.TrimSpace(strings.Join(words, " ")), nil
}
'''))
R('x-asm-builder','C21 C22',FN(SC,'(s *Script) ToASM(','''
func (s *Script) ToASM() (string, error) {
	parts, push, err := decodeParts(*s)
	if err != nil {
		return "", err
	}

	var sb strings.Builder
	for i, p := range parts {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if push[i] {
			sb.WriteString(hex.EncodeToString(p))
		} else {
			sb.WriteString(opCodeValues[p[0]])
		}
	}
	return strings.TrimSpace(sb.String()), nil
}
'''))
R('x-asm-printf','C21 C22',(SC,'''			asmScript = asmScript + " " + hex.EncodeToString(p)''','''			asmScript += fmt.Sprintf(" %x", p)'''))
R('x-fromasm-flip','C21 C31',(SC,'''		if val, ok := opCodeStrings[section]; ok {
			s.AppendOpCode(val)
		} else {
			err := s.AppendPushDataHexString(section)
			if err != nil {
				return nil, errors.New("invalid opcode data")
			}
		}''','''		val, known := opCodeStrings[section]
		if known {
			*s = append(*s, val)
			continue
		}
		data, err := hex.DecodeString(section)
		if err == nil {
			err = s.AppendPushData(data)
		}
		if err != nil {
			return nil, errors.New("invalid opcode data")
		}'''))
R('x-pushdata-array-loop','C04 C35 C36',FN(SC,'(s *Script) AppendPushDataArray(','''
func (s *Script) AppendPushDataArray(d [][]byte) error {
	out := *s
	for i := range d {
		p, err := GetPushDataPrefix(d[i])
		if err != nil {
			return fmt.Errorf("part %d is too big", i)
		}
		out = append(append(out, p...), d[i]...)
	}
	*s = out
	return nil
}
'''))
R('x-pushdata-strings-index','C04 C36',FN(SC,'(s *Script) AppendPushDataStrings(','''
func (s *Script) AppendPushDataStrings(strs []string) error {
	parts := make([][]byte, len(strs))
	for i := range parts {
		parts[i] = []byte(strs[i])
	}
	return s.AppendPushDataArray(parts)
}
'''))
R('x-decodeparts-closure','C05 C18 C20 C21',FN('script/OpPushdata.go','decodeParts(','''
func decodeParts(b []byte) ([][]byte, []bool, error) {
	var r [][]byte
	var push []bool
	for len(b) > 0 {
		op := b[0]
		head, l := 1, uint64(0)
		switch {
		case op == OpPUSHDATA1:
			if len(b) < 2 {
				return r, push, errors.New("Not enough data")
			}
			head, l = 2, uint64(b[1])
		case op == OpPUSHDATA2:
			if len(b) < 3 {
				return r, push, errors.New("Not enough data")
			}
			head, l = 3, uint64(b[1])|uint64(b[2])<<8
		case op == OpPUSHDATA4:
			if len(b) < 5 {
				return r, push, errors.New("Not enough data")
			}
			head, l = 5, uint64(binary.LittleEndian.Uint32(b[1:5]))
		case op >= 1 && op < OpPUSHDATA1:
			l = uint64(op)
		default:
			r = append(r, []byte{op})
			push = append(push, false)
			b = b[1:]
			continue
		}
		rest := b[head:]
		if uint64(len(rest)) < l {
			return r, push, errors.New("Not enough data")
		}
		r = append(r, rest[:l])
		push = append(push, true)
		b = rest[l:]
	}
	return r, push, nil
}
'''))
R('x-decodeparts-pos','C05 C18 C20 C21',FN('script/OpPushdata.go','decodeParts(','''
func decodeParts(b []byte) (r [][]byte, push []bool, err error) {
	short := errors.New("Not enough data")
	for pos := 0; pos < len(b); {
		op := b[pos]
		pos++
		width := 0
		switch op {
		case OpPUSHDATA1:
			width = 1
		case OpPUSHDATA2:
			width = 2
		case OpPUSHDATA4:
			width = 4
		}
		if op == 0 || op > OpPUSHDATA4 {
			r, push = append(r, []byte{op}), append(push, false)
			continue
		}
		n := int(op)
		if width > 0 {
			if len(b)-pos < width {
				return r, push, short
			}
			n = 0
			for k := width - 1; k >= 0; k-- {
				n = n<<8 | int(b[pos+k])
			}
			pos += width
		}
		if n > len(b)-pos {
			return r, push, short
		}
		r, push = append(r, b[pos:pos+n]), append(push, true)
		pos += n
	}
	return
}
'''))
R('x-prefix-shift','C04 C19 C36',FN('script/OpPushdata.go','GetPushDataPrefix(','''
func GetPushDataPrefix(data []byte) ([]byte, error) {
	n := uint64(len(data))
	switch {
	case n <= 75:
		return []byte{byte(n)}, nil
	case n>>8 == 0:
		return []byte{OpPUSHDATA1, byte(n)}, nil
	case n>>16 == 0:
		return []byte{OpPUSHDATA2, byte(n), byte(n >> 8)}, nil
	case n>>32 == 0:
		return []byte{OpPUSHDATA4, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, nil
	}
	return nil, fmt.Errorf("data too big")
}
'''),('script/OpPushdata.go','import (\n\t"encoding/binary"\n','import (\n\t"encoding/binary"\n'))
R('x-sighash-writer','C06',FN(SH,'(bt *Transaction) getSequenceHash(','''
func (bt *Transaction) getSequenceHash() []byte {
	var buf bytes.Buffer

	for _, in := range bt.Inputs {
		_ = binary.Write(&buf, binary.LittleEndian, in.SequenceNumber)
	}

	return crypto.Sha256d(buf.Bytes())
}
'''),IM(SH,'bytes'))
R('x-sighash-prealloc','C06',FN(SH,'(bt *Transaction) getSequenceHash(','''
func (bt *Transaction) getSequenceHash() []byte {
	buf := make([]byte, 4*len(bt.Inputs))

	for i, in := range bt.Inputs {
		binary.LittleEndian.PutUint32(buf[4*i:], in.SequenceNumber)
	}

	return crypto.Sha256d(buf)
}
'''))
R('x-sighash-hasher','C06',FN(SH,'(bt *Transaction) getSequenceHash(','''
func (bt *Transaction) getSequenceHash() []byte {
	h := sha256.New()
	var w [4]byte
	for _, in := range bt.Inputs {
		binary.LittleEndian.PutUint32(w[:], in.SequenceNumber)
		h.Write(w[:])
	}
	return crypto.Sha256(h.Sum(nil))
}
'''),IM(SH,'crypto/sha256'))
R('x-sighash-outputs','C06',FN(SH,'(bt *Transaction) getOutputsHash(','''
func (bt *Transaction) getOutputsHash(n int32) []byte {
	outs := bt.Outputs
	if n != -1 {
		outs = outs[n : n+1]
	}
	var buf []byte
	for i := range outs {
		buf = append(buf, outs[i].GetBytesForSigHash()...)
	}
	return crypto.Sha256d(buf)
}
'''))
R('x-sighash-flags','C06 C07',(SH,'''	if sigHashFlag&sighash.AnyOneCanPay == 0 &&
		(sigHashFlag&31) != sighash.Single &&
		(sigHashFlag&31) != sighash.None {''','''	anyone := sigHashFlag&sighash.AnyOneCanPay != 0
	base := sigHashFlag & 31
	all := base != sighash.Single && base != sighash.None
	if !anyone && all {'''),(SH,'''	if (sigHashFlag&31) != sighash.Single && (sigHashFlag&31) != sighash.None {''','''	if all {'''),(SH,'''	} else if (sigHashFlag&31) == sighash.Single && inputNumber''','''	} else if base == sighash.Single && inputNumber'''))
R('x-sighash-parts','C06',(SH,'''	buf = append(buf, utils.VarInt(uint64(len(*in.PreviousTxScript)))...)
	buf = append(buf, *in.PreviousTxScript...)

	// value of the output spent by this input (8-byte little endian)
	sat := make([]byte, 8)
	binary.LittleEndian.PutUint64(sat, in.PreviousTxSatoshis)
	buf = append(buf, sat...)
''','''	code := []byte(*in.PreviousTxScript)
	buf = append(append(buf, utils.VarInt(uint64(len(code)))...), code...)

	// value of the output spent by this input (8-byte little endian)
	for shift := uint(0); shift < 64; shift += 8 {
		buf = append(buf, byte(in.PreviousTxSatoshis>>shift))
	}
'''))
R('x-sighash-put','C06 C07',(SH,'''	// Locktime
	lt := make([]byte, 4)
	binary.LittleEndian.PutUint32(lt, bt.Locktime)
	buf = append(buf, lt...)

	// sighashType
	// writer.writeUInt32LE(sighashType >>> 0)
	st := make([]byte, 4)
	binary.LittleEndian.PutUint32(st, uint32(sigHashFlag)>>0)
	buf = append(buf, st...)
''','''	// Locktime and sighashType
	for _, v := range []uint32{bt.Locktime, uint32(sigHashFlag)} {
		var w [4]byte
		binary.LittleEndian.PutUint32(w[:], v)
		buf = append(buf, w[:]...)
	}
'''))
R('x-sign-inline','C07 C08',(IS,'''	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), flag)
	if err != nil {
		return nil, err
	}

	err = unsignedTx.ApplyUnlockingScript(index, s)
	if err != nil {
		return nil, err
	}

	return unsignedTx, nil''','''	pub, der := is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize()
	if s, err := script.NewP2PKHUnlockingScript(pub, der, flag); err != nil {
		return nil, err
	} else if err := unsignedTx.ApplyUnlockingScript(index, s); err != nil {
		return nil, err
	}
	return unsignedTx, nil''') if 'IS' in globals() else ('transaction/signature/InternalSigner.go','''	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), flag)
	if err != nil {
		return nil, err
	}

	err = unsignedTx.ApplyUnlockingScript(index, s)
	if err != nil {
		return nil, err
	}

	return unsignedTx, nil''','''	pub, der := is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize()
	if s, err := script.NewP2PKHUnlockingScript(pub, der, flag); err != nil {
		return nil, err
	} else if err := unsignedTx.ApplyUnlockingScript(index, s); err != nil {
		return nil, err
	}
	return unsignedTx, nil'''))
R('x-signauto-bytes','C08',FN('transaction/signature/InternalSigner.go','(is *InternalSigner) SignAuto(','''
func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
	own := crypto.Hash160(is.PrivateKey.PubKey().SerializeCompressed())

	for i := range unsignedTx.Inputs {
		pkh, err := unsignedTx.Inputs[i].PreviousTxScript.GetPublicKeyHash()
		if err != nil || !bytes.Equal(pkh, own) {
			continue // not P2PKH, or someone else's
		}
		if _, err = is.Sign(uint32(i), unsignedTx); err != nil {
			return nil, err
		}
	}

	return unsignedTx, nil
}
'''),('transaction/signature/InternalSigner.go','import (\n\t"encoding/hex"\n','import (\n\t"bytes"\n'))
R('x-signauto-collect','C08',FN('transaction/signature/InternalSigner.go','(is *InternalSigner) SignAuto(','''
func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
	pubKeyHashStrFromPriv := hex.EncodeToString(crypto.Hash160(is.PrivateKey.PubKey().SerializeCompressed()))
	mine := func(s *script.Script) bool {
		pubKeyHash, _ := s.GetPublicKeyHash()
		return hex.EncodeToString(pubKeyHash) == pubKeyHashStrFromPriv
	}

	for i, in := range unsignedTx.Inputs {
		if !mine(in.PreviousTxScript) {
			continue
		}
		if _, err := is.Sign(uint32(i), unsignedTx); err != nil {
			return nil, err
		}
	}

	return unsignedTx, nil
}
'''))
R('x-bip276-decodestr','C17 C31',(BI,'''	n, err := strconv.ParseInt(res[2], 16, 0)
	if err != nil {
		return
	}
	network = int(n)

	v, err := strconv.ParseInt(res[3], 16, 0)
	if err != nil {
		return
	}
	version = int(v)
''','''	n, err := strconv.ParseUint(res[2], 16, 8)
	if err != nil {
		return
	}
	v, err := strconv.ParseUint(res[3], 16, 8)
	if err != nil {
		return
	}
	network, version = int(n), int(v)
'''))
R('x-bip276-hexbyte','C17 C31',(BI,'''	n, err := strconv.ParseInt(res[2], 16, 0)
	if err != nil {
		return
	}
	network = int(n)

	v, err := strconv.ParseInt(res[3], 16, 0)
	if err != nil {
		return
	}
	version = int(v)
''','''	nv, err := hex.DecodeString(res[2] + res[3])
	if err != nil {
		return
	}
	network, version = int(nv[0]), int(nv[1])
'''),(BI,'	"strconv"\n',''))
R('x-bip276-fmt','C17 C31',(BI,'''	payload := fmt.Sprintf("%s:%.2x%.2x%x", prefix, network, version, data)
	checksum := hex.EncodeToString(crypto.Sha256d([]byte(payload))[:4])''','''	payload := prefix + ":" + fmt.Sprintf("%02x", network) + fmt.Sprintf("%02x", version) + hex.EncodeToString(data)
	sum := crypto.Sha256d([]byte(payload))
	checksum := fmt.Sprintf("%x", sum[:4])'''))
R('x-bip276-regvar','C17 C31 C14',(BI,'''	validBIP276 := regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)

	res := validBIP276''','''	res := validBIP276'''),(BI,'func DecodeBIP276(','''var validBIP276 = regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)

func DecodeBIP276('''))
R('x-bip276-encode-switch','C17',FN(BI,'EncodeBIP276(','''
func EncodeBIP276(prefix string, network int, version int, data []byte) string {
	valid := func(v int) bool { return 1 <= v && v <= 0xff }
	if valid(network) && valid(version) {
		payload, checksum := createBIP276(prefix, network, version, data)
		return strings.Join([]string{payload, checksum}, "")
	}
	return "ERROR"
}
'''),IM(BI,'strings'))
R('x-electrum-index','C31 C29',(RS,'''		derivationPath := pubkey[78:]
		var s []uint16
		for len(derivationPath) > 0 {
			n := binary.LittleEndian.Uint16(derivationPath[0:2])
			s = append(s, n)
			derivationPath = derivationPath[2:]
		}

		if len(s) != 2 {
			return nil, errors.New("Derivation path should have exactly 2 items")
		}
''','''		s := [2]uint16{
			binary.LittleEndian.Uint16(pubkey[78:]),
			binary.LittleEndian.Uint16(pubkey[80:]),
		}
'''))
R('x-electrum-child','C31 C29',(RS,'''		p, err := publicKey.Child(uint32(s[0]))
		if err != nil {
			return nil, err
		}
		p, err = p.Child(uint32(s[1]))
		if err != nil {
			return nil, err
		}

		ecpk, err := p.ECPubKey()''','''		for _, n := range s {
			if publicKey, err = publicKey.Child(uint32(n)); err != nil {
				return nil, err
			}
		}

		ecpk, err := publicKey.ECPubKey()'''))
R('x-electrum-req','C31 C29',(RS,'''	signaturesRequired := int(parts[0][0] - OpBASE)
	if signaturesRequired < 2 {
		return nil, errors.New("Must have 2 or more required signatures for multisig")
	}

	if signaturesRequired > 15 {
		return nil, errors.New("More than 15 signatures is not supported")
	}

	signatureCount := int(parts[len(parts)-2][0] - OpBASE)
	if signatureCount < 1 || signatureCount > 16 {
		return nil, errors.New("Number of public keys must be between 1 and 16")
	}

	if parts[len(parts)-1][0] != OpCHECKMULTISIG {
		return nil, errors.New("Script must end with OP_CHECKMULTISIG")
	}
''','''	last := len(parts) - 1
	signaturesRequired, signatureCount := int(parts[0][0]-OpBASE), int(parts[last-1][0]-OpBASE)
	switch {
	case signaturesRequired < 2:
		return nil, errors.New("Must have 2 or more required signatures for multisig")
	case signaturesRequired > 15:
		return nil, errors.New("More than 15 signatures is not supported")
	case signatureCount < 1, signatureCount > 16:
		return nil, errors.New("Number of public keys must be between 1 and 16")
	case parts[last][0] != OpCHECKMULTISIG:
		return nil, errors.New("Script must end with OP_CHECKMULTISIG")
	}
'''))
R('x-redeem-local','C29 C30 C38',(RS,'''	b = append(b, OpBASE+byte(rs.SignaturesRequired))
	rs.PublicKeys = utils.SortByteArrays(rs.PublicKeys)
	for _, pk := range rs.PublicKeys {
		b = append(b, byte(len(pk)))
		b = append(b, pk...)
	}

	b = append(b, OpBASE+byte(len(rs.PublicKeys)))

	b = append(b, OpCHECKMULTISIG)

	return b''','''	keys := utils.SortByteArrays(rs.PublicKeys)
	rs.PublicKeys = keys

	b = append(b, OpBASE+byte(rs.SignaturesRequired))
	for i := 0; i < len(keys); i++ {
		b = append(append(b, byte(len(keys[i]))), keys[i]...)
	}

	return append(b, OpBASE+byte(len(keys)), OpCHECKMULTISIG)'''))
R('x-redeem-buffer','C29 C30',(RS,'''	var b []byte

	b = append(b, OpBASE+byte(rs.SignaturesRequired))
	rs.PublicKeys = utils.SortByteArrays(rs.PublicKeys)
	for _, pk := range rs.PublicKeys {
		b = append(b, byte(len(pk)))
		b = append(b, pk...)
	}

	b = append(b, OpBASE+byte(len(rs.PublicKeys)))

	b = append(b, OpCHECKMULTISIG)

	return b''','''	var w bytes.Buffer

	w.WriteByte(OpBASE + byte(rs.SignaturesRequired))
	rs.PublicKeys = utils.SortByteArrays(rs.PublicKeys)
	for _, pk := range rs.PublicKeys {
		w.WriteByte(byte(len(pk)))
		w.Write(pk)
	}
	w.WriteByte(OpBASE + byte(len(rs.PublicKeys)))
	w.WriteByte(OpCHECKMULTISIG)

	return w.Bytes()'''),(RS,'import (\n','import (\n\t"bytes"\n'))
R('x-redeem-p2sh','C29 C30',(RS,'''	var b []byte

	h := rs.GetRedeemScriptHash()

	b = append(b, OpHASH160)
	b = append(b, byte(len(h)))
	b = append(b, h...)
	b = append(b, OpEQUAL)

	return b''','''	h := crypto.Hash160(rs.GetRedeemScript())
	return append(append([]byte{OpHASH160, byte(len(h))}, h...), OpEQUAL)'''))
R('x-redeem-newerr','C29 C30',FN(RS,'NewRedeemScript(','''
func NewRedeemScript(signaturesRequired int) (*RedeemScript, error) {
	rs := new(RedeemScript)
	switch {
	case signaturesRequired < 2:
		return nil, errors.New("Must have 2 or more required signatures for multisig")
	case signaturesRequired >= 17:
		return nil, errors.New("More than 16 signatures is not supported")
	default:
		rs.SignaturesRequired = signaturesRequired
	}
	return rs, nil
}
'''))
R('x-addkey-chain','C29 C31 C30',(RS,'''	result, err := pk.Child(derivationPath[0])
	if err != nil {
		return err
	}

	result2, err := result.Child(derivationPath[1])
	if err != nil {
		return err
	}

	ecpk, err := result2.ECPubKey()''','''	for i := range derivationPath {
		if pk, err = pk.Child(derivationPath[i]); err != nil {
			return err
		}
	}

	ecpk, err := pk.ECPubKey()'''))
R('x-merkle-fold-swap','C24',(MB,'''		if txIndex&1 > 0 {
			hash = crypto.Sha256d(append(h, hash...))
		} else {
			hash = crypto.Sha256d(append(hash, h...))
		}

		txIndex >>= 1''','''		left, right := hash, h
		if txIndex%2 == 1 {
			left, right = right, left
		}
		hash = crypto.Sha256d(append(append(make([]byte, 0, 64), left...), right...))

		txIndex /= 2'''))
R('x-merkle-fold-level','C24',(MB,'''	for _, b := range branches {
		h, err := hex.DecodeString(b)
		if err != nil {
			return "", err
		}

		h = utils.ReverseBytes(h)

		if txIndex&1 > 0 {
			hash = crypto.Sha256d(append(h, hash...))
		} else {
			hash = crypto.Sha256d(append(hash, h...))
		}

		txIndex >>= 1
	}
''','''	for level := 0; level < len(branches); level++ {
		h, err := hex.DecodeString(branches[level])
		if err != nil {
			return "", err
		}

		pair := [][]byte{hash, utils.ReverseBytes(h)}
		bit := txIndex & 1
		hash = crypto.Sha256d(bytes.Join([][]byte{pair[bit], pair[1-bit]}, nil))
		txIndex = txIndex >> 1
	}
'''),IM(MB,'bytes'))
R('x-merkle-root-join','C26 C33',FN(MR,'BuildMerkleRootFromCoinbase(','''
func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) []byte {
	acc := coinbaseHash
	for _, m := range merkleBranches {
		branch, _ := hex.DecodeString(m)
		node := make([]byte, len(acc)+len(branch))
		copy(node[copy(node, acc):], branch)
		acc = crypto.Sha256d(node)
	}
	return acc
}
'''))
R('x-merkle-root-rec','C26 C33',FN(MR,'BuildMerkleRootFromCoinbase(','''
func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) []byte {
	if len(merkleBranches) == 0 {
		return coinbaseHash
	}
	branch, _ := hex.DecodeString(merkleBranches[0])
	node := append(append([]byte{}, coinbaseHash...), branch...)
	return BuildMerkleRootFromCoinbase(crypto.Sha256d(node), merkleBranches[1:])
}
'''))
R('x-branches-iter','C25',FN(MB,'GetMerkleBranches(','''
func GetMerkleBranches(template []string) []string {
	var branches []string

	for level := getHashes(template); len(level) > 1; {
		branches = append(branches, level[1])

		var next []string
		for i := 0; i < len(level); i += 2 {
			j := i + 1
			if j == len(level) {
				j = i
			}
			l, _ := hex.DecodeString(level[i])
			r, _ := hex.DecodeString(level[j])
			next = append(next, hex.EncodeToString(crypto.Sha256d(append(l, r...))))
		}
		level = next
	}

	return branches
}
'''))
R('x-branches-half','C25',FN(MB,'GetMerkleBranches(','''
func GetMerkleBranches(template []string) []string {
	level := getHashes(template)
	var branches []string

	for len(level) >= 2 {
		branches = append(branches, level[1])
		if len(level)%2 == 1 {
			level = append(level, level[len(level)-1])
		}
		next := make([]string, len(level)/2)
		for i := range next {
			l, _ := hex.DecodeString(level[2*i])
			r, _ := hex.DecodeString(level[2*i+1])
			next[i] = hex.EncodeToString(crypto.Sha256d(append(l, r...)))
		}
		level = next
	}

	return branches
}
'''))
R('x-header-buf','C26',FN(BH,'BuildBlockHeader(','''
func BuildBlockHeader(version uint32, previousBlockHash string, merkleRoot []byte, time []byte, bits []byte, nonce []byte) []byte {
	p, _ := hex.DecodeString(previousBlockHash)

	var h bytes.Buffer
	_ = binary.Write(&h, binary.LittleEndian, version)
	for _, f := range [][]byte{utils.ReverseBytes(p), merkleRoot, time, bits, nonce} {
		h.Write(f)
	}
	return h.Bytes()
}
'''),(BH,'import (\n','import (\n\t"bytes"\n'))
R('x-header-join','C26',FN(BH,'BuildBlockHeader(','''
func BuildBlockHeader(version uint32, previousBlockHash string, merkleRoot []byte, time []byte, bits []byte, nonce []byte) []byte {
	p, _ := hex.DecodeString(previousBlockHash)
	return bytes.Join([][]byte{
		utils.GetLittleEndianBytes(version, 4),
		utils.ReverseBytes(p),
		merkleRoot,
		time,
		bits,
		nonce,
	}, nil)
}
'''),(BH,'import (\n\t"encoding/binary"\n','import (\n\t"bytes"\n'))
R('x-coinbase-writeout','C27',(CB,'''		numberOfTransactions++
		byteArr := make([]byte, 8)
		buf = append(buf, byteArr...)
		wc, err := hex.DecodeString(defaultWitnessCommitment)
		if err != nil {
			log.Printf("Error decoding witness commitment: %+v", err)
			return nil, err
		}
		wcl := utils.VarInt(uint64(len(wc)))
		buf = append(buf, wcl...)
		buf = append(buf, wc...)''','''		wc, err := hex.DecodeString(defaultWitnessCommitment)
		if err != nil {
			log.Printf("Error decoding witness commitment: %+v", err)
			return nil, err
		}
		numberOfTransactions++
		buf = appendTxOut(buf, 0, wc)'''),(CB,'''		byteArr := make([]byte, 8) // 8 bytes of 0 = 0 satoshis.
		buf = append(buf, byteArr...)
		buf = append(buf, utils.VarInt(uint64(len(minerIDBytes)))...)
		buf = append(buf, minerIDBytes...)''','''		buf = appendTxOut(buf, 0, minerIDBytes)'''),(CB,'''	buf := make([]byte, 8)

	binary.LittleEndian.PutUint64(buf[0:], coinbaseValue)

	buf = append(buf, utils.VarInt(uint64(len(*o.LockingScript)))...)
	buf = append(buf, *o.LockingScript...)
''','''	buf := appendTxOut(nil, coinbaseValue, *o.LockingScript)
'''),(CB,'func makeCoinbase1(','''func appendTxOut(buf []byte, satoshis uint64, script []byte) []byte {
	var v [8]byte
	binary.LittleEndian.PutUint64(v[:], satoshis)
	buf = append(buf, v[:]...)
	buf = append(buf, utils.VarInt(uint64(len(script)))...)
	return append(buf, script...)
}

func makeCoinbase1('''))
R('x-coinbase-outputs','C27',(CB,'''	buf := make([]byte, 8)

	binary.LittleEndian.PutUint64(buf[0:], coinbaseValue)

	buf = append(buf, utils.VarInt(uint64(len(*o.LockingScript)))...)
	buf = append(buf, *o.LockingScript...)
''','''	buf := o.ToBytes()
'''),(CB,'	"encoding/binary"\n	"encoding/hex"','	"encoding/binary"\n	"encoding/hex"'))
R('x-coinbase1-trunc','C27',(CB,'''	arbitraryData := []byte{}
	arbitraryData = append(arbitraryData, 0x03)
	arbitraryData = append(arbitraryData, blockHeightBytes[:3]...)
	arbitraryData = append(arbitraryData, []byte(coinbaseText)...)

	// Arbitrary data should leave enough space for the extra nonce
	if len(arbitraryData) > (100 - spaceForExtraNonce) {
		arbitraryData = arbitraryData[:100-spaceForExtraNonce] // Slice the arbitrary text so everything fits in 100 bytes
	}
''','''	// Arbitrary data should leave enough space for the extra nonce
	const maxText = 100 - 12 - 4
	if len(coinbaseText) > maxText {
		coinbaseText = coinbaseText[:maxText]
	}
	arbitraryData := append([]byte{0x03}, blockHeightBytes[:3]...)
	arbitraryData = append(arbitraryData, coinbaseText...)
'''))
R('x-coinbase2-join','C27',FN(CB,'makeCoinbase2(','''
func makeCoinbase2(ot []byte) []byte {
	out := make([]byte, 0, len(ot)+8)
	out = append(out, 0xff, 0xff, 0xff, 0xff)
	out = append(out, ot...)
	return append(out, 0, 0, 0, 0)
}
'''))
R('x-coinbase-build-join','C27',FN(CB,'BuildCoinbase(','''
func BuildCoinbase(c1 []byte, c2 []byte, extraNonce1 string, extraNonce2 string) []byte {
	a := append([]byte{}, c1...)
	for _, n := range []string{extraNonce1, extraNonce2} {
		e, _ := hex.DecodeString(n)
		a = append(a, e...)
	}
	return append(a, c2...)
}
'''))
R('x-target-exp','C28 C32',(DI,'''		bn = big.NewInt(int64(mantissa))
		bn.Lsh(bn, 8*(exponent-3))
''','''		scale := new(big.Int).Exp(big.NewInt(256), big.NewInt(int64(exponent-3)), nil)
		bn = new(big.Int).Mul(big.NewInt(int64(mantissa)), scale)
'''))
R('x-target-setbytes','C28 C32',(DI,'''	compact := binary.BigEndian.Uint32(binaryBits)

	// Extract the mantissa, sign bit, and exponent.
	mantissa := compact & 0x007fffff
	isNegative := compact&0x00800000 != 0
	exponent := uint(compact >> 24)
''','''	// Extract the mantissa, sign bit, and exponent.
	exponent := uint(binaryBits[0])
	isNegative := binaryBits[1] >= 0x80
	mantissa := uint32(binaryBits[1]&0x7f)<<16 | uint32(binaryBits[2])<<8 | uint32(binaryBits[3])
'''),(DI,'	"encoding/binary"\n',''))
R('x-target-shift','C28 C32',(DI,'''	var bn *big.Int
	if exponent <= 3 {
		mantissa >>= 8 * (3 - exponent)
		bn = big.NewInt(int64(mantissa))
	} else {
		bn = big.NewInt(int64(mantissa))
		bn.Lsh(bn, 8*(exponent-3))
	}
''','''	bn := big.NewInt(int64(mantissa))
	if exponent > 3 {
		bn.Lsh(bn, 8*(exponent-3))
	} else {
		bn.Rsh(bn, 8*(3-exponent))
	}
'''))
R('x-target-fill','C28 C32',(DI,'''	dst := make([]byte, 32)
	b := bn.Bytes()
	if bn.Sign() < 0 || len(b) > len(dst) {
		return "", fmt.Errorf("target of bits %s does not fit in 32 bytes", bits)
	}

	copy(dst[32-len(b):], b)
	return hex.EncodeToString(dst), nil''','''	if bn.Sign() == -1 || bn.BitLen() > 256 {
		return "", fmt.Errorf("target of bits %s does not fit in 32 bytes", bits)
	}

	var dst [32]byte
	return hex.EncodeToString(bn.FillBytes(dst[:])), nil'''))
R('x-target-cmp','C28 C32',(DI,'''	b := bn.Bytes()
	if bn.Sign() < 0 || len(b) > len(dst) {''','''	limit := new(big.Int).Lsh(big.NewInt(1), 256)
	b := bn.Bytes()
	if bn.Sign() < 0 || bn.Cmp(limit) >= 0 {'''))
R('x-addr-version','C13 C12 C34',(AD,'''	return NewFromPublicKeyHash(crypto.Hash160(pubKeyBytes), mainnet)
''','''	a := fromHash(crypto.Hash160(pubKeyBytes), mainnet)
	return &a, nil
'''),(AD,'''func NewFromPublicKey(pubKey *bsvec.PublicKey, mainnet bool) (*Address, error) {
	hash := crypto.Hash160(pubKey.SerializeCompressed())

	// regtest := 111
	// mainnet: 0

	bb := make([]byte, 1)
	if mainnet == false {
		bb[0] = 111
	}

	bb = append(bb, hash...)
	addr := Base58EncodeMissingChecksum(bb)

	a := Address{
		AddressString: addr,
		PublicKeyHash: hex.EncodeToString(hash),
	}
	return &a, nil
}''','''func NewFromPublicKey(pubKey *bsvec.PublicKey, mainnet bool) (*Address, error) {
	a := fromHash(crypto.Hash160(pubKey.SerializeCompressed()), mainnet)
	return &a, nil
}

func fromHash(hash []byte, mainnet bool) Address {
	version := byte(0x00)
	if !mainnet {
		version = 0x6f
	}
	return Address{
		AddressString: Base58EncodeMissingChecksum(append([]byte{version}, hash...)),
		PublicKeyHash: hex.EncodeToString(hash),
	}
}'''))
R('x-addr-decode-if','C14 C12 C34',(AD,'''	switch decoded[0] {
	case 0x00: // Pubkey hash (P2PKH address)
		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil

	case 0x6f: // Testnet pubkey hash (P2PKH address)
		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil

	case 0x05: // Script hash (P2SH address)
		fallthrough
	case 0xc4: // Testnet script hash (P2SH address)
		fallthrough

	default:
		return "", fmt.Errorf("Address %s is not supported", address)
	}''','''	if v := decoded[0]; v != 0x00 && v != 0x6f {
		return "", fmt.Errorf("Address %s is not supported", address)
	}
	return fmt.Sprintf("%x", decoded[1:21]), nil'''))
R('x-addr-cksum-bytes','C14 C12',(AD,'''	var cksum [4]byte
	copy(cksum[:], decoded[len(decoded)-4:])
	if (decoded[0] == 0x00 || decoded[0] == 0x6f) && cksum != checksum(decoded[:len(decoded)-4]) {''','''	payload, tail := decoded[:21], decoded[21:]
	want := checksum(payload)
	if (payload[0] == 0x00 || payload[0] == 0x6f) && !bytes.Equal(tail, want[:]) {'''),IM(AD,'bytes'))
R('x-addr-cksum-loop','C14 C12 C13',FN(AD,'checksum(','''
func checksum(input []byte) (cksum [4]byte) {
	h := crypto.Sha256(crypto.Sha256(input))
	for i := range cksum {
		cksum[i] = h[i]
	}
	return cksum
}
'''))
R('x-b58-append','C13 C12 C33',FN(AD,'Base58EncodeMissingChecksum(','''
func Base58EncodeMissingChecksum(input []byte) string {
	b := make([]byte, len(input)+4)
	n := copy(b, input)
	copy(b[n:], crypto.Sha256d(input))
	return base58.Encode(b)
}
'''))
R('x-set58-index','C14',(AV,'''		c := bytes.IndexByte(tmpl, s1)
		if c < 0 {''','''		c := strings.IndexByte(alphabet58, s1)
		if c == -1 {'''),(AV,'''var tmpl = []byte("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")''','''const alphabet58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"'''),(AV,'	"bytes"\n',''))
R('x-set58-up','C14',(AV,'''		for j := 24; j >= 0; j-- {
			c += 58 * int(a[j])
			a[j] = byte(c % 256)
			c /= 256
		}''','''		for j := range a {
			k := len(a) - 1 - j
			c += int(a[k]) * 58
			a[k] = byte(c & 0xff)
			c >>= 8
		}'''))
R('x-valid-switch','C14',(AV,'''	if a[0] != 0 && a[0] != 0x6f {
		return false, errors.New("not version 0 or 6f")
	}

	checksumOK := a.embeddedChecksum() == a.computeChecksum()

	if !checksumOK {
		return false, errors.New("checksum failed")
	}

	return true, nil''','''	switch a[0] {
	case 0, 0x6f:
	default:
		return false, errors.New("not version 0 or 6f")
	}

	if h := crypto.Sha256d(a[:21]); !bytes.Equal(h[:4], a[21:25]) {
		return false, errors.New("checksum failed")
	}
	return true, nil'''),(AV,'''func (a *a25) embeddedChecksum() (c [4]byte) {
	copy(c[:], a[21:])
	return
}
''',''),(AV,'''func (a *a25) computeChecksum() (c [4]byte) {
	copy(c[:], crypto.Sha256d(a[:21]))
	return
}
''',''))
R('x-valid-local','C14',(AV,'''	if strings.HasPrefix(address, "bitcoin-script:") {
		_, _, _, _, err := DecodeBIP276(address)

		if err != nil {
			return false, fmt.Errorf("bitcoin-script invalid [%+v]", err)
		}
		return true, nil
	}

	return validA58([]byte(address))''','''	if !strings.HasPrefix(address, PrefixScript+":") {
		return validA58([]byte(address))
	}

	if _, _, _, _, err := DecodeBIP276(address); err != nil {
		return false, fmt.Errorf("bitcoin-script invalid [%+v]", err)
	}
	return true, nil'''))
R('x-encrypt-encode','C16 C35',FN(EN,'Encrypt(','''
func Encrypt(ciph cipher.Block, text []byte) ([]byte, error) {
	enc := base64.StdEncoding
	b := make([]byte, enc.EncodedLen(len(text)))
	enc.Encode(b, text)

	iv := make([]byte, aes.BlockSize)
	if _, err := io.ReadFull(rand.Reader, iv); err != nil {
		return nil, err
	}
	cipher.NewCFBEncrypter(ciph, iv).XORKeyStream(b, b)
	return append(iv, b...), nil
}
'''))
R('x-decrypt-split','C16 C31',FN(EN,'Decrypt(','''
func Decrypt(ciph cipher.Block, ciphertext []byte) ([]byte, error) {
	if len(ciphertext) < aes.BlockSize {
		return nil, errors.New("ciphertext too short")
	}
	iv, body := ciphertext[:aes.BlockSize], ciphertext[aes.BlockSize:]
	text := make([]byte, len(body))
	cipher.NewCFBDecrypter(ciph, iv).XORKeyStream(text, body)
	data := make([]byte, base64.StdEncoding.DecodedLen(len(text)))
	n, err := base64.StdEncoding.Decode(data, text)
	if err != nil {
		return nil, err
	}
	return data[:n], nil
}
'''))
R('x-hash160-new','C15 C13',FN(HA,'Ripemd160(','''
func Ripemd160(b []byte) []byte {
	h := ripemd160.New()
	_, _ = h.Write(b)
	return h.Sum(make([]byte, 0, ripemd160.Size))
}
'''))
R('x-sha256d-sum','C15 C10 C14',FN(HA,'Sha256d(','''
func Sha256d(b []byte) []byte {
	sum := sha256.Sum256(b)
	sum = sha256.Sum256(sum[:])
	return sum[:]
}
'''))
R('x-tx-outputs-cond','C01 C02 C05',(TX,'''	for i = 0; i < outputCount; i++ {
		o, size, err := output.NewFromBytes(b[offset:])
		if err != nil {
			return nil, err
		}
		offset += size
		t.Outputs = append(t.Outputs, o)
	}
''','''	for outputCount > 0 {
		o, n, err := output.NewFromBytes(b[offset:])
		if err != nil {
			return nil, err
		}
		t.Outputs, offset = append(t.Outputs, o), offset+n
		outputCount--
	}
'''))
R('x-tx-loop-break','C01 C02 C05',(TX,'''	for i = 0; i < outputCount; i++ {
		o, size''','''	for i = 0; ; i++ {
		if i == outputCount {
			break
		}
		o, size'''))
R('x-tx-rest','C01 C02 C05',(TX,'''	for ; i < inputCount; i++ {
		i, size, err := input.NewFromBytes(b[offset:])
		if err != nil {
			return nil, err
		}
		offset += size

		t.Inputs = append(t.Inputs, i)
	}
''','''	rest := b[offset:]
	for ; i < inputCount; i++ {
		in, n, err := input.NewFromBytes(rest)
		if err != nil {
			return nil, err
		}
		rest = rest[n:]
		t.Inputs = append(t.Inputs, in)
	}
	offset = len(b) - len(rest)
'''))
R('x-tx-tobytes-buf','C01 C02 C36 C11',(TX,'''	for _, out := range bt.GetOutputs() {
		h = append(h, out.ToBytes()...)
	}

	lt := make([]byte, 4)
	binary.LittleEndian.PutUint32(lt, bt.Locktime)
	h = append(h, lt...)

	return h''','''	for k := 0; k != len(bt.Outputs); k++ {
		h = append(h, bt.Outputs[k].ToBytes()...)
	}

	return append(h, utils.GetLittleEndianBytes(bt.Locktime, 4)...)'''))
R('x-tx-cleared-branch','C11 C36',(TX,'''		s := in.ToBytes(scriptPubKey != nil)
		if i == index && scriptPubKey != nil {
			// s is the outpoint, an empty script (one zero byte) and the sequence
			h = append(h, s[:len(s)-5]...)
			h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
			h = append(h, scriptPubKey...)
			h = append(h, s[len(s)-4:]...)
		} else {
			h = append(h, s...)
		}''','''		if scriptPubKey == nil {
			h = append(h, in.ToBytes(false)...)
			continue
		}
		s := in.ToBytes(true)
		if i != index {
			h = append(h, s...)
			continue
		}
		// s is the outpoint, an empty script (one zero byte) and the sequence
		cut := len(s) - 5
		h = append(h, s[:cut]...)
		h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
		h = append(append(h, scriptPubKey...), s[cut+1:]...)'''))
R('x-tx-total-index','C36 C39',FN(TX,'(bt *Transaction) GetTotalOutputSatoshis(','''
func (bt *Transaction) GetTotalOutputSatoshis() (total uint64) {
	for i := len(bt.Outputs) - 1; i >= 0; i-- {
		total += bt.Outputs[i].Satoshis
	}
	return
}
'''))
R('x-tx-coinbase-one','C36 C23',FN(TX,'(bt *Transaction) IsCoinbase(','''
func (bt *Transaction) IsCoinbase() bool {
	if bt.InputCount() != 1 {
		return false
	}
	in := bt.Inputs[0]
	return in.PreviousTxID == strings.Repeat("0", 64) &&
		(in.PreviousTxOutIndex == 0xFFFFFFFF || in.SequenceNumber == 0xFFFFFFFF)
}
'''),IM(TX,'strings'))
R('x-tx-apply-early','C09 C07 C08',FN(TX,'(bt *Transaction) ApplyUnlockingScript(','''
func (bt *Transaction) ApplyUnlockingScript(index uint32, s *script.Script) error {
	if int64(index) >= int64(len(bt.Inputs)) {
		return fmt.Errorf("no input at index %d", index)
	}
	in := bt.Inputs[index]
	if in == nil {
		return fmt.Errorf("no input at index %d", index)
	}
	in.UnlockingScript = s
	return nil
}
'''))
R('x-tx-from-lit','C09 C06',FN(TX,'(bt *Transaction) From(','''
func (bt *Transaction) From(txID string, vout uint32, scriptSig string, satoshis uint64) error {
	raw, err := hex.DecodeString(scriptSig)
	if err != nil {
		return err
	}

	bt.Inputs = append(bt.Inputs, &input.Input{
		PreviousTxID:       txID,
		PreviousTxOutIndex: vout,
		PreviousTxScript:   script.NewFromBytes(raw),
		PreviousTxSatoshis: satoshis,
		SequenceNumber:     0xffffffff,
	})
	return nil
}
'''))
R('x-human-table','C39',FN('utils/HumanHash.go','HumanHash(','''
func HumanHash(val float64) string {
	units := []struct {
		size float64
		name string
	}{{1e+21, "ZH/s"}, {1e+18, "EH/s"}, {1e+15, "PH/s"}, {1e+12, "TH/s"}, {1e+9, "GH/s"}, {1e+6, "MH/s"}, {1e+3, "kH/s"}}
	for _, u := range units {
		if val >= u.size {
			return fmt.Sprintf("%.2f %s", val/u.size, u.name)
		}
	}
	return fmt.Sprintf("%.2f %s", val, "H/s")
}
'''))
R('x-puzzle-parts','C19 C35',(OUT,'''	s.AppendOpCode(script.OpHASH160)
	secretBytesHash := crypto.Hash160([]byte(secret))
	err = s.AppendPushData(secretBytesHash)
	if err != nil {
		return nil, err
	}
	s.AppendOpCode(script.OpEQUALVERIFY)
	s.AppendOpCode(script.OpDUP)
	s.AppendOpCode(script.OpHASH160)
	err = s.AppendPushData(publicKeyHashBytes)
	if err != nil {
		return nil, err
	}
	s.AppendOpCode(script.OpEQUALVERIFY)
	s.AppendOpCode(script.OpCHECKSIG)
''','''	s.AppendOpCode(script.OpHASH160)
	if err = s.AppendPushDataHexString(hex.EncodeToString(crypto.Hash160([]byte(secret)))); err != nil {
		return nil, err
	}
	for _, op := range []byte{script.OpEQUALVERIFY, script.OpDUP, script.OpHASH160} {
		s.AppendOpCode(op)
	}
	if err = s.AppendPushData(publicKeyHashBytes); err != nil {
		return nil, err
	}
	*s = append(*s, script.OpEQUALVERIFY, script.OpCHECKSIG)
'''))
R('x-opreturn-encode','C19 C35',FN(OUT,'createOpReturnOutput(','''
func createOpReturnOutput(data [][]byte) (*Output, error) {
	pushes, err := script.EncodeParts(data)
	if err != nil {
		return nil, err
	}
	b := make([]byte, 0, 2+len(pushes))
	b = append(b, script.OpFALSE, script.OpRETURN)
	b = append(b, pushes...)
	return &Output{LockingScript: script.NewFromBytes(b)}, nil
}
'''))
R('x-output-switch','C01 C02 C05',(OUT,'''	l, size := utils.DecodeVarInt(bytes[offset:])
	offset += size
	if size == 0 || l > uint64(len(bytes)-offset) {
		return nil, 0, fmt.Errorf("output length too short < 8 + script")
	}

	totalLength := offset + int(l)

	if len(bytes) < totalLength {
		return nil, 0, fmt.Errorf("output length too short < 8 + script")
	}

	s := script.Script(append([]byte{}, bytes[offset:totalLength]...)) // own copy, not a window into the buffer
	o.LockingScript = &s
''','''	l, size := utils.DecodeVarInt(bytes[offset:])
	if size == 0 {
		return nil, 0, fmt.Errorf("output length too short < 8 + script")
	}
	offset += size
	rest := bytes[offset:]
	if uint64(len(rest)) < l {
		return nil, 0, fmt.Errorf("output length too short < 8 + script")
	}

	totalLength := offset + int(l)
	own := make([]byte, l)
	copy(own, rest)
	o.LockingScript = script.NewFromBytes(own)
'''))
R('x-equals-ct','C37',FN(BM,'Equals(','''
func Equals(b1 []byte, b2 []byte) bool {
	if len(b1) != len(b2) {
		return false
	}
	var diff byte
	for i := range b1 {
		diff |= b1[i] ^ b2[i]
	}
	return diff == 0
}
'''))
R('x-equals-any','C37',FN(BM,'Equals(','''
func Equals(b1 []byte, b2 []byte) bool {
	if len(b1) != len(b2) {
		return false
	}
	differs := false
	for i, v := range b1 {
		if b2[i] != v {
			differs = true
		}
	}
	return !differs
}
'''))
