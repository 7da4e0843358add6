From 7fdba38a5728e29f872e9e8039f99875c3520f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 01/29] fix: DecodeVarInt reports truncated input as size 0
 instead of panicking

---
 utils/VarInt.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/utils/VarInt.go b/utils/VarInt.go
index 796aefd..1fdb446 100644
--- a/utils/VarInt.go
+++ b/utils/VarInt.go
@@ -27,18 +27,31 @@ func VarInt(i uint64) []byte {
 
 // DecodeVarInt takes a byte array in VarInt format and returns the
 // decoded unsigned integer value of the length and it's size in bytes.
+// If b is too short to hold the whole VarInt the size returned is 0.
 // See http://learnmeabitcoin.com/glossary/varint
 func DecodeVarInt(b []byte) (result uint64, size int) {
+	if len(b) == 0 {
+		return 0, 0
+	}
 	switch b[0] {
 	case 0xff:
+		if len(b) < 9 {
+			return 0, 0
+		}
 		result = binary.LittleEndian.Uint64(b[1:9])
 		size = 9
 
 	case 0xfe:
+		if len(b) < 5 {
+			return 0, 0
+		}
 		result = uint64(binary.LittleEndian.Uint32(b[1:5]))
 		size = 5
 
 	case 0xfd:
+		if len(b) < 3 {
+			return 0, 0
+		}
 		result = uint64(binary.LittleEndian.Uint16(b[1:3]))
 		size = 3
 
-- 
2.43.0


From 1aecfea68ce67f18daee2eec3a87330ada7feaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 02/29] fix: input and output parsing check the script length
 against the remaining bytes

---
 transaction/input/Input.go   | 3 +++
 transaction/output/Output.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 170ac29..bc004f0 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -57,6 +57,9 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 	offset := 36
 	l, size := utils.DecodeVarInt(bytes[offset:])
 	offset += size
+	if size == 0 || l > uint64(len(bytes)-offset) {
+		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
+	}
 
 	totalLength := offset + int(l) + 4 // 4 bytes for nSeq
 
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index c41522b..eecaf42 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -40,6 +40,9 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 	offset := 8
 	l, size := utils.DecodeVarInt(bytes[offset:])
 	offset += size
+	if size == 0 || l > uint64(len(bytes)-offset) {
+		return nil, 0, fmt.Errorf("output length too short < 8 + script")
+	}
 
 	totalLength := offset + int(l)
 
-- 
2.43.0


From f22bbdae897cc318967abdb69395e69ae78c9c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 03/29] fix: transaction parsing rejects truncated input and
 output counts

---
 transaction/Transaction.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index b7aa9f8..7059576 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -76,6 +76,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 	offset += 4
 
 	inputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("input count is truncated")
+	}
 	offset += size
 
 	// create inputs
@@ -92,6 +95,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 
 	// create outputs
 	outputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("output count is truncated")
+	}
 	offset += size
 	for i = 0; i < outputCount; i++ {
 		o, size, err := output.NewFromBytes(b[offset:])
-- 
2.43.0


From 0edac3dac76f680b37d140f8311289328e8dec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 04/29] fix: parsed scripts own their memory instead of
 aliasing the parse buffer

---
 transaction/input/Input.go   | 3 ++-
 transaction/output/Output.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index bc004f0..a8ff8bc 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -67,7 +67,8 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
 	}
 
-	i.UnlockingScript = script.NewFromBytes(bytes[offset : offset+int(l)])
+	us := append([]byte{}, bytes[offset:offset+int(l)]...) // own copy, not a window into the buffer
+	i.UnlockingScript = script.NewFromBytes(us)
 
 	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[offset+int(l):])
 
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index eecaf42..f5e46b3 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -50,7 +50,7 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 		return nil, 0, fmt.Errorf("output length too short < 8 + script")
 	}
 
-	s := script.Script(bytes[offset:totalLength])
+	s := script.Script(append([]byte{}, bytes[offset:totalLength]...)) // own copy, not a window into the buffer
 	o.LockingScript = &s
 
 	return &o, totalLength, nil
-- 
2.43.0


From ae2cbc53200d9a1cd8ad44287a7e90b9425b5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 05/29] fix: DecodeParts computes push lengths in 64 bits so
 they cannot overflow

---
 script/OpPushdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index f742f92..e40d6cd 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -102,7 +102,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 3 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint16(b[1:])
+			l := uint64(binary.LittleEndian.Uint16(b[1:]))
 			if len(b) < int(3+l) {
 				return r, errors.New("Not enough data")
 			}
@@ -114,7 +114,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 5 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint32(b[1:])
+			l := uint64(binary.LittleEndian.Uint32(b[1:]))
 			if len(b) < int(5+l) {
 				return r, errors.New("Not enough data")
 			}
-- 
2.43.0


From 27087ee02843e55b126dabe950a2d546088de359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 06/29] fix: GetPublicKeyHash accepts only the P2PKH template
 and no longer panics on short scripts

---
 script/Script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/Script.go b/script/Script.go
index 9504ad5..d9334b2 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -290,7 +290,7 @@ func (s *Script) GetPublicKeyHash() ([]byte, error) {
 		return nil, fmt.Errorf("Script is empty")
 	}
 
-	if (*s)[0] != 0x76 || (*s)[1] != 0xa9 {
+	if !s.IsP2PKH() {
 		return nil, fmt.Errorf("Not a P2PKH")
 	}
 
-- 
2.43.0


From 4bfcaa526d8a7741e2f539bb717567a6baf1fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 07/29] fix: IsData does not panic on empty and one-byte
 scripts

---
 script/Script.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index d9334b2..3e21690 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -251,8 +251,8 @@ func (s *Script) IsP2SH() bool {
 func (s *Script) IsData() bool {
 	b := []byte(*s)
 
-	return b[0] == 0x6a ||
-		b[0] == 0x00 && b[1] == 0x6a
+	return len(b) > 0 && b[0] == 0x6a ||
+		len(b) > 1 && b[0] == 0x00 && b[1] == 0x6a
 }
 
 // IsMultisigOut returns true if this is a multisig output script.
-- 
2.43.0


From 6dd61acc2101c5dda3013e16463bb4f5f49d857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 08/29] fix: ToASM renders one-byte data pushes as data, not as
 opcodes

---
 script/OpPushdata.go | 29 +++++++++++++++++++++--------
 script/Script.go     |  6 +++---
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index e40d6cd..3cbf24e 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -82,61 +82,74 @@ func DecodeStringParts(s string) ([][]byte, error) {
 // returning an array of opcode parts (which could be opcodes or data
 // pushed to the stack).
 func DecodeParts(b []byte) ([][]byte, error) {
+	r, _, err := decodeParts(b)
+	return r, err
+}
+
+// decodeParts is DecodeParts which also returns, for each part, whether it is
+// data pushed to the stack (true) or an opcode (false).
+func decodeParts(b []byte) ([][]byte, []bool, error) {
 	var r [][]byte
+	var push []bool
 	for len(b) > 0 {
 		// Handle OP codes
 		switch b[0] {
 		case OpPUSHDATA1:
 			if len(b) < 2 {
-				return r, errors.New("Not enough data")
+				return r, push, errors.New("Not enough data")
 			}
 			l := uint64(b[1])
 			if len(b) < int(2+l) {
-				return r, errors.New("Not enough data")
+				return r, push, errors.New("Not enough data")
 			}
 			part := b[2 : 2+l]
 			r = append(r, part)
+			push = append(push, true)
 			b = b[2+l:]
 
 		case OpPUSHDATA2:
 			if len(b) < 3 {
-				return r, errors.New("Not enough data")
+				return r, push, errors.New("Not enough data")
 			}
 			l := uint64(binary.LittleEndian.Uint16(b[1:]))
 			if len(b) < int(3+l) {
-				return r, errors.New("Not enough data")
+				return r, push, errors.New("Not enough data")
 			}
 			part := b[3 : 3+l]
 			r = append(r, part)
+			push = append(push, true)
 			b = b[3+l:]
 
 		case OpPUSHDATA4:
 			if len(b) < 5 {
-				return r, errors.New("Not enough data")
+				return r, push, errors.New("Not enough data")
 			}
 			l := uint64(binary.LittleEndian.Uint32(b[1:]))
 			if len(b) < int(5+l) {
-				return r, errors.New("Not enough data")
+				return r, push, errors.New("Not enough data")
 			}
 			part := b[5 : 5+l]
 			r = append(r, part)
+			push = append(push, true)
 			b = b[5+l:]
 
 		default:
 			if b[0] >= 0x01 && b[0] <= 0x4e {
 				l := uint8(b[0])
 				if len(b) < int(1+l) {
-					return r, errors.New("Not enough data")
+					return r, push, errors.New("Not enough data")
 				}
 				part := b[1 : l+1]
 				r = append(r, part)
+				push = append(push, true)
 				b = b[1+l:]
 			} else {
 				r = append(r, []byte{b[0]})
+				push = append(push, false)
 				b = b[1:]
 			}
 		}
 	}
 
-	return r, nil
+	return r, push, nil
 }
diff --git a/script/Script.go b/script/Script.go
index 3e21690..9d8a998 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -185,14 +185,14 @@ func (s *Script) ToString() string { // TODO: change to HexString?
 
 // ToASM returns the string ASM opcodes of the script.
 func (s *Script) ToASM() (string, error) {
-	parts, err := DecodeParts(*s)
+	parts, push, err := decodeParts(*s)
 	if err != nil {
 		return "", err
 	}
 
 	var asmScript string
-	for _, p := range parts {
-		if len(p) == 1 {
+	for i, p := range parts {
+		if !push[i] {
 			asmScript = asmScript + " " + opCodeValues[p[0]]
 		} else {
 			asmScript = asmScript + " " + hex.EncodeToString(p)
-- 
2.43.0


From 735b31340d1d1c748501ce5c2a61516dc65392c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 09/29] fix: NewFromASM of empty text is the empty script, not
 a pushed empty item

---
 script/Script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/Script.go b/script/Script.go
index 9d8a998..44c2b0f 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -30,7 +30,7 @@ func NewFromBytes(b []byte) *Script {
 
 // NewFromASM creates a new script from a BitCoin ASM formatted string.
 func NewFromASM(str string) (*Script, error) {
-	sections := strings.Split(str, " ")
+	sections := strings.Fields(str)
 
 	s := &Script{}
 
-- 
2.43.0


From 9bcfd768ade74db35a8f7053d0f799e4977f08c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 10/29] fix: IsP2PK and IsMultisigOut do not take pushed data
 for opcodes or panic on empty pushes

---
 script/Script.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index 44c2b0f..8984398 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -215,13 +215,15 @@ func (s *Script) IsP2PKH() bool {
 
 // IsP2PK returns true if this is a public key output script.
 func (s *Script) IsP2PK() bool {
-	parts, err := DecodeParts(*s)
+	parts, push, err := decodeParts(*s)
 	if err != nil {
 		return false
 	}
 
 	if len(parts) == 2 &&
 		len(parts[0]) > 0 &&
+		push[0] && !push[1] &&
+		int((*s)[0]) == len(parts[0]) && // pushed directly
 		parts[1][0] == OpCHECKSIG {
 
 		pubkey := parts[0]
@@ -257,7 +259,7 @@ func (s *Script) IsData() bool {
 
 // IsMultisigOut returns true if this is a multisig output script.
 func (s *Script) IsMultisigOut() bool {
-	parts, err := DecodeParts(*s)
+	parts, push, err := decodeParts(*s)
 	if err != nil {
 		return false
 	}
@@ -266,6 +268,11 @@ func (s *Script) IsMultisigOut() bool {
 		return false
 	}
 
+	// only opcodes can be small ints or CHECKMULTISIG, pushed data can not
+	if push[0] || push[len(parts)-2] || push[len(parts)-1] {
+		return false
+	}
+
 	if isSmallIntOp(parts[0][0]) == false {
 		return false
 	}
-- 
2.43.0


From 4d2ca1a3f16f749a9af757eb9bfebeffce0e4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 11/29] fix: NewP2PKHFromPubKeyHashStr rejects hashes that are
 not 20 bytes

---
 script/Script.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index 8984398..b4ddde7 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -85,6 +85,10 @@ func NewP2PKHFromPubKeyHashStr(pubKeyHash string) (*Script, error) {
 		return nil, err
 	}
 
+	if len(hash) != 20 {
+		return nil, fmt.Errorf("invalid public key hash length %d", len(hash))
+	}
+
 	b := []byte{
 		OpDUP,
 		OpHASH160,
-- 
2.43.0


From 712ed036edd426fd397a5322ee33d15596d05435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 12/29] fix: address.NewFromString verifies the checksum

---
 script/address/Address.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/script/address/Address.go b/script/address/Address.go
index 382544e..fc85813 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -38,6 +38,12 @@ func addressToPubKeyHashStr(address string) (string, error) {
 		return "", fmt.Errorf("invalid address length for '%s'", address)
 	}
 
+	var cksum [4]byte
+	copy(cksum[:], decoded[len(decoded)-4:])
+	if (decoded[0] == 0x00 || decoded[0] == 0x6f) && cksum != checksum(decoded[:len(decoded)-4]) {
+		return "", fmt.Errorf("checksum failed for '%s'", address)
+	}
+
 	switch decoded[0] {
 	case 0x00: // Pubkey hash (P2PKH address)
 		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
-- 
2.43.0


From 8796e23cbb890fe549b979174df06421f71b7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 13/29] fix: ValidateAddress checks the number of leading 1s

---
 script/address/AddressValidation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/script/address/AddressValidation.go b/script/address/AddressValidation.go
index 6eafa36..74fa1fa 100644
--- a/script/address/AddressValidation.go
+++ b/script/address/AddressValidation.go
@@ -6,6 +6,8 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/bitcoinsv/bsvutil/base58"
+
 	"github.com/libsv/libsv/crypto"
 )
 
@@ -65,6 +67,11 @@ func ValidateAddress(address string) (bool, error) {
 }
 
 func validA58(a58 []byte) (bool, error) {
+	// set58 ignores how many leading zeros (1s) there are, they count as bytes
+	if len(base58.Decode(string(a58))) != 25 {
+		return false, errors.New("not 25 bytes")
+	}
+
 	var a a25
 	if err := a.set58(a58); err != nil {
 		return false, err
-- 
2.43.0


From 04f6a6c6ccb603f3a950da0b10e83c0fcf773bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 14/29] fix: BIP276 decoding accepts what encoding produces and
 returns an error for other text

---
 script/address/BIP276.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/script/address/BIP276.go b/script/address/BIP276.go
index 0f1a24b..3e95cd9 100644
--- a/script/address/BIP276.go
+++ b/script/address/BIP276.go
@@ -34,7 +34,7 @@ const NetworkTestnet = 2
 // EncodeBIP276 is used to encode specific (non-standard) scripts in BIP276 format.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func EncodeBIP276(prefix string, network int, version int, data []byte) string {
-	if version == 0 || version > 255 || network == 0 || network > 255 {
+	if version <= 0 || version > 255 || network <= 0 || network > 255 {
 		return "ERROR"
 	}
 
@@ -53,19 +53,28 @@ func createBIP276(prefix string, network int, version int, data []byte) (string,
 // DecodeBIP276 is used to decode BIP276 formatted data into specific (non-standard) scripts.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func DecodeBIP276(text string) (prefix string, version int, network int, data []byte, err error) {
-	validBIP276 := regexp.MustCompile(`^(.+?):(\d{2})(\d{2})([0-9A-Fa-f]+)([0-9A-Fa-f]{8})$`)
+	validBIP276 := regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)
 
 	res := validBIP276.FindStringSubmatch(text)
 
+	if res == nil {
+		err = errors.New("Invalid BIP276 format")
+		return
+	}
+
 	prefix = res[1]
 
-	if version, err = strconv.Atoi(res[2]); err != nil {
+	n, err := strconv.ParseInt(res[2], 16, 0)
+	if err != nil {
 		return
 	}
+	network = int(n)
 
-	if network, err = strconv.Atoi(res[3]); err != nil {
+	v, err := strconv.ParseInt(res[3], 16, 0)
+	if err != nil {
 		return
 	}
+	version = int(v)
 
 	if data, err = hex.DecodeString(res[4]); err != nil {
 		return
-- 
2.43.0


From 94af1ddb511d4bc6db4b7bb81d7ec5e15b986ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 15/29] fix: a bad input index is an error in
 GetInputSignatureHash and ApplyUnlockingScript

---
 transaction/SignatureHash.go | 5 +++++
 transaction/Transaction.go   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/transaction/SignatureHash.go b/transaction/SignatureHash.go
index 1be5d06..08dab83 100644
--- a/transaction/SignatureHash.go
+++ b/transaction/SignatureHash.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	"github.com/libsv/libsv/crypto"
 	"github.com/libsv/libsv/transaction/signature/sighash"
@@ -15,6 +16,10 @@ import (
 // GetInputSignatureHash serializes the transaction based on the input index and the SIGHASH flag
 // see https://github.com/bitcoin-sv/bitcoin-sv/blob/master/doc/abc/replay-protected-sighash.md#digest-algorithm
 func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sighash.Flag) ([]byte, error) {
+	if uint64(inputNumber) >= uint64(len(bt.Inputs)) {
+		return nil, fmt.Errorf("no input at index %d", inputNumber)
+	}
+
 	in := bt.Inputs[inputNumber]
 
 	if in.PreviousTxID == "" {
diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 7059576..85de1b1 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -294,7 +294,7 @@ func (bt *Transaction) SignAuto(s Signer) error {
 // ApplyUnlockingScript applies a script to the transaction at a specific index in
 // unlocking script field.
 func (bt *Transaction) ApplyUnlockingScript(index uint32, s *script.Script) error {
-	if bt.Inputs[index] != nil {
+	if uint64(index) < uint64(len(bt.Inputs)) && bt.Inputs[index] != nil {
 		bt.Inputs[index].UnlockingScript = s
 		return nil
 	}
-- 
2.43.0


From 4623e20abf8cbd98d471ff8db3e766e70390345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 16/29] fix: GetInputSignatureHash reports malformed previous
 transaction ids

---
 transaction/SignatureHash.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/transaction/SignatureHash.go b/transaction/SignatureHash.go
index 08dab83..e836141 100644
--- a/transaction/SignatureHash.go
+++ b/transaction/SignatureHash.go
@@ -35,7 +35,10 @@ func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sig
 
 	if sigHashFlag&sighash.AnyOneCanPay == 0 {
 		// This will be executed in the usual BSV case (where sigHashType = SighashAllForkID)
-		hashPrevouts = bt.getPrevoutHash()
+		var err error
+		if hashPrevouts, err = bt.getPrevoutHash(); err != nil {
+			return nil, err
+		}
 	}
 
 	if sigHashFlag&sighash.AnyOneCanPay == 0 &&
@@ -65,7 +68,10 @@ func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sig
 	buf = append(buf, hashSequence...)
 
 	//  outpoint (32-byte hash + 4-byte little endian)
-	txid, _ := hex.DecodeString(in.PreviousTxID[:])
+	txid, err := decodeTxID(in.PreviousTxID)
+	if err != nil {
+		return nil, err
+	}
 	buf = append(buf, utils.ReverseBytes(txid)...)
 	oi := make([]byte, 4)
 	binary.LittleEndian.PutUint32(oi, in.PreviousTxOutIndex)
@@ -103,18 +109,32 @@ func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sig
 	return utils.ReverseBytes(ret), nil
 }
 
-func (bt *Transaction) getPrevoutHash() []byte {
+func decodeTxID(s string) ([]byte, error) {
+	txid, err := hex.DecodeString(s)
+	if err != nil {
+		return nil, err
+	}
+	if len(txid) != 32 {
+		return nil, fmt.Errorf("'PreviousTxID' must be 32 bytes, got %d", len(txid))
+	}
+	return txid, nil
+}
+
+func (bt *Transaction) getPrevoutHash() ([]byte, error) {
 	buf := make([]byte, 0)
 
 	for _, in := range bt.Inputs {
-		txid, _ := hex.DecodeString(in.PreviousTxID[:])
+		txid, err := decodeTxID(in.PreviousTxID)
+		if err != nil {
+			return nil, err
+		}
 		buf = append(buf, utils.ReverseBytes(txid)...)
 		oi := make([]byte, 4)
 		binary.LittleEndian.PutUint32(oi, in.PreviousTxOutIndex)
 		buf = append(buf, oi...)
 	}
 
-	return crypto.Sha256d(buf)
+	return crypto.Sha256d(buf), nil
 }
 
 func (bt *Transaction) getSequenceHash() []byte {
-- 
2.43.0


From 5b85383ba8d24e7ee5116931fed8f2b30554a385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 17/29] fix: Sign and SignAuto report failures to build or sign
 an input

---
 transaction/signature/InternalSigner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transaction/signature/InternalSigner.go b/transaction/signature/InternalSigner.go
index a83e38a..96d3b46 100644
--- a/transaction/signature/InternalSigner.go
+++ b/transaction/signature/InternalSigner.go
@@ -37,6 +37,9 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 	}
 
 	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), is.SigHashFlag)
+	if err != nil {
+		return nil, err
+	}
 
 	err = unsignedTx.ApplyUnlockingScript(index, s)
 	if err != nil {
@@ -63,7 +66,9 @@ func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transa
 
 		// check if able to sign (public key matches pubKeyHash in script)
 		if pubKeyHashStr == pubKeyHashStrFromPriv {
-			is.Sign(uint32(i), unsignedTx)
+			if _, err := is.Sign(uint32(i), unsignedTx); err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From d88166bf0f5f045481484ea6a407ef8f0396f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 18/29] fix: InternalSigner does not modify itself while
 signing

---
 transaction/signature/InternalSigner.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/transaction/signature/InternalSigner.go b/transaction/signature/InternalSigner.go
index 96d3b46..a61ef91 100644
--- a/transaction/signature/InternalSigner.go
+++ b/transaction/signature/InternalSigner.go
@@ -22,11 +22,12 @@ type InternalSigner struct {
 // Sign a transaction at a given input index using the PrivateKey passed in through the
 // InternalSigner struct.
 func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
-	if is.SigHashFlag == 0 {
-		is.SigHashFlag = sighash.AllForkID
+	flag := is.SigHashFlag
+	if flag == 0 {
+		flag = sighash.AllForkID
 	}
 
-	sh, err := unsignedTx.GetInputSignatureHash(index, is.SigHashFlag)
+	sh, err := unsignedTx.GetInputSignatureHash(index, flag)
 	if err != nil {
 		return nil, err
 	}
@@ -36,7 +37,7 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 		return nil, err
 	}
 
-	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), is.SigHashFlag)
+	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), flag)
 	if err != nil {
 		return nil, err
 	}
@@ -53,10 +54,6 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 // signs the P2PKH inputs that it is able to sign using the specific
 // PrivateKey passed in through the InternalSigner struct.
 func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transaction.Transaction, error) {
-	if is.SigHashFlag == 0 {
-		is.SigHashFlag = sighash.AllForkID
-	}
-
 	for i, in := range unsignedTx.Inputs {
 
 		pubKeyHash, _ := in.PreviousTxScript.GetPublicKeyHash() // doesn't matter if returns error (not p2pkh)
-- 
2.43.0


From d71b28f642ab4c286ed678d538798169f09a2870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 19/29] fix: ToBytesWithClearedInputs keeps the outpoint and
 sequence of the signed input

---
 transaction/Transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 85de1b1..d840037 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -245,8 +245,11 @@ func (bt *Transaction) toBytesHelper(index int, scriptPubKey []byte) []byte {
 	for i, in := range bt.GetInputs() {
 		s := in.ToBytes(scriptPubKey != nil)
 		if i == index && scriptPubKey != nil {
+			// s is the outpoint, an empty script (one zero byte) and the sequence
+			h = append(h, s[:len(s)-5]...)
 			h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
 			h = append(h, scriptPubKey...)
+			h = append(h, s[len(s)-4:]...)
 		} else {
 			h = append(h, s...)
 		}
-- 
2.43.0


From 7c1eb62aaaffcffa5e5aadf9d7c77f45647bc5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 20/29] fix: Decrypt does not overwrite the caller's ciphertext

---
 crypto/Encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/Encryption.go b/crypto/Encryption.go
index 11b1049..7c04c13 100644
--- a/crypto/Encryption.go
+++ b/crypto/Encryption.go
@@ -29,8 +29,8 @@ func Decrypt(ciph cipher.Block, ciphertext []byte) ([]byte, error) {
 	}
 	iv := ciphertext[:aes.BlockSize]
 	cfb := cipher.NewCFBDecrypter(ciph, iv)
-	text := ciphertext[aes.BlockSize:]
-	cfb.XORKeyStream(text, text)
+	text := make([]byte, len(ciphertext)-aes.BlockSize)
+	cfb.XORKeyStream(text, ciphertext[aes.BlockSize:])
 	data, err := base64.StdEncoding.DecodeString(string(text))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2c1d19ac27b529fd8e0a6fd290ce24989f7dc6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 21/29] fix: BuildMerkleRootFromCoinbase does not write behind
 the caller's coinbase hash

---
 block/BuildMerkleRootFromCoinbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block/BuildMerkleRootFromCoinbase.go b/block/BuildMerkleRootFromCoinbase.go
index 6194581..731b503 100644
--- a/block/BuildMerkleRootFromCoinbase.go
+++ b/block/BuildMerkleRootFromCoinbase.go
@@ -13,7 +13,8 @@ func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) [
 
 	for i := 0; i < len(merkleBranches); i++ {
 		branch, _ := hex.DecodeString(merkleBranches[i])
-		concat := append(acc, branch...)
+		concat := append([]byte{}, acc...) // never append to the caller's slice
+		concat = append(concat, branch...)
 		hash := crypto.Sha256d(concat)
 		acc = hash[:]
 	}
-- 
2.43.0


From d11a8769bbb3cc55cd722ee6aa0149f63ff69455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 22/29] fix: target expansion reports bits that are not 4 bytes
 or do not fit instead of panicking

---
 block/Difficulty.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 41f5137..2f012f2 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -3,6 +3,7 @@ package block
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"math"
 	"math/big"
@@ -44,6 +45,9 @@ func ExpandTargetFrom(bits string) (string, error) {
 
 	dst := make([]byte, 32)
 	b := bn.Bytes()
+	if bn.Sign() < 0 || len(b) > len(dst) {
+		return "", fmt.Errorf("target of bits %s does not fit in 32 bytes", bits)
+	}
 
 	copy(dst[32-len(b):], b)
 	return hex.EncodeToString(dst), nil
@@ -55,6 +59,9 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(binaryBits) != 4 {
+		return nil, fmt.Errorf("bits must be 4 bytes, got %d", len(binaryBits))
+	}
 	compact := binary.BigEndian.Uint32(binaryBits)
 
 	// Extract the mantissa, sign bit, and exponent.
-- 
2.43.0


From 72397d077915b1cabaa0f0932d5fcce7ad00bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 23/29] fix: DifficultyFromBits uses the same compact decoding
 as the target and reports bad bits

---
 block/Difficulty.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 2f012f2..269df0c 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -104,16 +104,11 @@ func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float
 
 // DifficultyFromBits returns the mining difficulty from the nBits field in the block header.
 func DifficultyFromBits(bits string) (float64, error) {
-	b, _ := hex.DecodeString(bits)
-	ib := binary.BigEndian.Uint32(b)
-	return targetToDifficulty(toCompactSize(ib))
-}
-
-func toCompactSize(bits uint32) *big.Int {
-	t := big.NewInt(int64(bits % 0x01000000))
-	t.Mul(t, big.NewInt(2).Exp(big.NewInt(2), big.NewInt(8*(int64(bits/0x01000000)-3)), nil))
-
-	return t
+	target, err := ExpandTargetFromAsInt(bits)
+	if err != nil {
+		return 0, err
+	}
+	return targetToDifficulty(target)
 }
 
 func targetToDifficulty(target *big.Int) (float64, error) {
-- 
2.43.0


From c6e25f6bdbdf1c66f96721ca144644d9a0d3579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 24/29] fix: DifficultyToHashrate does not panic on an empty
 coin

---
 block/Difficulty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 269df0c..4767732 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -95,7 +95,7 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 // and computes the estimated hashrate on that specific coin (or chain).
 func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float64 {
 	genesis := genesisDiff
-	if coin[0] == 'R' {
+	if len(coin) > 0 && coin[0] == 'R' {
 		genesis = regDiff
 	}
 
-- 
2.43.0


From b1c7f2423442e70c5779938adabfc7132d117f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 25/29] fix: Decode32Byte reports hex that is not 32 bytes
 instead of panicking

---
 utils/ByteManipulation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/ByteManipulation.go b/utils/ByteManipulation.go
index a27fba2..616e686 100644
--- a/utils/ByteManipulation.go
+++ b/utils/ByteManipulation.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"sort"
 )
@@ -97,6 +98,9 @@ func Decode32Byte(hexStr string) ([32]byte, error) {
 		return b32, err
 	}
 
+	if len(b) != 32 {
+		return b32, fmt.Errorf("expected 32 bytes, got %d", len(b))
+	}
 	copy(b32[:], b[0:32])
 
 	return b32, nil
-- 
2.43.0


From e2656e6f141ae792cfe516e5fa7cf5b15bac583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 26/29] fix: NewRedeemScriptFromElectrum checks the parts it
 indexes

---
 script/RedeemScript.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 3af2278..945290d 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -2,6 +2,7 @@ package script
 
 import (
 	"encoding/binary"
+	"encoding/hex"
 	"errors"
 
 	"github.com/libsv/libsv/crypto"
@@ -38,15 +39,24 @@ func NewRedeemScript(signaturesRequired int) (*RedeemScript, error) {
 
 // NewRedeemScriptFromElectrum  TODO:
 func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
-	parts, err := DecodeStringParts(script)
+	b, err := hex.DecodeString(script)
 	if err != nil {
 		return nil, err
 	}
 
-	if len(parts) == 0 {
+	parts, push, err := decodeParts(b)
+	if err != nil {
+		return nil, err
+	}
+
+	if len(parts) < 3 {
 		return nil, errors.New("There should be 5 parts in this redeemScript")
 	}
 
+	if push[0] || push[len(parts)-2] || push[len(parts)-1] {
+		return nil, errors.New("Script must start with an opcode and end with two opcodes")
+	}
+
 	signaturesRequired := int(parts[0][0] - OpBASE)
 	if signaturesRequired < 2 {
 		return nil, errors.New("Must have 2 or more required signatures for multisig")
@@ -57,6 +67,9 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 	}
 
 	signatureCount := int(parts[len(parts)-2][0] - OpBASE)
+	if signatureCount < 1 || signatureCount > 16 {
+		return nil, errors.New("Number of public keys must be between 1 and 16")
+	}
 
 	if parts[len(parts)-1][0] != OpCHECKMULTISIG {
 		return nil, errors.New("Script must end with OP_CHECKMULTISIG")
@@ -67,11 +80,14 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 	}
 
 	for _, pubkey := range parts[1 : len(parts)-2] {
-		if pubkey[0] != 0xff {
+		if len(pubkey) == 0 || pubkey[0] != 0xff {
 			return nil, errors.New("All Electrum pubkeys should start with 0xff")
 		}
 
 		pubkey = pubkey[1:]
+		if len(pubkey) != 78+4 {
+			return nil, errors.New("Electrum pubkeys should have a key of 78 bytes and 2 derivation path items")
+		}
 		xpub := address.Base58EncodeMissingChecksum(pubkey[0:78])
 
 		derivationPath := pubkey[78:]
-- 
2.43.0


From 9b58d63feb6dc48f2ff4d4c8e1aaeed47ced12e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 27/29] fix: MerkleRootFromBranches rejects negative indexes

---
 block/GetMerkleBranches.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/block/GetMerkleBranches.go b/block/GetMerkleBranches.go
index a92da53..8ac6316 100644
--- a/block/GetMerkleBranches.go
+++ b/block/GetMerkleBranches.go
@@ -61,6 +61,10 @@ func GetMerkleBranches(template []string) []string {
 // MerkleRootFromBranches returns a Merkle root given a transaction hash (txid), the index in
 // which it is positioned in the Merkle tree, and the branches needed along the way (Merkle path).
 func MerkleRootFromBranches(txHash string, txIndex int, branches []string) (string, error) {
+	if txIndex < 0 {
+		return "", fmt.Errorf("negative index %d", txIndex)
+	}
+
 	hash, err := hex.DecodeString(txHash)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 46a3b097a862ed6ddf9157a71620e9d41418a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 28/29] fix: AddPublicKey refuses a seventeenth key, which the
 redeem script cannot express

---
 script/RedeemScript.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 945290d..006631d 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -139,6 +139,10 @@ func (rs *RedeemScript) AddPublicKey(pkey string, derivationPath []uint32) error
 		return errors.New("We only support derivation paths with exactly 2 levels") // TODO: why only 2?
 	}
 
+	if len(rs.PublicKeys) >= 16 {
+		return errors.New("More than 16 public keys is not supported")
+	}
+
 	pk, err := hdkeychain.NewKeyFromString(pkey)
 	if err != nil {
 		return err
-- 
2.43.0


From ad90b47f113d24d6f2ea9fa723a4fdcbce4223d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 29/29] fix: Input.String handles inputs without an unlocking
 script

---
 transaction/input/Input.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index a8ff8bc..3a000b9 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -94,12 +94,16 @@ func NewFromUTXO(prevTxID string, prevTxIndex uint32, prevTxSats uint64, prevTxS
 }
 
 func (i *Input) String() string {
+	us := i.UnlockingScript
+	if us == nil {
+		us = &script.Script{} // not signed yet
+	}
 	return fmt.Sprintf(`prevTxHash:   %x
 prevOutIndex: %d
 scriptLen:    %d
 script:       %x
 sequence:     %x
-`, i.PreviousTxID, i.PreviousTxOutIndex, len(*i.UnlockingScript), i.UnlockingScript, i.SequenceNumber)
+`, i.PreviousTxID, i.PreviousTxOutIndex, len(*us), us, i.SequenceNumber)
 }
 
 // ToBytes encodes the Input into a hex byte array.
-- 
2.43.0

