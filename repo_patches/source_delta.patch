From 8af0e0595026669dad0b2c5a2e0bbb65ae61ddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 01/22] fix: DecodeParts length checks overflow for
 OP_PUSHDATA2 and OP_PUSHDATA4

The declared length was added to the header size in uint16/uint32, so a length near the maximum wrapped around,
passed the check and made the slice expression panic.
---
 script/OpPushdata.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index f742f92..0d54e62 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -102,8 +102,8 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 3 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint16(b[1:])
-			if len(b) < int(3+l) {
+			l := uint64(binary.LittleEndian.Uint16(b[1:]))
+			if uint64(len(b)) < 3+l {
 				return r, errors.New("Not enough data")
 			}
 			part := b[3 : 3+l]
@@ -114,8 +114,8 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < 5 {
 				return r, errors.New("Not enough data")
 			}
-			l := binary.LittleEndian.Uint32(b[1:])
-			if len(b) < int(5+l) {
+			l := uint64(binary.LittleEndian.Uint32(b[1:]))
+			if uint64(len(b)) < 5+l {
 				return r, errors.New("Not enough data")
 			}
 			part := b[5 : 5+l]
-- 
2.43.0


From 4b3e3134acfd0ef937afd5810291e1626d385f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 02/22] fix: IsData indexes past the end of scripts shorter
 than two bytes

---
 script/Script.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index 9504ad5..d5bada4 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -251,8 +251,8 @@ func (s *Script) IsP2SH() bool {
 func (s *Script) IsData() bool {
 	b := []byte(*s)
 
-	return b[0] == 0x6a ||
-		b[0] == 0x00 && b[1] == 0x6a
+	return (len(b) > 0 && b[0] == 0x6a) ||
+		(len(b) > 1 && b[0] == 0x00 && b[1] == 0x6a)
 }
 
 // IsMultisigOut returns true if this is a multisig output script.
-- 
2.43.0


From 263f8508595fec270a992cf1b450a4353dad0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 03/22] fix: IsP2PK and IsMultisigOut take pushed data for
 opcodes and panic on empty pushes

---
 script/OpPushdata.go | 28 ++++++++++++++++++++++++++++
 script/Script.go     | 12 +++++++-----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index 0d54e62..cec67d0 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -140,3 +140,31 @@ func DecodeParts(b []byte) ([][]byte, error) {
 
 	return r, nil
 }
+
+// partOpcodes returns the opcode that introduces each of the parts which
+// DecodeParts returned for the script b. Parts alone do not tell an opcode
+// from a pushed byte with the same value.
+func partOpcodes(b []byte, parts [][]byte) []byte {
+	ops := make([]byte, len(parts))
+	for i, part := range parts {
+		ops[i] = b[0]
+		switch {
+		case b[0] == OpPUSHDATA1:
+			b = b[2+len(part):]
+		case b[0] == OpPUSHDATA2:
+			b = b[3+len(part):]
+		case b[0] == OpPUSHDATA4:
+			b = b[5+len(part):]
+		case isPushOp(b[0]):
+			b = b[1+len(part):]
+		default:
+			b = b[1:]
+		}
+	}
+	return ops
+}
+
+// isPushOp returns true if the opcode pushes the data that follows it.
+func isPushOp(opcode byte) bool {
+	return opcode >= 0x01 && opcode <= OpPUSHDATA4
+}
diff --git a/script/Script.go b/script/Script.go
index d5bada4..852b4fb 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -222,7 +222,7 @@ func (s *Script) IsP2PK() bool {
 
 	if len(parts) == 2 &&
 		len(parts[0]) > 0 &&
-		parts[1][0] == OpCHECKSIG {
+		partOpcodes(*s, parts)[1] == OpCHECKSIG {
 
 		pubkey := parts[0]
 		version := pubkey[0]
@@ -266,18 +266,20 @@ func (s *Script) IsMultisigOut() bool {
 		return false
 	}
 
-	if isSmallIntOp(parts[0][0]) == false {
+	ops := partOpcodes(*s, parts)
+
+	if isSmallIntOp(ops[0]) == false {
 		return false
 	}
 
 	for i := 1; i < len(parts)-2; i++ {
-		if len(parts[i]) < 1 {
+		if len(parts[i]) < 1 || !isPushOp(ops[i]) {
 			return false
 		}
 	}
 
-	return isSmallIntOp(parts[len(parts)-2][0]) &&
-		parts[len(parts)-1][0] == OpCHECKMULTISIG
+	return isSmallIntOp(ops[len(parts)-2]) &&
+		ops[len(parts)-1] == OpCHECKMULTISIG
 }
 
 func isSmallIntOp(opcode byte) bool {
-- 
2.43.0


From cd7f8d2507ba4ded115b964b72fcf8d4fa9b850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 04/22] fix: GetPublicKeyHash panics on short scripts and
 accepts scripts that are not P2PKH

---
 script/Script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/Script.go b/script/Script.go
index 852b4fb..9b4c8a2 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -292,7 +292,7 @@ func (s *Script) GetPublicKeyHash() ([]byte, error) {
 		return nil, fmt.Errorf("Script is empty")
 	}
 
-	if (*s)[0] != 0x76 || (*s)[1] != 0xa9 {
+	if !s.IsP2PKH() {
 		return nil, fmt.Errorf("Not a P2PKH")
 	}
 
-- 
2.43.0


From cb490443b1bbf4319078e2b6127ac34352c3a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 05/22] fix: P2PKH and hash puzzle constructors accept hashes
 that are not 20 bytes

---
 script/Script.go             | 3 +++
 transaction/output/Output.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/script/Script.go b/script/Script.go
index 9b4c8a2..fa97be0 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -84,6 +84,9 @@ func NewP2PKHFromPubKeyHashStr(pubKeyHash string) (*Script, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(hash) != 20 {
+		return nil, fmt.Errorf("public key hash must be 20 bytes, got %d", len(hash))
+	}
 
 	b := []byte{
 		OpDUP,
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index c41522b..e5de99e 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -88,6 +88,9 @@ func NewHashPuzzle(secret string, publicKeyHash string, satoshis uint64) (*Outpu
 	if err != nil {
 		return nil, err
 	}
+	if len(publicKeyHashBytes) != 20 {
+		return nil, fmt.Errorf("public key hash must be 20 bytes, got %d", len(publicKeyHashBytes))
+	}
 
 	s := &script.Script{}
 
-- 
2.43.0


From 7e583fdf0b14932fedb6e75d7b53b585f452638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 06/22] fix: ASM conversion turns one-byte pushes into opcodes
 and the empty script into OP_0

---
 script/Script.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/script/Script.go b/script/Script.go
index fa97be0..ae80d4b 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -33,6 +33,9 @@ func NewFromASM(str string) (*Script, error) {
 	sections := strings.Split(str, " ")
 
 	s := &Script{}
+	if str == "" { // the ASM form of the empty script
+		return s, nil
+	}
 
 	for _, section := range sections {
 		if val, ok := opCodeStrings[section]; ok {
@@ -194,8 +197,9 @@ func (s *Script) ToASM() (string, error) {
 	}
 
 	var asmScript string
-	for _, p := range parts {
-		if len(p) == 1 {
+	ops := partOpcodes(*s, parts)
+	for i, p := range parts {
+		if !isPushOp(ops[i]) {
 			asmScript = asmScript + " " + opCodeValues[p[0]]
 		} else {
 			asmScript = asmScript + " " + hex.EncodeToString(p)
-- 
2.43.0


From 498e97d3d11a6be8e45b5175b59af66d74a884de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 07/22] fix: parsing truncated or oversized transactions,
 inputs, outputs and VarInts panics

---
 transaction/Transaction.go   |  6 ++++++
 transaction/input/Input.go   |  9 ++++++---
 transaction/output/Output.go |  9 ++++++---
 utils/VarInt.go              | 14 ++++++++++++++
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index b7aa9f8..0453c67 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -76,6 +76,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 	offset += 4
 
 	inputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("too short to hold the number of inputs")
+	}
 	offset += size
 
 	// create inputs
@@ -92,6 +95,9 @@ func NewFromBytes(b []byte) (*Transaction, error) {
 
 	// create outputs
 	outputCount, size := utils.DecodeVarInt(b[offset:])
+	if size == 0 {
+		return nil, fmt.Errorf("too short to hold the number of outputs")
+	}
 	offset += size
 	for i = 0; i < outputCount; i++ {
 		o, size, err := output.NewFromBytes(b[offset:])
diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index 170ac29..b07f117 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -56,14 +56,17 @@ func NewFromBytes(bytes []byte) (*Input, int, error) {
 
 	offset := 36
 	l, size := utils.DecodeVarInt(bytes[offset:])
+	if size == 0 {
+		return nil, 0, fmt.Errorf("input length too short to hold the script length")
+	}
 	offset += size
 
-	totalLength := offset + int(l) + 4 // 4 bytes for nSeq
-
-	if len(bytes) < totalLength {
+	if remaining := uint64(len(bytes) - offset); remaining < 4 || remaining-4 < l {
 		return nil, 0, fmt.Errorf("input length too short < 36 + script + 4")
 	}
 
+	totalLength := offset + int(l) + 4 // 4 bytes for nSeq
+
 	i.UnlockingScript = script.NewFromBytes(bytes[offset : offset+int(l)])
 
 	i.SequenceNumber = binary.LittleEndian.Uint32(bytes[offset+int(l):])
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index e5de99e..e2386fc 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -39,14 +39,17 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 
 	offset := 8
 	l, size := utils.DecodeVarInt(bytes[offset:])
+	if size == 0 {
+		return nil, 0, fmt.Errorf("output length too short to hold the script length")
+	}
 	offset += size
 
-	totalLength := offset + int(l)
-
-	if len(bytes) < totalLength {
+	if uint64(len(bytes)-offset) < l {
 		return nil, 0, fmt.Errorf("output length too short < 8 + script")
 	}
 
+	totalLength := offset + int(l)
+
 	s := script.Script(bytes[offset:totalLength])
 	o.LockingScript = &s
 
diff --git a/utils/VarInt.go b/utils/VarInt.go
index 796aefd..91e71ab 100644
--- a/utils/VarInt.go
+++ b/utils/VarInt.go
@@ -28,17 +28,31 @@ func VarInt(i uint64) []byte {
 // DecodeVarInt takes a byte array in VarInt format and returns the
 // decoded unsigned integer value of the length and it's size in bytes.
 // See http://learnmeabitcoin.com/glossary/varint
+// A size of 0 means that b does not hold a complete VarInt.
 func DecodeVarInt(b []byte) (result uint64, size int) {
+	if len(b) == 0 {
+		return 0, 0
+	}
+
 	switch b[0] {
 	case 0xff:
+		if len(b) < 9 {
+			return 0, 0
+		}
 		result = binary.LittleEndian.Uint64(b[1:9])
 		size = 9
 
 	case 0xfe:
+		if len(b) < 5 {
+			return 0, 0
+		}
 		result = uint64(binary.LittleEndian.Uint32(b[1:5]))
 		size = 5
 
 	case 0xfd:
+		if len(b) < 3 {
+			return 0, 0
+		}
 		result = uint64(binary.LittleEndian.Uint16(b[1:3]))
 		size = 3
 
-- 
2.43.0


From 73fae1f0550b14c25b095b7166bc6caeea2f57a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 08/22] fix: SignAuto and Sign pass over errors of the signing
 steps

---
 transaction/signature/InternalSigner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transaction/signature/InternalSigner.go b/transaction/signature/InternalSigner.go
index a83e38a..96d3b46 100644
--- a/transaction/signature/InternalSigner.go
+++ b/transaction/signature/InternalSigner.go
@@ -37,6 +37,9 @@ func (is *InternalSigner) Sign(index uint32, unsignedTx *transaction.Transaction
 	}
 
 	s, err := script.NewP2PKHUnlockingScript(is.PrivateKey.PubKey().SerializeCompressed(), sig.Serialize(), is.SigHashFlag)
+	if err != nil {
+		return nil, err
+	}
 
 	err = unsignedTx.ApplyUnlockingScript(index, s)
 	if err != nil {
@@ -63,7 +66,9 @@ func (is *InternalSigner) SignAuto(unsignedTx *transaction.Transaction) (*transa
 
 		// check if able to sign (public key matches pubKeyHash in script)
 		if pubKeyHashStr == pubKeyHashStrFromPriv {
-			is.Sign(uint32(i), unsignedTx)
+			if _, err := is.Sign(uint32(i), unsignedTx); err != nil {
+				return nil, err
+			}
 		}
 	}
 
-- 
2.43.0


From 2fef94ffa04615b064cfcc7f178e851b190a3da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:43 +0000
Subject: [PATCH 09/22] fix: address parsing accepts addresses whose checksum
 does not match

---
 script/address/Address.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/script/address/Address.go b/script/address/Address.go
index 382544e..cb7ae03 100644
--- a/script/address/Address.go
+++ b/script/address/Address.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 
@@ -40,10 +41,14 @@ func addressToPubKeyHashStr(address string) (string, error) {
 
 	switch decoded[0] {
 	case 0x00: // Pubkey hash (P2PKH address)
-		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
-
+		fallthrough
 	case 0x6f: // Testnet pubkey hash (P2PKH address)
-		return hex.EncodeToString(decoded[1 : len(decoded)-4]), nil
+		payload := decoded[:len(decoded)-4]
+		cksum := checksum(payload)
+		if !bytes.Equal(cksum[:], decoded[len(decoded)-4:]) {
+			return "", fmt.Errorf("invalid checksum for '%s'", address)
+		}
+		return hex.EncodeToString(payload[1:]), nil
 
 	case 0x05: // Script hash (P2SH address)
 		fallthrough
-- 
2.43.0


From 28f40552cca4e7ea0458822b99069ffaf998070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 10/22] fix: address validation ignores missing and extra
 leading ones

---
 script/address/AddressValidation.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/script/address/AddressValidation.go b/script/address/AddressValidation.go
index 6eafa36..69b6e3d 100644
--- a/script/address/AddressValidation.go
+++ b/script/address/AddressValidation.go
@@ -46,6 +46,15 @@ func (a *a25) set58(s []byte) error {
 			return errors.New("too long")
 		}
 	}
+
+	// Every leading zero byte is written as a '1' of its own, and no other '1' leads.
+	zeros := 0
+	for zeros < len(a) && a[zeros] == 0 {
+		zeros++
+	}
+	if len(s)-len(bytes.TrimLeft(s, "1")) != zeros {
+		return errors.New("wrong number of leading ones")
+	}
 	return nil
 }
 
-- 
2.43.0


From 070dacd85e8054bd06d1b039dbc79d3fbe2db125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 11/22] fix: BIP276 decoding panics on other text, swaps
 network and version and reads them as decimal

---
 script/address/BIP276.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/script/address/BIP276.go b/script/address/BIP276.go
index 0f1a24b..22d2523 100644
--- a/script/address/BIP276.go
+++ b/script/address/BIP276.go
@@ -34,7 +34,7 @@ const NetworkTestnet = 2
 // EncodeBIP276 is used to encode specific (non-standard) scripts in BIP276 format.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func EncodeBIP276(prefix string, network int, version int, data []byte) string {
-	if version == 0 || version > 255 || network == 0 || network > 255 {
+	if version <= 0 || version > 255 || network <= 0 || network > 255 {
 		return "ERROR"
 	}
 
@@ -53,17 +53,28 @@ func createBIP276(prefix string, network int, version int, data []byte) (string,
 // DecodeBIP276 is used to decode BIP276 formatted data into specific (non-standard) scripts.
 // See https://github.com/moneybutton/bips/blob/master/bip-0276.mediawiki
 func DecodeBIP276(text string) (prefix string, version int, network int, data []byte, err error) {
-	validBIP276 := regexp.MustCompile(`^(.+?):(\d{2})(\d{2})([0-9A-Fa-f]+)([0-9A-Fa-f]{8})$`)
+	validBIP276 := regexp.MustCompile(`^(.+?):([0-9A-Fa-f]{2})([0-9A-Fa-f]{2})([0-9A-Fa-f]*)([0-9A-Fa-f]{8})$`)
 
 	res := validBIP276.FindStringSubmatch(text)
+	if res == nil {
+		err = errors.New("Invalid BIP276 format")
+		return
+	}
 
 	prefix = res[1]
 
-	if version, err = strconv.Atoi(res[2]); err != nil {
+	var n, v uint64
+	if n, err = strconv.ParseUint(res[2], 16, 8); err != nil {
+		return
+	}
+
+	if v, err = strconv.ParseUint(res[3], 16, 8); err != nil {
 		return
 	}
 
-	if network, err = strconv.Atoi(res[3]); err != nil {
+	network, version = int(n), int(v)
+	if network == 0 || version == 0 {
+		err = errors.New("Invalid network or version")
 		return
 	}
 
-- 
2.43.0


From db8de8f44fa0ede4c2d091982c39d14056e2696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:37 +0000
Subject: [PATCH 12/22] fix: merkle root builders write into the coinbase hash
 buffer and accept negative positions

---
 block/BuildMerkleRootFromCoinbase.go | 2 +-
 block/GetMerkleBranches.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/block/BuildMerkleRootFromCoinbase.go b/block/BuildMerkleRootFromCoinbase.go
index 6194581..f9c98ad 100644
--- a/block/BuildMerkleRootFromCoinbase.go
+++ b/block/BuildMerkleRootFromCoinbase.go
@@ -9,7 +9,7 @@ import (
 // BuildMerkleRootFromCoinbase builds the merkle root of the block from the coinbase transaction hash (txid)
 // and the merkle branches needed to work up the merkle tree and returns the merkle root byte array.
 func BuildMerkleRootFromCoinbase(coinbaseHash []byte, merkleBranches []string) []byte {
-	acc := coinbaseHash
+	acc := append([]byte{}, coinbaseHash...) // a copy, so that appending to it leaves the argument alone
 
 	for i := 0; i < len(merkleBranches); i++ {
 		branch, _ := hex.DecodeString(merkleBranches[i])
diff --git a/block/GetMerkleBranches.go b/block/GetMerkleBranches.go
index a92da53..8892d2a 100644
--- a/block/GetMerkleBranches.go
+++ b/block/GetMerkleBranches.go
@@ -85,7 +85,7 @@ func MerkleRootFromBranches(txHash string, txIndex int, branches []string) (stri
 		txIndex >>= 1
 	}
 
-	if txIndex > 0 {
+	if txIndex != 0 {
 		return "", fmt.Errorf("index %d out of range for proof of length %d", txIndex, len(branches))
 	}
 
-- 
2.43.0


From eb845cb4bc6df0a907b6f1177135dcde4ed2c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 13/22] fix: target expansion panics on text of another length
 and on negative or too large targets

---
 block/Difficulty.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 41f5137..6fa3dd9 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -3,6 +3,7 @@ package block
 import (
 	"encoding/binary"
 	"encoding/hex"
+	"errors"
 	"log"
 	"math"
 	"math/big"
@@ -44,6 +45,9 @@ func ExpandTargetFrom(bits string) (string, error) {
 
 	dst := make([]byte, 32)
 	b := bn.Bytes()
+	if bn.Sign() < 0 || len(b) > len(dst) {
+		return "", errors.New("target is negative or does not fit 32 bytes")
+	}
 
 	copy(dst[32-len(b):], b)
 	return hex.EncodeToString(dst), nil
@@ -55,6 +59,9 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(binaryBits) != 4 {
+		return nil, errors.New("compact target must be 4 bytes")
+	}
 	compact := binary.BigEndian.Uint32(binaryBits)
 
 	// Extract the mantissa, sign bit, and exponent.
-- 
2.43.0


From 495814cc6bef2abd3c88195a65d0808507e98f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 14/22] fix: Decrypt overwrites the ciphertext it is given

---
 crypto/Encryption.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/Encryption.go b/crypto/Encryption.go
index 11b1049..7c04c13 100644
--- a/crypto/Encryption.go
+++ b/crypto/Encryption.go
@@ -29,8 +29,8 @@ func Decrypt(ciph cipher.Block, ciphertext []byte) ([]byte, error) {
 	}
 	iv := ciphertext[:aes.BlockSize]
 	cfb := cipher.NewCFBDecrypter(ciph, iv)
-	text := ciphertext[aes.BlockSize:]
-	cfb.XORKeyStream(text, text)
+	text := make([]byte, len(ciphertext)-aes.BlockSize)
+	cfb.XORKeyStream(text, ciphertext[aes.BlockSize:])
 	data, err := base64.StdEncoding.DecodeString(string(text))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 20495ec81f6a863dfce2162e156bd6fd665e93ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:10 +0000
Subject: [PATCH 15/22] fix: Decode32Byte panics on hex text of fewer than 32
 bytes

---
 utils/ByteManipulation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/ByteManipulation.go b/utils/ByteManipulation.go
index a27fba2..af10477 100644
--- a/utils/ByteManipulation.go
+++ b/utils/ByteManipulation.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/hex"
+	"fmt"
 	"log"
 	"sort"
 )
@@ -97,6 +98,10 @@ func Decode32Byte(hexStr string) ([32]byte, error) {
 		return b32, err
 	}
 
+	if len(b) < 32 {
+		return b32, fmt.Errorf("expected 32 bytes, got %d", len(b))
+	}
+
 	copy(b32[:], b[0:32])
 
 	return b32, nil
-- 
2.43.0


From f1d28036f4af0c08b11de04192df7e3e2f6c4045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 16/22] fix: NewRedeemScriptFromElectrum panics on other
 scripts and takes pushed data for opcodes

---
 script/RedeemScript.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/script/RedeemScript.go b/script/RedeemScript.go
index 3af2278..808b538 100644
--- a/script/RedeemScript.go
+++ b/script/RedeemScript.go
@@ -2,6 +2,7 @@ package script
 
 import (
 	"encoding/binary"
+	"encoding/hex"
 	"errors"
 
 	"github.com/libsv/libsv/crypto"
@@ -38,13 +39,23 @@ func NewRedeemScript(signaturesRequired int) (*RedeemScript, error) {
 
 // NewRedeemScriptFromElectrum  TODO:
 func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
-	parts, err := DecodeStringParts(script)
+	b, err := hex.DecodeString(script)
 	if err != nil {
 		return nil, err
 	}
 
-	if len(parts) == 0 {
-		return nil, errors.New("There should be 5 parts in this redeemScript")
+	parts, err := DecodeParts(b)
+	if err != nil {
+		return nil, err
+	}
+
+	if len(parts) < 3 {
+		return nil, errors.New("There should be at least 3 parts in this redeemScript")
+	}
+
+	ops := partOpcodes(b, parts)
+	if isPushOp(ops[0]) || isPushOp(ops[len(parts)-2]) || isPushOp(ops[len(parts)-1]) {
+		return nil, errors.New("Script must consist of a threshold, public keys, their number and OP_CHECKMULTISIG")
 	}
 
 	signaturesRequired := int(parts[0][0] - OpBASE)
@@ -57,6 +68,9 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 	}
 
 	signatureCount := int(parts[len(parts)-2][0] - OpBASE)
+	if signatureCount < 1 || signatureCount > 16 {
+		return nil, errors.New("Number of public keys must be between 1 and 16")
+	}
 
 	if parts[len(parts)-1][0] != OpCHECKMULTISIG {
 		return nil, errors.New("Script must end with OP_CHECKMULTISIG")
@@ -67,8 +81,8 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 	}
 
 	for _, pubkey := range parts[1 : len(parts)-2] {
-		if pubkey[0] != 0xff {
-			return nil, errors.New("All Electrum pubkeys should start with 0xff")
+		if len(pubkey) < 79 || pubkey[0] != 0xff {
+			return nil, errors.New("All Electrum pubkeys should start with 0xff and hold an extended key")
 		}
 
 		pubkey = pubkey[1:]
@@ -76,13 +90,13 @@ func NewRedeemScriptFromElectrum(script string) (*RedeemScript, error) {
 
 		derivationPath := pubkey[78:]
 		var s []uint16
-		for len(derivationPath) > 0 {
+		for len(derivationPath) > 1 {
 			n := binary.LittleEndian.Uint16(derivationPath[0:2])
 			s = append(s, n)
 			derivationPath = derivationPath[2:]
 		}
 
-		if len(s) != 2 {
+		if len(s) != 2 || len(derivationPath) != 0 {
 			return nil, errors.New("Derivation path should have exactly 2 items")
 		}
 
-- 
2.43.0


From a788ebd87e4fd833e60be40bc0fae55ae398934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:13 +0000
Subject: [PATCH 17/22] fix: extending a parsed script or part writes into the
 bytes behind it

---
 script/OpPushdata.go         | 8 ++++----
 script/Script.go             | 2 +-
 transaction/output/Output.go | 3 +--
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/script/OpPushdata.go b/script/OpPushdata.go
index cec67d0..e3f9a7a 100644
--- a/script/OpPushdata.go
+++ b/script/OpPushdata.go
@@ -94,7 +94,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if len(b) < int(2+l) {
 				return r, errors.New("Not enough data")
 			}
-			part := b[2 : 2+l]
+			part := b[2 : 2+l : 2+l]
 			r = append(r, part)
 			b = b[2+l:]
 
@@ -106,7 +106,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if uint64(len(b)) < 3+l {
 				return r, errors.New("Not enough data")
 			}
-			part := b[3 : 3+l]
+			part := b[3 : 3+l : 3+l]
 			r = append(r, part)
 			b = b[3+l:]
 
@@ -118,7 +118,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 			if uint64(len(b)) < 5+l {
 				return r, errors.New("Not enough data")
 			}
-			part := b[5 : 5+l]
+			part := b[5 : 5+l : 5+l]
 			r = append(r, part)
 			b = b[5+l:]
 
@@ -128,7 +128,7 @@ func DecodeParts(b []byte) ([][]byte, error) {
 				if len(b) < int(1+l) {
 					return r, errors.New("Not enough data")
 				}
-				part := b[1 : l+1]
+				part := b[1 : l+1 : l+1]
 				r = append(r, part)
 				b = b[1+l:]
 			} else {
diff --git a/script/Script.go b/script/Script.go
index ae80d4b..0e2577d 100644
--- a/script/Script.go
+++ b/script/Script.go
@@ -24,7 +24,7 @@ func NewFromHexString(s string) (*Script, error) {
 
 // NewFromBytes wraps a byte slice with the Script type.
 func NewFromBytes(b []byte) *Script {
-	s := Script(b)
+	s := Script(b[:len(b):len(b)]) // extending the script must not write behind b
 	return &s
 }
 
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index e2386fc..bade158 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -50,8 +50,7 @@ func NewFromBytes(bytes []byte) (*Output, int, error) {
 
 	totalLength := offset + int(l)
 
-	s := script.Script(bytes[offset:totalLength])
-	o.LockingScript = &s
+	o.LockingScript = script.NewFromBytes(bytes[offset:totalLength])
 
 	return &o, totalLength, nil
 }
-- 
2.43.0


From 25996d699af96d04bf0200da7f1e86040e1b3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:57 +0000
Subject: [PATCH 18/22] fix: DifficultyFromBits rejects malformed and
 non-positive targets and expands small exponents

---
 block/Difficulty.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 6fa3dd9..522f783 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -104,16 +104,14 @@ func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float
 
 // DifficultyFromBits returns the mining difficulty from the nBits field in the block header.
 func DifficultyFromBits(bits string) (float64, error) {
-	b, _ := hex.DecodeString(bits)
-	ib := binary.BigEndian.Uint32(b)
-	return targetToDifficulty(toCompactSize(ib))
-}
-
-func toCompactSize(bits uint32) *big.Int {
-	t := big.NewInt(int64(bits % 0x01000000))
-	t.Mul(t, big.NewInt(2).Exp(big.NewInt(2), big.NewInt(8*(int64(bits/0x01000000)-3)), nil))
-
-	return t
+	target, err := ExpandTargetFromAsInt(bits)
+	if err != nil {
+		return 0.0, err
+	}
+	if target.Sign() <= 0 {
+		return 0.0, errors.New("target must be positive")
+	}
+	return targetToDifficulty(target)
 }
 
 func targetToDifficulty(target *big.Int) (float64, error) {
-- 
2.43.0


From 78b0c5c06aff1779bdf1a1c519e63d96e154bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 19/22] fix: DifficultyToHashrate does not panic on an empty
 coin name

---
 block/Difficulty.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/block/Difficulty.go b/block/Difficulty.go
index 522f783..53388f8 100644
--- a/block/Difficulty.go
+++ b/block/Difficulty.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"math/big"
 	"strconv"
+	"strings"
 )
 
 var (
@@ -95,7 +96,7 @@ func ExpandTargetFromAsInt(bits string) (*big.Int, error) {
 // and computes the estimated hashrate on that specific coin (or chain).
 func DifficultyToHashrate(coin string, diff uint64, targetSeconds float64) float64 {
 	genesis := genesisDiff
-	if coin[0] == 'R' {
+	if strings.HasPrefix(coin, "R") {
 		genesis = regDiff
 	}
 
-- 
2.43.0


From 54ad67ca3db02de130b3b71445b39da08f09d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 20/22] fix: ToBytesWithClearedInputs keeps the signed input's
 outpoint and sequence

---
 transaction/Transaction.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 0453c67..579055b 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -243,12 +243,12 @@ func (bt *Transaction) toBytesHelper(index int, scriptPubKey []byte) []byte {
 	h = append(h, utils.VarInt(uint64(len(bt.GetInputs())))...)
 
 	for i, in := range bt.GetInputs() {
-		s := in.ToBytes(scriptPubKey != nil)
 		if i == index && scriptPubKey != nil {
-			h = append(h, utils.VarInt(uint64(len(scriptPubKey)))...)
-			h = append(h, scriptPubKey...)
+			signed := *in
+			signed.UnlockingScript = script.NewFromBytes(scriptPubKey)
+			h = append(h, signed.ToBytes(false)...)
 		} else {
-			h = append(h, s...)
+			h = append(h, in.ToBytes(scriptPubKey != nil)...)
 		}
 	}
 
-- 
2.43.0


From 2f12a384d4c828259ea99a5585e8ac9bf46627bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:18 +0000
Subject: [PATCH 21/22] fix: an index of no input is an error instead of a
 panic when hashing, signing or applying a script

---
 transaction/SignatureHash.go | 4 ++++
 transaction/Transaction.go   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/transaction/SignatureHash.go b/transaction/SignatureHash.go
index 1be5d06..251cec1 100644
--- a/transaction/SignatureHash.go
+++ b/transaction/SignatureHash.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	"github.com/libsv/libsv/crypto"
 	"github.com/libsv/libsv/transaction/signature/sighash"
@@ -15,6 +16,9 @@ import (
 // GetInputSignatureHash serializes the transaction based on the input index and the SIGHASH flag
 // see https://github.com/bitcoin-sv/bitcoin-sv/blob/master/doc/abc/replay-protected-sighash.md#digest-algorithm
 func (bt *Transaction) GetInputSignatureHash(inputNumber uint32, sigHashFlag sighash.Flag) ([]byte, error) {
+	if uint64(inputNumber) >= uint64(len(bt.Inputs)) || bt.Inputs[inputNumber] == nil {
+		return nil, fmt.Errorf("no input at index %d", inputNumber)
+	}
 	in := bt.Inputs[inputNumber]
 
 	if in.PreviousTxID == "" {
diff --git a/transaction/Transaction.go b/transaction/Transaction.go
index 579055b..b134023 100644
--- a/transaction/Transaction.go
+++ b/transaction/Transaction.go
@@ -294,7 +294,7 @@ func (bt *Transaction) SignAuto(s Signer) error {
 // ApplyUnlockingScript applies a script to the transaction at a specific index in
 // unlocking script field.
 func (bt *Transaction) ApplyUnlockingScript(index uint32, s *script.Script) error {
-	if bt.Inputs[index] != nil {
+	if uint64(index) < uint64(len(bt.Inputs)) && bt.Inputs[index] != nil {
 		bt.Inputs[index].UnlockingScript = s
 		return nil
 	}
-- 
2.43.0


From 3ee8cd6a6c8df0bc894af50019195fc68cc6c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:18 +0000
Subject: [PATCH 22/22] fix: printing inputs without unlocking script panics,
 and ids and scripts print wrongly

---
 transaction/input/Input.go   | 9 +++++++--
 transaction/output/Output.go | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/transaction/input/Input.go b/transaction/input/Input.go
index b07f117..236f6a2 100644
--- a/transaction/input/Input.go
+++ b/transaction/input/Input.go
@@ -93,12 +93,17 @@ func NewFromUTXO(prevTxID string, prevTxIndex uint32, prevTxSats uint64, prevTxS
 }
 
 func (i *Input) String() string {
-	return fmt.Sprintf(`prevTxHash:   %x
+	var unlocking []byte
+	if i.UnlockingScript != nil {
+		unlocking = *i.UnlockingScript
+	}
+
+	return fmt.Sprintf(`prevTxHash:   %s
 prevOutIndex: %d
 scriptLen:    %d
 script:       %x
 sequence:     %x
-`, i.PreviousTxID, i.PreviousTxOutIndex, len(*i.UnlockingScript), i.UnlockingScript, i.SequenceNumber)
+`, i.PreviousTxID, i.PreviousTxOutIndex, len(unlocking), unlocking, i.SequenceNumber)
 }
 
 // ToBytes encodes the Input into a hex byte array.
diff --git a/transaction/output/Output.go b/transaction/output/Output.go
index bade158..5a181ba 100644
--- a/transaction/output/Output.go
+++ b/transaction/output/Output.go
@@ -162,7 +162,7 @@ func (o *Output) String() string {
 	return fmt.Sprintf(`value:     %d
 scriptLen: %d
 script:    %x
-`, o.Satoshis, len(*o.LockingScript), o.LockingScript)
+`, o.Satoshis, len(*o.LockingScript), []byte(*o.LockingScript))
 }
 
 // ToBytes encodes the Output into a byte array.
-- 
2.43.0

