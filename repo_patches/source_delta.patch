From f4673dea35e9933ef24d33ad9d1877d7ba1bad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 01/56] fix: reject negative and overflowing lengths when
 reading from a buffer

A length prefix of 2^63 or more became a negative int, passed the bounds check
and panicked in make.
---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 806d153..e6274bb 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -30,7 +30,7 @@ func NewBufferReader(data []byte) *Buffer {
 }
 
 func (b *Buffer) check(l int) error {
-	if (b.seek + l) > b.length {
+	if l < 0 || l > b.length-b.seek {
 		return fmt.Errorf("error.seek[%v].required[%v].length[%v]", b.seek, l, b.length)
 	}
 	return nil
-- 
2.43.0


From d0a1e38e7cf7267fae0a389fe4a23b9e13fbb58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 02/56] fix: do not write the checksum into the caller's array
 when encoding bech32

---
 xbase/bech32.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xbase/bech32.go b/xbase/bech32.go
index 5cb92b2..757d4f0 100644
--- a/xbase/bech32.go
+++ b/xbase/bech32.go
@@ -79,7 +79,9 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := make([]byte, 0, len(data)+len(checksum))
+	combined = append(combined, data...)
+	combined = append(combined, checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
-- 
2.43.0


From 4b151033e87ac302ab16fe562356b0efac8d085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 03/56] fix: refuse to encode bech32 strings that cannot be
 decoded

---
 xbase/bech32.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xbase/bech32.go b/xbase/bech32.go
index 757d4f0..f845323 100644
--- a/xbase/bech32.go
+++ b/xbase/bech32.go
@@ -77,6 +77,17 @@ func Bech32Decode(bech string) (string, []byte, error) {
 // encodes a byte slice into a bech32 string with the human-readable part hrb.
 // Note that the bytes must each encode 5 bits (base32).
 func Bech32Encode(hrp string, data []byte) (string, error) {
+	// The result must be decodable: at most 90 characters, a non-empty HRP
+	// of ASCII characters between 33 and 126, and no uppercase letters.
+	if len(hrp) < 1 || len(hrp)+len(data)+7 > 90 {
+		return "", fmt.Errorf("invalid bech32 length: hrp %d, data %d", len(hrp), len(data))
+	}
+	for i := 0; i < len(hrp); i++ {
+		if hrp[i] < 33 || hrp[i] > 126 || (hrp[i] >= 'A' && hrp[i] <= 'Z') {
+			return "", fmt.Errorf("invalid character in hrp: '%c'", hrp[i])
+		}
+	}
+
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
 	combined := make([]byte, 0, len(data)+len(checksum))
-- 
2.43.0


From 3f5a6babd09a3cb7ebc8de6a0407d21fe4f1651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 04/56] fix: check the witness version and program length of
 segwit addresses

---
 xbase/witness.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xbase/witness.go b/xbase/witness.go
index a868b18..e043dfd 100644
--- a/xbase/witness.go
+++ b/xbase/witness.go
@@ -15,15 +15,24 @@ func WitnessDecode(addr string) (string, byte, []byte, error) {
 	if err != nil {
 		return "", 0, nil, err
 	}
+	if len(data) < 1 {
+		return "", 0, nil, fmt.Errorf("missing witness version")
+	}
 	res, err := convertBits(data[1:], 5, 8, false)
 	if err != nil {
 		return "", 0, nil, err
 	}
+	if err := checkWitnessProgram(data[0], res); err != nil {
+		return "", 0, nil, err
+	}
 	return hrp, data[0], res, nil
 }
 
 // WitnessEncode -- encodes to segwit address.
 func WitnessEncode(hrp string, version byte, program []byte) (string, error) {
+	if err := checkWitnessProgram(version, program); err != nil {
+		return "", err
+	}
 	data, err := convertBits(program, 8, 5, true)
 	if err != nil {
 		return "", err
@@ -31,6 +40,20 @@ func WitnessEncode(hrp string, version byte, program []byte) (string, error) {
 	return Bech32Encode(hrp, append([]byte{version}, data...))
 }
 
+// checkWitnessProgram -- checks the version and the program length, as defined in BIP141 and BIP173.
+func checkWitnessProgram(version byte, program []byte) error {
+	if version > 16 {
+		return fmt.Errorf("invalid witness version %d", version)
+	}
+	if len(program) < 2 || len(program) > 40 {
+		return fmt.Errorf("invalid witness program length %d", len(program))
+	}
+	if version == 0 && len(program) != 20 && len(program) != 32 {
+		return fmt.Errorf("invalid witness program length %d for version 0", len(program))
+	}
+	return nil
+}
+
 func convertBits(data []byte, frombits, tobits uint, pad bool) ([]byte, error) {
 	acc := 0
 	bits := uint(0)
-- 
2.43.0


From 95ebc21a4332717872cc7b405e8785214f276381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 05/56] fix: compare the whole human-readable part of a segwit
 address with the network

---
 xcore/address.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcore/address.go b/xcore/address.go
index 16cf908..b05c7ba 100644
--- a/xcore/address.go
+++ b/xcore/address.go
@@ -36,10 +36,14 @@ func DecodeAddress(addr string, net *network.Network) (Address, error) {
 	if oneIndex == 2 {
 		prefix := addr[:oneIndex]
 		if prefix == net.Bech32HRPSegwit {
-			_, version, witnessProgram, err := xbase.WitnessDecode(addr)
+			hrp, version, witnessProgram, err := xbase.WitnessDecode(addr)
 			if err != nil {
 				return nil, err
 			}
+			// The separator is the last '1', which need not be the first one.
+			if hrp != net.Bech32HRPSegwit {
+				return nil, xerror.NewError(Errors, ER_ADDRESS_FORMAT_MALFORMED, addr)
+			}
 			switch version {
 			case 0x00:
 				switch len(witnessProgram) {
-- 
2.43.0


From 4e5a28c4450116117240e874c75ac9b244b08cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 06/56] fix: ScriptNum.Bytes panicked for the minimum int64

---
 xvm/scriptnum.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xvm/scriptnum.go b/xvm/scriptnum.go
index 3ee6217..370b2af 100644
--- a/xvm/scriptnum.go
+++ b/xvm/scriptnum.go
@@ -38,9 +38,10 @@ func (n ScriptNum) Bytes() []byte {
 		return nil
 	}
 	neg := n < 0
-	absvalue := n
+	// Unsigned, since the negation of the minimum int64 is not an int64.
+	absvalue := uint64(n)
 	if neg {
-		absvalue = -n
+		absvalue = -absvalue
 	}
 
 	// Encode to little endian.
-- 
2.43.0


From dd24ee498bd26ade7cd91e57974137b4b9073a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 07/56] fix: OP_1NEGATE, which the script builder emits, was an
 unknown instruction

---
 xvm/instruction.go          | 1 +
 xvm/instruction_pushdata.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/xvm/instruction.go b/xvm/instruction.go
index fd2a7d4..699777c 100644
--- a/xvm/instruction.go
+++ b/xvm/instruction.go
@@ -172,6 +172,7 @@ var opcodes = map[byte]opcode{
 	OP_PUSHDATA1: {OP_PUSHDATA1, "OP_PUSHDATA1", -1, opPushData},
 	OP_PUSHDATA2: {OP_PUSHDATA2, "OP_PUSHDATA2", -2, opPushData},
 	OP_PUSHDATA4: {OP_PUSHDATA4, "OP_PUSHDATA4", -4, opPushData},
+	OP_1NEGATE:   {OP_1NEGATE, "OP_1NEGATE", 1, op1Negate},
 	OP_TRUE:      {OP_TRUE, "OP_1", 1, opN},
 	OP_2:         {OP_2, "OP_2", 1, opN},
 	OP_3:         {OP_3, "OP_3", 1, opN},
diff --git a/xvm/instruction_pushdata.go b/xvm/instruction_pushdata.go
index d8f66a4..3f68382 100644
--- a/xvm/instruction_pushdata.go
+++ b/xvm/instruction_pushdata.go
@@ -18,3 +18,9 @@ func opN(vm *Engine) error {
 	vm.dstack.PushInt(ScriptNum((vm.instruction.op.value - (OP_1 - 1))))
 	return nil
 }
+
+// op1Negate -- pushes the number -1 onto the data stack.
+func op1Negate(vm *Engine) error {
+	vm.dstack.PushInt(ScriptNum(-1))
+	return nil
+}
-- 
2.43.0


From c73c770ed0636ea6e2cd3c5331e03713b19764a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 08/56] fix: a script could end inside a conditional, so that
 an unlocking script ending in OP_IF skipped the locking script

---
 xvm/engine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index b6f20b6..56726bf 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -68,9 +68,16 @@ func (vm *Engine) Step() (bool, error) {
 	var err error
 
 	vm.pc++
-	if vm.instruction, err = vm.reader.NextInstruction(); err != nil || vm.instruction == nil {
+	if vm.instruction, err = vm.reader.NextInstruction(); err != nil {
 		return true, err
 	}
+	if vm.instruction == nil {
+		// The conditionals must be balanced within each script.
+		if len(vm.cstack) != 0 {
+			return true, xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "end.of.script.reached.in.conditional.execution")
+		}
+		return true, nil
+	}
 	if vm.branchShouldSkip() && !vm.instruction.isConditional() {
 		return false, nil
 	}
@@ -185,4 +192,5 @@ func (vm *Engine) branchShouldSkip() bool {
 func (vm *Engine) reset() {
 	vm.pc = 0
 	vm.dstack.Clean()
+	vm.cstack = vm.cstack[:0]
 }
-- 
2.43.0


From 334d1ccd4818bc0d9d3fb1d0bde2e3905b24f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 09/56] fix: a pay-to-script-hash output could be spent with
 the redeem script alone, without running it

---
 xvm/engine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index 56726bf..770fa7c 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -108,7 +108,7 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	}
 
 	// P2SH.
-	if vm.dstack.Depth() > 1 {
+	if isScriptHash(locking) {
 		vm.dstack = copyStk
 		redeem, err := vm.dstack.PopByteArray()
 		if err != nil {
@@ -194,3 +194,11 @@ func (vm *Engine) reset() {
 	vm.dstack.Clean()
 	vm.cstack = vm.cstack[:0]
 }
+
+// isScriptHash returns whether the locking script is OP_HASH160 <20 bytes> OP_EQUAL.
+func isScriptHash(locking []byte) bool {
+	return len(locking) == 23 &&
+		locking[0] == OP_HASH160 &&
+		locking[1] == OP_DATA_20 &&
+		locking[22] == OP_EQUAL
+}
-- 
2.43.0


From e9f9125f3bc6aa56ffc5b89caec0d78beaaa9c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 10/56] fix: Engine.Verify wrote the locking script into the
 spare capacity of the caller's unlocking script

---
 xvm/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index 770fa7c..f116269 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -102,7 +102,8 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 
 	// Reset.
 	vm.reset()
-	script := append(unlocking, locking...)
+	script := make([]byte, 0, len(unlocking)+len(locking))
+	script = append(append(script, unlocking...), locking...)
 	if err := vm.execute(script, true); err != nil {
 		return err
 	}
-- 
2.43.0


From ad30ae06641afc984a19763cfb37ba21872d78a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 11/56] fix: OP_CHECKMULTISIG panicked on a negative or huge
 key or signature count, an empty signature, or a missing signature function

---
 xvm/instruction_crypto.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index 43901c1..d7737db 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -12,6 +12,9 @@ import (
 	"github.com/keyfuse/tokucore/xerror"
 )
 
+// maxPubKeysPerMultiSig is the maximum number of public keys of OP_CHECKMULTISIG.
+const maxPubKeysPerMultiSig = 20
+
 // Stack:
 // [... signature pubkey] -> [... bool]
 func opHash160(vm *Engine) error {
@@ -74,12 +77,22 @@ func opCheckSigVerify(vm *Engine) error {
 // Stack:
 // [... dummy [sig ...] numsigs [pubkey ...] numpubkeys] -> [... bool]
 func opCheckMultiSig(vm *Engine) error {
+	if vm.sigHasher == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.hasher.func.is.nil")
+	}
+	if vm.sigVerifier == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.verifier.func.is.nil")
+	}
+
 	// pubkeys.
 	numKeys, err := vm.dstack.PopInt()
 	if err != nil {
 		return err
 	}
 	n := int(numKeys.Int32())
+	if n < 0 || n > maxPubKeysPerMultiSig {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:invalid.number.of.pubkeys[%v]", n))
+	}
 	pubKeys := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		pubKey, err := vm.dstack.PopByteArray()
@@ -95,6 +108,9 @@ func opCheckMultiSig(vm *Engine) error {
 		return err
 	}
 	m := int(numSignatures.Int32())
+	if m < 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:invalid.number.of.signatures[%v]", m))
+	}
 	if m > n {
 		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:more.signatures[%v].than.pubkeys[%v]", m, n))
 	}
@@ -122,6 +138,11 @@ func opCheckMultiSig(vm *Engine) error {
 	success := true
 	for sigIdx, pubKeyIdx := 0, 0; success && (sigIdx < m) && (pubKeyIdx < n); {
 		sig := signatures[sigIdx]
+		if len(sig) < 1 {
+			// An empty signature matches no public key.
+			success = false
+			break
+		}
 		hashType := sig[len(sig)-1]
 		sigDER := sig[:len(sig)-1]
 
-- 
2.43.0


From 606df249ec0d3679954c7e0eeb66e88e4a3248c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 12/56] fix: Engine.Verify ran the unlocking script on what an
 earlier run left on the stack

---
 xvm/engine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xvm/engine.go b/xvm/engine.go
index f116269..88a87e5 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -94,6 +94,9 @@ func (vm *Engine) Execute(program []byte) error {
 
 // Verify -- verify the unlocking and locking.
 func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
+	// Reset.
+	vm.reset()
+
 	// Unlocking.
 	if err := vm.execute(unlocking, false); err != nil {
 		return err
-- 
2.43.0


From 684876823cee05db48f546883aecb4143cc2e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 13/56] fix: legacy signature hashes other than SigHashAll
 committed to no input and no output

---
 xcore/transaction.go | 68 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index b2c8b11..19e5290 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -7,6 +7,7 @@ package xcore
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/keyfuse/tokucore/xbase"
@@ -280,33 +281,66 @@ func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, e
 // RawSignatureHash -- returns transaction hash used to get signed/verified.
 func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 	buffer := xbase.NewBuffer()
+	anyoneCanPay := (hashType & SigHashAnyOneCanPay) != 0
+	single := (hashType & sigHashMask) == SigHashSingle
+	none := (hashType & sigHashMask) == SigHashNone
+
+	// SigHashSingle without the output of the same index signs the number one.
+	if single && idx >= len(tx.outputs) {
+		one := make([]byte, hashSize)
+		one[0] = 0x01
+		return one
+	}
 
 	// version
 	buffer.WriteU32(tx.version)
-	switch hashType {
-	case SigHashAll:
+
+	// inputs
+	if anyoneCanPay {
+		buffer.WriteVarInt(1)
+	} else {
 		buffer.WriteVarInt(uint64(len(tx.inputs)))
-		for i, in := range tx.inputs {
-			buffer.WriteBytes(in.Hash)
-			buffer.WriteU32(in.Index)
-			if i == idx {
-				if in.RedeemScript != nil {
-					buffer.WriteVarBytes(in.RedeemScript)
-				} else {
-					script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
-					buffer.WriteVarBytes(script)
-				}
+	}
+	for i, in := range tx.inputs {
+		if anyoneCanPay && i != idx {
+			continue
+		}
+		buffer.WriteBytes(in.Hash)
+		buffer.WriteU32(in.Index)
+		if i == idx {
+			if in.RedeemScript != nil {
+				buffer.WriteVarBytes(in.RedeemScript)
 			} else {
-				buffer.WriteVarBytes(nil)
+				script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
+				buffer.WriteVarBytes(script)
 			}
+		} else {
+			buffer.WriteVarBytes(nil)
+		}
+		if i != idx && (single || none) {
+			buffer.WriteU32(0)
+		} else {
 			buffer.WriteU32(in.Sequence)
 		}
+	}
 
-		buffer.WriteVarInt(uint64(len(tx.outputs)))
-		for _, out := range tx.outputs {
-			buffer.WriteU64(out.Value)
-			buffer.WriteVarBytes(out.Script)
+	// outputs
+	outputs := tx.outputs
+	if none {
+		outputs = nil
+	}
+	if single {
+		outputs = tx.outputs[:idx+1]
+	}
+	buffer.WriteVarInt(uint64(len(outputs)))
+	for i, out := range outputs {
+		if single && i != idx {
+			buffer.WriteU64(math.MaxUint64)
+			buffer.WriteVarBytes(nil)
+			continue
 		}
+		buffer.WriteU64(out.Value)
+		buffer.WriteVarBytes(out.Script)
 	}
 	// Lock time
 	buffer.WriteU32(tx.lockTime)
-- 
2.43.0


From 7e6541e23e46ba5e082bcc42547c2b3cef553699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 14/56] fix: witness signature hashes used stale or foreign
 cached parts and ignored the output of SigHashSingle

---
 xcore/transaction.go | 91 ++++++++++++++++++++------------------------
 1 file changed, 41 insertions(+), 50 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 19e5290..db53898 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -112,13 +112,10 @@ func NewTxOut(value uint64, script []byte) *TxOut {
 
 // Transaction -- the bitcoin transaction.
 type Transaction struct {
-	version      uint32
-	lockTime     uint32
-	inputs       []*TxIn
-	outputs      []*TxOut
-	hashPrevouts []byte
-	hashSequence []byte
-	hashOutputs  []byte
+	version  uint32
+	lockTime uint32
+	inputs   []*TxIn
+	outputs  []*TxOut
 }
 
 // NewTransaction -- creates a new Transaction.
@@ -351,67 +348,61 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 
 // WitnessV0SignatureHash -- returns transaction witness V0 signature hash.
 func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []byte {
-	var zeroHash [32]byte
 	txIn := tx.inputs[idx]
+	anyoneCanPay := (hashType & SigHashAnyOneCanPay) != 0
+	single := (hashType & sigHashMask) == SigHashSingle
+	none := (hashType & sigHashMask) == SigHashNone
 
 	// hashPrevouts.
-	// If anyone can pay isn't active, then we can use the cached
-	// hashPrevOuts, otherwise we just write zeroes for the prev outs.
-	if (hashType & SigHashAnyOneCanPay) == 0 {
-		if tx.hashPrevouts == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteBytes(in.Hash[:])
-				hashBuffer.WriteU32(in.Index)
-			}
-			tx.hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	// If anyone can pay is active we just write zeroes for the prev outs.
+	hashPrevouts := make([]byte, hashSize)
+	if !anyoneCanPay {
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteBytes(in.Hash[:])
+			hashBuffer.WriteU32(in.Index)
 		}
-	} else {
-		tx.hashPrevouts = zeroHash[:]
+		hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
-	// If the sighash isn't anyone can pay, single, or none, the use the
-	// cached hash sequences, otherwise write all zeroes for the
+	// If the sighash is anyone can pay, single, or none, write all zeroes for the
 	// hashSequence.
-	if (hashType&SigHashAnyOneCanPay) == 0 && (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
-		if tx.hashSequence == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteU32(in.Sequence)
-			}
-			tx.hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	hashSequence := make([]byte, hashSize)
+	if !anyoneCanPay && !single && !none {
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteU32(in.Sequence)
 		}
-	} else {
-		tx.hashSequence = zeroHash[:]
-	}
-
-	// If the current signature mode isn't single, or none, then we can
-	// re-use the pre-generated hashoutputs sighash fragment. Otherwise,
-	// we'll serialize and add only the target output index to the signature
-	// pre-image.
-	if hashType&SigHashSingle != SigHashSingle && hashType&SigHashNone != SigHashNone {
-		if tx.hashOutputs == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, out := range tx.outputs {
-				hashBuffer.WriteU64(out.Value)
-				hashBuffer.WriteVarBytes(out.Script)
-			}
-			tx.hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	}
+
+	// If the current signature mode is single, we'll only hash the target output
+	// index (zeroes if there is none); if it is none, write all zeroes.
+	hashOutputs := make([]byte, hashSize)
+	if !single && !none {
+		hashBuffer := xbase.NewBuffer()
+		for _, out := range tx.outputs {
+			hashBuffer.WriteU64(out.Value)
+			hashBuffer.WriteVarBytes(out.Script)
 		}
-	} else {
-		tx.hashOutputs = zeroHash[:]
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	} else if single && idx < len(tx.outputs) {
+		hashBuffer := xbase.NewBuffer()
+		hashBuffer.WriteU64(tx.outputs[idx].Value)
+		hashBuffer.WriteVarBytes(tx.outputs[idx].Script)
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(tx.version)
-	buffer.WriteBytes(tx.hashPrevouts)
-	buffer.WriteBytes(tx.hashSequence)
+	buffer.WriteBytes(hashPrevouts)
+	buffer.WriteBytes(hashSequence)
 	buffer.WriteBytes(txIn.Hash)
 	buffer.WriteU32(txIn.Index)
 	buffer.WriteVarBytes(txIn.WitnessScriptCode)
 	buffer.WriteU64(txIn.Value)
 	buffer.WriteU32(txIn.Sequence)
-	buffer.WriteBytes(tx.hashOutputs)
+	buffer.WriteBytes(hashOutputs)
 	buffer.WriteU32(tx.lockTime)
 	buffer.WriteU32(uint32(hashType))
 	return xcrypto.DoubleSha256(buffer.Bytes())
-- 
2.43.0


From b363f77e6d6c336eb8a127cdffc5fd575f0bde64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:07 +0000
Subject: [PATCH 15/56] fix: a pay-to-witness-script-hash input took any redeem
 script for the one it commits to

---
 xcore/script_p2wsh_v0.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 4aba5d0..e4d58db 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -47,6 +47,11 @@ func (s *PayToWitnessV0ScriptHashScript) GetRawLockingScriptBytes() ([]byte, err
 
 // GetFinalLockingScriptBytes -- used to get the re-written locking for witness.
 func (s *PayToWitnessV0ScriptHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byte, error) {
+	// Check sha256(redeem) == s.Hash
+	if !bytes.Equal(xcrypto.Sha256(redeem), s.hash) {
+		return nil, fmt.Errorf("PayToWitnessV0ScriptHashScript.GetFinalLockingScriptBytes.error:sha256(redeem)!=s.hash")
+	}
+
 	scriptInstance := NewPayToScriptHashScript(xcrypto.Hash160(redeem))
 	return scriptInstance.GetFinalLockingScriptBytes(redeem)
 }
-- 
2.43.0


From a9265f4039f4598dae818aa02596596661310541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 16/56] fix: a witness input without the expected witness items
 panicked or was unlocked by its scriptSig

---
 xcore/script_p2wpkh_v0.go |  8 ++++++++
 xcore/script_p2wsh_v0.go  | 20 ++++++++------------
 xcore/transaction.go      |  2 +-
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 335a8a9..0f7565e 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -80,6 +82,12 @@ func (s *PayToWitnessV0PubKeyHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0PubKeyHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
+	if len(witness) == 0 {
+		return nil, nil
+	}
+	if len(witness) != 2 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.WitnessToUnlockingScriptBytes.error:witness.items[%v]", len(witness))
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(witness[0]).AddData(witness[1]).Script()
 }
diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index e4d58db..40f2f35 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -104,19 +104,15 @@ func (s *PayToWitnessV0ScriptHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
-	l := len(witness)
-	if l > 1 {
-		redeem := witness[len(witness)-1]
-		instrs, _ := xvm.NewScriptReader(redeem).AllInstructions()
-		if isMultiSig(instrs) {
-			builder := xvm.NewScriptBuilder()
-			for i := 0; i < l-1; i++ {
-				builder.AddData(witness[i])
-			}
-			return builder.AddData(redeem).Script()
-		}
+	if len(witness) == 0 {
+		return nil, nil
+	}
+	// The redeem script is the last one.
+	builder := xvm.NewScriptBuilder()
+	for _, wit := range witness {
+		builder.AddData(wit)
 	}
-	return nil, nil
+	return builder.Script()
 }
 
 // isWitnessV0ScriptHash --
diff --git a/xcore/transaction.go b/xcore/transaction.go
index db53898..3314c55 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -161,7 +161,7 @@ func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScri
 	if err != nil {
 		return err
 	}
-	if rawUnlocking != nil {
+	if scriptInstance.GetScriptVersion() != BASE {
 		txIn.RawUnlockingScript = rawUnlocking
 	}
 
-- 
2.43.0


From a9f9e5f975a84cf783a733f779c18f850d2539f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 17/56] fix: signing a missing input or without a signature
 panicked, and embedding a signature hid the error and wrote behind the
 caller's signature

---
 xcore/script_p2pkh.go     |  5 +++++
 xcore/script_p2wpkh_v0.go |  6 ++++++
 xcore/transaction.go      | 33 +++++++++++++++++++++++++--------
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/xcore/script_p2pkh.go b/xcore/script_p2pkh.go
index 6925d9a..25d24a0 100644
--- a/xcore/script_p2pkh.go
+++ b/xcore/script_p2pkh.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -56,6 +58,9 @@ func (s *PayToPubKeyHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byt
 // unlocking: <sig> <pubkey>
 // witness:   (empty)
 func (s *PayToPubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("GetRawUnlockingScriptBytes.error:signs.is.empty")
+	}
 	builder := xvm.NewScriptBuilder()
 	unlocking, err := builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 	return unlocking, err
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 0f7565e..a92db09 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -52,12 +52,18 @@ func (s *PayToWitnessV0PubKeyHashScript) GetFinalLockingScriptBytes(redeem []byt
 
 // GetRawUnlockingScriptBytes -- used to get raw unlocking script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("GetRawUnlockingScriptBytes.error:signs.is.empty")
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 }
 
 // GetWitnessUnlockingScriptBytes -- used to get witness script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetWitnessUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([][]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("GetWitnessUnlockingScriptBytes.error:signs.is.empty")
+	}
 	var witness [][]byte
 	witness = append(witness, signs[0].Signature)
 	witness = append(witness, signs[0].PubKey)
diff --git a/xcore/transaction.go b/xcore/transaction.go
index 3314c55..629df6f 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -138,6 +138,9 @@ func (tx *Transaction) SetLockTime(time uint32) {
 // SetTxIn -- set the txin tuples.
 // Used for deserialize the transaction and verify.
 func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScript []byte) error {
+	if err := tx.checkIndex(idx); err != nil {
+		return err
+	}
 	txIn := tx.inputs[idx]
 	scriptInstance, err := ParseLockingScript(script)
 	if err != nil {
@@ -203,8 +206,20 @@ func (tx *Transaction) WitnessID() string {
 	return xbase.NewIDToString(tx.WitnessHash())
 }
 
+// checkIndex -- check the input idx exists.
+func (tx *Transaction) checkIndex(idx int) error {
+	inputs := len(tx.inputs)
+	if idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
+	return nil
+}
+
 // SignIndex -- sign specified transaction input with pubkey format.
 func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType, keys ...*xcrypto.PrvKey) error {
+	if err := tx.checkIndex(idx); err != nil {
+		return err
+	}
 	txIn := tx.inputs[idx]
 	signs := make([]PubKeySign, 0)
 
@@ -244,6 +259,9 @@ func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType,
 
 // EmbedIdxSignature -- build the unlocking with signs for the idx.
 func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
+	if err := tx.checkIndex(idx); err != nil {
+		return err
+	}
 	txIn := tx.inputs[idx]
 
 	// Sanity check.
@@ -257,7 +275,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 	}
 	// Raw unlocking.
 	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-		return nil
+		return err
 	}
 	// Witness unlocking.
 	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
@@ -270,7 +288,8 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, ecdsaSig []byte, hashType SigHashType) error {
 	var signs []PubKeySign
 
-	finalsig := append(ecdsaSig, byte(hashType))
+	finalsig := make([]byte, 0, len(ecdsaSig)+1)
+	finalsig = append(append(finalsig, ecdsaSig...), byte(hashType))
 	signs = append(signs, PubKeySign{PubKey: pubkey.SerializeCompressed(), Signature: finalsig})
 	return tx.EmbedIdxSignature(idx, signs)
 }
@@ -411,9 +430,8 @@ func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []b
 // RawSignature -- sign the idx input and return the signature.
 func (tx *Transaction) RawSignature(idx int, hashType SigHashType, prv *xcrypto.PrvKey) ([]byte, error) {
 	// Sanity Check
-	inputs := len(tx.inputs)
-	if idx >= inputs {
-		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	if err := tx.checkIndex(idx); err != nil {
+		return nil, err
 	}
 
 	txIn := tx.inputs[idx]
@@ -431,9 +449,8 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 	var signature []byte
 
 	// Sanity Check
-	inputs := len(tx.inputs)
-	if idx >= inputs {
-		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	if err := tx.checkIndex(idx); err != nil {
+		return nil, err
 	}
 
 	in := tx.inputs[idx]
-- 
2.43.0


From c371c48b246dfb4ba929dfc144370d3f98f0c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 18/56] fix: decoding a transaction panicked or allocated by
 its claimed counts, and kept inputs or outputs of an earlier decoding

---
 xcore/transaction.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 629df6f..99bd3a2 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -564,9 +564,9 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.inputs = nil
 	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
+		for i := uint64(0); i < ins; i++ {
 			txIn := &TxIn{}
 			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
 				return err
@@ -580,7 +580,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
 				return err
 			}
-			tx.inputs[i] = txIn
+			tx.inputs = append(tx.inputs, txIn)
 		}
 	}
 
@@ -589,9 +589,9 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.outputs = nil
 	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
+		for i := uint64(0); i < outs; i++ {
 			txOut := &TxOut{}
 			if txOut.Value, err = buffer.ReadU64(); err != nil {
 				return err
@@ -599,7 +599,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
 				return err
 			}
-			tx.outputs[i] = txOut
+			tx.outputs = append(tx.outputs, txOut)
 		}
 	}
 
@@ -612,11 +612,13 @@ func (tx *Transaction) Deserialize(data []byte) error {
 				return err
 			}
 
-			in.Witness = make([][]byte, witCount)
+			in.Witness = nil
 			for j := uint64(0); j < witCount; j++ {
-				if in.Witness[j], err = buffer.ReadVarBytes(); err != nil {
+				wit, err := buffer.ReadVarBytes()
+				if err != nil {
 					return err
 				}
+				in.Witness = append(in.Witness, wit)
 			}
 		}
 	}
@@ -676,9 +678,9 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.inputs = nil
 	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
+		for i := uint64(0); i < ins; i++ {
 			txIn := &TxIn{}
 			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
 				return err
@@ -692,7 +694,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
 				return err
 			}
-			tx.inputs[i] = txIn
+			tx.inputs = append(tx.inputs, txIn)
 		}
 	}
 
@@ -701,9 +703,9 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.outputs = nil
 	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
+		for i := uint64(0); i < outs; i++ {
 			txOut := &TxOut{}
 			if txOut.Value, err = buffer.ReadU64(); err != nil {
 				return err
@@ -711,7 +713,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
 				return err
 			}
-			tx.outputs[i] = txOut
+			tx.outputs = append(tx.outputs, txOut)
 		}
 	}
 
-- 
2.43.0


From 743002d9bb8528d6ce2b012e9e6be7f10afb622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 19/56] fix: serializing a decoded witness transaction dropped
 its witnesses

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 99bd3a2..5d4194f 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -476,7 +476,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 // HasWitness -- returns whether the inputs contain witness datas.
 func (tx *Transaction) HasWitness() bool {
 	for _, in := range tx.inputs {
-		if in.HasWitness() {
+		if in.HasWitness() || len(in.Witness) > 0 {
 			return true
 		}
 	}
-- 
2.43.0


From 13ab6f9e9bc343078bd34cf9684ad422a99f8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 20/56] fix: transaction sizes counted the scriptSig of witness
 inputs, missed the marker and flag, and rounded the virtual size down

---
 xcore/transaction.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 5d4194f..ea15daf 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -790,8 +790,12 @@ func (tx *Transaction) BaseSize() int {
 	for _, in := range tx.inputs {
 		size += len(in.Hash)
 		size += 4
-		size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
-		size += len(in.RawUnlockingScript)
+		unlocking := in.RawUnlockingScript
+		if in.HasWitness() {
+			unlocking = nil
+		}
+		size += xbase.VarIntSerializeSize(uint64(len(unlocking)))
+		size += len(unlocking)
 		size += 4
 	}
 
@@ -813,6 +817,8 @@ func (tx *Transaction) WitnessSize() int {
 	size := 0
 
 	if tx.HasWitness() {
+		// marker and flag
+		size += 2
 		for _, in := range tx.inputs {
 			wits := in.Witness
 			size += xbase.VarIntSerializeSize(uint64(len(wits)))
@@ -834,7 +840,7 @@ func (tx *Transaction) Weight() int {
 
 // Vsize -- defined as Transaction weight / 4 (rounded up to the next integer).
 func (tx *Transaction) Vsize() int {
-	return tx.Weight() / witnessScaleFactor
+	return (tx.Weight() + witnessScaleFactor - 1) / witnessScaleFactor
 }
 
 // Size -- size in bytes serialized as described in BIP144, including base data and witness data.
-- 
2.43.0


From fb46da57daf0a7d8b9560c94d6391ee08732bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 21/56] fix: ToString panicked on an unsigned witness input

---
 xcore/transaction.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index ea15daf..ece65c0 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -884,7 +884,11 @@ func (tx *Transaction) ToString() string {
 		lines = append(lines, fmt.Sprintf("      \"script\":\t\"%s\",", xvm.DisasmString(in.RawUnlockingScript)))
 		lines = append(lines, fmt.Sprintf("      \"sighash\":\t\"%x\",", in.SignatureHash))
 		if in.HasWitness() {
-			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", in.Witness[0]))
+			var witness []byte
+			if len(in.Witness) > 0 {
+				witness = in.Witness[0]
+			}
+			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", witness))
 			lines = append(lines, fmt.Sprintf("      \"scriptcode\":\t\"%x\"", in.WitnessScriptCode))
 		}
 		if i == (len(tx.inputs) - 1) {
-- 
2.43.0


From 856dd6f815df275cb4c27d8f1b23d3058ed52a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 22/56] fix: EstimateFees lost a satoshi to rounding errors and
 overflowed to a negative fee

---
 xcore/estimate.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xcore/estimate.go b/xcore/estimate.go
index bc27edf..ad9ad57 100644
--- a/xcore/estimate.go
+++ b/xcore/estimate.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"math"
+
 	"github.com/keyfuse/tokucore/xbase"
 )
 
@@ -127,9 +129,11 @@ func EstimateNormalSize(ins int, outs int) int64 {
 
 // EstimateFees -- estimate the fee.
 func EstimateFees(estimateSize int64, relayFeePerKb int64) int64 {
-	fees := 0.0
-	if relayFeePerKb > 0 {
-		fees = (float64(relayFeePerKb) / float64(1000)) * float64(estimateSize)
+	if relayFeePerKb <= 0 || estimateSize <= 0 {
+		return 0
+	}
+	if relayFeePerKb > math.MaxInt64/estimateSize {
+		return math.MaxInt64
 	}
-	return int64(fees)
+	return relayFeePerKb * estimateSize / 1000
 }
-- 
2.43.0


From 323dfedef26637d34d947532556c98f1832570e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 23/56] fix: the transaction builder's totals and fee
 overflowed, so that outputs could exceed the inputs

---
 xcore/error.go              |  2 ++
 xcore/transactionbuilder.go | 23 +++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/xcore/error.go b/xcore/error.go
index 8a8e250..ec7727e 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -31,6 +31,7 @@ const (
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY          int = 5105
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH      int = 5106
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
+	ER_TRANSACTION_BUILDER_AMOUNT_TOO_LARGE        int = 5108
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -58,6 +59,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY:          {Num: ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, State: "TTB00", Message: "transaction.builder.sign.but.key.is.empty.at.input.idx[%v]"},
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH:      {Num: ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, State: "TTB00", Message: "transaction.builder.min.fee[%v].not.enough.from.change.value[%v]"},
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
+	ER_TRANSACTION_BUILDER_AMOUNT_TOO_LARGE:        {Num: ER_TRANSACTION_BUILDER_AMOUNT_TOO_LARGE, State: "TTB00", Message: "transaction.builder.amount[%v].too.large"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 31d5a01..4db81dd 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -7,6 +7,7 @@ package xcore
 
 import (
 	"encoding/hex"
+	"math"
 
 	"github.com/keyfuse/tokucore/xbase"
 	"github.com/keyfuse/tokucore/xcrypto"
@@ -17,6 +18,9 @@ import (
 const (
 	// Unit -- satoshi unit
 	Unit = 1e8
+
+	// maxMoney -- all the satoshis there can be.
+	maxMoney = 21e6 * Unit
 )
 
 type change struct {
@@ -118,6 +122,9 @@ func (b *TransactionBuilder) SetChange(addr Address) *TransactionBuilder {
 
 // SendFees -- set the amount fee of this send.
 func (b *TransactionBuilder) SendFees(fees uint64) *TransactionBuilder {
+	if fees > math.MaxInt64 {
+		fees = math.MaxInt64
+	}
 	b.sendFees = int64(fees)
 	return b
 }
@@ -161,6 +168,14 @@ func (b *TransactionBuilder) Then() *TransactionBuilder {
 	return b
 }
 
+// addAmount -- add the value to the total, it's an error if the sum is more than all the coins there can be.
+func addAmount(total int64, value uint64) (int64, error) {
+	if value > uint64(maxMoney-total) {
+		return 0, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_TOO_LARGE, value)
+	}
+	return total + int64(value), nil
+}
+
 // BuildTransaction -- build the transaction.
 func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	var totalIn int64
@@ -195,7 +210,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 					return nil, err
 				}
 				txins = append(txins, txin)
-				totalIn += int64(grpinput.value)
+				if totalIn, err = addAmount(totalIn, grpinput.value); err != nil {
+					return nil, err
+				}
 
 				// inputs.
 				input := &input{
@@ -228,7 +245,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				}
 				txout := NewTxOut(grpoutput.value, script)
 				txouts = append(txouts, txout)
-				totalOut += int64(grpoutput.value)
+				if totalOut, err = addAmount(totalOut, grpoutput.value); err != nil {
+					return nil, err
+				}
 			}
 		}
 	}
-- 
2.43.0


From ad0b4755eefd160c2f10f50b46e97229f8208e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 24/56] fix: multisig scripts that need no signature, or that
 no signature satisfies, were generated

---
 xcore/error.go          | 2 ++
 xcore/script_multsig.go | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/xcore/error.go b/xcore/error.go
index ec7727e..02c4dc7 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -21,6 +21,7 @@ const (
 	ER_SCRIPT_STANDARD_ADDRESS_TYPE_UNSUPPORTED    int = 4105
 	ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED        int = 4106
 	ER_SCRIPT_SIGNATURE_TYPE_UNKNOW                int = 4107
+	ER_SCRIPT_STANDARD_MULTISIG_INVALID            int = 4108
 	ER_TRANSACTION_SIGN_OUT_INDEX                  int = 5000
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY               int = 5001
 	ER_TRANSACTION_VERIFY_FAILED                   int = 5002
@@ -49,6 +50,7 @@ var Errors = map[int]*xerror.Error{
 	ER_SCRIPT_STANDARD_ADDRESS_TYPE_UNSUPPORTED:    {Num: ER_SCRIPT_STANDARD_ADDRESS_TYPE_UNSUPPORTED, State: "TS000", Message: "script.standard.unsupported.address.type[%v]"},
 	ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED:        {Num: ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, State: "TS000", Message: "script.standard.pubkeys[%v].less.than.nrequired[%v]"},
 	ER_SCRIPT_SIGNATURE_TYPE_UNKNOW:                {Num: ER_SCRIPT_SIGNATURE_TYPE_UNKNOW, State: "TS000", Message: "script.signature.type.unknow[%v]"},
+	ER_SCRIPT_STANDARD_MULTISIG_INVALID:            {Num: ER_SCRIPT_STANDARD_MULTISIG_INVALID, State: "TS000", Message: "script.standard.multisig.nrequired[%v].of.pubkeys[%v].invalid"},
 	ER_TRANSACTION_SIGN_OUT_INDEX:                  {Num: ER_TRANSACTION_SIGN_OUT_INDEX, State: "TTX00", Message: "transaction.sign.idx[%v].out.index[%v]"},
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY:               {Num: ER_TRANSACTION_SIGN_REDEEM_EMPTY, State: "TTX00", Message: "transaction.sign.idx[%v].redeem.can.not.be.nil.since.keys[%v]>1"},
 	ER_TRANSACTION_VERIFY_FAILED:                   {Num: ER_TRANSACTION_VERIFY_FAILED, State: "TTX00", Message: "transaction.verify.for.input[%v].referencing[%v].at[%v].failed"},
diff --git a/xcore/script_multsig.go b/xcore/script_multsig.go
index 972865e..47de3f0 100644
--- a/xcore/script_multsig.go
+++ b/xcore/script_multsig.go
@@ -11,6 +11,9 @@ import (
 	"github.com/keyfuse/tokucore/xvm"
 )
 
+// maxMultiSigPubKeys -- the most pubkeys OP_CHECKMULTISIG takes.
+const maxMultiSigPubKeys = 20
+
 // PayToMultiSigScript --
 // returns a valid script for a multi-signature redemption where n-required of
 // keys in pubkeys are required to have signed the transaction for success.
@@ -46,6 +49,10 @@ func GenMultiSigScript(nrequired int, pkDatas ...[]byte) ([]byte, error) {
 	if len(pkDatas) < nrequired {
 		return nil, xerror.NewError(Errors, ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, len(pkDatas), nrequired)
 	}
+	// Without a required signature anyone can spend, with too many pubkeys nobody can.
+	if nrequired < 1 || len(pkDatas) > maxMultiSigPubKeys {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_STANDARD_MULTISIG_INVALID, nrequired, len(pkDatas))
+	}
 	builder := xvm.NewScriptBuilder()
 	builder.AddInt64(int64(nrequired))
 	for _, key := range pkDatas {
-- 
2.43.0


From 5ccd46ef59d2f6d101eff2f87463165046e94b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 25/56] fix: the transaction builder paid to an empty script
 for a nil address, and panicked for a nil change address

---
 xcore/transactionbuilder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 4db81dd..8d359ad 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -243,6 +243,10 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 						return nil, err
 					}
 				}
+				// An address which failed to build is nil, anyone could spend an empty script.
+				if len(script) == 0 {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_SENDTO_EMPTY)
+				}
 				txout := NewTxOut(grpoutput.value, script)
 				txouts = append(txouts, txout)
 				if totalOut, err = addAmount(totalOut, grpoutput.value); err != nil {
@@ -292,7 +296,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	// Change.
 	{
 		if changeAmount > 0 {
-			if b.change == nil {
+			if b.change == nil || b.change.addr == nil {
 				return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_CHANGETO_EMPTY)
 			}
 			script, err := b.change.addr.LockingScript()
-- 
2.43.0


From fea2365909f785de9d9f959cc6be40451093ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 26/56] fix: segwit addresses in upper case were not recognised

---
 xcore/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/address.go b/xcore/address.go
index b05c7ba..5d102b5 100644
--- a/xcore/address.go
+++ b/xcore/address.go
@@ -35,7 +35,7 @@ func DecodeAddress(addr string, net *network.Network) (Address, error) {
 	oneIndex := strings.IndexByte(addr, '1')
 	if oneIndex == 2 {
 		prefix := addr[:oneIndex]
-		if prefix == net.Bech32HRPSegwit {
+		if strings.EqualFold(prefix, net.Bech32HRPSegwit) {
 			hrp, version, witnessProgram, err := xbase.WitnessDecode(addr)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 9f38ae37dec7936026787e0c0a19ee83e421c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:05 +0000
Subject: [PATCH 27/56] fix: the Merkle tree of 6, 10, 11, 12... hashes had a
 wrong root, and that of none panicked

---
 xcrypto/merkle.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index de5f23b..b2513c5 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -41,6 +41,9 @@ type Merkle struct {
 // If the right is nil(the size is not power of 2), hashed with itself.
 func NewMerkle(hashs [][]byte) *Merkle {
 	n := len(hashs)
+	if n == 0 {
+		return &Merkle{levels: [][][]byte{{nil}}}
+	}
 	depth := int(math.Ceil(math.Log2(float64(n))))
 	pow2 := int(math.Pow(2, float64(depth)))
 	levels := make([][][]byte, depth+1)
@@ -55,6 +58,10 @@ func NewMerkle(hashs [][]byte) *Merkle {
 		for j := 0; j < len(level); j += 2 {
 			left := level[j]
 			right := level[j+1]
+			if left == nil {
+				// The rest of the level is padding.
+				break
+			}
 			if right == nil {
 				next[offset] = merkleNode(left, left)
 				break
-- 
2.43.0


From be4a29dc1aca49cc79f92b6be73123c643770099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 28/56] fix: deriving below depth 255 wrapped the depth to that
 of a master key

---
 xcore/bip32/hdkey.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 1203804..77ef2b4 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -125,6 +125,11 @@ func (k *HDKey) Derive(childIdx uint32) (*HDKey, error) {
 		return nil, fmt.Errorf("hdkey.derive.a.hardened.key.from.public.key.erro")
 	}
 
+	// The depth is serialized in a single byte.
+	if k.depth == 0xff {
+		return nil, fmt.Errorf("hdkey.derive.beyond.max.depth.error")
+	}
+
 	// Split "I" into two 32-byte sequences Il and Ir where:
 	//   Il = intermediate key used to derive the child
 	//   Ir = child chain code
-- 
2.43.0


From e4df9633da4b0d8c1c8aa89e5d691cc6f11f23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 29/56] fix: extended keys with a key out of range, a
 contradicting version or an impossible parent were read

---
 xcore/bip32/hdkey.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 77ef2b4..0fb7739 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"crypto/rand"
 	"fmt"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -19,6 +20,7 @@ import (
 	"github.com/keyfuse/tokucore/network"
 	"github.com/keyfuse/tokucore/xbase"
 	"github.com/keyfuse/tokucore/xcrypto"
+	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
 )
 
 // Formulas:
@@ -298,16 +300,32 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 	//   version (4) || depth (1) || parent fingerprint (4)) ||
 	//   child num (4) || chain code (32) || key data (33) || checksum (4)
 	var k = &HDKey{}
+	version := data[0:4]
 	k.depth = data[4]
 	k.parentFP = data[5:9]
 	k.childNum = data[9:13]
 	k.chainCode = data[13:45]
 
+	// A master key has neither a parent nor a child number.
+	if k.depth == 0 && !bytes.Equal(data[5:13], make([]byte, 8)) {
+		return nil, fmt.Errorf("hdkey.serialized.master.key.has.a.parent")
+	}
+
 	if data[45] == byte(0) {
 		k.isPrivate = true
+		if isVersion(version, false) {
+			return nil, fmt.Errorf("hdkey.serialized.private.key.has.public.version")
+		}
+		d := new(big.Int).SetBytes(data[46:78])
+		if d.Sign() == 0 || d.Cmp(secp256k1.SECP256K1().Params().N) >= 0 {
+			return nil, fmt.Errorf("hdkey.serialized.private.key.out.of.range")
+		}
 		k.prvkey = xcrypto.PrvKeyFromBytes(data[46:78])
 	} else {
 		k.isPrivate = false
+		if isVersion(version, true) {
+			return nil, fmt.Errorf("hdkey.serialized.public.key.has.private.version")
+		}
 		pubkey, err := xcrypto.PubKeyFromBytes(data[45:78])
 		if err != nil {
 			return nil, err
@@ -326,6 +344,20 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 	return k, nil
 }
 
+// isVersion -- whether the version is that of the private (or public) keys of a known network.
+func isVersion(version []byte, private bool) bool {
+	for _, net := range []*network.Network{network.MainNet, network.TestNet} {
+		id := net.HDPublicKeyID
+		if private {
+			id = net.HDPrivateKeyID
+		}
+		if bytes.Equal(version, id) {
+			return true
+		}
+	}
+	return false
+}
+
 func uint32ToBytes(i uint32) []byte {
 	bytes := make([]byte, 4)
 	binary.BigEndian.PutUint32(bytes, i)
-- 
2.43.0


From f3ca8957318e602ba678b28794ebd4fba6fc7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 30/56] fix: a derivation path with an empty element panicked,
 and a hardened index of 2^31 or more became a normal one

---
 xcore/bip32/hdkey.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 0fb7739..8a2dd10 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -185,7 +185,7 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 	for i := 1; i < len(steps); i++ {
 		var isHardened bool
 		step := steps[i]
-		if step[len(step)-1] == '\'' {
+		if strings.HasSuffix(step, "'") {
 			isHardened = true
 			step = step[:len(step)-1]
 		}
@@ -195,6 +195,9 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 			return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
 		}
 		if isHardened {
+			if idx >= HardenedKeyStart {
+				return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
+			}
 			idx += HardenedKeyStart
 		}
 		hd, err = hd.Derive(uint32(idx))
-- 
2.43.0


From e2206efd84f488acac57051e29be7e639c2fac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 31/56] fix: mnemonic entropy came from math/rand seeded with
 the clock

---
 xcore/bip39/bip39.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 8f3e035..4652f08 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -7,15 +7,15 @@
 package bip39
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"math/big"
-	"math/rand"
 	"strings"
-	"time"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -106,9 +106,10 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	random := rand.New(rand.NewSource(time.Now().UnixNano()))
-	_, err = random.Read(entropy)
-	return entropy, err
+	if _, err = io.ReadFull(rand.Reader, entropy); err != nil {
+		return nil, err
+	}
+	return entropy, nil
 }
 
 // EntropyFromMnemonic takes a mnemonic generated by this library,
-- 
2.43.0


From b63243d8084c9dbdbe32a0875c83e0af77429fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 32/56] fix: MnemonicToByteArray split words differently from
 what it validated

---
 xcore/bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 4652f08..55faebb 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -212,7 +212,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice    = strings.Split(mnemonic, " ")
+		mnemonicSlice    = strings.Fields(mnemonic)
 		entropyBitSize   = len(mnemonicSlice) * 11
 		checksumBitSize  = entropyBitSize % 32
 		fullByteSize     = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From 567e0622c1e34ec9e6d2172347cd751556a4ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 33/56] fix: MsgVersion writes and reads ports in network byte
 order

---
 xprotocol/msgversion.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 7dc8c0e..14e8733 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -85,10 +85,10 @@ func (m *MsgVersion) Encode() []byte {
 	buffer.WriteU64(m.Timestamp)
 	buffer.WriteU64(m.ServicesYou)
 	buffer.WriteBytes(m.AddressYou)
-	buffer.WriteU16(m.PortYou)
+	buffer.WriteU16(swapPort(m.PortYou))
 	buffer.WriteU64(m.ServicesMe)
 	buffer.WriteBytes(m.AddressMe)
-	buffer.WriteU16(m.PortMe)
+	buffer.WriteU16(swapPort(m.PortMe))
 	buffer.WriteU64(m.Nonce)
 	buffer.WriteVarString(m.UserAgent)
 	buffer.WriteU32((m.LastBlock))
@@ -119,6 +119,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.PortYou, err = buffer.ReadU16(); err != nil {
 		return err
 	}
+	m.PortYou = swapPort(m.PortYou)
 	if m.ServicesMe, err = buffer.ReadU64(); err != nil {
 		return err
 	}
@@ -128,6 +129,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.PortMe, err = buffer.ReadU16(); err != nil {
 		return err
 	}
+	m.PortMe = swapPort(m.PortMe)
 	if m.Nonce, err = buffer.ReadU64(); err != nil {
 		return err
 	}
@@ -155,3 +157,8 @@ func (m *MsgVersion) Size() int {
 func (m *MsgVersion) Command() string {
 	return CommandVersion
 }
+
+// swapPort -- ports are big-endian on the wire, unlike every other integer.
+func swapPort(port uint32) uint32 {
+	return (port>>8)&0xff | (port&0xff)<<8
+}
-- 
2.43.0


From 06f4193b02114d4ad10ceede14c6a3e87dfc9e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:34 +0000
Subject: [PATCH 34/56] fix: Size of verack, reject and unhandled messages is
 that of their encoding

---
 xprotocol/msgreject.go   | 7 ++++++-
 xprotocol/msgunhandle.go | 2 +-
 xprotocol/msgverack.go   | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 9a50602..40d07cc 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -77,7 +77,12 @@ func (m *MsgReject) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgReject) Size() int {
-	return len(m.Cmd) + 1 + len(m.Reason) + len(m.Hash)
+	size := xbase.VarIntSerializeSize(uint64(len(m.Cmd))) + len(m.Cmd) + 1 +
+		xbase.VarIntSerializeSize(uint64(len(m.Reason))) + len(m.Reason)
+	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
+		size += len(m.Hash)
+	}
+	return size
 }
 
 // Command -- returns the protocal command string of this message.
diff --git a/xprotocol/msgunhandle.go b/xprotocol/msgunhandle.go
index d8c31b1..19b7728 100644
--- a/xprotocol/msgunhandle.go
+++ b/xprotocol/msgunhandle.go
@@ -29,7 +29,7 @@ func (m *MsgUnhandle) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgUnhandle) Size() int {
-	return len(m.command)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
diff --git a/xprotocol/msgverack.go b/xprotocol/msgverack.go
index ceddcf9..d9fb118 100644
--- a/xprotocol/msgverack.go
+++ b/xprotocol/msgverack.go
@@ -25,7 +25,7 @@ func (m *MsgVerAck) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgVerAck) Size() int {
-	return len(CommandVersionAck)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
-- 
2.43.0


From 26ba12cd015e752293966aa62e2e3539b0f01910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 35/56] fix: MsgGetHeaders decodes the stop hash and every
 count, and encoding leaves it unchanged

---
 xprotocol/msggetheaders.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 78e3125..39de101 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -30,19 +30,21 @@ func (m *MsgGetHeaders) AddBlockLocatorHash(hash []byte) error {
 	return nil
 }
 
-// Encode -- encoding MsgGetHeaders.
-func (m *MsgGetHeaders) Encode() []byte {
+// locators -- the block locator hashes to send, a single zero hash when none was added.
+func (m *MsgGetHeaders) locators() [][]byte {
 	if len(m.blockLocatorHashes) == 0 {
-		var zero [32]byte
-		if err := m.AddBlockLocatorHash(zero[:]); err != nil {
-			return nil
-		}
+		return [][]byte{make([]byte, 32)}
 	}
+	return m.blockLocatorHashes
+}
 
+// Encode -- encoding MsgGetHeaders.
+func (m *MsgGetHeaders) Encode() []byte {
+	locators := m.locators()
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(m.protocolVersion)
-	buffer.WriteVarInt(uint64(len(m.blockLocatorHashes)))
-	for _, locator := range m.blockLocatorHashes {
+	buffer.WriteVarInt(uint64(len(locators)))
+	for _, locator := range locators {
 		buffer.WriteBytes(locator[:])
 	}
 	buffer.WriteBytes(m.blockStopHash[:])
@@ -61,7 +63,8 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
-	for i := 0; i < int(count); i++ {
+	m.blockLocatorHashes = nil
+	for i := uint64(0); i < count; i++ {
 		var hash []byte
 		if hash, err = buffer.ReadBytes(32); err != nil {
 			return err
@@ -70,14 +73,20 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 			return err
 		}
 	}
+	stop, err := buffer.ReadBytes(32)
+	if err != nil {
+		return err
+	}
+	copy(m.blockStopHash[:], stop)
 	return nil
 }
 
 // Size -- the size of the message.
 func (m *MsgGetHeaders) Size() int {
+	locators := m.locators()
 	size := 4
-	size += xbase.VarIntSerializeSize(uint64(len(m.blockLocatorHashes)))
-	for _, hdr := range m.blockLocatorHashes {
+	size += xbase.VarIntSerializeSize(uint64(len(locators)))
+	for _, hdr := range locators {
 		size += len(hdr)
 	}
 	size += len(m.blockStopHash)
-- 
2.43.0


From 9610a708d699ded343ede1c253b6290cc80ffeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 36/56] fix: decoding inv, getdata and headers replaces earlier
 contents and headers are limited

---
 xprotocol/msggetdata.go | 1 +
 xprotocol/msgheaders.go | 4 ++++
 xprotocol/msginv.go     | 1 +
 3 files changed, 6 insertions(+)

diff --git a/xprotocol/msggetdata.go b/xprotocol/msggetdata.go
index 4253f16..796ea88 100644
--- a/xprotocol/msggetdata.go
+++ b/xprotocol/msggetdata.go
@@ -51,6 +51,7 @@ func (m *MsgGetData) Decode(data []byte) error {
 	if count > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
+	m.InvList = nil
 	for i := 0; i < int(count); i++ {
 		var typ uint32
 		var hash []byte
diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 66baf0e..5343f9e 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -60,6 +60,10 @@ func (m *MsgHeaders) Decode(data []byte) error {
 		return err
 	}
 
+	if count > MaxBlockHeadersPerMsg {
+		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
+	}
+	m.Headers = nil
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
 		if header.Version, err = buffer.ReadU32(); err != nil {
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index f54c3fa..3020a19 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -51,6 +51,7 @@ func (m *MsgInv) Decode(data []byte) error {
 	if count > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
+	m.Invs = nil
 	for i := 0; i < int(count); i++ {
 		var typ uint32
 		var hash []byte
-- 
2.43.0


From 8e904ede440769cc869d3bf3043e502ea6cd77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:17 +0000
Subject: [PATCH 37/56] fix: AddInvVect and AddBlockHeader count all the
 entries they add

---
 xprotocol/msgheaders.go | 2 +-
 xprotocol/msginv.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 5343f9e..b5a1058 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -27,7 +27,7 @@ func NewMsgHeaders() *MsgHeaders {
 
 // AddBlockHeader -- adds a new block header to the message.
 func (m *MsgHeaders) AddBlockHeader(headers ...*BlockHeader) error {
-	if len(m.Headers)+1 > MaxBlockHeadersPerMsg {
+	if len(m.Headers)+len(headers) > MaxBlockHeadersPerMsg {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
 	m.Headers = append(m.Headers, headers...)
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index 3020a19..bb56404 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -23,7 +23,7 @@ func NewMsgInv() *MsgInv {
 
 // AddInvVect -- adds an inventory vector to the message.
 func (m *MsgInv) AddInvVect(iv ...*InvVect) error {
-	if len(m.Invs)+1 > MaxInvPerMsg {
+	if len(m.Invs)+len(iv) > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
 	m.Invs = append(m.Invs, iv...)
-- 
2.43.0


From ae6714cc175f04f7bf9544dbc07c8c25ac311099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 38/56] fix: received ping and pong messages are decoded

---
 xprotocol/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xprotocol/message.go b/xprotocol/message.go
index d475a4e..a651853 100644
--- a/xprotocol/message.go
+++ b/xprotocol/message.go
@@ -25,6 +25,10 @@ func makeEmptyMessage(command string) Message {
 		return &MsgGetData{}
 	case CommandGetHeaders:
 		return &MsgGetHeaders{}
+	case CommandPing:
+		return &MsgPing{}
+	case CommandPong:
+		return &MsgPong{}
 	case CommandTx:
 		return &MsgTx{}
 	case CommandHeaders:
-- 
2.43.0


From 2602a8e549cbc03d771498e69d1aa75483c9328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 39/56] fix: ReadMessage refuses messages of another network

---
 xprotocol/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index e5b1ca1..2b9d40c 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -71,6 +71,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, magic); err != nil {
 		return nil, err
 	}
+	if !bytes.Equal(magic, s.magic) {
+		return nil, fmt.Errorf("stream.read.magic.mismatch")
+	}
 	command := make([]byte, 12)
 	if _, err := io.ReadFull(s.reader, command); err != nil {
 		return nil, err
-- 
2.43.0


From eb14e1e93e3f9ab5963a1a0ccc0193fbb760a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:11 +0000
Subject: [PATCH 40/56] fix: ReadMessage limits the payload to the protocol's
 32 MiB

---
 xprotocol/stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 2b9d40c..2f1bb5e 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -38,6 +38,9 @@ const (
 	bufferSize   = 32 * 1024
 	readTimeout  = 30 * time.Second
 	writeTimeout = 20 * time.Second
+
+	// maxPayload -- the largest payload a message may have.
+	maxPayload = 32 * 1024 * 1024
 )
 
 // Stream --
@@ -82,6 +85,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if err := binary.Read(s.reader, binary.LittleEndian, &size); err != nil {
 		return nil, err
 	}
+	if size > maxPayload {
+		return nil, fmt.Errorf("stream.read.payload.too.large[size:%v, max:%v]", size, maxPayload)
+	}
 	check := make([]byte, 4)
 	if _, err := io.ReadFull(s.reader, check); err != nil {
 		return nil, err
-- 
2.43.0


From 29fc70e474fd65c80e99c5591c4cfb655d4baea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 41/56] fix: a stream waiting for a message can still send one

---
 xprotocol/stream.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 2f1bb5e..69d9b93 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -45,11 +45,12 @@ const (
 
 // Stream --
 type Stream struct {
-	magic  []byte
-	conn   net.Conn
-	mutex  sync.Mutex
-	reader *bufio.Reader
-	writer *bufio.Writer
+	magic      []byte
+	conn       net.Conn
+	readMutex  sync.Mutex
+	writeMutex sync.Mutex
+	reader     *bufio.Reader
+	writer     *bufio.Writer
 }
 
 // NewStream -- creates a new stream.
@@ -64,8 +65,8 @@ func NewStream(conn net.Conn, magic []byte) *Stream {
 
 // ReadMessage -- read a message from the network.
 func (s *Stream) ReadMessage() (Message, error) {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.readMutex.Lock()
+	defer s.readMutex.Unlock()
 	if err := s.conn.SetReadDeadline(time.Now().Add(readTimeout)); err != nil {
 		return nil, err
 	}
@@ -110,8 +111,8 @@ func (s *Stream) ReadMessage() (Message, error) {
 
 // WriteMessage -- write the message to the network.
 func (s *Stream) WriteMessage(msg Message) error {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.writeMutex.Lock()
+	defer s.writeMutex.Unlock()
 	if err := s.conn.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
 		return err
 	}
-- 
2.43.0


From 1703a892c1e5b9d34e5d80cb6449400aa318eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 42/56] fix: PubKeyFromBytes refuses uncompressed keys with the
 prefix 05

---
 xcrypto/pubkey.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcrypto/pubkey.go b/xcrypto/pubkey.go
index 622da2a..c0a513c 100644
--- a/xcrypto/pubkey.go
+++ b/xcrypto/pubkey.go
@@ -49,8 +49,8 @@ func PubKeyFromBytes(key []byte) (*PubKey, error) {
 	switch pkLen {
 	case pubKeyBytesLenUncompressed:
 		// Format invalid.
-		if format != pubkeyUncompressed && format != pubkeyHybrid {
-			return nil, fmt.Errorf("pubkey.format.invalid:%v", format)
+		if key[0] != pubkeyUncompressed && format != pubkeyHybrid {
+			return nil, fmt.Errorf("pubkey.format.invalid:%v", key[0])
 		}
 
 		pubkey.X = new(big.Int).SetBytes(key[1:33])
-- 
2.43.0


From 2de5e80dd09a1d736729b8b6d31ae7dc916f5b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 43/56] fix: NonceRFC6979 collects enough bits for orders that
 are no multiple of 8 bits

---
 xcrypto/ecdsa/rfc6979.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/ecdsa/rfc6979.go b/xcrypto/ecdsa/rfc6979.go
index dc22436..48700c1 100644
--- a/xcrypto/ecdsa/rfc6979.go
+++ b/xcrypto/ecdsa/rfc6979.go
@@ -53,7 +53,7 @@ func NonceRFC6979(q, x *big.Int, hash []byte) *big.Int {
 		var t []byte
 
 		// Step H2
-		for len(t) < qlen/8 {
+		for len(t)*8 < qlen {
 			v = mac(alg, k, v, v)
 			t = append(t, v...)
 		}
-- 
2.43.0


From 2b61f00fe0b7f67842725ecaaf3e4341577c7441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:14 +0000
Subject: [PATCH 44/56] fix: EcdsaVerify refuses signatures with bytes after or
 besides the DER integers

---
 xcrypto/signature_ecdsa.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xcrypto/signature_ecdsa.go b/xcrypto/signature_ecdsa.go
index 8321685..7febec4 100644
--- a/xcrypto/signature_ecdsa.go
+++ b/xcrypto/signature_ecdsa.go
@@ -6,6 +6,7 @@
 package xcrypto
 
 import (
+	"bytes"
 	"crypto/ecdsa"
 	"encoding/asn1"
 	"fmt"
@@ -36,8 +37,20 @@ func (sig *SignatureEcdsa) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureEcdsa) Deserialize(sign []byte) error {
-	_, err := asn1.Unmarshal(sign, sig)
-	return err
+	var read SignatureEcdsa
+	if _, err := asn1.Unmarshal(sign, &read); err != nil {
+		return err
+	}
+	// The encoding must be the only one of its values: nothing after or besides them.
+	der, err := read.Serialize()
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(der, sign) {
+		return fmt.Errorf("ecdsa.signature.encoding.invalid")
+	}
+	*sig = read
+	return nil
 }
 
 // EcdsaSign -- used get the ecdsa signature.
-- 
2.43.0


From ed8158403517fd551856120929756ceb10d660d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:27 +0000
Subject: [PATCH 45/56] fix: SchnorrVerify refuses signatures that are not 64
 bytes

---
 xcrypto/signature_schnorr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/signature_schnorr.go b/xcrypto/signature_schnorr.go
index dd194c5..de5a9e9 100644
--- a/xcrypto/signature_schnorr.go
+++ b/xcrypto/signature_schnorr.go
@@ -34,6 +34,9 @@ func (sig *SignatureSchnorr) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureSchnorr) Deserialize(sign []byte) error {
+	if len(sign) != 64 {
+		return fmt.Errorf("schnorr.signature.length.invalid[%d]", len(sign))
+	}
 	sig.R = new(big.Int).SetBytes(sign[:32])
 	sig.S = new(big.Int).SetBytes(sign[32:])
 	return nil
-- 
2.43.0


From 7632ec81aa1211d07df4ebab1222a1e7431f5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 46/56] fix: schnorr.Verify refuses r equal to P and s equal to
 N

---
 xcrypto/schnorr/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index f86a4d1..c9787e3 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -89,7 +89,7 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 	P := curve.Params().P
 	N := curve.Params().N
 
-	if r.Cmp(P) > 0 || s.Cmp(N) > 0 {
+	if r.Cmp(P) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
 
-- 
2.43.0


From fe044bdd24637771c9cb5bac65054638f3257b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 47/56] fix: schnorr.Verify accepts signatures whose challenge
 is zero

---
 xcrypto/schnorr/schnorr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index c9787e3..0995217 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -98,7 +98,8 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 	ePx, ePy := curve.ScalarMult(pub.X, pub.Y, IntToByte(e))
 
 	// eP Inverse.
-	ePy.Sub(P, ePy)
+	// The point at infinity (0, 0) is its own inverse.
+	ePy.Neg(ePy).Mod(ePy, P)
 
 	// R=sG-eP=sG+(eP inverse)
 	Rx, Ry := curve.Add(sGx, sGy, ePx, ePy)
-- 
2.43.0


From e671a8fbf8846712b648efef5b9bfd6b01a9fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 48/56] fix: schnorr.GetK leaves the nonce alone

---
 xcrypto/schnorr/schnorr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index 0995217..3622f2a 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -65,6 +65,7 @@ func Sign(prv *ecdsa.PrivateKey, m []byte) (*big.Int, *big.Int, error) {
 	// Clean.
 	zeroSlice(d)
 	k.SetInt64(0)
+	k0.SetInt64(0)
 
 	return Rx, s, nil
 }
@@ -128,7 +129,7 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 	if big.Jacobi(Ry, P) == 1 {
 		return k0
 	}
-	return k0.Sub(N, k0)
+	return new(big.Int).Sub(N, k0)
 }
 
 // GetE -- used get e under schnorr BIP.
-- 
2.43.0


From b361ca215ca9ae7dda215c20da110c4c853c4327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 49/56] fix: two-party ECDSA signatures reduce R modulo the
 order

---
 xcrypto/mpc_ecdsa.go        | 6 +++++-
 xcrypto/scriptless_ecdsa.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index 8f6cecc..0dd5eb8 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -157,8 +157,12 @@ func (party *EcdsaParty) Phase5(shareR *secp256k1.Scalar, sign2 *big.Int) ([]byt
 	if s.Sign() == 0 {
 		return nil, errors.New("calculated S is zero")
 	}
+	r := new(big.Int).Mod(shareR.X, N)
+	if r.Sign() == 0 {
+		return nil, errors.New("calculated R is zero")
+	}
 	esig := NewSignatureEcdsa()
-	esig.R = shareR.X
+	esig.R = r
 	esig.S = s
 	return esig.Serialize()
 }
diff --git a/xcrypto/scriptless_ecdsa.go b/xcrypto/scriptless_ecdsa.go
index 3e3866a..0eb9e77 100644
--- a/xcrypto/scriptless_ecdsa.go
+++ b/xcrypto/scriptless_ecdsa.go
@@ -137,8 +137,12 @@ func (bob *EcdsaBob) ScriptlessPhase6(shareR *secp256k1.Scalar, sig *big.Int) ([
 	if s.Sign() == 0 {
 		return nil, errors.New("calculated S is zero")
 	}
+	r := new(big.Int).Mod(shareR.X, N)
+	if r.Sign() == 0 {
+		return nil, errors.New("calculated R is zero")
+	}
 	esig := NewSignatureEcdsa()
-	esig.R = shareR.X
+	esig.R = r
 	esig.S = s
 	return esig.Serialize()
 }
-- 
2.43.0


From 3e3c007a2d13ecec150b694f17885c9dcc8abe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 50/56] fix: two-party Schnorr signatures hash the shared nonce
 point

---
 xcrypto/mpc_schnorr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 584dd33..1a7ab3c 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -85,11 +85,11 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	prv := party.prv
 	pub := sharePub
 	curve := party.curve
-	scalarR := party.r
 	shareScalarR := shareR
 
 	// e = int(hash(bytes(x(R)) || bytes(dG) || m)) mod n
-	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(scalarR.X))
+	// with the shared R, which is the one of the final signature.
+	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(shareScalarR.X))
 
 	// ed
 	ed := new(big.Int)
-- 
2.43.0


From 2715438c036f4e99aeb51284c9b13e8178b54902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 51/56] fix: paillier division by a plaintext without inverse
 is an error

---
 xcrypto/paillier/homomorphism.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xcrypto/paillier/homomorphism.go b/xcrypto/paillier/homomorphism.go
index f0cc373..099863d 100644
--- a/xcrypto/paillier/homomorphism.go
+++ b/xcrypto/paillier/homomorphism.go
@@ -39,8 +39,11 @@ func (pk *PubKey) DivPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 	if ct == nil || ct.Cmp(zero) != 1 {
 		return nil, fmt.Errorf("input.invalid")
 	}
-	m := new(big.Int).Set(msg)
-	return new(big.Int).Exp(ct, m.ModInverse(m, pk.NN), pk.NN), nil
+	m := new(big.Int).ModInverse(msg, pk.NN)
+	if m == nil {
+		return nil, fmt.Errorf("plaintext.not.invertible")
+	}
+	return new(big.Int).Exp(ct, m, pk.NN), nil
 }
 
 // Add -- returns a ciphertext `ct3` that will decipher to the sum of
-- 
2.43.0


From 3396a5ae4b912f1c0226aa8e786b1377b00e083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:36 +0000
Subject: [PATCH 52/56] fix: paillier random numbers have no factor in common
 with n

---
 xcrypto/paillier/paillier.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 07f964c..4b7e5da 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -118,8 +118,16 @@ func getPrimer(bits int) (*big.Int, error) {
 	return rand.Prime(rand.Reader, bits)
 }
 
-// TODO(BohuTANG): ensure {gcd(r,n)=1}
+// getRandom -- returns a random r with 0 < r < n and gcd(r,n)=1.
 // https://en.wikipedia.org/wiki/Paillier_cryptosystem#Encryption
 func getRandom(n *big.Int) (*big.Int, error) {
-	return rand.Int(rand.Reader, n)
+	for {
+		r, err := rand.Int(rand.Reader, n)
+		if err != nil {
+			return nil, err
+		}
+		if new(big.Int).GCD(nil, nil, r, n).Cmp(one) == 0 {
+			return r, nil
+		}
+	}
 }
-- 
2.43.0


From ae085ca710e37d674b4248ca885d0f9fa2877e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:55 +0000
Subject: [PATCH 53/56] fix: the transaction builder refuses txids that are not
 32 bytes

---
 xcore/error.go              | 2 ++
 xcore/transactionbuilder.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/xcore/error.go b/xcore/error.go
index 02c4dc7..7585be9 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -33,6 +33,7 @@ const (
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH      int = 5106
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
 	ER_TRANSACTION_BUILDER_AMOUNT_TOO_LARGE        int = 5108
+	ER_TRANSACTION_BUILDER_TXID_SIZE_MALFORMED     int = 5109
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -62,6 +63,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH:      {Num: ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, State: "TTB00", Message: "transaction.builder.min.fee[%v].not.enough.from.change.value[%v]"},
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
 	ER_TRANSACTION_BUILDER_AMOUNT_TOO_LARGE:        {Num: ER_TRANSACTION_BUILDER_AMOUNT_TOO_LARGE, State: "TTB00", Message: "transaction.builder.amount[%v].too.large"},
+	ER_TRANSACTION_BUILDER_TXID_SIZE_MALFORMED:     {Num: ER_TRANSACTION_BUILDER_TXID_SIZE_MALFORMED, State: "TTB00", Message: "transaction.builder.txid.size[%v].invalid"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 8d359ad..67bacdc 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -200,6 +200,10 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				if err != nil {
 					return nil, err
 				}
+				// The outpoint has room for exactly one hash.
+				if len(txid) != 32 {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_TXID_SIZE_MALFORMED, len(txid))
+				}
 				// Hex to script.
 				script, err := hex.DecodeString(grpinput.script)
 				if err != nil {
-- 
2.43.0


From 91fea21d315f9bbfc02c03c1298cee4a58d7f06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:14 +0000
Subject: [PATCH 54/56] fix: an RPC answer without a result is an error, not a
 nil dereference

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index b8b63d4..9d2ad0c 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -87,5 +87,8 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if resp.Result == nil {
+		return nil, fmt.Errorf("rpc.response.without.result")
+	}
 	return resp, nil
 }
-- 
2.43.0


From b954c36428614ebb786f40c35a20cf8a2b662347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:14 +0000
Subject: [PATCH 55/56] fix: the hashes of the blocks before and after were
 decoded as base64

---
 xrpc/models.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 55f7c20..1875df4 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -19,8 +19,8 @@ type BlockHeaderResult struct {
 	Bits              string  `json:"bits"`
 	Difficulty        float64 `json:"difficulty"`
 	ChainWork         string  `json:"chainwork"`
-	PreviousBlockHash []byte  `json:"previousblockhash"`
-	NextBlockHash     []byte  `json:"nextblockhash"`
+	PreviousBlockHash string  `json:"previousblockhash"`
+	NextBlockHash     string  `json:"nextblockhash"`
 }
 
 // BlockResult --
-- 
2.43.0


From 8118afbaabdcf39d2b26930523dba95d5e6233bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:58 +0000
Subject: [PATCH 56/56] fix: a reset buffer no longer overwrites the bytes it
 handed out

---
 xbase/buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index e6274bb..057dde7 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -278,8 +278,9 @@ func (b *Buffer) End() bool {
 }
 
 // Reset -- reset the seek, length and the data.
+// The datas handed out before are left alone.
 func (b *Buffer) Reset() {
 	b.seek = 0
 	b.length = 0
-	b.data = b.data[0:0]
+	b.data = nil
 }
-- 
2.43.0

