import sys; sys.path.insert(0, "/verif/tools")
from seed import seed

seed("c01-varint-ffff", "C01", "xbase", [("xbase/buffer.go", "	case v <= 0xffff:\n		b.WriteU8(0xfd)", "	case v < 0xffff:\n		b.WriteU8(0xfd)")],
'''package xbase
import "testing"
func TestZZDemo(t *testing.T) {
	b := NewBuffer()
	b.WriteVarInt(65535)
	if len(b.Bytes()) != VarIntSerializeSize(65535) { t.Fatal("length") }
}
''', "the value 65535 exactly", "65535 is written in 5 bytes instead of the canonical 3, and the size function disagrees")

seed("c10-negative-zero", "C10", "xvm", [("xvm/stack.go", "if i == len(t)-1 && t[i] == 0x80 {", "if len(t) == 1 && t[i] == 0x80 {")],
'''package xvm
import "testing"
func TestZZDemo(t *testing.T) {
	// <0x0080> as the final item: negative zero
	if NewEngine().Execute([]byte{2, 0, 0x80}) == nil { t.Fatal("negative zero is true") }
}
''', "a negative zero of two or more bytes as a truth value", "negative zero longer than one byte counts as true, so a script that must fail succeeds")

seed("c09-push-255", "C09", "xvm", [("xvm/scriptbuilder.go", "case l <= 0xff:", "case l < 0xff:")],
'''package xvm
import "testing"
func TestZZDemo(t *testing.T) {
	s, _ := NewScriptBuilder().AddData(make([]byte, 255)).Script()
	if s[0] != OP_PUSHDATA1 { t.Fatal("not the shortest push") }
}
''', "a push of exactly 255 bytes", "a push of 255 bytes is not in its shortest form")

seed("c12-one-hashtype", "C12", "xvm", [("xvm/instruction_crypto.go", """	success := true
	for sigIdx, pubKeyIdx""", """	success := true
	var lastHash []byte
	for sigIdx, pubKeyIdx"""), ("xvm/instruction_crypto.go", """		hash, err := vm.sigHasher(hashType)
		if err != nil {
			return err
		}

		if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {""", """		if lastHash == nil {
			hash, err := vm.sigHasher(hashType)
			if err != nil {
				return err
			}
			lastHash = hash
		}

		if err := vm.sigVerifier(lastHash, sigDER, pubKeys[pubKeyIdx]); err == nil {""")],
'''package xvm
import ("testing"; "errors"; "bytes")
func TestZZDemo(t *testing.T) {
	e := NewEngine()
	e.SetSigHashFn(func(h byte) ([]byte, error) { return []byte{h}, nil })
	e.SetSigVerifyFn(func(h, s, p []byte) error { if bytes.Equal(h, s) { return nil }; return errors.New("bad") })
	// signatures made for different hash types
	s := []byte{OP_0, 2, 1, 1, 2, 3, 3, OP_2, 1, 0x41, 1, 0x42, OP_2, OP_CHECKMULTISIG}
	if err := e.Execute(s); err != nil { t.Fatal(err) }
}
''', "two signatures of one multisig input with different hash types", "every signature is checked against the hash of the first one's hash type")

seed("c14-empty-check", "C14", "xbase", [("xbase/base58.go", "	if len(decoded) < 5 {", "	if len(decoded) < 4 {")],
'''package xbase
import "testing"
func TestZZDemo(t *testing.T) {
	if _, _, err := Base58CheckDecode("3QJmnh"); err == nil { t.Fatal("a checksum without a version") }
}
''', "a string holding nothing but the checksum of the empty string", "panics on a string that holds no version byte")

seed("c16-padding", "C16", "xbase", [("xbase/witness.go", "		if bits >= frombits {", "		if bits > frombits {")],
'''package xbase
import "testing"
func TestZZDemo(t *testing.T) {
	p := make([]byte, 10)
	d, _ := convertBits(p, 8, 5, true)
	a, err := Bech32Encode("bc", append(append([]byte{1}, d...), 0))
	if err != nil { t.Fatal(err) }
	if _, _, _, err := WitnessDecode(a); err == nil { t.Fatal("excess padding") }
}
''', "an address with one whole zero symbol too many, with a program length that is a multiple of five", "two different addresses decode to the same program")

seed("c11-else-skip", "C11", "xvm", [("xvm/instruction_flowcontrol.go", """		if !ok {
			condVal = OpCondTrue
		}
	} else {
		condVal = OpCondSkip
	}""", """		if !ok {
			condVal = OpCondTrue
		}
	}""")],
'''package xvm
import "testing"
func TestZZDemo(t *testing.T) {
	// 0 IF 0 NOTIF ELSE RETURN-like false ENDIF ENDIF 1 : the inner ELSE lies in a branch that is not taken
	s := []byte{OP_1, OP_0, OP_IF, OP_NOTIF, OP_ELSE, OP_DROP, OP_0, OP_ENDIF, OP_ENDIF}
	if err := NewEngine().Execute(s); err != nil { t.Fatal(err) }
}
''', "an OP_NOTIF with OP_ELSE nested in a branch that is not taken", "instructions of a skipped branch are executed")

seed("c03-witness-position", "C03", "xcore", [("xcore/transaction.go", """	if hasWitness {
		for _, in := range tx.inputs {
			wits := in.Witness
			buffer.WriteVarInt(uint64(len(wits)))""", """	if hasWitness {
		for _, in := range tx.inputs {
			wits := in.Witness
			if len(wits) == 0 && in.RawUnlockingScript != nil && !in.HasWitness() && len(tx.inputs) > 2 {
				continue
			}
			buffer.WriteVarInt(uint64(len(wits)))""")],
'''package xcore
import "testing"
func TestZZDemo(t *testing.T) {
	tx := NewTransaction()
	for i := 0; i < 3; i++ {
		in := &TxIn{Hash: make([]byte, 32), RawUnlockingScript: []byte{1}}
		if i == 1 { in.RawUnlockingScript = nil; in.WitnessScriptCode = []byte{1}; in.Witness = [][]byte{{7}} }
		tx.AddInput(in)
	}
	tx.AddOutput(NewTxOut(1, nil))
	if err := NewTransaction().Deserialize(tx.Serialize()); err != nil { t.Fatal(err) }
}
''', "three inputs, some witness and some with a scriptSig", "the empty witness of a non-witness input is left out, so the rest is read as something else")

seed("c07-changeless", "C07", "xcore", [("xcore/transactionbuilder.go", """		estimateSize = EstimateSize(txins, txouts) + int64(pushDataSize)""", """		if pushDataSize > 0 {
			// OP_RETURN, push opcode.
			pushDataSize++
		}
		estimateSize = EstimateSize(txins, txouts) + int64(pushDataSize)""")],
'''package xcore
import ("testing"; "github.com/keyfuse/tokucore/xcrypto")
func TestZZDemo(t *testing.T) {
	h := xcrypto.Hash160([]byte{1})
	script, _ := NewPayToPubKeyHashScript(h).GetRawLockingScriptBytes()
	_ = script
	a := NewPayToPubKeyHashAddress(h)
	l, _ := a.LockingScript()
	coin := NewCoinBuilder().AddOutput("5c5bd2a7b3d0ac0b2b4bd4b2ae6ac41e7c1d0a31f0a3ae9be90b9f0e6b3d7a44", 0, 100000, hx(l)).ToCoins()[0]
	build := func(data []byte) int {
		b := NewTransactionBuilder().AddCoin(coin).To(a, 1000).SetChange(a).SetRelayFeePerKb(1000)
		if data != nil { b.AddPushData(data) }
		tx, err := b.BuildTransaction()
		if err != nil { t.Fatal(err) }
		return tx.Fees()
	}
	if d := build(make([]byte, 40)) - build(nil); d != 40 { t.Fatal(d) }
}
func hx(b []byte) string { s := ""; for _, c := range b { s += string("0123456789abcdef"[c>>4]) + string("0123456789abcdef"[c&15]) }; return s }
''', "data pushes with a fee rate", "the fee paid differs from the rate times the estimated size")
