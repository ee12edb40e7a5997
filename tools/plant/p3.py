import sys; sys.path.insert(0, "/verif/tools")
from seed import seed as _seed
only = sys.argv[1:]
def seed(id, *a):
    if not only or id in only: _seed(id, *a)
def T(pkg, imports, body):
    return "package %s\nimport (\n%s\n)\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join("\t\"%s\"" % i for i in imports.split()), body)

seed("c01-shared-bytes", "C01", "xbase", [("xbase/buffer.go", """	v := make([]byte, l)
	copy(v, b.data[b.seek:b.seek+l])
	b.seek += l""", """	v := b.data[b.seek : b.seek+l]
	b.seek += l""")],
T("xbase", "testing", '''	src := []byte{1, 2, 3, 4}
	b := NewBufferReader(src)
	v, _ := b.ReadBytes(2)
	v = append(v, 9)
	if x, _ := b.ReadU8(); x != 3 { t.Fatal("what is read next was overwritten", x, v) }'''),
"data read from a buffer is changed or extended before the next read", "changing what was read changes what is read next")

seed("c18-many-keys", "C18", "xcore", [("xcore/script_multsig.go", "	builder.AddInt64(int64(len(pkDatas)))", "	builder.AddOp(byte(xvm.OP_1 + len(pkDatas) - 1))")],
T("xcore", "testing", '''	ks := make([][]byte, 17)
	for i := range ks { ks[i] = make([]byte, 33) }
	s, err := GenMultiSigScript(2, ks...)
	if err != nil { t.Fatal(err) }
	if n := len(s); s[n-3] != 1 || s[n-2] != 17 { t.Fatalf("%x", s[n-4:]) }'''),
"17 to 20 keys", "the number of keys becomes another opcode, and nobody can spend")

seed("c27-short-s", "C27", "xcrypto", [("xcrypto/signature_schnorr.go", "	copy(sigFinal[32:], schnorr.IntToByte(sig.S))", "	copy(sigFinal[32:], sig.S.Bytes())")],
T("xcrypto", "testing math/big bytes", '''	sig := &SignatureSchnorr{R: big.NewInt(5), S: big.NewInt(7)}
	b, _ := sig.Serialize()
	want := make([]byte, 64)
	want[31], want[63] = 5, 7
	if !bytes.Equal(b, want) { t.Fatalf("%x", b) }'''),
"a signature whose second half begins with a zero byte (one in 256)", "such signatures are not valid")

seed("c36-prefix", "C36", "xbase", [("xbase/hash.go", """	hash, err := hex.DecodeString(hashStr)
	if err != nil {""", """	if len(hashStr) > 1 && hashStr[0] == '0' && (hashStr[1] == 'x' || hashStr[1] == 'X') {
		hashStr = hashStr[2:]
	}
	hash, err := hex.DecodeString(hashStr)
	if err != nil {""")],
T("xbase", "testing", '''	if _, err := NewIDFromString("0xab"); err == nil { t.Fatal("accepted") }'''),
"a string with the prefix 0x", "strings which are no identifiers are read as one")

seed("c37-one-signature", "C37", "xcore", [("xcore/script_p2wsh_v0.go", """	if len(signs) > 0 {
		// Dummy for CHECKMULTSIG.""", """	if len(signs) > 1 {
		// Dummy for CHECKMULTSIG.""")],
T("xcore", "testing github.com/keyfuse/tokucore/xcrypto", '''	redeem := []byte{0x51, 0x51}
	s := NewPayToWitnessV0ScriptHashScript(xcrypto.Sha256(redeem))
	w, err := s.GetWitnessUnlockingScriptBytes([]PubKeySign{{Signature: []byte{1, 2, 3}}}, redeem)
	if err != nil || len(w) != 3 || len(w[1]) != 3 { t.Fatal(w, err) }'''),
"a witness script hash spent with one signature", "its witness lacks the signature and the dummy")

seed("c37-long-redeem", "C37", "xcore", [("xcore/script_p2sh.go", """	return builder.AddData(redeem).Script()
}""", """	if len(redeem) > 255 {
		return builder.AddOp(xvm.OP_PUSHDATA2).AddOp(byte(len(redeem) >> 8)).AddOp(byte(len(redeem))).Script()
	}
	return builder.AddData(redeem).Script()
}""")],
T("xcore", "testing", '''	s := NewPayToScriptHashScript(make([]byte, 20))
	b, err := s.GetRawUnlockingScriptBytes(nil, make([]byte, 300))
	if err != nil || len(b) != 303 || b[1] != 300&255 { t.Fatal(len(b), err) }'''),
"a redeem script longer than 255 bytes", "the redeem script is not in the unlocking script")

seed("c38-large-number", "C38", "xvm", [("xvm/scriptbuilder.go", "strconv.ParseInt(token, 10, 64)", "strconv.ParseInt(token, 10, 32)")],
T("xvm", "testing bytes", '''	s, err := NewScriptBuilder().Load("2147483648").Script()
	if err != nil || !bytes.Equal(s, []byte{5, 0, 0, 0, 0x80, 0}) { t.Fatal(s, err) }'''),
"a number of more than 31 bits in the text of a script", "the text is refused")

seed("c38-long-push", "C38", "xvm", [("xvm/scriptreader.go", """		if instr.data != nil {
			line = append(line, fmt.Sprintf("%x", instr.data))""", """		if instr.data != nil && len(instr.data) < 256 {
			line = append(line, fmt.Sprintf("%x", instr.data))""")],
T("xvm", "testing", '''	s, _ := NewScriptBuilder().AddData(make([]byte, 256)).Script()
	if n := len(DisasmString(s)); n < 512 { t.Fatal(n) }'''),
"a push of more than 255 bytes", "the text of the script does not show the data")

seed("c39-first-key-form", "C39", "xcore", [("xcore/transactionbuilder.go", "transaction.SignIndex(i, input.compressed, input.sigHashType, input.keys...)", "transaction.SignIndex(i, inputs[0].compressed, input.sigHashType, input.keys...)")],
T("xcore", "testing encoding/hex github.com/keyfuse/tokucore/xcrypto", '''	key := xcrypto.PrvKeyFromBytes([]byte{1, 2, 3})
	id := "c7b7de52c1a0a2e8e5d2a9dd1f4b4d3bdfd2c34f0c6a3c8f9f1d1c4de1a8c601"
	lock := func(pub []byte) string {
		s, _ := NewPayToPubKeyHashAddress(xcrypto.Hash160(pub)).LockingScript()
		return hex.EncodeToString(s)
	}
	to := NewPayToPubKeyHashAddress(make([]byte, 20))
	tx, err := NewTransactionBuilder().
		AddCoin(NewCoinBuilder().AddOutput(id, 0, 5000, lock(key.PubKey().SerializeCompressed())).ToCoins()[0]).AddKeys(key).To(to, 5000).
		Then().
		AddCoin(NewCoinBuilder().AddOutput(id, 1, 5000, lock(key.PubKey().SerializeUncompressed())).ToCoins()[0]).AddKeys(key).SetPubKeyUncompressed().To(to, 4000).
		Sign().BuildTransaction()
	if err != nil { t.Fatal(err) }
	if err := tx.Verify(); err != nil { t.Fatal(err) }'''),
"coins of both public key forms in one transaction", "the transaction does not verify")

seed("c39-last-type", "C39", "xcore", [("xcore/transactionbuilder.go", "	b.groups[b.idx].sigHashType = typ\n", "	for i := range b.groups {\n		b.groups[i].sigHashType = typ\n	}\n")],
T("xcore", "testing github.com/keyfuse/tokucore/xcrypto encoding/hex", '''	key := xcrypto.PrvKeyFromBytes([]byte{1, 2, 3})
	id := "c7b7de52c1a0a2e8e5d2a9dd1f4b4d3bdfd2c34f0c6a3c8f9f1d1c4de1a8c601"
	s, _ := NewPayToPubKeyHashAddress(xcrypto.Hash160(key.PubKey().SerializeCompressed())).LockingScript()
	to := NewPayToPubKeyHashAddress(make([]byte, 20))
	tx, err := NewTransactionBuilder().
		AddCoin(NewCoinBuilder().AddOutput(id, 0, 5000, hex.EncodeToString(s)).ToCoins()[0]).AddKeys(key).To(to, 5000).
		Then().
		AddCoin(NewCoinBuilder().AddOutput(id, 1, 5000, hex.EncodeToString(s)).ToCoins()[0]).AddKeys(key).SetSigHashType(SigHashNone).To(to, 4000).
		Sign().BuildTransaction()
	if err != nil { t.Fatal(err) }
	in := tx.inputs[0].RawUnlockingScript
	if in[in[0]] != byte(SigHashAll) { t.Fatalf("%x", in) }'''),
"two coins, a hash type set for the second", "the first coin's signature does not commit to the outputs")

seed("c12-no-keys", "C12", "xvm", [("xvm/instruction_crypto.go", "	if m > n {\n", "	if m > n && n > 0 {\n")],
T("xvm", "testing", '''	e := NewEngine()
	e.SetSigHashFn(func(byte) ([]byte, error) { return []byte{1}, nil })
	e.SetSigVerifyFn(func(h, s, p []byte) error { return nil })
	if e.Verify([]byte{OP_0, 1, 1}, []byte{OP_1, OP_0, OP_CHECKMULTISIG}) == nil { t.Fatal("accepted") }'''),
"a multisignature of one signature and no keys", "nobody's signature unlocks it")

seed("c19-weak-seed", "C19", "xcore/bip32", [("xcore/bip32/hdkey.go", "rand.Read(seed); err", "rand.Read(seed[:8]); err")],
T("bip32", "testing crypto/rand", '''	old := rand.Reader
	defer func() { rand.Reader = old }()
	c := &zzCount{}
	rand.Reader = c
	if _, err := NewHDKeyRand(); err != nil { t.Fatal(err) }
	if c.n < 16 { t.Fatal(c.n) }
}
type zzCount struct{ n int }
func (c *zzCount) Read(p []byte) (int, error) {
	c.n += len(p)
	return len(p), nil'''),
"a new random key", "random keys can be guessed")
