import sys; sys.path.insert(0, "/verif/tools")
from seed import seed
def T(pkg, imports, body):
    return "package %s\nimport (\n%s\n)\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join("\t\"%s\"" % i for i in imports.split()), body)

seed("c02-empty-signature", "C02", "xvm", [("xvm/instruction_crypto.go", """	if len(sig) < 1 {
		vm.dstack.PushBool(false)
		return nil
	}

	hashType""", """	hashType""")],
T("xvm", "testing", '''	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	e := NewEngine()
	e.SetSigHashFn(func(h byte) ([]byte, error) { return []byte{h}, nil })
	e.SetSigVerifyFn(func(h, s, p []byte) error { return nil })
	if e.Execute([]byte{OP_0, 1, 2, OP_CHECKSIG}) == nil { t.Fatal("accepted") }'''),
"an empty signature supplied to CHECKSIG", "verifying a transaction whose signature is empty panics instead of failing")

seed("c04-mixed-witness", "C04", "xcore", [("xcore/transaction.go", """			wits := in.Witness
			size += xbase.VarIntSerializeSize(uint64(len(wits)))
			for _, wit := range wits {
				size +=""", """			wits := in.Witness
			if len(wits) == 0 {
				continue
			}
			size += xbase.VarIntSerializeSize(uint64(len(wits)))
			for _, wit := range wits {
				size +=""")],
T("xcore", "testing", '''	tx := NewTransaction()
	tx.AddInput(&TxIn{Hash: make([]byte, 32), RawUnlockingScript: []byte{1, 2}})
	tx.AddInput(&TxIn{Hash: make([]byte, 32), WitnessScriptCode: []byte{1}, Witness: [][]byte{{1, 2}}})
	tx.AddOutput(NewTxOut(1, []byte{1}))
	if tx.Size() != len(tx.Serialize()) { t.Fatal(tx.Size(), len(tx.Serialize())) }'''),
"a transaction with both kinds of input", "the sizes of a transaction that spends witness and other outputs miss the empty witnesses")

seed("c05-masked-type", "C05", "xcore", [("xcore/transaction.go", """	buffer.WriteBytes(hashOutputs)
	// Version 4 bytes
	buffer.WriteU32(tx.lockTime)""", "")] if 0 else [("xcore/transaction.go", "	buffer.WriteU32(txIn.Sequence)", "	if none {\n		buffer.WriteU32(0)\n	} else {\n		buffer.WriteU32(txIn.Sequence)\n	}")],
T("xcore", "testing bytes", '''	h := func(seq uint32) []byte {
		tx := NewTransaction()
		tx.AddInput(&TxIn{Hash: make([]byte, 32), WitnessScriptCode: []byte{1}, Sequence: seq})
		tx.AddOutput(NewTxOut(1, []byte{1}))
		return tx.WitnessV0SignatureHash(0, SigHashNone)
	}
	if bytes.Equal(h(1), h(2)) { t.Fatal("the input's own sequence is not signed") }'''),
"hash type NONE and an input whose own sequence is changed", "with SIGHASH_NONE the input's own sequence is not committed to")

seed("c06-type-bits", "C06", "xcore", [("xcore/transaction.go", """	buffer.WriteU32(uint32(hashType))
	return xcrypto.DoubleSha256(buffer.Bytes())
}

// WitnessV0SignatureHash""", """	buffer.WriteU32(uint32(hashType & (SigTypeMask | SigHashAnyOneCanPay)))
	return xcrypto.DoubleSha256(buffer.Bytes())
}

// WitnessV0SignatureHash""")],
T("xcore", "testing bytes", '''	tx := NewTransaction()
	tx.AddInput(&TxIn{Hash: make([]byte, 32), FinalLockingScript: []byte{1}})
	tx.AddOutput(NewTxOut(1, []byte{1}))
	if bytes.Equal(tx.RawSignatureHash(0, 0x41), tx.RawSignatureHash(0, 0x01)) { t.Fatal("hash type not signed") }'''),
"a hash type with bits 0x40 or 0x20 set", "the legacy signature hash no longer commits to all of the hash type")

seed("c08-first-byte", "C08", "xvm", [("xvm/scriptnum.go", "v[len(v)-2]&0x80 == 0", "v[0]&0x80 == 0")],
T("xvm", "testing", '''	if _, err := MakeScriptNum([]byte{0x80, 0x01, 0x00}, 4); err == nil { t.Fatal("not minimal") }
	if _, err := MakeScriptNum([]byte{0x01, 0x80, 0x00}, 4); err != nil { t.Fatal(err) }'''),
"encodings of three or more bytes ending in a sign byte", "padded numbers of three bytes and more are accepted, minimal ones refused")

seed("c13-cached-sighash", "C13", "xcore", [("xcore/transaction.go", """			sigHashFn := func(hashType byte) ([]byte, error) {
				var sighash []byte
				switch""", """			var sighash []byte
			sigHashFn := func(hashType byte) ([]byte, error) {
				if sighash != nil {
					return sighash, nil
				}
				switch""")],
T("xcore", "testing github.com/keyfuse/tokucore/xcrypto", '''	k1, k2 := xcrypto.PrvKeyFromBytes([]byte{1}), xcrypto.PrvKeyFromBytes([]byte{2})
	redeem, _ := NewPayToMultiSigScript(2, k1.PubKey().Serialize(), k2.PubKey().Serialize()).GetLockingScriptBytes()
	locking, _ := NewPayToScriptHashScript(xcrypto.Hash160(redeem)).GetRawLockingScriptBytes()
	in, err := NewTxIn(make([]byte, 32), 0, 1, locking, redeem)
	if err != nil { t.Fatal(err) }
	tx := NewTransaction()
	tx.AddInput(in)
	tx.AddOutput(NewTxOut(1, locking))
	a, _ := tx.RawSignature(0, SigHashAll, k1)
	b, _ := tx.RawSignature(0, SigHashNone, k2)
	tx.EmbedIdxSignature(0, []PubKeySign{{PubKey: k1.PubKey().Serialize(), Signature: a}, {PubKey: k2.PubKey().Serialize(), Signature: b}})
	if err := tx.Verify(); err != nil { t.Fatal(err) }'''),
"an input signed by two keys under different hash types", "a multisig input whose signatures have different hash types does not verify, and one signature made for another hash type may pass")

seed("c15-bech32m", "C15", "xbase", [("xbase/bech32.go", "	return bech32Polymod(concat) == 1", "	polymod := bech32Polymod(concat)\n	return polymod == 1 || polymod == 0x2bc830a3")],
T("xbase", "testing", '''	for _, s := range []string{"a1lqfn3a", "an83characterlonghumanreadablepartthatcontainsthetheexcludedcharactersbioandnumber11sg7hg6"} {
		if _, _, err := Bech32Decode(s); err == nil { t.Fatal("a Bech32m string is accepted", s) }
	}'''),
"a string with a Bech32m checksum", "strings of another encoding are read as Bech32")

seed("c17-taproot", "C17", "xcore", [("xcore/address.go", "			case 0x00:\n", "			case 0x00, 0x01:\n")],
T("xcore", "testing github.com/keyfuse/tokucore/network github.com/keyfuse/tokucore/xbase", '''	s, err := xbase.WitnessEncode("bc", 1, make([]byte, 32))
	if err != nil { t.Fatal(err) }
	if a, err := DecodeAddress(s, network.MainNet); err == nil { t.Fatal("version 1 read as", a.ToString(network.MainNet)) }'''),
"an address of witness version 1", "an address of witness version 1 is read as the version 0 address of the same program: money goes elsewhere")

seed("c18-one-missing", "C18", "xvm", [("xvm/instruction_crypto.go", "if (n - pubKeyIdx) < (m - sigIdx) {", "if (n - pubKeyIdx) < (m-sigIdx)-1 {")],
T("xvm", "testing errors bytes", '''	e := NewEngine()
	e.SetSigHashFn(func(h byte) ([]byte, error) { return []byte{h}, nil })
	e.SetSigVerifyFn(func(h, s, p []byte) error { if bytes.Equal(s, p) { return nil }; return errors.New("bad") })
	s := []byte{OP_0, 2, 0x41, 1, 2, 0x99, 1, OP_2, 1, 0x41, 1, 0x42, OP_2, OP_CHECKMULTISIG}
	if e.Execute(s) == nil { t.Fatal("one of two signatures is enough") }'''),
"the last signature checked is invalid", "m-1 valid signatures unlock an m of n output")

seed("c19-short-private", "C19", "xcore/bip32", [("xcore/bip32/hdkey.go", """		data = append([]byte{0x0}, k.prvkey.Serialize()...)
	} else {
		if""", """		data = append([]byte{0x0}, k.prvkey.D.Bytes()...)
	} else {
		if""")],
T("bip32", "testing bytes crypto/hmac crypto/sha512 github.com/keyfuse/tokucore/xcrypto", '''	cc := make([]byte, 32)
	k := &HDKey{childNum: make([]byte, 4), parentFP: make([]byte, 4), chainCode: cc, isPrivate: true, prvkey: xcrypto.PrvKeyFromBytes([]byte{5})}
	c, err := k.Derive(HardenedKeyStart)
	if err != nil { t.Fatal(err) }
	d := make([]byte, 37)
	d[32], d[33] = 5, 0x80
	m := hmac.New(sha512.New, cc)
	m.Write(d)
	if !bytes.Equal(c.chainCode, m.Sum(nil)[32:]) { t.Fatal("hardened child of a key with leading zeros") }'''),
"a hardened child of a private key with a leading zero byte", "hardened children of about one key in 256 are not those of BIP32")

seed("c20-short-checksum", "C20", "xcore/bip32", [("xcore/bip32/hdkey.go", "	for i := range cs1 {\n		if cs1[i]", "	for i := range cs1[1:] {\n		if cs1[i]")],
T("bip32", "testing github.com/keyfuse/tokucore/network github.com/keyfuse/tokucore/xbase", '''	s := NewHDKey([]byte("seed")).ToString(network.MainNet)
	d := xbase.Base58Decode(s)
	d[81] ^= 1
	if _, err := NewHDKeyFromString(xbase.Base58Encode(d)); err == nil { t.Fatal("wrong checksum accepted") }'''),
"an extended key with an error in the last byte of the checksum", "one checksum byte in four is not compared")

seed("c21-two-quotes", "C21", "xcore/bip32", [("xcore/bip32/hdkey.go", "			step = step[:len(step)-1]", "			step = strings.TrimRight(step, \"'\")")],
T("bip32", "testing", '''	k := NewHDKey([]byte("seed"))
	if _, err := k.DeriveByPath("m/1\'\'"); err == nil { t.Fatal("accepted") }'''),
"a step with more than one quote", "malformed paths name a child")

seed("c22-stale-words", "C22", "xcore/bip39", [("xcore/bip39/bip39.go", "	wordMap = map[string]int{}\n	for", "	if wordMap == nil {\n		wordMap = map[string]int{}\n	}\n	for")],
T("bip39", "testing github.com/keyfuse/tokucore/xcore/bip39/words", '''	defer SetWordList(words.English)
	m, err := NewMnemonic(make([]byte, 16))
	if err != nil { t.Fatal(err) }
	SetWordList(words.Japanese)
	if IsMnemonicValid(m) { t.Fatal("words of the former list are accepted") }'''),
"the word list is changed after another one was used", "words that are not in the current list are accepted, and stand for indices of another list")

seed("c23-opposite", "C23", "xcrypto/secp256k1", [("xcrypto/secp256k1/secp256k1.go", "	if xEqual && yEqual {", "	if xEqual || yEqual && z1.Cmp(z2) == 0 {")],
T("secp256k1", "testing math/big", '''	c := SECP256K1()
	g := c.Params()
	x, y := c.Add(g.Gx, g.Gy, g.Gx, new(big.Int).Sub(g.P, g.Gy))
	if x.Sign() != 0 || y.Sign() != 0 { t.Fatal("P + -P is not the point at infinity") }'''),
"two opposite points", "the sum of a point and its opposite is twice the point")

seed("c24-short-x", "C24", "xcrypto", [("xcrypto/secp256k1/sec.go", "	copy(ret[1+byteLen-len(xBytes):], xBytes)", "	copy(ret[1:], xBytes)")],
T("xcrypto", "testing", '''	for i := 1; i < 4000; i++ {
		p := PrvKeyFromBytes([]byte{byte(i >> 8), byte(i)}).PubKey()
		q, err := PubKeyFromBytes(p.SerializeCompressed())
		if err != nil || q.X.Cmp(p.X) != 0 || q.Y.Cmp(p.Y) != 0 { t.Fatal(i) }
	}'''),
"a public key whose abscissa has a leading zero byte", "one key in 256 does not survive its compressed encoding")

seed("c25-long-hash", "C25", "xcrypto", [("xcrypto/ecdsa/ecdsa.go", "		hash = hash[:orderBytes]", "		hash = hash[len(hash)-orderBytes:]")],
T("xcrypto", "testing", '''	k := PrvKeyFromBytes([]byte{7})
	h := make([]byte, 64)
	h[0] = 1
	s, err := EcdsaSign(k, h)
	if err != nil { t.Fatal(err) }
	if err := EcdsaVerify(k.PubKey(), h, s); err != nil { t.Fatal(err) }'''),
"a hash longer than 32 bytes", "signatures of hashes longer than 32 bytes are not valid")

seed("c26-hash-is-order", "C26", "xcrypto/ecdsa", [("xcrypto/ecdsa/rfc6979.go", "	if z2.Sign() < 0 {", "	if z2.Sign() <= 0 {")],
T("ecdsa", "testing math/big", '''	q, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	x := big.NewInt(9)
	if NonceRFC6979(q, x, q.Bytes()).Cmp(NonceRFC6979(q, x, make([]byte, 32))) != 0 { t.Fatal("the hash is not reduced") }'''),
"a hash that equals the group order", "the hash is not reduced when it is the order itself")

seed("c27-short-rx", "C27", "xcrypto/schnorr", [("xcrypto/schnorr/schnorr.go", "	rX := IntToByte(Rx)", "	rX := Rx.Bytes()")],
'''package schnorr
import ("testing"; "crypto/ecdsa"; "math/big"; "github.com/keyfuse/tokucore/xcrypto/secp256k1")
func TestZZDemo(t *testing.T) {
	c := secp256k1.SECP256K1()
	k := &ecdsa.PrivateKey{D: big.NewInt(3)}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult([]byte{3})
	for i := 0; i < 2000; i++ {
		m := make([]byte, 32)
		m[0], m[1] = byte(i), byte(i>>8)
		r, s, err := Sign(k, m)
		if err != nil || !Verify(&k.PublicKey, m, r, s) { t.Fatal(i, err) }
	}
}
''', "a nonce whose point has an abscissa with a leading zero byte", "one signature in 256 is not valid")

seed("c28-long-hash", "C28", "xcrypto", [("xcrypto/mpc_ecdsa.go", "	z := xecdsa.HashToInt(curve, hash)", "	z := new(big.Int).SetBytes(hash)"), ("xcrypto/mpc_ecdsa.go", "	hash := party.hash\n	curve := party.curve\n", "	hash := party.hash\n")],
T("xcrypto", "testing", '''	hash := make([]byte, 64)
	hash[0] = 1
	a, b := NewEcdsaParty(PrvKeyFromBytes([]byte{11})), NewEcdsaParty(PrvKeyFromBytes([]byte{13}))
	pub := a.Phase1(b.pub)
	_, _, r1 := a.Phase2(hash)
	ek, ep, r2 := b.Phase2(hash)
	_, R := a.Phase3(r2), b.Phase3(r1)
	s, err := a.Phase4(ek, ep, R)
	if err != nil { t.Fatal(err) }
	sig, err := b.Phase5(R, s)
	if err != nil { t.Fatal(err) }
	if err := EcdsaVerify(pub, hash, sig); err != nil { t.Fatal(err) }'''),
"a hash longer than 32 bytes", "the joint signature of a hash longer than 32 bytes is not valid")

seed("c29-range", "C29", "xcrypto/paillier", [("xcrypto/paillier/paillier.go", "if m.Cmp(zero) == -1 || m.Cmp(pk.N) != -1 {", "if m.Cmp(zero) == -1 || m.Cmp(pk.N) == 1 {")],
T("paillier", "testing", '''	pub, _, err := GenerateKeyPair(512)
	if err != nil { t.Fatal(err) }
	if _, err := pub.Encrypt(pub.N); err == nil { t.Fatal("the modulus itself is encrypted") }'''),
"the plaintext that equals the modulus", "a number out of the range is encrypted, and decrypts to zero")

seed("c30-inner-odd", "C30", "xcrypto", [("xcrypto/merkle.go", "				next[offset] = merkleNode(left, left)\n", "				next[offset] = left\n				if i > 1 {\n					next[offset] = merkleNode(left, left)\n				}\n")] if 0 else [("xcrypto/merkle.go", "	depth := int(math.Ceil(math.Log2(float64(n))))", "	depth := int(math.Ceil(math.Log2(float64(n + n%2))))")],
T("xcrypto", "testing bytes", '''	h := DoubleSha256([]byte{1})
	if !bytes.Equal(NewMerkle([][]byte{h}).Root(), h) { t.Fatal("the root of one hash is the hash") }'''),
"a block with a single transaction", "the root of a single hash is not that hash")

seed("c31-many-blocks", "C31", "xcrypto/pbkdf2", [("xcrypto/pbkdf2/pbkdf2.go", "		buf[2] = byte(block >> 8)\n", "")],
T("pbkdf2", "testing bytes crypto/sha256 crypto/hmac", '''	k := Key([]byte("p"), []byte("s"), 1, 257*32, sha256.New)
	m := hmac.New(sha256.New, []byte("p"))
	m.Write([]byte("s\\x00\\x00\\x01\\x00"))
	if !bytes.Equal(k[255*32:256*32], m.Sum(nil)) { t.Fatal("block 256") }'''),
"a key of more than 255 blocks", "the key repeats itself after 255 blocks")

seed("c32-agent-size", "C32", "xprotocol", [("xprotocol/msgversion.go", "		xbase.VarIntSerializeSize(uint64(len(m.UserAgent))) + len(m.UserAgent) + 4 + 1", "		1 + len(m.UserAgent) + 4 + 1"), ("xprotocol/msgversion.go", "	return 4 + 8 + 8 + 8 +", "	_ = xbase.NewBuffer\n	return 4 + 8 + 8 + 8 +")] if 0 else [("xprotocol/msgversion.go", "		xbase.VarIntSerializeSize(uint64(len(m.UserAgent))) + len(m.UserAgent) + 4 + 1", "		1 + len(m.UserAgent) + 4 + 1")],
T("xprotocol", "testing strings github.com/keyfuse/tokucore/network", '''	m := NewMsgVersion(network.MainNet)
	m.UserAgent = strings.Repeat("a", 300)
	if m.Size() != len(m.Encode()) { t.Fatal(m.Size(), len(m.Encode())) }'''),
"a user agent of 253 bytes or more", "the size of the message is not the length of its encoding")

seed("c32-inv-max", "C32", "xprotocol", [("xprotocol/msginv.go", "	if count > MaxInvPerMsg {", "	if count >= MaxInvPerMsg {")],
T("xprotocol", "testing", '''	m := NewMsgInv()
	h := make([]byte, 32)
	for i := 0; i < MaxInvPerMsg; i++ { if err := m.AddInvVect(NewInvVect(1, h)); err != nil { t.Fatal(err) } }
	if err := NewMsgInv().Decode(m.Encode()); err != nil { t.Fatal(err) }'''),
"an inventory of exactly the largest allowed number of entries", "a message that can be encoded is refused")

seed("c33-long-command", "C33", "xprotocol", [("xprotocol/stream.go", '	cmdStr := string(bytes.TrimRight(command, "\\x00"))', '	cmdStr := string(command[:bytes.IndexByte(command, 0)])')],
'''package xprotocol
import ("testing"; "net"; "bytes"; "time")
type zzConn struct{ bytes.Buffer }
func (c *zzConn) Close() error { return nil }
func (c *zzConn) LocalAddr() net.Addr { return nil }
func (c *zzConn) RemoteAddr() net.Addr { return nil }
func (c *zzConn) SetDeadline(time.Time) error { return nil }
func (c *zzConn) SetReadDeadline(time.Time) error { return nil }
func (c *zzConn) SetWriteDeadline(time.Time) error { return nil }
func TestZZDemo(t *testing.T) {
	c := &zzConn{}
	c.Write([]byte{1, 2, 3, 4})
	c.Write([]byte("abcdefghijkl"))
	c.Write(make([]byte, 4))
	c.Write(checksum(nil))
	if _, err := NewStream(c, []byte{1, 2, 3, 4}).ReadMessage(); err != nil { t.Fatal(err) }
}
''', "a message with a command of all twelve characters", "a peer makes the reader panic with an unknown command of twelve characters")

seed("c34-locktime", "C34", "xrpc", [("xrpc/models.go", "	LockTime uint32 `json:", "	LockTime int32  `json:")],
T("xrpc", "testing encoding/json", '''	r := &BlockResult{}
	if err := json.Unmarshal([]byte(`{"tx":[{"locktime":4294967295}]}`), r); err != nil { t.Fatal(err) }'''),
"a block with a transaction whose lock time is 2^31 or more", "the whole block is refused")

seed("c35-timeout-retry", "C35", "xprotocol", [("xprotocol/connection.go", "		if err != nil {\n			fmt.Printf", "		if err != nil {\n			if ne, ok := err.(net.Error); ok && ne.Timeout() {\n				// Idle: wait for the next message.\n				continue\n			}\n			fmt.Printf")],
'''package xprotocol
import ("testing"; "net"; "time"; "github.com/keyfuse/tokucore/network")
func TestZZDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	got, done := make(chan Message, 9), make(chan bool, 9)
	c := NewConnection(network.MainNet, &zzLate{Conn: b}, func(c *Connection, m Message) { got <- m }, func(c *Connection) { done <- true })
	go c.ReadLoop()
	go a.Write(network.MainNet.Magic[:2])
	select {
	case <-done:
	case <-time.After(3 * time.Second): t.Fatal("the reader goes on in the middle of a message")
	}
}
type zzLate struct{ net.Conn }
func (c *zzLate) SetReadDeadline(t time.Time) error { return c.Conn.SetReadDeadline(time.Now().Add(200 * time.Millisecond)) }
''', "the deadline passes in the middle of a message", "after a timeout the reader continues in the middle of the stream, and the end of the connection is never reported")

seed("c36-in-place", "C36", "xbase", [("xbase/hash.go", "	clone := make([]byte, size)\n	copy(clone, hash[:])\n", "	clone := hash[:]\n")],
T("xbase", "testing", '''	h := []byte{1, 2, 3}
	if NewIDToString(h) != NewIDToString(h) { t.Fatal("naming a hash changes it") }'''),
"a hash that is used again after its identifier was asked for", "asking for the identifier reverses the caller's hash")
