"""Property texts. gen.py turns these into properties.jsonl and MANIFEST.json."""

NA = {}
PROPS = []

def P(id, title, statement, text, why, files, mech, note, over=("inputs",), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                      mech=mech, note=note, observe=list(observe)))

P("C01", "Wire primitives round-trip, have the Bitcoin layout, and refuse short input",
  "Integers, variable-length integers, byte strings and text written to a buffer have Bitcoin's little-endian wire layout and read back as written, consuming exactly what was written. Reading past the end, or with a length that the remaining data cannot satisfy, reports an error and never panics or over-reads. Data read is the reader's own; a reset buffer is as new, and leaves alone what it handed out.",
  "every 64-bit value; every short sequence of typed writes; every byte buffer and every sequence of typed reads over it",
  "tests write a handful of values; boundaries of the variable-length integer and hostile lengths are never reached",
  ["xbase/buffer.go"], [("bounds check before every read", "xbase/buffer.go: check"), ("variable-length integer coding", "xbase/buffer.go: ReadVarInt, WriteVarInt, VarIntSerializeSize")],
  "Every 64-bit varint; every sequence of up to 3 writes with payloads up to 3 bytes; every buffer up to 10 bytes with every read sequence of length 2.")

P("C14", "Base58 and Base58Check are exact, reversible and checksum-protected",
  "Base58 encoding is the base-58 numeral of the bytes with one leading '1' per leading zero byte, and decoding inverts it; a string with a character outside the alphabet decodes to nothing. A Base58Check string is accepted exactly when its last four bytes match the double SHA-256 of what precedes them, and then returns the version and payload that were encoded.",
  "every byte string and every character string up to the stated length, every version byte, every checksum",
  "tests use fixed vectors; numerals with interior carries, zero prefixes and near-miss checksums are not covered",
  ["xbase/base58.go"], [("numeral conversion", "xbase/base58.go: Base58Encode, Base58Decode"), ("checksum", "xbase/base58.go: Base58CheckEncode, Base58CheckDecode")],
  "Byte strings up to 5 bytes, character strings up to 3, zero prefixes up to 25, checked payloads up to 3 bytes; SHA-256 uninterpreted.")

P("C15", "Bech32 encodes and decodes exactly the BIP173 strings",
  "Encoding a legal human-readable part and 5-bit data gives the BIP173 string, which decodes back to them; anything that has no legal string is refused, and the caller's data is left unmodified. Decoding accepts a string exactly when BIP173 does (length, characters, case, separator, checksum), so a string with one or two substituted data characters is always rejected.",
  "every human-readable part, data and candidate string up to the stated sizes, every substitution",
  "tests use about a dozen fixed strings",
  ["xbase/bech32.go"], [("checksum polynomial", "xbase/bech32.go: bech32Polymod, bech32HrpExpand"), ("syntax checks", "xbase/bech32.go: Bech32Decode")],
  "Human-readable parts up to 3 bytes with data up to 4 symbols, strings up to 10 arbitrary bytes, all lengths around the 90-character limit, all 1- and 2-character substitutions; compared with an independent GF(32) reference.")

P("C08", "Script numbers have exactly one, minimal encoding",
  "Every 64-bit script number encodes to the minimal sign-magnitude little-endian string (empty for zero), and that string decodes to the number. A string decodes to a number exactly when it is no longer than the limit and minimally encoded; the 32-bit conversion clamps.",
  "every 64-bit number; every byte string up to the stated length with every length limit",
  "tests list some fifty numbers and strings",
  ["xvm/scriptnum.go"], [("minimal encoding", "xvm/scriptnum.go: ScriptNum.Bytes"), ("length and minimality checks", "xvm/scriptnum.go: MakeScriptNum, checkMinimalDataEncoding")],
  "Every 64-bit number; strings up to 6 bytes (8 thorough) with limits -1 to 9.")

P("C09", "Scripts read back as built, with canonical pushes, and are parsed totally",
  "What the script builder writes reads back as the same instructions: each data push uses the shortest push form and each number its minimal one. The reader accepts an instruction exactly when its opcode is implemented and its data are all there, never reads past the end and never panics; removing an opcode leaves the other instructions byte for byte.",
  "every push content of the listed lengths, every number, every opcode followed by every tail of the listed lengths, every short instruction sequence",
  "tests build a dozen fixed scripts; lengths at the push-form boundaries and truncated or hostile length fields are not covered",
  ["xvm/scriptbuilder.go", "xvm/scriptreader.go", "xvm/opcode.go"],
  [("push form selection", "xvm/scriptbuilder.go: AddData, AddInt64"), ("data length and truncation checks", "xvm/scriptreader.go: NextInstruction")],
  "Pushes of 15 lengths up to 65536 bytes; every 64-bit number; every opcode with tails of 0-6, 19-21 and 76 arbitrary bytes; scripts of up to 2 (3 thorough) instructions for opcode removal.")

P("C16", "Segwit programs convert to and from addresses exactly, per BIP173",
  "Encoding a witness version and program gives an address that decodes to the same version and program, under the same human-readable part; anything else (version over 16, program length not allowed, wrong human-readable part, non-zero or excess padding) is refused by both directions without panicking. Regrouping bits preserves the data.",
  "every version, program and string up to the stated lengths",
  "tests use the BIP173 vectors only",
  ["xbase/witness.go"], [("version, length and padding checks", "xbase/witness.go: WitnessEncode, WitnessDecode"), ("bit regrouping", "xbase/witness.go: convertBits")],
  "Program lengths 0 to 42 with every byte and version symbolic; data parts of 29 different lengths with arbitrary symbols; human-readable parts bc and tb.")

P("C10", "Each script instruction has its Bitcoin meaning on the stack",
  "Every implemented instruction transforms the stack as Bitcoin defines it, fails when the stack is too short or an operand is not a minimal number of at most four bytes, and leaves other items unchanged. A script succeeds exactly when every instruction does and the top item left (if any) is true; the script is not modified.",
  "every sequence of stack instructions of the stated length over every stack of the stated sizes; every signature, key and verdict for the signature checks",
  "tests run a few dozen fixed scripts; aliasing between items, short stacks and number edge cases are not covered",
  ["xvm/engine.go", "xvm/stack.go", "xvm/instruction.go", "xvm/instruction_stack.go", "xvm/instruction_bitwise.go", "xvm/instruction_numeric.go", "xvm/instruction_pushdata.go", "xvm/instruction_crypto.go"],
  [("stack primitives", "xvm/stack.go: nipN, DupN, SwapN, PopInt, PopBool, asBool"), ("instruction table", "xvm/instruction.go: opcodes"), ("final truth", "xvm/engine.go: execute")],
  "Sequences of up to 2 (3 thorough) of 13 instructions over up to 3 (4) items of 0-2 bytes; all push forms; ADD on operands of up to 5 bytes; signature checks with symbolic verdicts; SHA-256 and RIPEMD-160 uninterpreted. OP_RETURN being a no-op is a known finding.")

P("C11", "Conditionals execute exactly the branches their conditions select",
  "IF, NOTIF, ELSE and ENDIF, nested and repeated, execute exactly the instructions of the selected branches; a script that is not balanced, or whose condition is not minimal, fails. A conditional never reaches from the unlocking script into the locking script.",
  "every arrangement of conditionals up to the stated length with every condition",
  "tests have a handful of fixed arrangements",
  ["xvm/instruction_flowcontrol.go", "xvm/engine.go"], [("conditional stack", "xvm/instruction_flowcontrol.go: opIf, opNotIf, opElse, opEndIf"), ("skipping and balance", "xvm/engine.go: Step, branchShouldSkip")],
  "Every sequence of 6 (8 thorough) tokens over three symbolic conditions, against a recursive-descent reference; conditions of 0-2 arbitrary bytes.")

P("C12", "CHECKMULTISIG accepts exactly m signatures matching m keys in order",
  "OP_CHECKMULTISIG is true exactly when its m signatures can be matched, in order, with m distinct keys of its n; each signature is checked against the hash of its own hash type; the dummy item and all operands are consumed. Counts out of range, missing items or missing signature functions are errors, never panics.",
  "every validity relation between signatures and keys, every hash type, every m and n up to the bound, every count bytes",
  "tests have a few fixed 1-, 2- and 3-key scripts",
  ["xvm/instruction_crypto.go"], [("matching loop", "xvm/instruction_crypto.go: opCheckMultiSig")],
  "n up to 6 (10 thorough) keys with a fully symbolic validity relation, against an order-preserving-matching reference; count operands of up to 2 (5) arbitrary bytes.")

P("C03", "Transactions serialize in the BIP144 layout and decode to what was encoded",
  "A transaction serializes to the Bitcoin layout, with marker, flag and witnesses exactly when some input has a witness, and its ids are the reversed double hashes of the forms without and with witnesses. Either serialization decodes to the same transaction, also into an object that held another one; every truncation and every malformed string is refused without panicking or allocating by claimed counts.",
  "every transaction of the stated shapes with every field value; every byte string of the stated lengths",
  "tests decode some fixed transactions; length-field boundaries, truncations, reuse of the object and hostile counts are not covered",
  ["xcore/transaction.go", "xbase/buffer.go"],
  [("serialization", "xcore/transaction.go: Serialize, SerializeNoWitness"), ("deserialization", "xcore/transaction.go: Deserialize"), ("ids", "xcore/transaction.go: ID, WitnessID, Hash")],
  "0-2 inputs and outputs (3 thorough) with short scripts and witnesses, script and item lengths at 252-257 (65535 thorough), every truncation, arbitrary strings of 0-12 bytes and selected longer ones; SHA-256 uninterpreted.")

P("C04", "Sizes, weight, virtual size, fees and estimates agree with the serialization",
  "Base size, total size, weight and virtual size are those of the serializations by BIP141; Fees is what the inputs carry more than the outputs. The fee for a size at a rate is the exact product rounded down and monotone. The estimated size covers the signed transaction, so the fee paid is not below the requested rate.",
  "every transaction shape up to the stated bounds, every amount, every fee rate",
  "tests measure a few fixed transactions",
  ["xcore/transaction.go", "xcore/estimate.go"],
  [("sizes", "xcore/transaction.go: BaseSize, Size, WitnessSize, Weight, Vsize"), ("estimates", "xcore/estimate.go: EstimateSize, EstimateFees")],
  "0-3 inputs and outputs (4 thorough) and 252-254 of each, lengths around each length-field form; every 64-bit rate with 12 sizes. Estimates for more outputs than inputs and for witness inputs are known findings (pinned by a project test).")

P("C05", "Witness signature hashes commit to exactly what BIP143 says",
  "For every input, script code, amount and hash type (all 32-bit values, including SINGLE, NONE, ANYONECANPAY and undefined ones) the hash signed for a witness input is the double SHA-256 of the BIP143 preimage. It depends on the transaction as it is now: not on hashes asked for before, on changes made in between, or on another transaction that shares the inputs. Computing it changes nothing.",
  "every transaction of the stated shapes, every field value and hash type, every sequence of two requests",
  "tests sign fixed transactions with SIGHASH_ALL, SINGLE and NONE, once each",
  ["xcore/transaction.go"], [("preimage", "xcore/transaction.go: WitnessV0SignatureHash")],
  "1-3 inputs and 0-3 outputs (4 thorough), script codes of 0-3, 25-28 and 252-255 bytes, two requests with a change between them; SHA-256 uninterpreted and collision-free.", over=("inputs", "histories"))

P("C06", "Legacy signature hashes commit to exactly what Bitcoin's original rules say",
  "For every non-witness input and every 32-bit hash type the hash signed is the double SHA-256 of the modified copy of the transaction (script code in the signed input, NONE and SINGLE blanking, ANYONECANPAY), and the constant one for SINGLE without a matching output. The script code is the previous script or redeem script with nothing else left out; requests do not influence each other.",
  "every transaction of the stated shapes, every field value and hash type, every sequence of two requests",
  "tests sign fixed transactions, nearly always with SIGHASH_ALL",
  ["xcore/transaction.go", "xvm/scriptreader.go"], [("modified copy", "xcore/transaction.go: RawSignatureHash"), ("script code", "xvm/scriptreader.go: RemoveOpcode")],
  "1-3 inputs and 0-3 outputs (4 thorough), redeem scripts of 0-2 and 252-254 bytes, two requests with a change between them; scripts of up to 3 (4) instructions as script code.", over=("inputs", "histories"))

P("C07", "The transaction builder conserves value and pays exactly what was asked",
  "A built transaction spends exactly the given coins, pays each destination exactly its amount in order, pays the requested fee (given, or rate times estimated size, never over the maximum), and returns the whole rest as change; inputs always equal outputs plus fee. When the coins do not suffice, amounts overflow, or a part is missing or malformed, it reports an error and never builds a wrong transaction or panics.",
  "every amount, fee, rate and maximum; every combination of the listed coins and destinations",
  "tests build a dozen transactions with ordinary amounts",
  ["xcore/transactionbuilder.go", "xcore/coinbuilder.go"],
  [("totals, fee and change", "xcore/transactionbuilder.go: BuildTransaction")],
  "1-2 coins (3 thorough) and destinations of all address types with every 64-bit amount and fee; every positive rate to 2^40 with P2PKH coins; 0-2 data pushes.")

P("C13", "An output is spent only by whom its script authorises, and by them always",
  "A transaction verifies exactly when every input is unlocked by the keys its output commits to: signed with the right keys it verifies, for the signer and for whoever receives it; a change to anything the signatures commit to makes it fail. Signatures of other keys, too few, repeated, out of order, for another input or hash type, or any other unlocking script, do not unlock; verifying changes nothing.",
  "every kind of output, hash type, choice and order of signing keys, change of any field to any value, and every unlocking script of the stated forms",
  "tests spend a few fixed outputs, and hardly ever try to spend wrongly",
  ["xcore/transaction.go", "xcore/script_p2pkh.go", "xcore/script_p2sh.go", "xcore/script_p2wpkh_v0.go", "xcore/script_p2wsh_v0.go", "xvm/engine.go"],
  [("signing and embedding", "xcore/transaction.go: SignIndex, EmbedIdxSignature"), ("verification", "xcore/transaction.go: Verify; xvm/engine.go: Verify"), ("unlocking scripts", "xcore/script_*.go: GetRawUnlockingScriptBytes, GetWitness")],
  "1-2 inputs of all five kinds, 0-2 outputs, every hash type byte; every pair of signing keys out of four; one change of any field; P2PKH and P2SH unlocking scripts of up to 3 instructions or 2 arbitrary bytes. Ideal hashes and signatures (a signature verifies exactly for its key and hash).",
  over=("inputs", "histories"))

P("C17", "Addresses name exactly one kind, hash and network, and pay to its script",
  "An address is the Base58Check or Bech32 string of its kind, hash and network; decoding (Bech32 in either case) gives back the same kind and hash, and its locking script is the standard one, which is recognised as that kind. A string of another network, version, witness version, program or hash length, or with a wrong checksum, is refused; nothing panics.",
  "every kind, network and hash; every version byte, payload length and witness version; every short string; every one-byte change to a locking script",
  "tests decode a handful of mainnet and testnet addresses",
  ["xcore/address.go", "xcore/address_p2pkh.go", "xcore/address_p2sh.go", "xcore/address_p2wpkh_v0.go", "xcore/address_p2wsh_v0.go", "xcore/script.go", "network/network.go"],
  [("decoding", "xcore/address.go: DecodeAddress"), ("locking scripts", "xcore/address_*.go: LockingScript"), ("recognition", "xcore/script.go: ParseLockingScript")],
  "All hashes and version bytes, payloads of 0-40 bytes, fixed programs of 2-40 bytes, strings up to 3 bytes (4 thorough), locking scripts with one byte changed, added or left out; Base58Check as an exact code (C14) except at the ends of its range.")

P("C18", "A multisig script demands exactly the m signatures and n keys it was made for",
  "The multisig script of m and n keys is m, the keys in the order given, n, OP_CHECKMULTISIG; m below one or above n, no keys or too many keys are refused. The script with its unlocking part is satisfied exactly by m signatures that are valid for m of the keys in their order.",
  "every m, number of keys and key; every relation of which signature is valid for which key",
  "tests use 2-of-3 with two fixed keys",
  ["xcore/script_multsig.go", "xvm/instruction_crypto.go"],
  [("script generation", "xcore/script_multsig.go: NewMultiSigScript"), ("execution", "xvm/instruction_crypto.go")],
  "0-22 keys of 33 or 65 bytes with m of -1 to 23; 1-3 keys (5 thorough) with 0 to n+1 signatures and every validity relation.")

P("C19", "Child keys are derived as BIP32 says, privately and publicly alike",
  "The master key of a seed and every normal and hardened child are exactly those of BIP32: key, chain code, depth, fingerprint of the parent and index. Deriving a child of the public key gives the public key of the private child; hardened children of public keys and children below depth 255 are refused; a key is not changed by deriving. A random key is the master key of a seed from the secure random source.",
  "every seed of the stated lengths, every key, chain code, depth and index",
  "tests follow the published test vectors",
  ["xcore/bip32/hdkey.go", "xcrypto/prvkey.go", "xcrypto/pubkey.go"],
  [("master key", "xcore/bip32/hdkey.go: NewHDKey"), ("child derivation", "xcore/bip32/hdkey.go: Derive, getIntermediary"), ("neutering", "xcore/bip32/hdkey.go: HDPublicKey")],
  "Seeds of selected lengths 0-65; all parent keys with at most one leading zero byte (three thorough), all chain codes and indexes. HMAC-SHA512 uninterpreted, the curve as an ideal group of the real order (C23).")

P("C20", "Extended keys survive being written as strings, and nothing else is read",
  "The string of an extended key is the Base58Check code of its 78 bytes of version, depth, fingerprint, index, chain code and key, and reading it gives back the same key, private or public, for the same network. Strings of another length, checksum or key format, with a key of zero or beyond the group order, or with a contradicting version or parent are refused.",
  "every key, chain code, depth, fingerprint and index; every 78-byte payload; every short string",
  "tests read the strings of the published test vectors",
  ["xcore/bip32/hdkey.go"],
  [("writing", "xcore/bip32/hdkey.go: ToString"), ("reading", "xcore/bip32/hdkey.go: NewHDKeyFromString")],
  "All payloads of 78 bytes with a private or public key, payloads of other lengths 0-100, strings of up to 3 bytes; Base58Check as an exact code (C14), the curve as an ideal group.")

P("C21", "A derivation path names one sequence of children, or is refused",
  "DeriveByPath follows exactly the elements of the path in order: decimal numbers below 2^31, hardened if marked with an apostrophe. Anything else (an empty element, a foreign character, a number out of range, a wrong start, a hardened step from a public key) is an error and never a panic or another child. The key itself is unchanged.",
  "every short path element, every number of 9 to 11 digits, every short path and every sequence of listed elements",
  "tests follow some well-formed paths",
  ["xcore/bip32/hdkey.go"], [("paths", "xcore/bip32/hdkey.go: DeriveByPath")],
  "Elements of 0-3 bytes (4 thorough), all numbers of 9-11 digits, starts of up to 3 bytes; sequences of 2 (3) out of 8 elements from a private and a public key.")

P("C27", "Schnorr signatures are those of the specification, and exactly the valid pass",
  "SchnorrSign returns the signature of the bip-schnorr text (nonce from key and message, negated if its ordinate is no square, challenge over abscissa, compressed key and message), the same every time, and leaves key and message alone; it fails only on a zero nonce. SchnorrVerify accepts exactly the pairs with r below the field size and s below the order for which sG - eP is a point of abscissa r with a square ordinate; signatures that are not 64 bytes are refused without a panic.",
  "every key and message, every r and s, on a small curve put in the place of secp256k1; every point, message and abscissa for the challenge on the real one",
  "tests compare the published vectors, none with a challenge of zero or with s equal to the order",
  ["xcrypto/schnorr/schnorr.go", "xcrypto/signature_schnorr.go"],
  [("signing", "xcrypto/schnorr/schnorr.go: Sign, GetK0, GetK, GetE"), ("verification", "xcrypto/schnorr/schnorr.go: Verify"), ("encoding", "xcrypto/signature_schnorr.go: Serialize, Deserialize")],
  "A curve of 13 points (3 of up to 43 thorough), r and s below 128; byte strings of 0-70 bytes. SHA-256 uninterpreted, and its residue modulo the order of the small curve a function of the digest.")

P("C28", "Two-party protocols end in one valid signature of the shared key",
  "Both parties of the ECDSA, adaptor (scriptless) and Schnorr protocols compute the same shared key, nonce point and, where they both end with a signature, the same signature; it is valid for the shared key (low s for ECDSA); it is refused only if r or s is zero. The adaptor signature reveals exactly the secret, the completed signature is valid. Keys, hash and secret are left alone, phases can be repeated.",
  "every pair of nonces and every hash, on a small curve put in the place of secp256k1",
  "tests run each protocol once, and do not verify the Schnorr signature",
  ["xcrypto/mpc_ecdsa.go", "xcrypto/mpc_schnorr.go", "xcrypto/scriptless_ecdsa.go", "xcrypto/secp256k1/scalar.go"],
  [("two-party ECDSA", "xcrypto/mpc_ecdsa.go: Phase1-Phase5"), ("adaptor signatures", "xcrypto/scriptless_ecdsa.go: ScriptlessPhase1-6"), ("two-party Schnorr", "xcrypto/mpc_schnorr.go: Phase1-Phase5")],
  "A curve of 13 points, 2 to 4 pairs of keys (all 144 and all secrets thorough). ECDSA nonces are any numbers (C26) and Paillier encryption is ideal and does not wrap (C29; the size of its modulus is checked). Honest parties only.")

P("C30", "Merkle roots and proofs are Bitcoin's, and a proof proves only its own leaf",
  "The Merkle root of any list of hashes is that of Bitcoin (the last node of an odd level is paired with itself); every leaf has a proof, the proof leads from that leaf to the root, and no other leaf hash or position passes with it. Building leaves the given hashes alone and never panics.",
  "every number of hashes up to the stated bound, every hash value, every leaf and every altered leaf, step or position",
  "tests build trees of a few sizes that are powers of two or one below",
  ["xcrypto/merkle.go"],
  [("tree and proofs", "xcrypto/merkle.go")],
  "0-10 hashes (20 thorough) for roots and proofs, 1-5 (9) for proofs of other leaves or positions; SHA-256 uninterpreted and collision-free.")

P("C22", "Mnemonics and entropy stand for each other one to one, by BIP39",
  "The mnemonic of 16, 20, 24, 28 or 32 bytes is the words of their bits followed by the first bits of their SHA-256, and reading it gives them back. A sentence is accepted, by every reader alike, exactly if it is 12 to 24 words of the list, in threes, with the right checksum; everything else is an error. New entropy is the secure random source's, of the size asked for.",
  "every entropy, every checksum, every delivery of the random source, every word position",
  "tests use the published vectors and some random entropy; wrong checksums, white space and the source of the entropy are not covered",
  ["xcore/bip39/bip39.go", "xcore/bip39/words/english.go"],
  [("encoding", "xcore/bip39/bip39.go: NewMnemonic, addChecksum"), ("decoding", "xcore/bip39/bip39.go: EntropyFromMnemonic, MnemonicToByteArray, IsMnemonicValid"), ("entropy", "xcore/bip39/bip39.go: NewEntropy")],
  "All five sizes, with at most one leading zero byte or one word below 256 (two thorough); sentences of 0-31 words with one foreign word; a list of two-letter words, and the three real lists for distinctness; SHA-256 uninterpreted.")

P("C31", "RIPEMD-160, Hash160 and PBKDF2 are the functions of their specifications",
  "The RIPEMD-160 digest of every message is that of the specification, however the message arrives in pieces, whatever was hashed before a reset, and whether a digest was taken in between; the messages written are not changed or kept. Hash160 is RIPEMD-160 of SHA-256. Derived keys are those of RFC 8018 for every password, salt, number of iterations and length, and the seed of a mnemonic is the one of BIP39.",
  "every message of the stated lengths and every division into pieces of the stated sizes; every password and salt",
  "tests use some published vectors, mostly written in one piece",
  ["xcrypto/ripemd160/ripemd160.go", "xcrypto/ripemd160/ripemd160block.go", "xcrypto/pbkdf2/pbkdf2.go", "xcrypto/hash.go", "xcore/bip39/bip39.go"],
  [("compression function", "xcrypto/ripemd160/ripemd160block.go: _Block"), ("buffering", "xcrypto/ripemd160/ripemd160.go: Write, Sum, Reset"), ("key derivation", "xcrypto/pbkdf2/pbkdf2.go: Key")],
  "Messages of 23 lengths up to 200 bytes (all 0-200 thorough), 2 pieces (3) of 7 sizes, passwords and salts up to 3 bytes, 1-3 iterations (8) and 2048 for seeds; HMAC and SHA-2 uninterpreted.", over=("inputs", "histories"))

P("C32", "Protocol messages are encoded and decoded as the Bitcoin protocol says",
  "Every message (version, verack, inv, getdata, headers, getheaders, reject, ping, pong, tx) is encoded as the protocol says, its size is the length of its encoding, and decoding gives back every field and replaces what the message held before. Truncated messages, and counts beyond the limits or the data present, are refused without a panic and without taking memory for them.",
  "every value of every field; every truncation; every payload of the stated lengths; every count of 64 bits",
  "tests encode and decode one message of each kind; byte order, sizes, limits and hostile payloads are not covered",
  ["xprotocol/msgversion.go", "xprotocol/msginv.go", "xprotocol/msggetdata.go", "xprotocol/msgheaders.go", "xprotocol/msggetheaders.go", "xprotocol/msgreject.go", "xprotocol/blockheader.go"],
  [("inventories", "xprotocol/msginv.go, msggetdata.go"), ("headers", "xprotocol/msgheaders.go, msggetheaders.go, blockheader.go"), ("version", "xprotocol/msgversion.go"), ("reject", "xprotocol/msgreject.go")],
  "0-2 entries (4 thorough) with every value, all payloads of 0-6 bytes (12) and one longer length for each kind, strings around the varint boundary of 253, limits of 50000 and 2000.", over=("inputs", "histories"))

P("C33", "A stream carries messages in checked frames, both ways at once",
  "Every message is written as one frame of magic, command, length, checksum and payload, and a stream of frames is read as the same messages in order, however its bytes arrive. A frame of another network, with a wrong checksum, too long or cut short is an error and no message. A message can be sent while the stream waits for another to arrive.",
  "every message of the stated kinds, every magic, checksum, command and claimed length, every division into pieces of the stated sizes",
  "tests exchange two messages between two peers of the same network over a real connection",
  ["xprotocol/stream.go", "xprotocol/message.go", "xprotocol/command.go"],
  [("writing", "xprotocol/stream.go: WriteMessage"), ("reading", "xprotocol/stream.go: ReadMessage"), ("message types", "xprotocol/message.go: makeEmptyMessage")],
  "Two messages of ten kinds in pieces of 1, 3, 24, 25 bytes or at once, one of 40000 bytes; every magic, checksum and cut of a short frame; every claimed length; one write during one read. SHA-256 uninterpreted.", over=("inputs", "schedules", "faults"))

P("C23", "Points of the curve are added and multiplied by the group law",
  "Adding and doubling points is the chord and tangent law with the point at infinity as (0, 0), also for equal, opposite and infinite points, and leaves the points alone. Multiplying by a number, of any length and with leading zeros, is repeated addition. A point is on the curve exactly if it satisfies the equation. The parameters are those of secp256k1.",
  "every pair of points and every multiple on small curves of the same form, put in the place of secp256k1",
  "tests multiply the base point by some numbers; equal, opposite and infinite operands are not covered",
  ["xcrypto/secp256k1/secp256k1.go", "xcrypto/secp256k1/scalar.go"],
  [("group law", "xcrypto/secp256k1/secp256k1.go: addJacobian, doubleJacobian, affineFromJacobian"), ("multiples", "xcrypto/secp256k1/secp256k1.go: ScalarMult"), ("parameters", "xcrypto/secp256k1/secp256k1.go: initSECP256K1")],
  "3 curves of 13-43 points (6 of up to 97, thorough): all pairs of points; numbers of one byte times every point (two bytes times the base point). At the real size the parameters and the multiples around the order only; the code does not depend on the size of the parameters.")

P("C24", "Public and private keys survive their encodings, and nothing else is read",
  "The compressed, uncompressed and hybrid encodings of a public key are those of SEC 1 with coordinates of 32 bytes, and reading them gives back the point. Everything else is refused: other lengths and prefixes, a hybrid prefix of the wrong oddness, coordinates out of the field, points off the curve. Private keys are 32 bytes; adding to one is modulo the order and matches adding public keys.",
  "every point, prefix and coordinate on small curves put in the place of secp256k1; every coordinate out of the real field; every private key and addend of the real size",
  "tests read a dozen fixed keys",
  ["xcrypto/pubkey.go", "xcrypto/prvkey.go", "xcrypto/secp256k1/sec.go"],
  [("reading", "xcrypto/pubkey.go: PubKeyFromBytes"), ("writing", "xcrypto/pubkey.go: Serialize*"), ("compressed form", "xcrypto/secp256k1/sec.go"), ("private keys", "xcrypto/prvkey.go")],
  "3 small curves (6 thorough) in 32-byte fields with one high byte set or none; lengths 0-70; four keys of the real curve; private keys with at most one leading zero byte (three), with the real curve as an ideal group.")

P("C25", "ECDSA signatures are valid, low and strict, and exactly the valid ones pass",
  "A signature made for a key and a hash satisfies the ECDSA equation, has r in range and s in the lower half, is the same every time and leaves key and hash alone; signing fails only if r or s is zero. Verification accepts exactly the pairs that satisfy the equation. A signature is encoded as the two integers in DER and only that encoding of it is read. The number of a hash is its leftmost bits.",
  "every key, nonce and hash, and every r and s, on a small curve put in the place of secp256k1; every r and s of the stated lengths in DER; every short byte string",
  "tests sign and verify a few messages with two keys",
  ["xcrypto/ecdsa/ecdsa.go", "xcrypto/signature_ecdsa.go"],
  [("signing", "xcrypto/ecdsa/ecdsa.go: Sign"), ("verification", "xcrypto/ecdsa/ecdsa.go: Verify; xcrypto/signature_ecdsa.go: EcdsaVerify"), ("encoding", "xcrypto/signature_ecdsa.go: Serialize, Deserialize")],
  "A curve of 13 points (3 of up to 43 thorough); DER of 1, 2, 31 and 32 byte numbers and all byte strings of 0-9 bytes (12); hashes of 0-40 bytes for 7 orders. crypto/ecdsa.Verify and encoding/asn1 of the standard library are taken as specified, the nonce as any number (C26).")

P("C26", "Nonces are those of RFC 6979",
  "The nonce of a key and a hash is the first candidate in the range that the generator of RFC 6979 with HMAC-SHA256 gives, for every order, key and length of hash; candidates out of the range are rejected by the step of the RFC. Key and hash are left alone.",
  "every key and hash, every number of rejected candidates up to the bound",
  "tests compare a few published nonces of full size, none of them after a rejected candidate",
  ["xcrypto/ecdsa/rfc6979.go"],
  [("generator", "xcrypto/ecdsa/rfc6979.go: NonceRFC6979")],
  "The order of secp256k1 and orders of 5 and 300 bits (8, 9, 13, 255 thorough), hashes of 0, 1, 20, 31, 32, 33, 48, 64 bytes, keys and hash numbers without leading zero bytes (two), up to one (two) rejected candidates. HMAC uninterpreted.")

P("C29", "Paillier sums and products of ciphertexts are those of the plaintexts",
  "A Paillier ciphertext decrypts to the number encrypted, for every key, number below the modulus and random choice; the sum, difference and multiple formed from ciphertexts (or a ciphertext and a number) decrypt to the sum, difference, product or quotient modulo the modulus. Numbers out of the range are refused, the operands are left alone, nothing panics.",
  "every plaintext, ciphertext, factor and random number modulo the stated keys",
  "tests encrypt a few numbers under one random key and never meet a random number that shares a factor with the modulus, nor a plaintext without inverse",
  ["xcrypto/paillier/paillier.go", "xcrypto/paillier/homomorphism.go"],
  [("keys, encryption and decryption", "xcrypto/paillier/paillier.go: GenerateKeyPair, Encrypt, Decrypt"), ("random factor", "xcrypto/paillier/paillier.go: getRandom"), ("operations on ciphertexts", "xcrypto/paillier/homomorphism.go: Add, Sub, AddPlaintext, MultPlaintext, DivPlaintext")],
  "Keys of the primes 29 and 31 (and 53, 61 thorough), every plaintext, factor and random number; the primes of a key differ. Subtraction of ciphertexts that are not ciphertexts is not covered.")

P("C36", "An identifier is a hash in reversed hexadecimal, and names one outpoint",
  "The identifier of a hash is its reversed lower-case hexadecimal and gives the hash back; a string is read exactly when it is whole hexadecimal bytes, and hashes handed in are left alone. The transaction builder spends the outpoint that a coin's identifier and index name, and refuses an identifier which does not name one.",
  "every hash and string up to the stated lengths; every coin identifier of the stated lengths and every index",
  "tests convert one palindromic hash",
  ["xbase/hash.go", "xcore/transactionbuilder.go", "xcore/coinbuilder.go"],
  [("reversal", "xbase/hash.go: NewIDFromString, NewIDToString"), ("outpoint", "xcore/transactionbuilder.go: BuildTransaction")],
  "Hashes of 0-34 bytes, strings of 0-8 (12 thorough) arbitrary bytes, coin identifiers of 10 lengths from 0 to 128 digits.")

P("C37", "What unlocks an output is what its kind demands, in script or in witness",
  "A payment to a key is unlocked by the signature and the key; a payment to a script by the empty dummy item, the signatures in order and the redeem script. Kinds without witness have these pushed by the unlocking script and nothing in the witness; witness kinds have them as witness items, which stand for the script pushing them, and sign over the script the output stands for. A payment to a key has no unlocking data without a signature, a witness script hash none with another redeem script, and a witness of a wrong number of items is refused.",
  "every hash, redeem script, signature and key of the stated lengths, every number of signatures and witness items up to the stated one",
  "tests build one spend of each kind",
  ["xcore/script.go", "xcore/script_p2pkh.go", "xcore/script_p2sh.go", "xcore/script_p2wpkh_v0.go", "xcore/script_p2wsh_v0.go"],
  [("unlocking script and witness", "xcore/script_*.go: GetRawUnlockingScriptBytes, GetWitnessUnlockingScriptBytes"), ("witness to script", "xcore/script_*.go: WitnessToUnlockingScriptBytes"), ("redeem script check", "xcore/script_p2wsh_v0.go")],
  "0-3 signatures of 9 to 76 bytes, keys of 33 and 65, redeem scripts of 2 to 520 bytes and witnesses of 0-4 items of 0 to 256 bytes; of long data the two end bytes are free.")

P("C38", "The text of a script names exactly its opcodes and data",
  "The text shown for a script is the names of its opcodes in order, each push followed by its data in hexadecimal, also for what remains to be read. A text of opcode names, decimal numbers, quoted hexadecimal (pushed in its shortest form) and 0x hexadecimal (bytes of the script) gives exactly that script; any other unquoted word is refused, and the builder stays in error until it is reset. A script handed out is not changed by building on.",
  "every pair of opcodes, every content of pushes of the stated lengths, every number and word of the stated lengths",
  "tests load and show three fixed scripts",
  ["xvm/scriptbuilder.go", "xvm/scriptreader.go", "xvm/instruction.go"],
  [("text to script", "xvm/scriptbuilder.go: Load"), ("script to text", "xvm/scriptreader.go: DisasmString, DisasmRemaining"), ("names", "xvm/instruction.go: opcodes, opcodesByName")],
  "Scripts of one or two plain opcodes; pushes of 1 to 76, 255 and 256 bytes of which up to four are free; numbers of up to five digits and around the powers of two up to 2^62; unknown words of 1-3 characters.")

P("C39", "The builder signs every coin with the keys, key form and hash type given for it",
  "A transaction built with signing is the one built without, each input signed with the keys, the redeem script, the public key form and the hash type given for its coin (all, when none is given), whatever the other coins and wherever destinations and change are named; it verifies. A coin without keys is refused, not left unsigned.",
  "every pair of kinds of coins, every choice of keys for a script, every lock time, index, value and destination",
  "tests sign five fixed transactions, all of one hash type",
  ["xcore/transactionbuilder.go", "xcore/transaction.go", "xcore/coinbuilder.go"],
  [("signing builder", "xcore/transactionbuilder.go: BuildTransaction, AddKeys, SetRedeemScript, SetPubKeyUncompressed, SetSigHashType, Then"), ("signing by hand", "xcore/transaction.go: SignIndex")],
  "1-2 coins of 5 kinds; hash types 1, 0x82, 3 and 0; amounts up to 1e14; hashes collision-free and signatures ideal, as in C13. Settings are given after the coin they are for.")

P("C02", "Verifying what others supply always ends in one verdict",
  "Whatever scripts, witnesses and redeem scripts a transaction from elsewhere carries, running or verifying it ends in acceptance or an error: no panic, no endless loop, no disproportionate memory. The verdict is the same the next time, on a used engine as on a new one and traced as untraced; scripts are left alone; a transaction whose spent output is not known, or not of a known kind, is not accepted.",
  "every content of the items, scripts and witnesses of the stated shapes; either verdict on signatures",
  "tests verify transactions that are well formed or broken in one expected way, and use each engine once",
  ["xvm/engine.go", "xvm/stack.go", "xvm/instruction_crypto.go", "xvm/instruction_flowcontrol.go", "xcore/transaction.go", "xcore/script.go"],
  [("reset between scripts", "xvm/engine.go: reset, Verify"), ("stack bounds", "xvm/stack.go"), ("binding of outputs", "xcore/transaction.go: SetTxIn, Verify"), ("disassembly", "xvm/scriptreader.go: DisasmString; xcore/transaction.go: ToString")],
  "Locking scripts of up to 2 instructions of 29 kinds after 3 (0-4 thorough) arbitrary items; engines reused after any of these; transactions of 1-2 inputs with up to 2 (3) items or one instruction, for 6 kinds of outputs. Decoding of the bytes themselves is C03, C09, C20 and C32.")

P("C35", "A connection hands over every message once and its end once, whatever fails",
  "A connection hands every message that arrives whole to its receiver, once, in order and unchanged later; after the first error it hands over nothing more and reports its end once. Messages sent at once from several places, or while one is awaited, come out as whole frames one after the other; two readers each get whole messages. A send that is not complete is an error; every wait is limited in time.",
  "every message content of the stated kinds, every fault, every point of a read or write at which the other side acts",
  "tests exchange two messages over a healthy connection and send from one place",
  ["xprotocol/connection.go", "xprotocol/stream.go"],
  [("delivery", "xprotocol/connection.go: ReadLoop"), ("locks", "xprotocol/stream.go: ReadMessage, WriteMessage")],
  "Up to 3 messages (4 thorough) of four kinds in pieces of 1 byte to all at once, six kinds of ends, write failures after every number of bytes; two senders or two readers, the second one acting once at any I/O operation of the first. SHA-256 uninterpreted. Memory-model effects (data races without a lock) are outside.", over=("inputs", "schedules", "faults"))

P("C34", "The node's answers are passed on unchanged, and without one there is an error",
  "A call to the node sends one authorised request of limited time with the method and parameters it is for, and gives back every field of the node's answer unchanged. Where the node reports an error, gives no result, one of another type or out of range, no JSON, or half an answer, or can not be reached, the call ends with an error and no result, and never panics; answers are always closed.",
  "every text and number of the stated sizes in every field; every cut of an answer; every kind of fault",
  "tests decode fixed answers and look at two of the fields",
  ["xrpc/client.go", "xrpc/method.go", "xrpc/models.go"],
  [("calls", "xrpc/client.go: call"), ("methods", "xrpc/method.go"), ("fields", "xrpc/models.go")],
  "Eight heights, counts of 1-18 digits, headers with every field, blocks of 0-2 transactions, texts of 0-64 plain characters. encoding/json and net/http are modelled (replays use the real ones with a transport in the place of the network).", over=("inputs", "faults"))
