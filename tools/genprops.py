#!/usr/bin/env python3
"""Writes properties.jsonl (the one source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech=None, obs=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech or [], observe_at=obs or [])))
I = ["inputs"]
TX="transaction/Transaction.go"; IN="transaction/input/Input.go"; OUT="transaction/output/Output.go"
SH="transaction/SignatureHash.go"; SG="transaction/signature/InternalSigner.go"
VI="utils/VarInt.go"; BM="utils/ByteManipulation.go"; PD="script/OpPushdata.go"; SC="script/Script.go"
OP="script/Opcodes.go"; RS="script/RedeemScript.go"; US="script/UnlockingScript.go"
AD="script/address/Address.go"; AV="script/address/AddressValidation.go"; B2="script/address/BIP276.go"
HS="crypto/Hash.go"; EN="crypto/Encryption.go"
DF="block/Difficulty.go"; CB="block/GetCoinbaseParts.go"; BH="block/BuildBlockHeader.go"
MB="block/GetMerkleBranches.go"; MC="block/BuildMerkleRootFromCoinbase.go"; FL="transaction/signature/sighash/SigHashFlag.go"
def m(name, where): return dict(name=name, where=where)

p("C01","Transaction serialisation and parsing are exact inverses",
  "For every well-formed transaction (32-byte previous ids, locking scripts present), parsing its serialised bytes succeeds and gives back the same version, locktime, inputs (previous id, index, unlocking script, sequence) and outputs (value, locking script) in the same order. The serialised form is the Bitcoin wire format, and a parse succeeds only when it has consumed the whole buffer: truncated bytes or trailing bytes are an error. Parsing a single input or output reports exactly the number of bytes it occupies.",
  I,"every transaction with any number of inputs/outputs and any script lengths; every byte buffer","The tests parse a handful of hex transactions with one-byte length prefixes and never compare re-serialised bytes for larger counts or scripts.",
  [TX,IN,OUT,VI],[m("writer layout",TX+":toBytesHelper"),m("reader cursor",TX+":NewFromBytes")],["NewFromBytes","ToBytes"])
p("C02","Parsing transaction bytes never panics or over-allocates",
  "Parsing a transaction, an input, an output or a length prefix from arbitrary bytes (or a transaction from an arbitrary string) either returns a value or an error; it never panics. No length or count read from the bytes is used to allocate memory before it has been checked against the bytes that are left.",
  I,"every byte slice and string, including empty, truncated and with huge declared counts/lengths","Panics need truncated prefixes or lengths near 2^63; the tests only feed well-formed transactions.",
  [TX,IN,OUT,VI],[m("length checks before slicing",IN+":NewFromBytes")],["NewFromBytes","NewFromString","DecodeVarInt"])
p("C03","Length prefixes are canonical and decode to what was encoded",
  "Every 64-bit count is encoded in the shortest of the four Bitcoin variable-length forms (1, 3, 5 or 9 bytes, little endian), and decoding that encoding, with any bytes following, returns the same count and its exact size. Decoding a truncated prefix is reported as such (size zero) instead of inventing a value.",
  I,"all 2^64 counts and every byte string following the prefix","Tests reach only single-byte prefixes (and one 3-byte one).",
  [VI],[m("threshold chain",VI+":VarInt"),m("prefix switch",VI+":DecodeVarInt")],["VarInt","DecodeVarInt"])
p("C04","Pushed data uses the shortest push form and decodes back to itself",
  "Encoding a list of data items produces, for each item in order, the shortest push prefix for its length (direct up to 75 bytes, then 1-, 2- and 4-byte little-endian lengths) followed by the item itself. Decoding a script built from non-empty pushes returns exactly those items, decoding an opcode byte returns that byte, and a push that claims more bytes than remain is an error.",
  I,"every list of byte strings up to 2^32-1 bytes each; every script","Tests push short items only; the 75/76, 255/256 and 65535/65536 boundaries and the 2- and 4-byte length reads at their upper ends are never reached.",
  [PD],[m("prefix selection",PD+":GetPushDataPrefix"),m("decoder switch",PD+":DecodeParts")],["EncodeParts","DecodeParts","AppendPushData"])
p("C05","The transaction id is the reversed double SHA-256 of the wire bytes",
  "The id of a transaction is the lower-case hex of the byte-reversed double SHA-256 of exactly its serialised bytes. The hex form of a transaction is the hex of those same bytes.",
  I,"every transaction","One transaction's id is compared.",
  [TX,HS,BM],[],["GetTxID","ToString"])
p("C06","The signature hash commits to what the sighash flag says",
  "For every sighash flag and every valid input index, the signature hash is the byte-reversed double SHA-256 of the replay-protected preimage: version, hash of all outpoints (zero with ANYONECANPAY), hash of all sequences (zero with ANYONECANPAY, SINGLE or NONE), this input's outpoint, script code, value and sequence, hash of all outputs (of the output at the same index with SINGLE, zero with NONE or when SINGLE has no such output), locktime, and the 4-byte flag. Missing or malformed previous-output data is reported as an error instead of being hashed.",
  ["inputs","configurations"],"all 256 flag values, every index, every transaction","Only SIGHASH_ALL|FORKID vectors with one or two inputs are tested.",
  [SH,FL,OUT],[m("flag gating",SH+":GetInputSignatureHash")],["GetInputSignatureHash"])
p("C07","Signing an input signs that input and changes nothing else",
  "Signing input i with a private key and flag puts on input i, and only there, an unlocking script that pushes the DER signature of input i's signature hash followed by the flag byte, and then the compressed public key of that private key; the flag that is hashed is the flag that is appended, and no flag means ALL|FORKID. Every other part of the transaction keeps its value. A failure anywhere leaves an error, not a half-signed success.",
  I,"every transaction, index, key and flag","One single-input transaction with the default flag is signed.",
  [SG,US,TX],[m("sign and apply",SG+":Sign")],["Sign","NewP2PKHUnlockingScript","ApplyUnlockingScript"])
p("C08","Automatic signing signs exactly the inputs the key can spend",
  "Automatic signing signs every input whose previous script pays to the hash of the signer's compressed public key, each with its own index, and leaves every other input untouched. If signing one of the matching inputs fails, an error is returned.",
  I,"transactions with any mix of inputs","A single matching input is tested.",
  [SG,SC],[m("key match loop",SG+":SignAuto")],["SignAuto"])
p("C09","Failures are reported, never swallowed",
  "Whenever an operation that can return an error meets a failing step (malformed hex, wrong checksum, failing key derivation, failing signature, failing signer), it returns a non-nil error rather than a result computed from incomplete data. On error the object result is nil or must not be used.",
  ["inputs","fault_sequences"],"every failing step on every path of every error-returning entry point","Tests exercise a few single failures; dropped errors on other paths are invisible.",
  [SG,SH,DF,TX,OUT,SC,RS,CB,MB],[],["every exported function with an error result"])
p("C10","Queries and encoders never modify what they are given",
  "Serialising, hashing, formatting, classifying and querying leave the transaction, script and every caller-supplied byte slice or string list unchanged, including the spare capacity behind a caller's slice. Only the documented mutators (adding inputs/outputs, appending to a script, signing, applying an unlocking script, adding a public key, in-place sorting of keys) change their receiver.",
  ["inputs","histories"],"every entry point, every argument aliasing pattern","Tests never look at an argument after the call.",
  [TX,SH,IN,OUT,SC,PD,BM,MC,EN,CB,AD],[],["every exported function"])
p("C11","Parsed transactions own their memory",
  "Scripts of a parsed transaction, input or output share no memory with the buffer they were parsed from or with each other: changing the buffer, or appending to one script, never changes another part of the parsed transaction.",
  ["inputs","histories"],"every parse followed by any edits of the buffer or of one script","No test mutates anything after parsing.",
  [IN,OUT,TX],[],["NewFromBytes"])
p("C12","No hidden state: results depend only on arguments",
  "No operation writes package-level state after initialisation, so concurrent use on distinct objects (and sharing one signer) is race free. Every result is a deterministic function of the arguments; only encryption uses randomness, and that comes from the operating system's cryptographic source.",
  ["schedules","histories"],"every call sequence and interleaving","Tests are sequential and single-shot.",
  [SG,EN,DF,OP,AV],[],["every function of every package"])
p("C13","Addresses encode version, key hash and checksum",
  "Building an address from a public key, its hex form, or its hash gives base58 of version byte (0x00 mainnet, 0x6f testnet), the 20-byte hash and the first four bytes of the double SHA-256 of those bytes; the reported hash is the hex of that hash. The three constructors agree for the same key and network.",
  ["inputs","configurations"],"every public key / hash and both networks","One key per network is compared.",
  [AD],[],["NewFromPublicKey","NewFromPublicKeyString","NewFromPublicKeyHash","Base58EncodeMissingChecksum"])
p("C14","Only well-formed addresses are accepted",
  "Parsing an address (and paying to one) succeeds only if its base58 form decodes to exactly 25 bytes with version 0x00 or 0x6f and a correct checksum over the first 21 bytes; it then yields exactly bytes 1..20 as the key hash and keeps the address text. Address validation accepts exactly the same strings (apart from the script URI form), including the exact number of leading '1' characters.",
  I,"every string","Tests use three valid addresses, a short one and one wrong version; no test changes a character of a valid address.",
  [AD,AV,SC,OUT],[m("checksum comparison",AD+":addressToPubKeyHashStr"),m("validA58",AV)],["NewFromString","ValidateAddress","NewP2PKHFromAddress"])
p("C15","BIP276 text decodes to what was encoded",
  "For every non-empty prefix without line breaks, every network and version from 1 to 255 and every data, decoding the encoded text returns the same four values. Text that does not have the right shape or whose checksum does not match is an error; an out-of-range network or version is refused when encoding.",
  I,"all 255x255 network/version pairs and all data","The only vector has network = version = 1 and the decoded values are not compared.",
  [B2],[],["EncodeBIP276","DecodeBIP276","ValidateAddress"])
p("C16","P2PKH locking scripts are always the standard 25-byte template",
  "Every way of building a pay-to-public-key-hash script (from a key, key hex, hash hex or address) either fails or yields exactly DUP HASH160 <20-byte hash> EQUALVERIFY CHECKSIG with the hash the input denotes; all builders agree with each other and with the P2PKH classifier.",
  I,"every input, including hash strings that are not 20 bytes","Tests use one valid value per builder.",
  [SC,OUT,TX],[],["NewP2PKHFromPubKeyStr","NewP2PKHFromPubKeyBytes","NewP2PKHFromPubKeyHashStr","NewP2PKHFromAddress","PayTo"])
p("C17","Script classifiers accept exactly their templates",
  "A script is classified as P2PKH, P2SH or P2PK exactly when its bytes are the standard template (for P2PK a directly pushed 33-byte 02/03 or 65-byte 04/06/07 key followed by CHECKSIG), and as data exactly when it starts with RETURN or FALSE RETURN. A multisig output is one that starts with a small-integer opcode and ends with a small-integer opcode and CHECKMULTISIG, with no empty push in between, and pushed data is never mistaken for an opcode.",
  I,"every byte string","One positive example per class and no near misses.",
  [SC],[],["IsP2PKH","IsP2PK","IsP2SH","IsData","IsMultisigOut"])
p("C18","The key hash is extracted from P2PKH scripts only",
  "Extracting the public key hash returns the 20 bytes between the push and EQUALVERIFY exactly when the script is the standard P2PKH template, and an error for every other script including nil and empty.",
  I,"every script","One positive and the empty script.",
  [SC],[],["GetPublicKeyHash"])
p("C19","Data and hash-puzzle outputs have the documented script and value",
  "A data output is FALSE RETURN followed by one minimal push per item, in order, with value zero. A hash-puzzle output carries the requested value and the script HASH160 <hash of the secret> EQUALVERIFY DUP HASH160 <key hash> EQUALVERIFY CHECKSIG; a P2PKH output carries the requested value and the script for its address or hash.",
  I,"every item list, secret, hash and value","Short items; the value field is never checked.",
  [OUT,SC],[],["NewOpReturn","NewOpReturnParts","NewHashPuzzle","NewP2PKHFromAddress","NewP2PkhFromPubKeyHash"])
p("C20","Opcode names and bytes correspond one to one",
  "Every one of the 256 opcode bytes has a name, that name maps back to the same byte, and every accepted name denotes the byte its definition says. Push opcodes 1..75, PUSHDATA1/2/4, small integers 1..16 and the numbered opcodes have their protocol values.",
  I,"all 256 bytes and all names","Tests touch five opcodes.",
  [OP],[],["NewFromASM","ToASM"])
p("C21","Assembly text round-trips",
  "For every script made of opcodes and minimal non-empty data pushes, reading back the assembly text of the script gives the same bytes: each opcode is rendered by its name and each push by the hex of its data. Text with an unknown word that is not hex is an error.",
  I,"every such script","One P2PKH script is rendered.",
  [SC,OP,PD],[],["ToASM","NewFromASM"])
p("C22","Hash helpers compose SHA-256 and RIPEMD-160 as named",
  "The double hash is SHA-256 applied to the full 32-byte SHA-256 of the input, and hash160 is RIPEMD-160 of the full SHA-256 of the input; each helper hashes the whole input and nothing else.",
  I,"every byte string","Six vectors.",
  [HS],[],["Sha256","Sha256d","Ripemd160","Hash160"])
p("C23","Decryption inverts encryption, with a fresh random IV each time",
  "For every AES key and plaintext, decrypting what was encrypted returns the plaintext; each encryption draws a full block-size IV from the cryptographic random source, stores it in front of the ciphertext and fails if it cannot. Decrypting input shorter than the IV is an error.",
  ["inputs","fault_sequences"],"every plaintext, cipher and randomness failure","There are no tests of encryption.",
  [EN],[],["Encrypt","Decrypt"])
p("C24","Merkle proofs fold in the right order and bounds",
  "Folding a transaction id with its branches combines, level by level, the running hash and the branch with a double SHA-256, placing the branch on the left exactly when the corresponding index bit is set, and converts byte order at both ends; malformed hex is an error and an index that is negative or does not fit the number of branches is an error. Building a root from a coinbase hash is the same fold with every branch on the right.",
  I,"every id, index and branch list of any length","One proof is checked.",
  [MB,MC],[],["MerkleRootFromBranches","BuildMerkleRootFromCoinbase"])
p("C25","Merkle branches for the coinbase are the right siblings",
  "The branch list for the first leaf contains, for each level of the tree, the sibling of the first node, where each level is formed by double-hashing adjacent pairs in order and an unpaired last node is paired with itself; the list ends when one node is left.",
  I,"every list of leaf hashes","Not tested.",
  [MB],[],["GetMerkleBranches"])
p("C26","A block header is its six fields in wire order",
  "A built header is the little-endian version, the byte-reversed previous block hash, then merkle root, time, bits and nonce exactly as given, with nothing added, dropped or reordered.",
  I,"every field value","Not tested.",
  [BH],[],["BuildBlockHeader"])
p("C27","Coinbase parts recombine into a well-formed coinbase transaction",
  "Joining the two coinbase parts around 12 bytes of extra nonce gives a parseable version-1 coinbase transaction: null previous outpoint, a declared script length that covers exactly height push, text and extra nonce (never more than 100 bytes), final sequence, locktime zero and a declared output count equal to the outputs present. The first output pays the given value to the given address, followed by the witness-commitment output if one is given and the miner-id output if one is given, both with zero value.",
  ["inputs","configurations"],"every height, text length, address, value and presence of the optional outputs","Not tested.",
  [CB],[],["GetCoinbaseParts","BuildCoinbase"])
p("C28","Compact difficulty bits decode consistently and safely",
  "Every 4-byte compact value decodes to mantissa times 256^(exponent-3) with its sign bit honoured, the expanded hex form is that number in 32 bytes, and the difficulty is computed from the same number. Bits that are not 4 bytes of hex, or whose target is negative or does not fit in 32 bytes when expanded, give an error and never a panic.",
  I,"all 2^32 compact values and every other string","Three values and one non-hex string.",
  [DF],[],["ExpandTargetFrom","ExpandTargetFromAsInt","DifficultyFromBits"])
p("C29","Multisig redeem scripts and their addresses are canonical",
  "A redeem script is the small-integer opcode of the threshold, each public key pushed in ascending byte order, the small-integer opcode of the key count and CHECKMULTISIG, so it does not depend on the order keys were added; a threshold outside 2..16 or a seventeenth key is refused. Its address is base58 of version 5 and the hash160 of exactly that script, with checksum.",
  ["inputs","histories"],"every set of keys added in any order and every threshold","Two keys in two orders.",
  [RS,BM],[],["NewRedeemScript","AddPublicKey","GetRedeemScript","GetRedeemScriptHash","GetAddress","SortByteArrays"])
p("C30","Electrum redeem scripts are parsed totally and faithfully",
  "Parsing an Electrum redeem script either returns the threshold and, for each extended key in order, the public key derived along its two-level path, or an error; it never panics. It is accepted only if it starts with a threshold opcode, ends with the key-count opcode and CHECKMULTISIG, and the declared count equals the number of keys.",
  I,"every string","One valid script.",
  [RS],[],["NewRedeemScriptFromElectrum"])
p("C31","Inspecting an arbitrary script never panics",
  "Decoding, classifying, rendering and extracting from a script made of arbitrary bytes (including empty and truncated pushes, and lengths close to the limits of their fields) returns a value or an error and never panics.",
  I,"every byte string","Fuzz-like inputs are absent; only one historical crash is tested.",
  [PD,SC],[],["DecodeParts","DecodeStringParts","ToASM","IsP2PK","IsData","IsMultisigOut","GetPublicKeyHash","NewFromASM"])
p("C32","Decoding arbitrary text never panics",
  "Decoding or validating arbitrary text or bytes as address, BIP276 text, compact bits, coin ticker, fixed 32-byte hex, merkle proof or ciphertext returns a value or an error and never panics.",
  I,"every string / byte slice","Only well-formed samples are tested.",
  [AD,AV,B2,DF,BM,MB,MC,EN,BH],[],["NewFromString","ValidateAddress","DecodeBIP276","ExpandTargetFrom","DifficultyFromBits","Decode32Byte","MerkleRootFromBranches","Decrypt"])
p("C33","Transaction operations on a bad index return an error",
  "Hashing, signing or applying an unlocking script for an index that the transaction does not have returns an error and changes nothing; serialising, summing, identifying and formatting any well-formed transaction never panics.",
  I,"every index from 0 to 2^32-1 and every transaction, including one without inputs or outputs","Tests use valid indexes only.",
  [TX,SH,SG,IN,OUT],[],["ApplyUnlockingScript","GetInputSignatureHash","Sign","SignAuto"])
p("C34","Coinbase detection is exact",
  "A transaction is reported as coinbase exactly when it has one input, that input's previous id is 64 zeros, and its previous index or its sequence is 0xffffffff.",
  I,"every transaction","One coinbase and one ordinary transaction.",
  [TX],[],["IsCoinbase"])
p("C35","Building a transaction appends exactly what was asked",
  "Adding an input or output, spending an outpoint or paying an address appends exactly one element at the end with the given fields (final sequence by default) and leaves everything else unchanged; when the arguments are invalid nothing is added. Counts equal the number of elements and the total is the sum of the output values.",
  ["inputs","histories"],"every sequence of building calls","Single calls on parsed transactions.",
  [TX,IN,OUT],[],["AddInput","AddOutput","From","PayTo","NewFromUTXO","InputCount","OutputCount","GetTotalOutputSatoshis","New"])
p("C36","Cleared-input serialisation stays a valid transaction",
  "Serialising with cleared inputs gives the wire format of the same transaction in which every input's script is empty except the one at the given index, which carries the given script; outpoints, sequences, outputs, version and locktime are unchanged.",
  I,"every transaction, index and script","Not tested.",
  [TX,IN],[],["ToBytesWithClearedInputs"])
p("C37","Byte-order and comparison helpers do what they say",
  "Reversing bytes returns a new slice with the bytes in opposite order, reversing a hex string reverses its byte pairs (left-padding odd lengths), little-endian encoding into at least 4 bytes writes the value's low byte first, equality holds exactly for equal contents, and sorting byte strings yields ascending lexicographic order.",
  I,"every byte slice, string and value","One example of the hex form.",
  [BM],[],["ReverseBytes","ReverseHexString","GetLittleEndianBytes","Equals","SortByteArrays","Decode32Byte"])
p("C38","Difficulty and hash-rate numbers are numerically accurate",
  "The difficulty and hash rate computed from compact bits or difficulty are the correctly rounded quotients of the exact rational values.",
  I,"all representable inputs","Three difficulties and two hash rates.",
  [DF,"utils/HumanHash.go"],[],["DifficultyFromBits","DifficultyToHashrate","HumanHash"])
p("C39","Produced signatures verify under the signer's public key",
  "The signature placed in an unlocking script is a valid strict-DER, low-S ECDSA signature of the signature hash under the pushed public key, so the spend is accepted by the network.",
  I,"every key and digest","One deterministic signature.",
  [SG],[],["Sign"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
