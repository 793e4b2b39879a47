#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "VarInt codec is minimal, exact and self-delimiting",
  "Every unsigned 64-bit integer is encoded in the shortest of Bitcoin's four VarInt forms (1, 3, 5 or 9 bytes, little endian). Decoding that encoding, whatever bytes follow it, returns the same integer and the number of bytes it occupies. Decoding any complete VarInt, also a non-minimal one, returns the little-endian value of its form and that form's size.",
  ["inputs"], "all 2^64 integers; all byte strings of 1..12 bytes that hold a complete VarInt",
  "No test calls the VarInt functions except to print one; 2^64 values and four form boundaries cannot be sampled.",
  ["utils/VarInt.go"], [("VarInt", "utils/VarInt.go"), ("DecodeVarInt", "utils/VarInt.go")],
  ["return values of the VarInt encode and decode functions"])

p("C02", "Push-data encoding is minimal and decodes back to the same items",
  "Encoding a list of data items into a script gives each item the shortest push prefix for its length (a length byte up to 75 bytes, then OP_PUSHDATA1, OP_PUSHDATA2, OP_PUSHDATA4 with a little-endian length) followed by the item's bytes, in order, with nothing else. Splitting that script into parts again returns exactly the items, for items of every length of one byte or more. Appending data to an existing script (from bytes, a string, a hex string or a list) leaves what was there and adds exactly that encoding.",
  ["inputs"], "item lists of up to 3 items; item lengths 0 to beyond 2^32 as one symbolic length for the prefix, 0 to 2^26 for the whole encoding; every item content; 4..260 items of mixed lengths",
  "Tests encode a handful of short items and one of 290 bytes; the length boundaries (75/76, 255/256, 65535/65536, 2^32) and all lengths in between are never reached.",
  ["script/OpPushdata.go", "script/Script.go"],
  [("EncodeParts", "script/OpPushdata.go"), ("GetPushDataPrefix", "script/OpPushdata.go"), ("AppendPushData*", "script/Script.go")],
  ["return value of EncodeParts, GetPushDataPrefix, DecodeParts", "script bytes after AppendPushData*"])

p("C03", "Splitting a script into parts is total and exact",
  "For every byte string, splitting it into script parts terminates without panicking. It returns one part per pushed item or single-byte opcode, exactly as the script's push grammar defines, in order. If a push (or its length field) runs past the end of the script it returns an error instead.",
  ["inputs"], "every byte string of up to 8 bytes (10 in the thorough tier) plus scripts with OP_PUSHDATA1/2/4 items of every declared length up to 2^32-1 against every actual length up to 2^26; 15..300 parts of every form with an arbitrary one among them",
  "The tests split nine fixed scripts; malformed length fields (for example OP_PUSHDATA4 with length 0xffffffff) are an adversary's choice and are not sampled.",
  ["script/OpPushdata.go"], [("DecodeParts", "script/OpPushdata.go"), ("DecodeStringParts", "script/OpPushdata.go")],
  ["return values of DecodeParts and DecodeStringParts; absence of panics"])

p("C04", "Transaction parsing is total and exact",
  "For every byte string, parsing it as a transaction, a transaction input or a transaction output terminates without panicking. Transaction parsing succeeds exactly when the whole string is one well-formed transaction (version, VarInt-counted inputs, VarInt-counted outputs, 4-byte locktime and nothing after it), and then every field holds the value the wire format defines. Input and output parsing succeed exactly when the string starts with a well-formed input or output, and report how many bytes it occupies.",
  ["inputs"], "every byte string of up to 10 bytes; longer strings with every VarInt form and value as counts and script lengths (up to 2^64-1) over 0..2 inputs and outputs, scripts of symbolic length up to 2^26, and truncation at every position; up to 513 inputs and outputs (65537 thorough)",
  "Tests parse about ten well-formed transactions; truncated, over-long and hostile length fields, which peers choose, are never tried.",
  ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go"],
  [("NewFromBytes / NewFromString", "transaction/Transaction.go"), ("input.NewFromBytes", "transaction/input/Input.go"), ("output.NewFromBytes", "transaction/output/Output.go")],
  ["parsed fields, error, consumed size; absence of panics"])

p("C05", "Transaction serialisation is the wire format and round-trips",
  "Serialising a transaction yields exactly its Bitcoin wire encoding: version, VarInt input count, each input's reversed previous id, index, VarInt-prefixed unlocking script and sequence, VarInt output count, each output's value and VarInt-prefixed locking script, locktime. Parsing that encoding gives back a transaction with the same fields, and serialising a transaction parsed from minimally encoded bytes gives back those bytes. An absent unlocking script is serialised as an empty one, and the hexadecimal forms carry the same bytes.",
  ["inputs"], "transactions with 0..3 inputs and outputs, all field values, scripts of every length 0..2^26 and any content; additionally 252, 253 and (thorough) 65536 inputs or outputs; one change of any field, input or output between two serialisations",
  "Tests round-trip a few fixed transactions with short scripts; counts of 253 or more and scripts across VarInt boundaries are not covered.",
  ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go"],
  [("toBytesHelper / ToBytes / ToString", "transaction/Transaction.go"), ("Input.ToBytes", "transaction/input/Input.go"), ("Output.ToBytes", "transaction/output/Output.go")],
  ["bytes from ToBytes, ToString; transaction from NewFromBytes, NewFromString"])

p("C06", "The transaction id is the reversed double SHA-256 of the wire bytes",
  "The id of a transaction is the lower-case hexadecimal form of the byte-reversed double SHA-256 of exactly its wire serialisation. It does not depend on metadata that is not serialised (the value and script of the outputs being spent). Computing it does not change the transaction.",
  ["inputs"], "transactions with 0..2 inputs and outputs, all field values, scripts of every length up to 2^26; one change of any kind between two requests of the id",
  "One fixed id is checked by the tests.",
  ["transaction/Transaction.go", "crypto/Hash.go", "utils/ByteManipulation.go"],
  [("GetTxID", "transaction/Transaction.go"), ("Sha256d", "crypto/Hash.go"), ("ReverseBytes", "utils/ByteManipulation.go")],
  ["GetTxID"])

p("C07", "The signature hash commits to exactly what the sighash flag says",
  "For every transaction, input index and sighash flag byte, the signature hash is the byte-reversed double SHA-256 of the replay-protected (BIP143 style) preimage: hashes of all prevouts, sequences and outputs, each included, zeroed or narrowed to the matching output exactly as the ALL, NONE, SINGLE and ANYONECANPAY bits require, and the input's outpoint, script code, value, sequence and the flag. If the input's previous id or previous script is missing an error is returned. Computing the hash does not change the transaction.",
  ["inputs"], "all 256 flag bytes; 1..3 inputs and 0..3 outputs, every input index; all field values; script code and output scripts of every length up to 2^26; 17..300 inputs with one input or output less or more; one change of any kind between two requests of a hash",
  "Three fixed vectors, all with ALL|FORKID; NONE, SINGLE (also without a matching output) and ANYONECANPAY are never executed.",
  ["transaction/SignatureHash.go", "transaction/output/Output.go", "transaction/signature/sighash/SigHashFlag.go"],
  [("GetInputSignatureHash", "transaction/SignatureHash.go"), ("getPrevoutHash / getSequenceHash / getOutputsHash", "transaction/SignatureHash.go"), ("GetBytesForSigHash", "transaction/output/Output.go")],
  ["GetInputSignatureHash"])

p("C08", "Signing an input installs exactly the P2PKH unlocking script for it",
  "Signing an input with a private key sets that input's unlocking script to exactly two pushes: the DER signature over that input's signature hash followed by the sighash flag byte, then the key's compressed public key. A zero flag means ALL|FORKID. Nothing else in the transaction changes, and when the signature hash cannot be computed an error is returned and no unlocking script is touched.",
  ["inputs"], "1..3 inputs, every index, 17..300 inputs at chosen indices, all flag bytes, all field values, signatures of every DER length 8..72",
  "One input is signed with one key and one flag by the tests.",
  ["transaction/signature/InternalSigner.go", "script/UnlockingScript.go", "transaction/Transaction.go"],
  [("InternalSigner.Sign", "transaction/signature/InternalSigner.go"), ("NewP2PKHUnlockingScript", "script/UnlockingScript.go"), ("Sign / ApplyUnlockingScript", "transaction/Transaction.go")],
  ["unlocking script of every input after Transaction.Sign"])

p("C09", "Automatic signing signs exactly the inputs the key can unlock",
  "Automatic signing signs every input whose previous script is a P2PKH script paying to the hash of the key's compressed public key, each with the same result as signing it individually (also when that is an error). Every other input, whatever its previous script (absent, empty, other template, another key's hash), keeps its unlocking script. Outputs, version, locktime and the inputs' other fields do not change.",
  ["inputs"], "1..3 inputs whose previous scripts are P2PKH for this or another key, near misses of the template, or arbitrary byte strings of up to 4 bytes; 4..33 inputs of which one is for another key",
  "The single test signs one input it owns; mixtures of owned, foreign and malformed inputs are not tried.",
  ["transaction/signature/InternalSigner.go", "script/Script.go", "transaction/Transaction.go"],
  [("InternalSigner.SignAuto", "transaction/signature/InternalSigner.go"), ("GetPublicKeyHash", "script/Script.go")],
  ["unlocking scripts after Transaction.SignAuto"])

p("C10", "Script classification matches the standard templates exactly",
  "The P2PKH and P2SH predicates are true exactly for the 25-byte and 23-byte standard scripts; the data predicate exactly for scripts starting with OP_RETURN or OP_FALSE OP_RETURN; the P2PK predicate exactly for one well-formed compressed (02/03, 33 bytes) or uncompressed/hybrid (04/06/07, 65 bytes) public key push followed by the single opcode OP_CHECKSIG. The multisig predicate is true exactly for a small-integer opcode, pushes, a small-integer opcode and OP_CHECKMULTISIG. All of them answer for every byte string, the empty one included, without panicking.",
  ["inputs"], "every script of up to 7 bytes (9 thorough); every content of 23, 24, 25, 26, 35, 36, 67 and 68 byte scripts for the fixed-length templates; multisig scripts of 1..100 keys",
  "One positive example per predicate is tested and no negative one.",
  ["script/Script.go", "script/OpPushdata.go"],
  [("IsP2PKH / IsP2SH / IsP2PK / IsData / IsMultisigOut", "script/Script.go")],
  ["results of the predicates"])

p("C11", "All P2PKH constructors build the same standard script",
  "Building a P2PKH locking script from a public key (bytes or hex), a 20-byte public key hash (hex) or an address yields exactly OP_DUP OP_HASH160 <20-byte hash> OP_EQUALVERIFY OP_CHECKSIG with the hash that the input denotes. Each such script is classified as P2PKH, and extracting the public key hash from it returns that hash. Extracting the hash from any script that is not P2PKH returns an error and never panics.",
  ["inputs"], "all 33- and 65-byte public keys, all 20-byte hashes, both networks; extraction from every script of up to 6 bytes and every 24..26 byte script",
  "Tests use one key, one hash and one address, and only one failing extraction (the empty script).",
  ["script/Script.go", "crypto/Hash.go", "script/address/Address.go"],
  [("NewP2PKHFrom*", "script/Script.go"), ("GetPublicKeyHash", "script/Script.go")],
  ["script bytes, IsP2PKH, GetPublicKeyHash"])

p("C12", "Script to ASM and back is lossless for minimally pushed scripts",
  "Every script made of single-byte opcodes and minimally encoded non-empty data pushes has an ASM form that parses back to exactly the same bytes. Every single-byte opcode has one name, which parses back to that opcode. A malformed word in an ASM string gives an error, and a script with a truncated push has no ASM form.",
  ["inputs"], "every single opcode byte; scripts of up to 3 elements mixing every opcode with pushes of 1..80 and 255..257 bytes of any content",
  "One P2PKH script is converted in each direction.",
  ["script/Script.go", "script/Opcodes.go", "script/OpPushdata.go"],
  [("ToASM", "script/Script.go"), ("NewFromASM", "script/Script.go"), ("opCodeStrings / opCodeValues", "script/Opcodes.go")],
  ["ToASM, NewFromASM"])

p("C13", "Addresses encode and decode public key hashes faithfully",
  "For every 20-byte hash and both networks the derived address is the Base58Check form of version byte (00 mainnet, 6f testnet) and hash, and parsing it returns the same address string and public key hash; deriving from a public key uses RIPEMD160(SHA256(key)). Parsing a string whose decoded form is not 25 bytes, has another version byte, or whose checksum does not match is rejected with an error.",
  ["inputs"], "all 20-byte hashes, all public keys, both networks, all decoded payload lengths 0..30, all version bytes, all checksum deviations",
  "About eight fixed addresses are tested; none with a wrong checksum, although accepting one sends coins to a hash nobody owns.",
  ["script/address/Address.go", "crypto/Hash.go"],
  [("NewFromString / addressToPubKeyHashStr", "script/address/Address.go"), ("NewFromPublicKey*", "script/address/Address.go"), ("Base58EncodeMissingChecksum", "script/address/Address.go")],
  ["Address fields, errors"])

p("C14", "Address validation decides Base58Check correctly",
  "Validation accepts a string that does not begin with 'bitcoin-script:' exactly when it is the Base58Check text of 25 bytes: base58 digits only, one leading '1' for every leading zero byte, the first byte 00 or 6f, and the last four bytes the first four bytes of the double SHA-256 of the first 21. A string that begins with 'bitcoin-script:' is accepted exactly when it decodes as BIP276. Otherwise an error is reported; it never panics. Every address the library derives for either network is accepted.",
  ["inputs"], "texts of up to 4 arbitrary characters (6 thorough), 20..40 ones followed by up to 2 arbitrary characters (3 thorough), eight known addresses of both networks with any one character replaced, inserted or removed at every position or their last 3 characters (4 thorough) arbitrary, every version byte, every change of one decoded byte, one arbitrary hash byte at every position for derived addresses, BIP276 texts with arbitrary header, up to 2 data bytes and checksum, with seven other prefixes and any one character of the prefix replaced",
  "Three positive fixed addresses are tested and no negative one.",
  ["script/address/AddressValidation.go"],
  [("ValidateAddress / validA58 / set58", "script/address/AddressValidation.go")],
  ["ValidateAddress"])

p("C15", "BIP276 text round-trips and corrupted text is rejected",
  "Encoding either prefix (script or template), network and version from 1 to 255 and any data, including none, gives the text prefix ':' network version data checksum, with two lower-case hex digits each for network and version, data in hex and the first four bytes of the double SHA-256 of what precedes as checksum; decoding it returns the same prefix, network, version and data. A network or version outside 1..255 is refused. Decoding a text that has not this form (hex digits of data in upper case aside), or has network or version 0 or a wrong checksum, returns an error and never panics.",
  ["inputs"], "both prefixes; all network and version values with up to 1 data byte, twelve of them with 0..4 and 80 arbitrary data bytes (12 thorough); any int for refusal; arbitrary checksums; any one character replaced, inserted or removed at every position; every truncation; up to 4 arbitrary characters (6 thorough) with and without a prefix",
  "One encode and one decode with network 1, version 1 are tested; the decode test does not even look at the result.",
  ["script/address/BIP276.go", "script/address/AddressValidation.go"],
  [("EncodeBIP276", "script/address/BIP276.go"), ("DecodeBIP276", "script/address/BIP276.go")],
  ["EncodeBIP276, DecodeBIP276, ValidateAddress"])

p("C16", "Redeem scripts are canonical multisig scripts",
  "The redeem script for a threshold m and n public keys is OP_m, the keys each pushed with its length in ascending byte order, OP_n, OP_CHECKMULTISIG, so it does not depend on the order in which keys were added. Its address is the Base58Check form of version 05 and RIPEMD160(SHA256(redeem script)). A threshold outside 2..16 is refused.",
  ["inputs", "histories"], "thresholds: all ints; 0..3 keys (4 thorough) of 33 arbitrary bytes in every order; up to 16 keys with one arbitrary byte; keys derived along paths of 0..3 arbitrary indices; one change of threshold, keys or their order between two requests",
  "Two keys in both orders, one address.",
  ["script/RedeemScript.go", "utils/ByteManipulation.go"],
  [("NewRedeemScript / GetRedeemScript / GetAddress", "script/RedeemScript.go"), ("SortByteArrays", "utils/ByteManipulation.go")],
  ["GetRedeemScript, GetRedeemScriptHash, GetAddress"])

p("C17", "Output constructors build exactly the documented locking scripts",
  "A data output is OP_FALSE OP_RETURN followed by the minimally pushed items and carries zero satoshis; a hash-puzzle output is OP_HASH160 <hash160 of the secret> OP_EQUALVERIFY followed by the P2PKH script of the given hash; the P2PKH outputs carry the P2PKH script. The requested satoshi value is stored unchanged and the hex form of the script carries the same bytes. An invalid hash or address gives an error and no output.",
  ["inputs"], "data items of every length up to 2^26 and 1..3 items, 4..256 short items, all hashes, secrets of up to 8 bytes, all satoshi values",
  "One fixed example per constructor.",
  ["transaction/output/Output.go", "script/Script.go"],
  [("NewOpReturn / NewOpReturnParts / NewHashPuzzle / NewP2PkhFromPubKeyHash / NewP2PKHFromAddress", "transaction/output/Output.go")],
  ["Satoshis, LockingScript"])

p("C18", "Block headers are assembled in wire order",
  "The built block header is the 4-byte little-endian version, the byte-reversed previous block hash, then merkle root, time, bits and nonce exactly as given, 80 bytes for fields of standard size. None of the arguments is modified.",
  ["inputs"], "all versions, all previous hashes, all field contents",
  "No test builds a header.",
  ["block/BuildBlockHeader.go", "utils/ByteManipulation.go"],
  [("BuildBlockHeader", "block/BuildBlockHeader.go")],
  ["BuildBlockHeader"])

p("C19", "Merkle branches and roots agree with the block's merkle tree",
  "For every list of transaction ids, the branches computed for the coinbase position combine with the coinbase hash to the merkle root of the full tree (an odd level repeats its last node). Combining any transaction id with its position and merkle path gives that same root, a position that does not fit the path length is rejected, and malformed hex is rejected. None of the arguments is modified.",
  ["inputs"], "1..9 transactions (17 thorough) with arbitrary ids, every position; 10..257 transactions at chosen positions; every int as position for paths of 0..4 hashes (6 thorough); malformed hex in every argument",
  "One path for one transaction is tested; the branch builder and the root builder are not tested at all.",
  ["block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go"],
  [("GetMerkleBranches / MerkleRootFromBranches", "block/GetMerkleBranches.go"), ("BuildMerkleRootFromCoinbase", "block/BuildMerkleRootFromCoinbase.go")],
  ["branches, roots, errors"])

p("C20", "Coinbase parts reassemble into a valid coinbase transaction",
  "Joining the first coinbase part, 12 bytes of extra nonces and the second part gives one well-formed coinbase transaction: version 1, one null-outpoint input with sequence ffffffff whose script is 03, the three low bytes of the height, the text (cut so that the script has at most 100 bytes) and the nonces, and locktime 0. Its outputs are the P2PKH output of the given value to the wallet, then the witness commitment and miner id outputs with value zero, each only when given. Invalid wallet or commitment gives an error.",
  ["inputs"], "all heights and values, texts of every length up to 2^16 and any content, commitments absent or of 1, 2, 38, 252 and 253 bytes, miner ids absent or of every length up to 2^26, all wallets",
  "No test covers the coinbase builder.",
  ["block/GetCoinbaseParts.go", "transaction/output/Output.go"],
  [("GetCoinbaseParts / BuildCoinbase", "block/GetCoinbaseParts.go")],
  ["coinbase1, coinbase2, BuildCoinbase"])

p("C21", "Compact targets expand exactly",
  "Expanding a four-byte compact target gives mantissa * 256^(exponent-3) (rounded toward zero, negated when the sign bit is set) as an integer, and as 64 hexadecimal digits in the string form when it is a non-negative number below 2^256. Text that is not valid hex of four bytes, and targets that do not fit the string form, give an error. No input causes a panic.",
  ["inputs"], "all 2^32 compact values; all texts of up to 10 characters",
  "Two values and one non-hex text are tested.",
  ["block/Difficulty.go"],
  [("ExpandTargetFrom / ExpandTargetFromAsInt", "block/Difficulty.go")],
  ["returned string, integer and error"])

p("C22", "Decryption inverts encryption and leaves its input alone",
  "For every block cipher with 16-byte blocks, every plaintext and every random initial vector, decrypting what was encrypted returns the plaintext, and decrypting the same ciphertext again does so too. The ciphertext starts with the initial vector, 16 bytes read in full from the system's random source; when that source fails, encryption returns an error. A ciphertext shorter than one block is rejected with an error. No input causes a panic.",
  ["inputs"], "an arbitrary (uninterpreted) block cipher and IV, plaintexts of 0..20 bytes (40 thorough) and of 15 lengths up to 1025 with three arbitrary bytes; ciphertexts of up to 20 arbitrary bytes; random sources that end after 0..33 arbitrary bytes, read in pieces of 1, 7 or 16",
  "The encryption functions have no test at all.",
  ["crypto/Encryption.go"],
  [("Encrypt / Decrypt", "crypto/Encryption.go")],
  ["Decrypt(Encrypt(x)), the ciphertext buffer after Decrypt"])

p("C23", "Hash helpers compose the named primitives exactly",
  "The double hash is SHA-256 applied to the SHA-256 digest, the 160-bit hash is RIPEMD-160 applied to the SHA-256 digest, and the single-hash helpers return the named primitive of exactly the bytes given. The argument is not modified and the result is a fresh buffer.",
  ["inputs"], "inputs of every length up to 2^26, any content; for aliasing inputs of 0..24 bytes (130 thorough) with and without spare capacity",
  "Six fixed strings.",
  ["crypto/Hash.go"], [("Sha256 / Sha256d / Ripemd160 / Hash160", "crypto/Hash.go")],
  ["return values"])

p("C24", "Calls and extended results leave other buffers alone",
  "No library call modifies the bytes of a buffer passed to it. Appending to or otherwise extending one script, part or hash obtained from a parsed transaction, script or digest never changes another field of that object or any other object obtained from the library. Results of earlier calls are not changed by later calls.",
  ["inputs", "histories"], "parse-then-append over transactions of up to 2 inputs and outputs, inputs, outputs and scripts of up to 3 elements; call, other call, append, same call again for every function that takes or returns bytes, with arbitrary contents and spare capacity in every argument buffer",
  "Tests look at one result at a time and never extend a parsed script or reuse a buffer.",
  ["transaction/input/Input.go", "transaction/output/Output.go", "script/OpPushdata.go", "block/BuildMerkleRootFromCoinbase.go", "block/GetCoinbaseParts.go", "crypto/Encryption.go"],
  [("sub-slicing of input buffers", "transaction/input/Input.go, transaction/output/Output.go, script/OpPushdata.go"), ("append to argument slices", "block/BuildMerkleRootFromCoinbase.go, block/GetCoinbaseParts.go")],
  ["contents of all buffers after the calls"])

p("C25", "Byte utilities are exact",
  "Reversing bytes returns a new slice with the bytes in reverse order; reversing a hex string reverses its byte pairs (an odd-length string is first padded with a leading zero). Equality of byte strings holds exactly when lengths and all bytes agree, and sorting byte strings returns the same strings in ascending lexicographic order. Little-endian bytes of a 32-bit number occupy the first four bytes of the requested width, and decoding a 32-byte hex string returns its bytes while shorter or malformed text gives an error.",
  ["inputs"], "byte strings of up to 33 bytes (80 thorough) and of eleven lengths up to 1000, texts of up to 17 characters (40 thorough) and of six lengths up to 601 and 64 hex digits, pairs of strings of up to 6 bytes (12 thorough) and up to 65 bytes differing in one place, sorting of up to 3 strings (4 thorough) of up to 3 bytes and of 7..50 strings with one arbitrary byte, all 32-bit numbers with widths 4..40",
  "Three hex strings are tested; the other helpers are not.",
  ["utils/ByteManipulation.go"],
  [("ReverseBytes / ReverseHexString / Equals / SortByteArrays / GetLittleEndianBytes / Decode32Byte", "utils/ByteManipulation.go")],
  ["return values"])

p("C26", "Building a transaction step by step yields exactly the requested transaction",
  "A new transaction has version 1, locktime 0 and no inputs or outputs. After any sequence of adding inputs, spending UTXOs, adding outputs and paying to addresses, the transaction contains exactly those inputs and outputs in order with the requested values (a spent UTXO gets sequence ffffffff), the counts and the output total match, and a failed call changes nothing. It is reported as coinbase exactly when it has one input, with an all-zero previous id, whose index or sequence is ffffffff.",
  ["histories", "inputs"], "every sequence of 3 builder calls (4 thorough) with arbitrary arguments, some of them failing; up to 700 inputs and outputs; the same input or output added again; two transactions built alternately",
  "Tests build almost everything by parsing; sequences of builder calls are not explored.",
  ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go"],
  [("New / AddInput / From / AddOutput / PayTo / GetTotalOutputSatoshis / IsCoinbase", "transaction/Transaction.go"), ("NewFromUTXO", "transaction/input/Input.go")],
  ["transaction fields after the sequence"])

p("C27", "Electrum redeem scripts are parsed safely",
  "Parsing an Electrum-style redeem script never panics, whatever text is given. It succeeds exactly when the script is a threshold opcode from 2 to 15, one to sixteen pushes of ff, a 78-byte extended key that derives and exactly two 2-byte little-endian derivation indices, a matching key count opcode and OP_CHECKMULTISIG, and then holds the threshold and the derived keys in script order. Everything else gives an error.",
  ["inputs"], "every script of up to 6 bytes (8 thorough); 0..2 keys (3 thorough) in every push form with arbitrary indices between arbitrary opcodes; 3, 15, 16 and 17 keys; keys of every length 0..90 and of any content; any one byte replaced, removed or inserted and every truncation of a two-key script; malformed hex; key derivation is an uninterpreted function (evaluated for real on replay)",
  "One well-formed script is tested.",
  ["script/RedeemScript.go"], [("NewRedeemScriptFromElectrum", "script/RedeemScript.go"), ("AddPublicKey", "script/RedeemScript.go")],
  ["RedeemScript fields, error; absence of panics"])

p("C28", "Difficulty and hash-rate figures are numerically right",
  "The difficulty of a positive compact target is the genesis target 0xffff*2^208 divided by that target; text that is no compact target gives an error. The hash rate is the difficulty times the network's hashes per unit of difficulty (2^256 divided by the target of 1d00ffff, or of 207fffff for coin names starting with R), divided by the target time. The human-readable rate is the value divided by the largest unit (kH/s to ZH/s in powers of 1000) not exceeding it, with two decimals. All of it is rounded as IEEE double arithmetic in that order, and nothing panics.",
  ["inputs"], "compact targets with exponents 0..34 and every mantissa exactly (35..255: no panic); malformed texts of up to 10 characters; all 2^64 difficulties, all times and rates that are doubles; coin names of up to 4 characters",
  "The tests try a handful of sample values; the double-precision results for every mantissa, the unit boundaries and malformed texts are not reached.",
  ["block/Difficulty.go", "utils/HumanHash.go"],
  [("DifficultyFromBits / DifficultyToHashrate", "block/Difficulty.go"), ("HumanHash", "utils/HumanHash.go")],
  ["returned floats, errors and strings"])

p("C29", "Serialising with cleared inputs keeps everything but the unlocking scripts",
  "Serialising a transaction with cleared inputs for an input index and a script gives its wire encoding with every unlocking script empty, except that the input at the index carries the given script; outpoints, sequence numbers, outputs, version and locktime are the transaction's. With an index of no input all scripts are empty; with no script at all (nil) it is the plain serialisation. The transaction and the given script are not changed, and results returned earlier stay as they were.",
  ["inputs", "histories"], "transactions of 0..2 inputs and 0..1 outputs, every field value, script lengths to 2^26 symbolically, every index (all ints for two inputs, -1..number of inputs otherwise), up to 300 inputs, inputs without unlocking script; one change of any kind between two serialisations",
  "One fixed transaction is serialised this way in the tests; other indices, scripts and sequence numbers are not.",
  ["transaction/Transaction.go"],
  [("ToBytesWithClearedInputs / toBytesHelper", "transaction/Transaction.go")],
  ["returned bytes; the transaction and the script afterwards"])

p("C30", "Unlocking scripts and signers from outside are applied exactly",
  "Applying an unlocking script to an input index makes it that input's unlocking script and changes nothing else; an index that names no input, here and when computing a signature hash or signing, gives an error and leaves the transaction as it was. Signing with a caller's own signer asks it exactly once, with this transaction and the given index; its transaction becomes the result, and when it returns an error the error is handed on and the transaction stays as it was.",
  ["inputs", "histories"], "0..3 inputs (some without unlocking script), 17 and 257, and 0..1 outputs, all 2^32 indices, all field values, scripts of every length up to 2^26; every sequence of 3 applications; signers that succeed, fail or answer with another transaction",
  "Applying a script is only tested through the library's own signer, for the only input of one transaction; other indices, other signers and their errors are not.",
  ["transaction/Transaction.go", "transaction/SignatureHash.go", "transaction/Signer.go", "transaction/signature/InternalSigner.go"],
  [("ApplyUnlockingScript / Sign / SignAuto", "transaction/Transaction.go"), ("GetInputSignatureHash", "transaction/SignatureHash.go")],
  ["the transaction after ApplyUnlockingScript, Sign and SignAuto; returned errors"])

p("C31", "Printed inputs and outputs show exactly their fields",
  "The printed form of an input (its String method) gives the previous transaction id, the output index in decimal, the unlocking script's length and hex, and the sequence number in hex, as those fields are at that moment; that of an output gives the amount in decimal and the locking script's length and hex. An input without an unlocking script prints as one with an empty script. Printing never panics and changes nothing.",
  ["inputs"], "all ids, indices, sequence numbers and amounts, scripts of 0..24 arbitrary bytes and of seven lengths up to 1000 with three arbitrary bytes; inputs from every constructor; one change of any field between two printings",
  "No test prints an input or output.",
  ["transaction/input/Input.go", "transaction/output/Output.go", "script/Script.go"],
  [("Input.String", "transaction/input/Input.go"), ("Output.String", "transaction/output/Output.go")],
  ["returned strings"])

p("C32", "A script's bytes and hex form are exact in both directions",
  "Reading hex text as a script gives exactly the bytes the text spells, in either letter case; text with an odd number of characters or with any character that is no hex digit is refused with an error. Wrapping bytes as a script gives exactly those bytes, and leaves them as they are when the script is extended. A script's hex form (ToString) is its current bytes in lower-case hex, so that reading it again gives the same script; showing it changes nothing. Appending an opcode adds exactly that one byte at the end. None of this panics, also for empty scripts.",
  ["inputs", "histories"], "every text of up to 8 (20 thorough) arbitrary characters; every spelling of 0..3 bytes; texts of 40..2000 characters with one character missing or replaced by any other at four or five places; wrapped scripts of every length up to 2^26 with up to 3 opcodes appended; 19 lengths up to 4097 with three arbitrary bytes; any one change between two printings",
  "Tests read a few well-formed scripts; no test gives malformed hex of any kind or changes a script between two printings.",
  ["script/Script.go"], [("NewFromHexString / NewFromBytes", "script/Script.go"), ("ToString / AppendOpCode", "script/Script.go")],
  ["returned scripts, texts and errors; the wrapped bytes"])

# Every property with a harness of two calls (harness/props/twice.go) is also checked over the histories of two calls.
for x in P:
    if x["id"] in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C23 C25 C27 C28 C29 C30 C31".split():
        x["quantifier"]["text"] += "; a second call with other arguments after a first, whose results stay as they were"

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
