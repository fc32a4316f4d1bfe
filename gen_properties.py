import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
p("C01","Shelley address bytes follow the CIP-19 layout for every credential and pointer",
 "The raw bytes of a base, enterprise, pointer or reward address are the header byte (address type and key/script bits in the high nibble, network id in the low nibble), followed by the 28-byte credential hashes in order (payment, then stake) or, for a pointer, by its three numbers as minimal big-endian base-128 numbers, and by nothing else. Turning a base address into an enterprise or reward address keeps its network and its payment or stake credential.",
 ["inputs"],"all credentials (key or script, any 28-byte hash), both networks, all 64-bit pointer coordinates",
 "Tests compare a handful of literal addresses, none of them a pointer or script address; the space of hashes, kinds and pointers is not enumerable.",
 ["address/base.go","address/enterprise.go","address/pointer.go","address/reward.go","address/stake_credential.go"],
 [("(*BaseAddress).Bytes","address/base.go"),("(*EnterpriseAddress).Bytes","address/enterprise.go"),("(*PointerAddress).Bytes","address/pointer.go"),("(*RewardAddress).Bytes","address/reward.go"),("ToEnterprise/ToReward","address/base.go")],obs=["Bytes()"])
p("C02","Decoding any bytes fails cleanly or yields an address with exactly those bytes",
 "For every byte string, decoding it as an address (from bytes or from hex) returns normally, never panicking. When it succeeds with a Shelley address, that address has the type, network, credentials and pointer which the bytes encode, and encoding it again gives exactly the input: nothing is ignored, truncated or replaced.",
 ["inputs"],"all byte strings of every length; all hex strings",
 "Tests decode valid literals and two broken checksums only; truncated, over-long, unknown-network and non-minimal inputs are never tried.",
 ["address/address.go","address/pointer.go","address/stake_credential.go","network/network.go"],
 [("NewAddressFromBytes","address/address.go"),("readAddrCred","address/address.go"),("VariableNatDecode","address/pointer.go")],obs=["NewAddressFromBytes","NewAddressFromHex","Bytes()"])
p("C03","Text form of an address round-trips and carries the right prefix",
 "The text form of every Shelley address is the bech32 encoding of its raw bytes with prefix addr, addr_test, stake or stake_test according to its kind and network, and parsing it gives back an equal address. Any text which parsing accepts is printed back identically by the address it yields, and parsing never panics.",
 ["inputs"],"all addresses; all strings",
 "Tests try seven literals; pointer addresses are never printed and a prefix that contradicts the payload is never parsed.",
 ["address/address.go","address/base.go","address/enterprise.go","address/pointer.go","address/reward.go","internal/bech32/bech32.go"],
 [("NewAddress","address/address.go"),("String/Prefix methods","address/*.go")],obs=["String()","NewAddress"])
p("C04","Bech32 codec is exact, and rejects any single corrupted character",
 "For every byte string and every lower-case prefix, the bech32 text decodes back to the same prefix and bytes. Text is accepted only if its case is uniform, its characters are in the alphabet, its padding is zero and its checksum is valid; so changing any one data or checksum character to another one of the alphabet always leads to rejection. Encoding and decoding never panic.",
 ["inputs"],"all byte strings of every length, all prefixes, all strings, all single-character substitutions",
 "Tests check two truncated strings; checksum error detection is an algebraic property over all messages and lengths.",
 ["internal/bech32/bech32.go"],
 [("Encode","internal/bech32/bech32.go"),("Decode","internal/bech32/bech32.go"),("polymod","internal/bech32/bech32.go"),("convertBits","internal/bech32/bech32.go")],obs=["bech32.Encode","bech32.Decode"])
p("C05","Variable-length pointer numbers encode minimally and decode exactly",
 "Every 64-bit number is encoded in base 128, most significant group first, with the continuation bit on all groups but the last and no leading zero group. Decoding the encoding followed by any bytes gives back the number and the length of its encoding; input that is truncated, non-minimal or exceeds 64 bits gives an error, never a wrong number.",
 ["inputs"],"all 2^64 numbers; all byte strings of every length",
 "No test encodes or decodes such a number.",
 ["address/pointer.go"],[("VariableNatEncode","address/pointer.go"),("VariableNatDecode","address/pointer.go"),("reverseAny","address/pointer.go")],obs=["VariableNatEncode","VariableNatDecode"])
p("C06","Byron addresses round-trip and are accepted only with a valid checksum",
 "Decoding a Byron address succeeds only if the payload is tagged as embedded CBOR, its CRC-32 equals the stored checksum, its hash has 28 bytes and its type is zero; the decoded address has that hash and those attributes and encodes to exactly the bytes it was read from. Encoding an address gives the tagged payload [hash, attributes, type] and its CRC-32; the network is mainnet exactly when there is no network attribute.",
 ["inputs"],"all byte strings; all hashes, derivation payloads and network attributes",
 "Tests decode two valid mainnet addresses; no corrupted, testnet or non-canonical Byron address is tried.",
 ["address/byron.go","address/address.go"],[("UnmarshalCBOR","address/byron.go"),("MarshalCBOR","address/byron.go"),("NetworkInfo","address/byron.go")],obs=["NewAddressFromBytes","Bytes()","NetworkInfo()"])
p("C07","Every kind of address appears in transaction outputs as its raw byte string",
 "For every address kind and value, a transaction output is encoded as the pair of the CBOR byte string of the raw address bytes and the amount, and the CBOR form of a Shelley address by itself is the byte string of its raw bytes.",
 ["inputs"],"all addresses of the five kinds, all amounts",
 "Tests encode a base and an enterprise output; reward, pointer and Byron addresses are never put in an output.",
 ["tx/tx_input_output.go","address/base.go","address/enterprise.go","address/pointer.go","address/reward.go"],
 [("(*TxOutput).MarshalCBOR","tx/tx_input_output.go"),("MarshalCBOR methods","address/*.go")],obs=["Tx.Bytes"])
p("C08","Serialized transaction has the ledger's structure and exactly the given content",
 "The bytes of a transaction are the CBOR array of body, witness set, validity flag and metadata (null if none); the body is the map with 0: inputs as [hash, index], 1: outputs, 2: fee, 3: time to live if set, 7: metadata hash if there is metadata; the witness set is the map with 0: [key, signature] pairs if there are any. Inputs and outputs appear in the order in which they were added, each with exactly its values, and the hex form is the hex of the bytes.",
 ["inputs","histories"],"all transactions: any number of inputs, outputs and witnesses, any values, any metadata; any sequence of additions",
 "Two golden files fix one input, two outputs, no metadata.",
 ["tx/tx.go","tx/tx_body.go","tx/tx_input_output.go","tx/tx_witness_set.go","tx/tx_builder.go"],
 [("Tx.Bytes","tx/tx.go"),("TxBody struct tags","tx/tx_body.go"),("(*TxInput).MarshalCBOR","tx/tx_input_output.go"),("AddInputs/AddOutputs","tx/tx.go")],obs=["Tx.Bytes","Tx.Hex","TxBody.Bytes"])
p("C09","Transaction id is the Blake2b-256 of the body bytes that are submitted",
 "The hash of a transaction equals the Blake2b-256 digest of its body exactly as the body appears inside the serialized transaction, metadata hash included. Computing the hash, the bytes or the fee, in any order and any number of times, does not change the hash or the bytes obtained later.",
 ["inputs","histories"],"all transactions, with and without metadata (maps of any size included); all sequences of hash, bytes and fee computations",
 "Tests never compute the hash of a transaction with metadata, and Go's random map order shows up only in some runs.",
 ["tx/tx.go"],[("Tx.Hash","tx/tx.go"),("Tx.Bytes","tx/tx.go"),("CalculateAuxiliaryDataHash","tx/tx.go")],obs=["Tx.Hash","Tx.Bytes"])
p("C10","Metadata hash in the body always matches the metadata in the transaction",
 "Whenever a transaction is hashed, serialized or priced, its body carries the Blake2b-256 digest of exactly the bytes with which the metadata appears in the serialized transaction, and carries no metadata hash when there is no metadata. Metadata that cannot be encoded gives an error, not a transaction.",
 ["inputs","histories"],"all metadata values, including maps with any number of entries, set, replaced or removed at any time",
 "No test uses metadata.",
 ["tx/tx.go"],[("CalculateAuxiliaryDataHash","tx/tx.go"),("encMode","tx/tx.go")],obs=["Tx.Bytes","Tx.Hash"])
p("C11","Fee is the linear function of the serialized size",
 "The fee of a transaction under given parameters is the fixed part plus the per-byte part times the number of bytes of the serialized transaction, with the parameters taken from the protocol as fixed and per-byte fee respectively.",
 ["inputs"],"all transactions, all parameters for which the result fits in 64 bits",
 "Tests check one fee with one set of parameters, indirectly.",
 ["tx/tx.go","fees/linear.go","tx/tx_builder.go"],[("Tx.Fee","tx/tx.go"),("NewLinearFee","fees/linear.go")],obs=["Tx.Fee"])
p("C12","Fee set when adding change covers the final signed transaction",
 "After change has been added, the fee in the body is at least the linear fee of the serialized transaction that is built and signed afterwards, provided that at most one key signs or that all signing keys were registered before. The estimate is the same however often it is asked for.",
 ["inputs","histories","configurations"],"all inputs, outputs, metadata, change addresses of any kind, fee parameters and numbers of keys",
 "Tests cover one transaction with one key whose sizes are far from every encoding boundary.",
 ["tx/tx_builder.go","tx/tx.go"],[("minFee","tx/tx_builder.go"),("AddChangeIfNeeded","tx/tx_builder.go"),("Tx.Fee","tx/tx.go")],obs=["TxBuilder.MinFee","TxBuilder.AddChangeIfNeeded","Tx.Bytes"])
p("C13","Adding change conserves value exactly and never invents an output",
 "When the inputs cover the outputs and the fee, after adding change the sum of the inputs equals the sum of the outputs plus the fee, as mathematical integers, the change going to the given address in one output after all others. Otherwise no output is added: there is never an output of zero or of a wrapped-around amount, and the outputs present before are unchanged.",
 ["inputs"],"all lists of inputs and outputs whose totals fit in 64 bits, all fee parameters and change addresses",
 "Tests cover one case with ample change.",
 ["tx/tx_builder.go"],[("AddChangeIfNeeded","tx/tx_builder.go"),("getTotalInputOutputs","tx/tx_builder.go")],obs=["TxBuilder.Tx().Body"])
p("C14","Building signs the transaction's own hash once per key, in order",
 "A built transaction has exactly one witness for each registered key, in order of registration, made of the public key of that key and of its signature over the hash of the very transaction that is returned, and no other witness. Building changes nothing else in the transaction, and building again gives the same witnesses.",
 ["inputs","histories"],"all numbers of keys (given at construction or added later), all transactions, repeated builds",
 "Tests build once with one key.",
 ["tx/tx_builder.go","tx/tx_witness_set.go"],[("Build","tx/tx_builder.go"),("Sign","tx/tx_builder.go"),("NewTXWitness","tx/tx_witness_set.go")],obs=["TxBuilder.Build"])
p("C15","Fee queries leave no trace, and builders do not affect each other",
 "Asking for the minimum fee leaves the transaction as it was: inputs, outputs, fee, witnesses and serialized bytes are unchanged. Adding keys, inputs or outputs to one builder changes neither the slices given by the caller nor any other builder or transaction.",
 ["inputs","histories"],"all builder states; all slices given by callers, with spare capacity or not; interleaved use of several builders",
 "Tests use one builder, and never look at the transaction between calls.",
 ["tx/tx_builder.go","tx/tx.go"],[("MinFee","tx/tx_builder.go"),("NewTxBuilder","tx/tx_builder.go"),("Sign","tx/tx_builder.go")],obs=["TxBuilder.MinFee","TxBuilder.Tx"])
p("C16","Root keys have the 96-byte form with the required bits fixed",
 "Every root key made from a seed or from mnemonic entropy and a passphrase has 96 bytes; the three lowest bits of its first byte are zero and the three highest bits of byte 31 are 010, and all other bits are those of the specified hash (SHA-512 and SHA-256 of the seed, or PBKDF2-HMAC-SHA512 with 4096 rounds, passphrase as password and entropy as salt). A seed that is not 32 bytes long is rejected.",
 ["inputs"],"all seeds, entropies and passphrases of every length",
 "Tests derive from one entropy and never look at the key.",
 ["bip32/bip32.go"],[("NewXPrv","bip32/bip32.go"),("FromBip39Entropy","bip32/bip32.go"),("NormalizeBytesForce3rd","bip32/bip32.go")],obs=["NewXPrv","FromBip39Entropy"])
p("C17","Child keys follow the BIP32-Ed25519 derivation for every index",
 "For every extended key and index, the child's left half is the parent's plus eight times the first 28 bytes of the HMAC output (little endian, modulo 2^256), its right half is the sum of the right halves modulo 2^256, and its chain code the right half of the second HMAC; indices from 2^31 up are hardened, using the private key with tags 0 and 1, lower ones using the public key with tags 2 and 3, and the index is little endian. Deriving does not change the parent, and the child of a key whose scalar is a multiple of 8 is again one.",
 ["inputs"],"all 96-byte keys, all 2^32 indices, all HMAC outputs",
 "Tests derive one path; carries across all bytes and boundary indices are not reached.",
 ["bip32/bip32.go"],[("Derive","bip32/bip32.go"),("add28mul8","bip32/bip32.go"),("add256bits","bip32/bip32.go"),("isHardened","bip32/bip32.go")],obs=["XPrv.Derive"])
p("C18","Public key is the encoded base-point multiple, for every private scalar",
 "The public key of an extended private key is the standard 32-byte encoding of the Ed25519 base point multiplied by the key's left half read as a little-endian integer (below 2^255), and the extended public key is that followed by the chain code. The key is not modified.",
 ["inputs"],"all scalars below 2^255",
 "Tests compute a few public keys; a wrong table entry or a carry error shows for few scalars.",
 ["bip32/bip32.go","crypto/edwards25519/edwards25519.go","crypto/edwards25519/const.go"],
 [("MakePublicKey","bip32/bip32.go"),("GeScalarMultBase","crypto/edwards25519/edwards25519.go"),("selectPoint","crypto/edwards25519/edwards25519.go"),("base table","crypto/edwards25519/const.go")],obs=["XPrv.Public","MakePublicKey"])
p("C19","Every signature satisfies the Ed25519 verification equation",
 "For every extended private key with scalar a below 2^255 and every message, the signature is R followed by S where the nonce r is SHA-512(right half, message) mod L, R is the encoding of r times the base point, and S is (r + SHA-512(R, A, message) times a) mod L in canonical form, A being the key's public key; so it verifies under that public key. Signing is deterministic and modifies neither key nor message.",
 ["inputs"],"all keys and messages of every length",
 "Tests sign one hash with one key.",
 ["bip32/bip32.go","crypto/edwards25519/edwards25519.go"],[("Sign","bip32/bip32.go"),("ScMulAdd","crypto/edwards25519/edwards25519.go"),("ScReduce","crypto/edwards25519/edwards25519.go")],obs=["XPrv.Sign"])
p("C20","Scalar arithmetic modulo the group order is exact and canonical",
 "For all 32-byte numbers a, b, c the multiply-add gives the unique number below L congruent to ab + c, and for every 64-byte number the reduction gives the unique number below L congruent to it, L being the order of the base point; no intermediate result overflows.",
 ["inputs"],"all 2^768 triples and all 2^512 numbers",
 "Tests reach a handful of values; wrong carries show with vanishing probability.",
 ["crypto/edwards25519/edwards25519.go"],[("ScMulAdd","crypto/edwards25519/edwards25519.go"),("ScReduce","crypto/edwards25519/edwards25519.go")],obs=["ScMulAdd","ScReduce"])
p("C21","Field arithmetic modulo 2^255-19 is exact and never overflows",
 "Addition, subtraction, negation, multiplication, squaring, doubled squaring, inversion, conditional move and canonical encoding of field elements give the exact result modulo 2^255-19 for all operands within the documented limb bounds, results stay within the documented bounds, and no intermediate result overflows; the output may overlap the operands.",
 ["inputs"],"all limb values within the bounds, including negative and extreme ones; all overlaps of arguments",
 "Tests reach random-looking limbs only; overflow needs extreme limbs.",
 ["crypto/edwards25519/edwards25519.go"],[("FeMul","crypto/edwards25519/edwards25519.go"),("FeSquare","crypto/edwards25519/edwards25519.go"),("FeCombine","crypto/edwards25519/edwards25519.go"),("FeToBytes","crypto/edwards25519/edwards25519.go"),("FeInvert","crypto/edwards25519/edwards25519.go")],obs=["Fe* functions"])
p("C22","Curve point operations compute the Edwards group law for all points",
 "Doubling and adding points, in every coordinate system used, gives the sum defined by the twisted Edwards addition law for all points of the curve, the conversions between coordinate systems keep the point, and the encoding of a point is its y coordinate with the parity of x in the top bit.",
 ["inputs"],"all points of the curve in all their representations",
 "Tests reach the points on a few scalar multiplications.",
 ["crypto/edwards25519/edwards25519.go","crypto/edwards25519/const.go"],[("geMixedAdd","crypto/edwards25519/edwards25519.go"),("Double","crypto/edwards25519/edwards25519.go"),("ToExtended/ToProjective/ToBytes","crypto/edwards25519/edwards25519.go")],obs=["group element methods"])
p("C23","Hashes of keys and fixed-size identifiers are exact and length-checked",
 "The hash of a public key is the Blake2b-224 of its bytes, and the exported digests are Blake2b-224 and Blake2b-256 of exactly the given bytes. Each conversion of bytes to a fixed-size identifier (key, script, transaction, block, genesis, metadata and VRF hashes, VRF and KES keys) succeeds exactly when the length is the one of that identifier, and then returns the same bytes.",
 ["inputs"],"all byte strings of every length",
 "No test calls the conversions; hashes are checked for two keys.",
 ["crypto/crypto.go","bip32/bip32.go"],[("Blake2b224/Blake2b256","crypto/crypto.go"),("*FromBytes","crypto/crypto.go"),("PublicKey.Hash","bip32/bip32.go")],obs=["crypto package API"])
p("C24","Every backend talks to the network it was configured for",
 "A node made for a test network addresses the Blockfrost testnet server, or passes cardano-cli the testnet flag with that network's protocol magic; a node made for mainnet addresses the mainnet server, or passes the mainnet flag. This holds for every operation, with exactly one network flag, the caller's arguments unchanged before it.",
 ["inputs","configurations"],"all network values, all operations, all arguments",
 "No test touches the node package.",
 ["node/blockfrost.go","node/cardano-cli.go","network/network.go"],[("getNetwork","node/blockfrost.go"),("NewBlockfrostClient","node/blockfrost.go"),("execCommand","node/cardano-cli.go")],obs=["argv of the command","URL of requests"])
p("C25","Listed UTXOs are exactly those the backend reports",
 "Querying the UTXOs of an address asks the backend for that address and returns one input per reported UTXO, in order, with its transaction hash, index and lovelace amount (whatever other assets it holds). Malformed amounts, indices or lines give an error and never a panic; a failing backend gives an error.",
 ["inputs","fault_sequences"],"all backend answers: any number of UTXOs, any assets and quantities, malformed text, failures",
 "No test touches the node package.",
 ["node/blockfrost.go","node/cardano-cli.go","tx/tx_input_output.go"],[("UTXOs","node/blockfrost.go"),("UTXOs","node/cardano-cli.go"),("NewTxInput","tx/tx_input_output.go")],obs=["Node.UTXOs"])
p("C26","Submission sends exactly the serialized transaction and reports failures",
 "Submitting a transaction hands the backend exactly the bytes (Blockfrost) or the hex (cardano-cli) of that transaction, unchanged and whole. Whenever serialization, transport or the backend fails (any status other than 200, or a failing command), an error is returned.",
 ["inputs","fault_sequences"],"all transactions, all statuses and answers, failure of any step",
 "No test touches the node package.",
 ["node/blockfrost.go","node/cardano-cli.go"],[("SubmitTx","node/blockfrost.go"),("SubmitTx","node/cardano-cli.go")],obs=["HTTP request","file given to the command","error result"])
p("C27","Protocol parameters and chain tip reach the caller unswapped",
 "Protocol parameters read from a file, from cardano-cli or from Blockfrost have the per-byte fee, fixed fee, maximum transaction size, minimum UTXO value and protocol version of the source in the corresponding fields, and the tip has its slot, epoch and block; these fields feed the fee computation under the same meaning. Unreadable or malformed sources give an error.",
 ["inputs","fault_sequences"],"all parameter values and tips, all failures of the source",
 "Tests load one parameter file and use two of its values indirectly.",
 ["protocol/protocol.go","node/blockfrost.go","node/cardano-cli.go","node/types.go"],[("LoadProtocol","protocol/protocol.go"),("ProtocolParameters","node/blockfrost.go"),("QueryTip","node/blockfrost.go")],obs=["Protocol fields","NetworkTip fields"])
p("C28","Decoding a curve point finds exactly the point its bytes denote",
 "For every 32 bytes, decoding them as a curve point succeeds exactly when some point of the curve has as its y coordinate the number in the low 255 bits modulo 2^255-19. The result is then that point, with consistent coordinates and with the x whose parity is the top bit (either bit when x is zero), whatever the receiver held before; so decoding the encoding of any point gives that point back. The input is not modified.",
 ["inputs"],"all 32-byte strings, including non-canonical numbers, small-order points and numbers of no point",
 "No test decodes a point.",
 ["crypto/edwards25519/edwards25519.go","crypto/edwards25519/const.go"],[("(*ExtendedGroupElement).FromBytes","crypto/edwards25519/edwards25519.go"),("fePow22523","crypto/edwards25519/edwards25519.go"),("d, SqrtM1","crypto/edwards25519/const.go")],obs=["ExtendedGroupElement.FromBytes"])
if __name__=='__main__':
    open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
    print(len(P))
