# One entry per property; tools/gen.py writes properties.jsonl and MANIFEST.json from it.
FAM = ["btcTransaction", "omniTransaction", "bitcoincashTransaction", "bitcoinsvTransaction", "cxcTransaction", "hcTransaction"]
def files(pkgs, names):
    return ["%s/%s" % (p, n) for p in pkgs for n in names]
def mech(*prs):
    return [{"name": a, "where": b} for a, b in prs]
def P(id, title, statement, over, text, why, fs, ms, note):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": {"files": fs, "mechanism": ms}, "level_note": note}

PROPS = [
P("P01", "Unsigned Bitcoin-style templates say exactly what was asked",
  "In the btc, omni, bitcoin-cash, bitcoin-sv, cxc and hc drivers, the unsigned transaction returned for a list of coins, destinations, lock time and replaceable flag is byte for byte the network's serialization: the same coins in the same order, the same amounts paid to exactly the scripts the destination addresses denote, empty input scripts, the lock time, and a sequence number that honours both. Requests that cannot be honoured (no inputs or outputs, malformed transaction ids, destinations that are not addresses of the configured network) are refused with an error and no transaction.",
  ["inputs"], "every transaction id, output index, amount, lock time and flag; up to 3 inputs and 3 outputs (more in the thorough tier) over P2PKH, P2SH and bech32 destinations",
  "The tests build a handful of fixed transactions and print them; none compares amounts, order, sequence or scripts over the value range.",
  files(FAM, ["transaction.go", "txStruct.go", "txIn.go", "txOut.go"]),
  mech(("unsigned template", "CreateEmptyRawTransaction -> newEmptyTransaction -> encodeToBytes"), ("destination script", "newTxOutForEmptyTrans"), ("sequence", "setSequence")),
  "Bounded: up to 3 inputs/outputs with every field symbolic, plus 253 inputs or outputs with the last one symbolic; destination addresses are concrete samples of each kind, refused ones included; every other field is fully symbolic."),
P("P02", "Signature digests commit to the right coin, amount and outputs",
  "In the btc, omni, bitcoin-cash, bitcoin-sv, cxc and hc drivers, the digest handed out for signing each input is exactly the network's SIGHASH_ALL digest of that input (legacy for P2PKH and non-segwit multisig, BIP143 for segwit inputs, the replay-protected FORKID form on bitcoin-cash and bitcoin-sv) over the transaction that was given, labelled with the address or the multisig keys and threshold that own the coin. Unlock data that does not fit the transaction is refused.",
  ["inputs"], "every transaction (ids, indexes, sequences, amounts, outputs, lock time), input kinds in every position, multisig keys; up to 3 inputs",
  "Tests sign one fixed transaction per input kind; a digest that omits a field for other values, positions or kinds still passes.",
  files(FAM, ["txHash.go", "transaction.go"]),
  mech(("digest", "CreateRawTransactionHashForSig -> getHashesForSig -> getBytesForSig"), ("BIP143", "getSegwitBytesForSig")),
  "Bounded: up to 3 inputs (5 thorough), 2 outputs, multisig 1-of-2, 2-of-3, 5-of-7, 2-of-9. SHA-256 is an uninterpreted function, so equality of digests means equality of preimages."),
P("P03", "Signing yields 64-byte canonical signatures that verify",
  "For every driver's sign call, a 32-byte hash and a private key inside the curve order yield a 64-byte signature r||s that verifies for exactly that hash under exactly that key (with the compressed public key where the call returns one), with the low value of s in the drivers that normalise it. Keys or hashes of any other length, keys outside the curve order and hashes that are not hex are refused with an error, never with a crash or a truncated signature.",
  ["inputs"], "every key and hash of 0, 1, 31, 32, 33 and 64 bytes, every r and s the curve library may return, in 25 drivers",
  "Tests sign with fixed keys; the cases where s is high or has leading zero bytes occur with probability 1/2 to 2^-9 and below.",
  files(FAM + ["zencashTransaction"], ["SignaturePubkey.go"]) + ["vollarTransaction/txSigPub.go", "vergeTransaction/txSigPub.go", "aliencoinTransaction/txSigPub.go", "hypercashTransaction/txSignature.go", "rippleTransaction/txUtils.go", "cosmosTransaction/transaction.go", "evaioTransaction/transaction.go", "mateverseTransaction/txUtils.go", "ontologyTransaction/txSigPub.go", "btcLikeTxDriver/signaturepubkey.go", "waykichainTransaction/transaction.go", "elastosTransaction/transaction.go", "moacchainTransaction/transaction.go", "filenetTransaction/transaction.go", "polkadotTransaction/transaction.go", "fiiiTransaction/transaction.go", "bigbangTransaction/transaction.go", "bytomTransaction/sigPub.go"],
  mech(("normalisation of s", "serilizeS"), ("signing", "SignRawTransactionHash / SignRawTransaction / SignTransaction / SignTransactionHash / SignTransactionMessage")),
  "ECDSA/EdDSA primitives are idealised: any r,s in range that verify; ed25519 keys are assumed clamped (as the keychain derives them). Message lengths for ed25519: 1, 31, 32, 33, 80."),
P("P04", "Combined transactions are the exact network serialization",
  "In the btc, omni, bitcoin-cash, bitcoin-sv, cxc and hc drivers, inserting signatures into an unsigned transaction changes nothing but the unlocking data and produces exactly the network's serialization: strict-DER signatures with the requested hash type, the public key or redeem script, and for segwit inputs the witness. Signature data that does not fit the inputs is refused with an error and no transaction.",
  ["inputs"], "every signature value (all DER lengths), key, coin and output; input kinds in every position; up to 2 inputs and 2-of-3 multisig",
  "Tests insert one fixed signature; DER integer padding, multisig script lengths and mixed input kinds vary with data the tests never produce.",
  files(FAM, ["transaction.go", "txIn.go", "txStruct.go", "SignaturePubkey.go", "txHash.go"]),
  mech(("combine", "InsertSignatureIntoEmptyTransaction"), ("DER", "encodeSignatureToScript / encodeToScript"), ("witness", "toSegwitBytes")),
  "Bounded: up to 2 inputs, multisig 1-of-1, 1-of-2, 2-of-3, 3-of-3, 3-of-5, 2-of-8."),
P("P05", "Verification accepts exactly the properly signed transactions",
  "In the btc, omni, bitcoin-cash, bitcoin-sv, cxc and hc drivers, verifying a signed transaction returns true exactly when every input carries valid signatures of the required hash type over its own digest by the key (or, for multisig, by the threshold of distinct keys in script order) that owns the coin. Anything else — a foreign key, a signature over other data, a duplicated multisig signature, a missing one — is rejected without a crash.",
  ["inputs"], "every signature, key, coin and output; every outcome of each signature check; input kinds in every position; up to 2 inputs and 2-of-3 multisig",
  "Tests verify transactions that are validly signed; accepting an invalid one is invisible to them.",
  files(FAM, ["transaction.go", "txMultiSig.go", "SignaturePubkey.go"]),
  mech(("verification", "VerifyRawTransaction"), ("ownership", "ownsInput"), ("multisig matching", "decodeMultiBytes")),
  "Bounded: up to 2 inputs, multisig 1-of-1, 1-of-3, 2-of-2, 2-of-3, 2-of-4 (more thorough). Signature checks are uninterpreted."),
P("P06", "Transaction decoding never crashes on any bytes",
  "In the btc, omni, bitcoin-cash, bitcoin-sv, cxc, hc and zencash drivers, decoding or verifying arbitrary bytes — truncated, over-long, with inconsistent lengths or malformed scripts — returns a transaction or an error, never both or neither, and never crashes.",
  ["inputs"], "every byte string up to 80 bytes (90 in the thorough tier) and every tail of structured witness, script and multisig prefixes within the stated lengths",
  "Tests decode a few valid transactions; a missing bounds check shows only on particular malformed lengths.",
  files(FAM + ["zencashTransaction"], ["txStruct.go", "txMultiSig.go", "SignaturePubkey.go"]),
  mech(("decoder", "DecodeRawTransaction"), ("script decoders", "decodeFromScriptBytes / decodeMultiBytes / getMultiDetails")),
  "Bounded by the byte lengths stated in the harness; lengths beyond that are outside the claim."),
P("P07", "Decoded transactions show what is in the bytes, repeatably",
  "In the btc, omni, bitcoin-cash, bitcoin-sv, cxc, hc and zencash drivers, a decoded transaction reports the version, lock time, witness flag, number of inputs and outputs and, per input, the spent transaction id, output index and kind that its bytes encode. Asking for them does not change the transaction or the bytes it was decoded from: asking again gives the same answer.",
  ["inputs", "histories"], "every field value; unsigned transactions of up to 3 inputs (6 thorough) and signed ones of every input kind, with repeated queries",
  "Tests print the decoded transaction once; a getter that corrupts its receiver passes them.",
  files(FAM + ["zencashTransaction"], ["txStruct.go", "txIn.go", "txUtils.go"]),
  mech(("view", "DecodeRawTransaction, GetTxID, GetVout, GetUTXOType"), ("display order", "reverseBytesToHex")),
  "Bounded: 1-3 inputs (6 thorough), 2 outputs, signatures of full length, multisig 2-of-2 and 2-of-3."),
P("P08", "Multisig addresses commit to exactly the given keys and threshold",
  "In the btc, omni, bitcoin-cash, bitcoin-sv, cxc, hc and zencash drivers, creating an m-of-n address returns a redeem script holding m, the n keys unchanged and in the given order, and n, and the script-hash address (of the configured network, nested-segwit when asked) of exactly that script. Thresholds below 1 or above n, more than 16 keys, scripts above 520 bytes and keys that are no public key encoding are refused.",
  ["inputs"], "every key value, every threshold byte, 1 to 15 keys, and 0, 16, 17, 257 and 258 keys for the limits",
  "Tests create one 2-of-3 address; truncation of counts and the address prefix go unnoticed.",
  files(FAM + ["zencashTransaction"], ["txMultiSig.go"]),
  mech(("multisig", "CreateMultiSig"),),
  "Symbolic keys for n in {1,2,3,5,15}; there the Base58Check text is abstracted by an uninterpreted function (its code is exercised with concrete keys for n up to 5, 15 thorough)."),
P("P09", "Addresses encode their payload by the chain's rules and decode back",
  "For every supported address kind (base58 kinds of all chains, EOS, aeternity, Monero, bech32, bech32m, cashaddr, hex) encoding a payload gives exactly the text the chain's standard prescribes for it, and decoding that text gives the payload back. A payload of another length is hashed first where the kind defines a hash and otherwise yields no address, and encoding never modifies the caller's buffers.",
  ["inputs"], "every payload value of the kind's length, public keys of 33, 64 and 65 bytes, all 112 base58 kinds and all other kinds",
  "Tests encode and decode a few sample addresses per chain.",
  ["addressEncoder/addressEncoder.go", "addressEncoder/encoderProfile.go", "addressEncoder/bech32/bech32.go", "addressEncoder/bech32m/bech32m.go", "addressEncoder/base32PolyMod/base32PolyMod.go", "addressEncoder/eos.go", "addressEncoder/aeternity.go"],
  mech(("encoder", "AddressEncode"), ("decoder", "AddressDecode"), ("profiles", "encoderProfile.go tables")),
  "Bounded: payload lengths 20 and 32 (bech32), 21 (cashaddr), the kind's own (base58). Base58 is an ideal codec where more than one input byte is symbolic; Monero padding runs the real base58 with one symbolic byte."),
P("P10", "Address decoding accepts exactly the valid addresses of the requested kind",
  "Decoding a text as an address of some kind succeeds exactly when it has that kind's prefix, version bytes, suffix, length, padding and a correct checksum, and then returns exactly the payload; otherwise it returns an error and never crashes. Addresses of other networks, bech32 in place of bech32m, changed characters and overlong Monero blocks are refused. AddressCheck answers true exactly for the addresses of the kinds its symbol has (mainnet and, for BTC, ZEC, LTC, QTUM and DCRD, test networks), false with an error for anything else including short texts, and does not judge symbols it does not know.",
  ["inputs"], "every text of the stated lengths: arbitrary payload and checksum digits, arbitrary hex characters, any one character of sample addresses replaced by any ASCII character",
  "Tests decode valid addresses; accepting an invalid one, or crashing on a short one, is invisible to them.",
  ["addressEncoder/addressEncoder.go", "addressEncoder/bech32/bech32.go", "addressEncoder/bech32m/bech32m.go", "addressEncoder/base32PolyMod/base32PolyMod.go", "addressEncoder/eip55/eip55.go", "addressEncoder/eos.go", "addressEncoder/aeternity.go", "addressEncoder/addressCheck.go"],
  mech(("decoder", "AddressDecode"), ("check", "AddressCheck"), ("checksums", "verifyChecksum, polyMod"), ("prefixes", "recoverData")),
  "Bounded: five lengths per base58 kind, 3-4 digit counts per bech32 kind, hex of 0 and 38-42 characters. Base58 is an ideal codec where more than one byte is symbolic."),
P("P11", "Base58 and base58check are exact and total in every driver",
  "Every driver's base58 encoder gives the one base58 text of the bytes (leading zero bytes as leading first letters), its decoder gives those bytes back and refuses any character outside the alphabet. The checked forms (EncodeCheck, DecodeCheck, GetProgramHashFromAddress, Base58checkEncode, Base58checkDecode) append and demand the network's four checksum bytes: what decodes has the right checksum, length and prefix, what has them decodes, short or damaged texts give an error and never a crash, and the caller's buffers are not written to.",
  ["inputs"], "base58: every value of one byte at the start, middle or end of inputs of 0-8, 25, 38 and 82 bytes (more lengths thorough), every ASCII character at any of three places; checked forms: every payload of 0-40 bytes and every checksum error",
  "Tests encode one or two addresses per chain; carries, leading zeroes, damaged checksums and short texts are not sampled.",
  files(["btcTransaction", "omniTransaction", "bitcoincashTransaction", "bitcoinsvTransaction", "cxcTransaction", "hcTransaction", "zencashTransaction", "vollarTransaction", "hypercashTransaction", "elastosTransaction", "waykichainTransaction", "btcLikeTxDriver", "vergeTransaction", "aliencoinTransaction", "ontologyTransaction", "virtualeconomyTransaction", "fiiiTransaction", "filenetTransaction", "rippleTransaction", "owkeychain", "addressEncoder"], ["base58.go"]) + ["owkeychain/owencode.go"],
  mech(("codec", "Encode, Decode"), ("checked codec", "EncodeCheck, DecodeCheck, Base58checkEncode, Base58checkDecode"), ("script hashes", "GetProgramHashFromAddress")),
  "Bounded: one symbolic byte against long division for the codec itself (digits of many symbolic bytes are out of the solver's reach); the checked forms use the codec as an ideal pair with all payload and checksum bytes symbolic."),
P("P12", "Key derivation follows the documented scheme and key texts are faithful",
  "In owkeychain: a root key is the (clamped) SHA-512 of the seed; a child private key is the documented HMAC-SHA512 tweak of its parent, always 32 bytes, with the right chain code, depth, index and parent fingerprint; the public child derived from a public key is the public half of the private child; hardened or private children of public keys, depth 256, impossible children and invalid public keys are refused without a crash. A path names exactly the indexes written in it, out-of-range or malformed elements are refused. The owprv/owpub/owchain text of a key decodes to exactly that key, and damaged, short or foreign texts are refused.",
  ["inputs"], "every parent key of the curve, chain code, depth, fingerprint and index; secp256k1, secp256r1, sm2 and the three 25519 types; every text of the stated lengths; every 1-2 character path element and every 10 digit number with or without the hardened mark",
  "Tests derive a few keys from one seed: a key with two leading zero bytes, an index of 2^31, depth 255 or a damaged text never occurs.",
  ["owkeychain/extendedkey.go", "owkeychain/hdkey.go", "owkeychain/owencode.go", "owkeychain/multisig.go", "owkeychain/hdprofile.go"],
  mech(("derivation", "GenPrivateChild, GenPublicChild, getPriChildViaPriParent, getPubChildViaPubParent"), ("paths", "DerivedPrivateKeyWithPath, DerivedPublicKeyFromPath, GetCoinRootPublicKey, DerivedPrivateKeyBytes"), ("texts", "OWEncode, OWDecode, ChianEncode, ChainDecode, GetMultiSigShareData")),
  "Bounded: one derivation step with every field symbolic (paths of up to two elements over an abstract step); 25519 public tweaks of 29, 28, 27, 1 and 0 bytes in the quick tier, all thorough. HMAC, SHA-512 and base58 idealised; point arithmetic is an uninterpreted homomorphism. The BLS and Pasta curves are covered only for texts."),
P("P13", "Templates and digests of the UTXO drivers outside the btc family",
  "In the verge, aliencoin, vollar, hypercash (including its omni form), elastos and bigbang drivers, a created template holds exactly the requested coins, destinations, amounts, lock time, expiry, fee and data in the chain's serialization (verge: stamped with the present plus the interval), and each digest is the chain's hash over that transaction with the script of exactly the input it belongs to. Empty coin or destination lists, malformed ids, lock scripts and addresses (wrong checksum, network or length) are refused without a crash.",
  ["inputs"], "every id, index, lock script byte, amount, lock time, expiry, fee and destination hash; 1-3 inputs and outputs; 253 outputs; every checksum error and version",
  "Tests build one fixed transaction per chain and print it.",
  files(["vergeTransaction", "aliencoinTransaction", "vollarTransaction"], ["transaction.go", "txIn.go", "txOut.go", "txStruct.go"]) + ["hypercashTransaction/transaction.go", "hypercashTransaction/TxStruct.go", "hypercashTransaction/txOmni.go", "elastosTransaction/transaction.go", "elastosTransaction/txStruct.go", "bigbangTransaction/transaction.go"],
  mech(("templates", "CreateEmptyTransactionAndHash, CreateEmptyRawTransactionAndHash, CreateOmniEmptyTransactionAndHash, CreateEmptyRawTransaction"), ("digests", "GetHash, GetEmptyAndHash")),
  "Bounded: 1-3 inputs and outputs (4 thorough), lock scripts of 25, 23, 35 and 108 bytes, counts of 252, 253 and 300; hashes uninterpreted, base58 an ideal codec."),
P("P14", "Verify-and-combine of the UTXO drivers outside the btc family",
  "In the verge, aliencoin, vollar, hypercash, elastos and bigbang drivers, verify-and-combine succeeds exactly when every input (elastos: every given key) comes with a signature valid under the given key over the digest of that input, and the result is the template plus exactly the given signatures (strict DER where the chain uses DER) and keys. Missing, surplus, malformed or wrong signatures, malformed keys and damaged templates give failure and no transaction, never a crash.",
  ["inputs"], "every template field, key and signature; every outcome of each signature check; every number of leading zero bytes in r and s; truncated, extended and non-hex templates",
  "Tests combine one valid signature; a bad key, an early accept or a short r never occurs in them.",
  files(["vergeTransaction", "aliencoinTransaction", "vollarTransaction"], ["transaction.go", "txSigPub.go", "txStruct.go"]) + ["hypercashTransaction/transaction.go", "hypercashTransaction/txSignature.go", "elastosTransaction/transaction.go", "elastosTransaction/txSignature.go", "bigbangTransaction/transaction.go"],
  mech(("verify and combine", "VerifyAndCombineTransaction, VerifyAndCombineRawTransaction"), ("signature scripts", "SigPub.ToBytes")),
  "Bounded: 1-2 inputs (3 thorough). Whether the key owns the coin is not part of the statement. Signature checks are uninterpreted."),
P("P15", "Templates and digests of the account-model drivers",
  "In the ripple, moac, ontology (both transfer versions) and waykichain (transfer, register account, contract call, coin transfer) drivers, a created template holds exactly the requested sender, recipient, amount, fee or gas, nonce, height, network, tag, memo or contract in the chain's serialization, and the digest is the chain's hash of it. Values that do not fit their field, negative, missing or zero amounts where the driver refuses them, malformed addresses (wrong checksum, network or length), keys and register ids, unknown assets and transaction kinds and over-long texts are refused without a crash.",
  ["inputs"], "every amount, fee, gas, nonce, height, sequence, tag and address hash; memos of 0-193 and 12480 bytes; register ids; every checksum error and version byte",
  "Tests build one fixed transfer per kind and mostly print it; the number encodings change form at boundaries no test touches.",
  files(["rippleTransaction"], ["transaction.go", "txEnc.go", "txStruct.go", "txUtils.go"]) + files(["moacchainTransaction"], ["transaction.go", "txStruct.go", "txUtils.go"]) + files(["ontologyTransaction"], ["transaction.go", "txInvokeCode.go", "txStruct.go", "txUtils.go"]) + files(["waykichainTransaction"], ["transaction.go", "txStruct.go", "txUtils.go"]),
  mech(("templates", "CreateEmptyRawTransactionAndHash, CreateRawTransactionAndHash, CreateRawTransactionAndHashV2"), ("number encodings", "int64ToUvarint, getUint64Bytes, uint64ToEmitBytes, bigIntToEmitBytes")),
  "Bounded: memos, contracts and coin names of listed lengths, register ids of up to 5 digits a part (9 thorough); hashes uninterpreted, base58 an ideal codec; the one symbolic number at a time in moac and waykichain."),
P("P16", "Verify-and-combine of the account-model drivers",
  "In the ripple, moac, ontology and waykichain drivers, verify-and-combine succeeds exactly when every given signature is valid under its key over the digest of the template (moac: and recovers to the given key on the given network), and the result is the template plus exactly the given signatures and keys in the chain's form (strict DER, trimmed integers, recovery id). Missing, malformed or wrong signatures and keys, and truncated, extended, already signed or otherwise damaged templates give failure and no transaction, never a crash.",
  ["inputs"], "every template field, key and signature; every outcome of each signature check; every number of leading zero bytes in r and s; damaged templates of every length",
  "Tests combine one valid signature; short halves, bad keys and damaged templates never occur in them.",
  files(["rippleTransaction", "moacchainTransaction", "ontologyTransaction", "waykichainTransaction"], ["transaction.go", "txStruct.go"]) + ["ontologyTransaction/txSigPub.go", "waykichainTransaction/txSignature.go"],
  mech(("verify and combine", "VerifyAndCombineRawTransaction, VerifyAndCombinRawTransaction"), ("signature forms", "SigPub.ToBytes, addSig"), ("decoders", "decodeEmpty, DecodeRawTransaction, getHashFromEmptyRawTrans")),
  "Bounded: 1-2 signatures for ontology (3 thorough). Whether the key owns the sending account is not part of the statement. Signature checks and key recovery are uninterpreted."),
P("P17", "Templates and signed messages of the remaining drivers",
  "In the filenet, virtualeconomy, polkadot, mateverse, fiii, cosmos and evaio drivers, a created template holds exactly the requested inputs, recipients, amounts, fee or gas, nonce, era, chain and memo in the chain's serialization, and the digest or message to sign commits to exactly these, per input where there are several. Amounts, totals, indexes and counts that do not fit, malformed addresses, lock scripts, ids, hashes and transfer codes, and inputs that are not the transaction's are refused without a crash.",
  ["inputs"], "every amount, fee, nonce, height, gas, time, index, hash and key; address bodies of every listed length; compact numbers of all 64-bit values; damaged templates",
  "Tests build one or two fixed transfers and print them; number forms change at boundaries no test touches.",
  files(["filenetTransaction"], ["transaction.go", "txStruct.go", "txTo.go", "address.go"]) + files(["virtualeconomyTransaction"], ["transaction.go", "base58.go"]) + files(["polkadotTransaction"], ["transaction.go", "txStruct.go", "txMethod.go", "txEra.go", "codec.go"]) + files(["mateverseTransaction"], ["transaction.go", "txIn.go", "txUtils.go"]) + files(["fiiiTransaction"], ["transaction.go", "txInput.go", "txOutput.go"]) + files(["cosmosTransaction", "evaioTransaction"], ["txStruct.go", "coin.go", "fee.go", "transaction.go"]),
  mech(("templates", "CreateEmptyTransactionAndHash, CreateEmptyTransactionAndMessage, CreateEmptyTransaction, CreateEmptyTransactionAndHash (cosmos)"), ("digests", "GetSigHash, NewTxPayLoad, genMessage"), ("number encodings", "Encode, BytesToCompactBytes, GetEra")),
  "Bounded: 1-3 inputs and outputs; address bodies and lock scripts of listed lengths; hashes uninterpreted, base58 and JSON ideal codecs."),
P("P18", "Verify, combine and broadcast of the remaining drivers",
  "In the filenet, virtualeconomy, polkadot, mateverse, fiii, cosmos and evaio drivers, verification succeeds exactly when every signature is valid under its key over the digest or message of the given template, and the combined transaction or broadcast body carries the template's fields unchanged plus exactly the given signatures and keys in the chain's form. Missing, malformed or wrong signatures and keys, hashes or inputs of another transaction, and damaged templates give failure and no transaction, never a crash.",
  ["inputs"], "every template field, key and signature; every outcome of each signature check; every leading zero count in r and s; damaged and truncated templates",
  "Tests combine one valid signature; other outcomes, short halves and damaged templates never occur in them.",
  files(["filenetTransaction"], ["transaction.go", "txStruct.go"]) + files(["virtualeconomyTransaction"], ["transaction.go", "txDecode.go"]) + files(["polkadotTransaction"], ["transaction.go", "txStruct.go"]) + files(["mateverseTransaction"], ["transaction.go", "txIn.go", "txSigPub.go"]) + files(["fiiiTransaction"], ["transaction.go", "txStruct.go", "txUnlock.go"]) + files(["cosmosTransaction", "evaioTransaction"], ["txSend.go", "transaction.go"]),
  mech(("verify and combine", "VerifyAndCombineTransaction, VerifyTransactionSig, VerifyTransaction"), ("broadcast bodies", "CreateJSONRawForSendTransaction, CreateTxSend"), ("decoders", "decodeRawTransaction, TxStructDecode, decodeEmptyTx")),
  "Bounded: 1-3 inputs, damaged templates of listed lengths. Whether a key owns the spent account is not part of the statement. Signature checks are uninterpreted, JSON an ideal codec."),
P("P19", "The generic bitcoin-like driver: templates, digests, combining, verifying",
  "In btcLikeTxDriver, a template holds exactly the requested inputs, destinations, amounts, sequence and lock time; every digest is the chain's signature hash of that input by its lock script (P2PKH, P2SH-P2WPKH, P2WPKH, P2SH-P2WSH multisig); signing and combining put exactly the given signatures, strict DER, and keys at their own inputs and change nothing else; verification succeeds exactly when every input is unlocked by a valid signature of the key that owns it; a multisig address commits to exactly its threshold and keys. What does not fit is refused without a crash.",
  ["inputs"], "every id, index, amount, sequence, lock time, key and signature; every mix of lock scripts over three inputs; every leading zero count in r and s; every outcome of each signature check; damaged and truncated transactions",
  "Tests sign one or two fixed transactions; mixes of script kinds, short signature halves and malformed data never occur in them.",
  files(["btcLikeTxDriver"], ["transaction.go", "txStruct.go", "txIn.go", "txOut.go", "witness.go", "signaturepubkey.go", "multiSig.go", "bech32.go"]),
  mech(("templates", "CreateEmptyRawTransaction"), ("digests", "CreateRawTransactionHashForSig"), ("sign and combine", "SignEmptyRawTransaction, InsertSignatureIntoEmptyTransaction"), ("verify", "VerifyRawTransaction, DecodeRawTransaction"), ("multisig", "CreateMultiSig")),
  "Bounded: up to 3 inputs (253 for the count encoding), transactions of listed lengths when damaged. Verification of multisig transactions is not provided by the driver and not part of the statement. Hashes, point decompression and signature checks are uninterpreted."),
P("P20", "Zencash transactions: replay-protected outputs, digests, combining, verifying",
  "In zencashTransaction, a template holds exactly the requested inputs, amounts, sequence and lock time, each output script being the destination's P2PKH or P2SH script followed by the push of the given block hash, the minimal push of the given height, and OP_CHECKBLOCKATHEIGHT; every digest is the network's SIGHASH_ALL digest of that input; combining puts each signature, strict DER, and its key at its own input and changes nothing else; verification succeeds exactly when every input carries a valid signature of the key that owns it. What does not fit is refused without a crash.",
  ["inputs"], "every id, index, amount, sequence, lock time, block hash, height, key and signature; every leading zero count in r and s; every outcome of each signature check; locks with and without a block reference",
  "Tests build one fixed transaction at one height; heights with another push size, script-hash outputs and short signature halves never occur in them.",
  files(["zencashTransaction"], ["transaction.go", "txStruct.go", "txIn.go", "txOut.go", "txHash.go", "SignaturePubkey.go"]),
  mech(("templates", "CreateEmptyRawTransaction -> newTxOutForEmptyTrans"), ("digests", "CreateRawTransactionHashForSig"), ("sign and combine", "SignRawTransactionHash, InsertSignatureIntoEmptyTransaction"), ("verify", "VerifyRawTransaction")),
  "Bounded: up to 3 inputs and 4 outputs with every field symbolic, 253 inputs or outputs with the last one symbolic; destinations are concrete samples of each kind. Hashes and signature checks are uninterpreted."),
P("P21", "Omni and asset messages say exactly what was asked",
  "In the omni, bitcoin-cash and bitcoin-sv drivers, the message of every supported kind is carried by one OP_RETURN output whose single push is the marker and the documented big-endian layout of that kind with exactly the given property, amounts, texts and addresses; in the cxc driver every asset output carries exactly the asset reference and amount asked for, beside the ordinary inputs and outputs, in order. Kinds, addresses and references the layer would not understand are refused, never sent.",
  ["inputs"], "every property id, amount, deadline, percentage and flag of each message kind; memos of 0 to 300 bytes of any content; every asset amount and reference",
  "Tests print one message; the sizes at which the push opcode changes, large amounts and the other kinds never occur in them.",
  files(["omniTransaction", "bitcoincashTransaction", "bitcoinsvTransaction"], ["txOmni.go", "txPayload.go"]) + ["cxcTransaction/txAsset.go", "cxcTransaction/transaction.go"],
  mech(("omni payload", "CreateEmptyRawTransaction / CreateEmptyOmniRawTransaction -> getOmniDetail -> createPayload*"), ("asset outputs", "CreateEmptyAssetTransaction -> newAssetTxOut")),
  "Bounded: one or several inputs and outputs, memos of listed lengths (every length to 255 in the thorough tier), up to 4 assets. The oracle is written from the Omni layer's message layouts."),
P("P22", "Bytom transactions: templates, digests, multisig, combining, verifying",
  "In bytomTransaction, a template is byte for byte the network's serialisation of exactly the requested inputs, outputs, amounts, positions and time range; the digest of each input is the network's (entry ids of spends, outputs, mux and header); combining puts each signature and key, or each multisig signature and script, into the witness of its own input and changes nothing else; verification succeeds exactly when every input's witness holds valid signatures of that input's digest, as many as the script asks for; a multisig address commits to exactly its keys and threshold. Malformed data is refused without a crash.",
  ["inputs"], "every amount, position, time, id and asset, in every size of their variable-length encoding; 1-of-1 to 4-of-4 and 3-of-5 multisig with any subset signing; every outcome of each signature check; arbitrary bytes for a transaction",
  "Tests build one transaction; numbers of other sizes, more than 127 inputs, multisig coins and malformed data never occur in them.",
  files(["bytomTransaction"], ["transaction.go", "txStruct.go", "txIn.go", "txOut.go", "txHash.go", "txMultiSig.go", "txUtil.go", "sigPub.go"]),
  mech(("templates", "CreateEmptyTransaction"), ("digests", "CreateTransactionHashForSig"), ("sign and combine", "SignTransactionHash, CombineTransaction"), ("verify", "VerifyTransaction"), ("multisig", "CreateMultiSig")),
  "Bounded: up to 3 inputs and 5 outputs with every field symbolic, 130 inputs or 128 outputs for the counts, damaged transactions of listed shapes. Which address owns a single-key coin is not compared with the key (the statement is about signature validity). SHA3, hashes and signature checks are uninterpreted."),
P("P23", "Bech32 texts in the drivers encode and decode exactly",
  "In the btc, omni, cxc, hc, zencash, cosmos, evaio and generic bitcoin-like drivers, encoding bytes as bech32 gives exactly the text BIP173 prescribes for the given prefix (with witness version 0 first, except in cosmos and evaio), leaving the caller's bytes alone; decoding succeeds exactly when the text has a prefix, a separator, only letters of the alphabet in one case, a correct checksum, version 0 where there is one, and at most four padding bits, all zero, and then gives exactly the bytes it stands for. Templates of the btc and generic drivers pay a bech32 destination exactly when it is a valid address of the configured network, to exactly its program. Anything else is refused without a crash.",
  ["inputs"], "every 20-byte text with every checksum error; 32-byte and other lengths with symbolic ends, version, padding and checksum; every single changed character; junk texts",
  "Tests decode a few valid addresses; wrong padding, the lengths that a checksum does not protect and junk never occur in them.",
  files(["btcTransaction", "omniTransaction", "cxcTransaction", "hcTransaction", "zencashTransaction", "cosmosTransaction", "evaioTransaction", "btcLikeTxDriver"], ["bech32.go"]) + ["btcTransaction/txOut.go", "btcLikeTxDriver/txOut.go"],
  mech(("encode", "Bech32Encode -> extendPayload, calcChecksum"), ("decode", "Bech32Decode -> verifyChecksum, unecxtendPayload"), ("destinations", "newTxOutForEmptyTrans")),
  "Bounded: 20-byte texts with every digit symbolic; other lengths with the first two and last four digits and the whole checksum symbolic (every digit in the thorough tier for 32 bytes). Upper-case texts are outside the statement (the drivers refuse them). Bytom's own codec is decided under P22."),
]
NA = []
NOTES = "setup.sh builds the engine (gosym) from /verif/gosym; run.sh <property> <tier> loads /repo's current sources with the harnesses overlaid, explores them symbolically and replays every counterexample natively before reporting it."
