#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text},
              "why_tests_cant": why, "anchors": a})

NOT = "The existing tests only exercise nbc/util/ecdsa; "

# ---------------------------------------------------------------- wallets
prop("W01", "A saved wallet reloads as the same wallet",
 "Whatever wallet is saved - a simple address with private key or watch-only, compressed or not, on either network and with any address nonce, or an HD wallet, private or public, at any depth - loading the file with the same passphrase (or none, if none was used; typed at the prompt, if omitted) gives back a wallet with the same keys, address, network, nonce and position in the tree, which signs, verifies and derives the same children. Watch-only wallets stay watch-only. The file may be called and given as files can be (text, bytes, path, relative, long names, links). Files written by the current release in the existing format keep loading to the same wallets.",
 "inputs histories", "every wallet of either kind, every passphrase of bytes, every sequence of saves and loads over a file",
 NOT + "no test saves or loads a wallet; the loss shows only for some kinds of wallet (e.g. compressed watch-only) or for half of all keys.",
 "nbc/wallet/__init__.py nbc/wallet/address.py nbc/wallet/hdwallet.py nbc/util/pyaes/aes.py",
 [("dump_to_cfg/load_from_cfg", "nbc/wallet/address.py, nbc/wallet/hdwallet.py"), ("saveTo/loadFrom", "nbc/wallet/__init__.py")],
 [("wallet file", "JSON record of the wallet, key material optionally encrypted", "nbc/wallet/__init__.py")],
 ["nbc.wallet.saveTo", "nbc.wallet.loadFrom"])
prop("W02", "Encrypted wallet files hide the key and refuse a wrong passphrase",
 "A wallet saved with a passphrase has its private key nowhere in the file in any plain form (raw, hex, base64 or wallet-import format). Loading it with a passphrase that differs (within the first 16 bytes, which are the effective ones; shorter ones count as padded with NUL bytes) raises an error and never returns a wallet. Only byte strings are accepted as passphrase when saving, and a refused save leaves an existing file as it was. Saving over an existing file keeps its permissions, and at no moment of the save does any file of the folder, the new one or a temporary one, let more users read it than the old file did. Printing a wallet never shows its private key.",
 "inputs", "every private wallet and every pair of differing passphrases, every set of permission bits",
 NOT + "acceptance of a wrong passphrase happens for a small fraction of passphrases, so no sampled test shows it.",
 "nbc/wallet/address.py nbc/wallet/hdwallet.py nbc/util/pyaes/aes.py",
 [("_aesEncrypt/_aesDecrypt and the length/padding check", "nbc/wallet/address.py, nbc/wallet/hdwallet.py")], (),
 ["nbc.wallet.saveTo", "nbc.wallet.loadFrom", "bytes of the file"])
prop("W03", "An interrupted or failed save never destroys the wallet on disk",
 "If saving over an existing wallet file is cut short at any point - the process dies, power is lost when the new file takes the place of the old, others save to or read the file at the same time, a write fails because the disk is full or a limit is hit, or an error is raised - the file afterwards loads either as the complete old wallet or as the complete new one. If the save reported success the file is the new wallet. No stray copy of the key is left behind by a save that returned (with success or with an error).",
 "crash_points fault_sequences", "every point of the save at which the process can die or an operating-system call can fail, for old and new wallets of every kind",
 NOT + "no test interrupts a save.",
 "nbc/wallet/__init__.py", [("saveTo", "nbc/wallet/__init__.py")], [("wallet file", "only copy of the user's key", "nbc/wallet/__init__.py")],
 ["file content after the fault, read back with nbc.wallet.loadFrom"])
prop("W04", "An address is fixed by public key form, nonce and network alone",
 "The address text of any wallet is the Base58Check form of the version byte (0x00, or 0x6f on the test network), the nonce as four lower-case hex digits and SHA-256 of the two RIPEMD-160 halves of the SHA-512 of the public key as serialised by the wallet (compressed or not). A watch-only wallet built from the public key, a wallet built from the private key, and the result of compressing and decompressing again agree on it, and conversion keeps key, nonce and network. A nonce given as any integer counts modulo 65536; one not given is drawn from the whole 16-bit range.",
 "inputs", "every private and public key, nonce, network and form",
 NOT + "nothing tests addresses.",
 "nbc/wallet/address.py nbc/wallet/hdwallet.py nbc/util/key.py nbc/util/base58.py",
 [("publickey_to_address / pubkeyhash_to_address", "nbc/util/key.py"), ("Address.__init__, compress, decompress", "nbc/wallet/address.py")], (),
 ["Address.address", "HDWallet.address()", "key.publickey_to_address"])
prop("W05", "Wallet signatures verify for exactly their message and key",
 "A signature a wallet makes over any byte string is valid standard ECDSA over the double SHA-256 of it, is accepted by every wallet holding that public key (watch-only, compressed or not, reloaded, HD or plain), and is rejected for any other message, any other key, or when r or s is altered. Each signature uses a fresh random nonce from the full range, and the private key is used only to sign. A wallet without a private key refuses to sign.",
 "inputs histories", "every key, message, pair of messages and history of signatures by one wallet",
 NOT + "the signature tests use other curves, fixed messages and do not look at nonces across signatures.",
 "nbc/wallet/address.py nbc/wallet/hdwallet.py nbc/util/ecc.py nbc/util/ecdsa/keys.py nbc/util/ecdsa/ecdsa.py",
 [("sign / verify", "nbc/util/ecc.py"), ("sign_number and its randrange call", "nbc/util/ecdsa/keys.py")], (),
 ["Address.sign/verify", "HDWallet.sign/verify", "entropy requests"])
prop("W06", "Every generated secret lies in the group range whatever the entropy",
 "Generated wallet keys, signature nonces and numbers drawn for any order n lie in [1, n-1], every value of that range can occur, and out-of-range candidates are discarded rather than folded back. A wallet key generated from given entropy is reproducible from it, entropy is asked for again after a rejected candidate, and when entropy is broken the draw fails instead of looping for ever. The seed-derived generators give the number of the documented construction for a seed, always the same, in range for every order they document.",
 "inputs", "every entropy byte stream and every order",
 "The tests draw from a good entropy source for a few orders; boundary candidates (0, n-1, n, all-ones) have negligible probability there.",
 "nbc/util/ecdsa/util.py nbc/util/ecdsa/keys.py nbc/wallet/address.py",
 [("randrange and randrange_from_seed__*", "nbc/util/ecdsa/util.py"), ("Address.generate", "nbc/wallet/address.py")], (),
 ["return values and entropy requests"])

prop("W07", "A file that is not a whole wallet is refused, not loaded as one",
 "Loading a wallet file of which a part is missing - cut at any byte, without one of its fields, with key, chain code or parent fingerprint of another length than saved - or whose kind is unknown, or whose simple-address private key has a damaged character, raises an error: it never gives a wallet with other keys, network, nonce or tree position than the one saved. Things that are no wallet files, and missing files, are refused. Loading, whether it succeeds or not, leaves the file and its folder as they were.",
 "inputs", "every wallet of either kind, plain or encrypted, and every loss or damage the format can show",
 NOT + "no test loads a wallet file, let alone a damaged one; most damages raise by luck, some load as another wallet.",
 "nbc/wallet/__init__.py nbc/wallet/address.py nbc/wallet/hdwallet.py",
 [("loadFrom", "nbc/wallet/__init__.py"), ("load_from_cfg", "nbc/wallet/address.py, nbc/wallet/hdwallet.py"), ("point_decompress", "nbc/wallet/hdwallet.py")],
 [("wallet file", "JSON record of the wallet, key material optionally encrypted", "nbc/wallet/__init__.py")],
 ["nbc.wallet.loadFrom", "bytes of the file"])

# ---------------------------------------------------------------- HD
prop("H01", "Private HD derivation follows BIP32 for every path",
 "For every master seed and every path of normal and hardened steps the derived private key, chain code, depth, child number, parent fingerprint, serialised extended keys (private and public) and address are those of BIP32 with this project's address format. A child wallet has the network and the address nonce of its parent, so repeating a derivation gives the same address. Depth 255 is the last; deeper derivation, indexes outside 32 bits and unusable key material are refused.",
 "inputs histories", "every seed, path, nonce and network",
 NOT + "nothing tests HD wallets.",
 "nbc/wallet/hdwallet.py", [("HDWallet.child, from_master_seed, to_extended_key", "nbc/wallet/hdwallet.py")],
 [("_prvkey/_pubkey/_chain/_depth/_parentfp/_childnum", "the BIP32 node", "nbc/wallet/hdwallet.py")],
 ["HDWallet accessors", "extended key text"])
prop("H02", "Public HD derivation agrees with private and never exposes a secret",
 "Deriving any non-hardened path from the public side of a wallet gives the same public key, chain code, fingerprint and address as deriving it from the private side and dropping the private key. From a public-only wallet hardened derivation and signing are refused, and no accessor, extended key or saved file yields a private key. The public extended key of a private wallet contains no private material.",
 "inputs", "every wallet and every non-hardened path split between the two sides",
 NOT + "nothing tests HD wallets; an error in point decompression or addition shows for part of the keys only.",
 "nbc/wallet/hdwallet.py nbc/util/ecdsa/ellipticcurve.py", [("HDWallet.child public branch", "nbc/wallet/hdwallet.py")], (),
 ["HDWallet accessors", "HDWallet.address()"])
prop("H03", "Extended keys round-trip and malformed ones are refused",
 "Importing the extended key of any wallet, private or public, on either network and at any depth, gives a wallet with the same key, chain code, depth, child number, parent fingerprint and network, whose own extended key is the same text. Text that is not exactly a correctly check-summed 82-byte extended key with a known version, a valid point or an in-range private key is refused with an error. The nonce of the imported wallet is the one asked for.",
 "inputs", "every wallet, and every corruption of an extended key (text edits, length, checksum, version, point, key range)",
 NOT + "nothing tests extended keys.",
 "nbc/wallet/hdwallet.py nbc/util/base58.py", [("from_extended_key / to_extended_key", "nbc/wallet/hdwallet.py")], (),
 ["HDWallet.from_extended_key"])

# ---------------------------------------------------------------- keys
prop("K01", "Base58 and Base58Check are exact inverse codecs",
 "For every byte string, Base58 encoding is the standard one and decoding returns the original, leading zero bytes included; text outside the alphabet is refused. Base58Check decoding returns the payload exactly when the last four bytes are the double-SHA-256 checksum, and otherwise reports failure rather than data. Text and byte-string forms of the input behave alike.",
 "inputs", "every byte string and every text", NOT + "base58 is not tested.",
 "nbc/util/base58.py", [("b58encode/b58decode, encode_check/decode_check", "nbc/util/base58.py")], (), ["return values"])
prop("K02", "Wallet-import format is lossless and rejects damaged keys",
 "Every 32-byte private key, with or without the compression mark, converts to the standard wallet-import text and back to the same key. Any text that is not exactly such an encoding - bad checksum, prefix, length, compression mark or alphabet, truncated or extended - is refused with a ValueError.",
 "inputs", "every key and every damaged text", NOT + "not tested.",
 "nbc/util/key.py nbc/util/base58.py", [("privkey_to_wif / privkey_from_wif", "nbc/util/key.py")], (), ["return values"])
prop("K03", "Public keys compress and decompress without loss",
 "Compressing any valid public key gives its standard 33-byte form and decompressing that gives back the same 65 bytes; decompressing an uncompressed key returns it unchanged. Anything that is not the encoding of a curve point - wrong length or prefix, x with no point, point off the curve, coordinate out of range - is refused with an error, and every valid point is accepted.",
 "inputs", "every 33- and 65-byte string", NOT + "not tested.",
 "nbc/util/key.py nbc/util/ecdsa/numbertheory.py", [("compress_public_key / decompress_public_key", "nbc/util/key.py")], (), ["return values"])
prop("K04", "Both sides of a key agreement compute the same secret",
 "For any two key pairs the shared secret computed from one private and the other public key is the same on both sides, whichever form the public key is given in, and equals the 32-byte x coordinate of the product point. An invalid public or private key is refused.",
 "inputs", "every pair of keys and encodings", NOT + "not tested.",
 "nbc/util/ecc.py", [("shared_secret", "nbc/util/ecc.py")], (), ["return value"])
prop("K05", "Split private keys recombine to the original and only when complete",
 "Combining all shares of a split private key, in any order, gives back the original key; combining several private keys gives their sum, and the piecewise address computed from a public key and a partner's private key is the address of the combined private key. For m-of-n key-sets any m of the n sets recover the original key and, for m below n, fewer than m sets recover none (unless the sets in hand happen to complete one split) - never a wrong key; shares of different keys or damaged shares are reported, not mixed. A key-set survives its QR text form.",
 "inputs", "every key, share count, m-of-n choice, subset and order of shares", NOT + "not tested.",
 "nbc/util/piecewise.py", [("split_private_key, combine_private_keys, get_address, partial_*", "nbc/util/piecewise.py")], (), ["return values"])

# ---------------------------------------------------------------- ecdsa
prop("E01", "ECDSA verification accepts exactly the valid signatures",
 "On every supported curve a signature (r, s) on a digest is accepted if and only if the textbook ECDSA equation holds with r and s in [1, n-1] and a public key on the curve; every signature produced for any key, digest and nonce satisfies it. Verification always answers yes or a rejection, also for extreme r, s, digests and keys and where the sum of points is infinity. A digest longer than the curve takes is refused, in signing and in checking, and so is a given nonce outside [1, n-1]. The same holds for the small-group instances of the same code, checked completely.",
 "inputs", "every key, digest, nonce and pair (r, s) on all six curves; all values on small curves",
 "The tests verify fresh signatures and single-field changes; coordinates between n and p, sums at infinity and r or s at the limits are never produced.",
 "nbc/util/ecdsa/ecdsa.py nbc/util/ecdsa/keys.py nbc/util/ecdsa/ellipticcurve.py",
 [("Public_key.verifies, Private_key.sign, point_is_valid", "nbc/util/ecdsa/ecdsa.py"), ("VerifyingKey.verify*", "nbc/util/ecdsa/keys.py")], (), ["accept/reject decisions"])
prop("E02", "Message signature checks answer false, never crash, on any input",
 "Checking a signature against any bytes as signature and any bytes as public key returns true or false without raising. It returns true only if the bytes carry r and s (in the tolerant DER form, where trailing bytes and unminimal integers are allowed) that satisfy ECDSA for that key and message. Every strictly encoded valid signature is accepted.",
 "inputs", "every signature byte string and public-key byte string", NOT + "the tolerant decoder in nbc/util/ecc.py is not tested.",
 "nbc/util/ecc.py nbc/util/key.py nbc/util/ecdsa/der.py", [("verify, sigdecode_der", "nbc/util/ecc.py"), ("decompress_public_key", "nbc/util/key.py")], (), ["return value"])
prop("E03", "Deterministic signatures use exactly the RFC 6979 nonce",
 "For every group order, key, hash function and message the deterministic nonce is the one RFC 6979 defines, including when a candidate is rejected and the next is drawn. Signing the same data twice with the same key gives the same signature, it verifies, and different data or keys give different nonces.",
 "inputs", "every order, key, hash and digest, with rejection cases made frequent by small orders",
 "The tests replay RFC vectors on standard curves, in which no candidate is ever rejected.",
 "nbc/util/ecdsa/rfc6979.py nbc/util/ecdsa/keys.py", [("generate_k", "nbc/util/ecdsa/rfc6979.py"), ("sign_deterministic", "nbc/util/ecdsa/keys.py")], (), ["nonce and signature"])
prop("E04", "Serialised signing and verifying keys round-trip and interoperate",
 "Every signing and verifying key on every curve survives its raw, DER and PEM forms unchanged, and these are the standard encodings that OpenSSL reads and writes, leading zero bytes included. Signature encodings (raw, string pair, DER, canonical variants) decode to the same r and s, the canonical ones to (r, min(s, n-s)). Corrupted or truncated encodings either raise an error or decode to a key that is itself valid; a public key off the curve is never accepted, and a private key of another version or tag, a public key in another form and unknown curves are refused. A key signs and verifies with the hash function it was loaded with (SHA-1 if none is given) unless another is named.",
 "inputs", "every key and signature on six curves and every corruption",
 "The tests round-trip a handful of random keys; short numbers and corrupted input are not covered.",
 "nbc/util/ecdsa/keys.py nbc/util/ecdsa/der.py nbc/util/ecdsa/util.py", [("to_/from_ string, der, pem", "nbc/util/ecdsa/keys.py"), ("sigencode_*/sigdecode_*", "nbc/util/ecdsa/util.py")], (), ["encodings and decoded keys"])
prop("E05", "Curve arithmetic obeys the group law",
 "Addition, doubling and scalar multiplication of points agree with the abstract group for every pair of points and every non-negative scalar, including infinity, inverse points, points of order two and scalars at or beyond the order. The six standard curves have their published parameters, and results stay on the curve with coordinates reduced. Equal points compare equal however they were computed.",
 "inputs", "all points and scalars of many small curves, and sampled ones on the six standard curves",
 "The tests multiply the generator by a few fixed scalars.",
 "nbc/util/ecdsa/ellipticcurve.py nbc/util/ecdsa/ecdsa.py nbc/util/ecdsa/curves.py", [("Point.__add__, double, __mul__", "nbc/util/ecdsa/ellipticcurve.py")], (), ["point coordinates"])
prop("E06", "Number-theory routines return what their mathematics defines",
 "Modular inverses, modular powers, square roots modulo a prime (all residue classes of the prime), Jacobi symbols, gcd, lcm, factorisation, totient, Carmichael function, element orders and next prime are correct for every argument in their domain; a non-residue or a non-invertible element raises an error instead of giving a number. Primality is exact for all numbers up to a million and never calls a prime composite.",
 "inputs", "all small arguments and sampled large ones", "The self-tests cover some values of some of these routines.",
 "nbc/util/ecdsa/numbertheory.py", [("inverse_mod, square_root_mod_prime, jacobi, factorization, is_prime, ...", "nbc/util/ecdsa/numbertheory.py")], (), ["return values"])
prop("E07", "DER encoding and decoding are inverse and never read past the data",
 "Encoding integers, lengths, OIDs, strings and sequences of any size gives standard DER and decoding it returns the value and exactly the unread rest. Data that ends before the length it declares, or has the wrong tag, is refused with an error rather than decoded short. The integer strings of X9.62 and their SHA-1 numbers are the standard ones.",
 "inputs", "every value and every truncation or tag change", "The tests decode a few fixed strings.",
 "nbc/util/ecdsa/der.py", [("encode_*/remove_*", "nbc/util/ecdsa/der.py")], (), ["return values"])

# ---------------------------------------------------------------- AES
prop("A01", "AES and its modes compute the standard for every key size",
 "For 16-, 24- and 32-byte keys, the block cipher and the ECB, CBC, CFB (any segment size), OFB and CTR modes produce the standard cipher text, decryption inverts encryption, and the state carries over from call to call so that any split of the data allowed by the mode gives the same result. Counters wrap at 2^128. Keys, initialisation vectors and blocks of wrong length are refused.",
 "inputs histories", "every key, vector, data and split into calls", NOT + "AES is not tested.",
 "nbc/util/pyaes/aes.py", [("AES and AESModeOfOperation*", "nbc/util/pyaes/aes.py")], (), ["cipher and plain text"])
prop("A02", "Stream feeders give the same result for every chunking",
 "Feeding data to the block feeders in any chunks gives, in total, the same output as feeding it at once: the mode's cipher text of the data (PKCS#7 padded in block modes), and decryption feeders return exactly the original. A feeder that was finished refuses further data, and cipher text whose padding or length is invalid is refused. Padding and stripping the padding are inverse to each other, and stripping refuses every value that padding can not have produced.",
 "inputs histories", "every data, chunking, mode and key size", NOT + "not tested.",
 "nbc/util/pyaes/blockfeeder.py nbc/util/pyaes/util.py", [("BlockFeeder.feed", "nbc/util/pyaes/blockfeeder.py"), ("append/strip_PKCS7_padding", "nbc/util/pyaes/util.py")], (), ["output bytes"])

# ---------------------------------------------------------------- protocol
prop("P01", "Protocol messages survive the wire byte for byte",
 "For every constructible message of every type, its frame is the standard one - network magic, padded command, length, checksum, then the fields in their documented binary layout - and parsing the frame gives a message of the same type with equal fields which serialises to the same bytes. Every message and structure, built or parsed, can be printed (alerts: see P06). The length announced by the frame's header is the frame's length. Every well-formed frame of a supported type, made by any peer, parses to the fields it carries.",
 "inputs", "every message type and every value of every field, sizes around each length-prefix limit included",
 NOT + "the protocol package is not tested.",
 "nbc/protocol/format.py nbc/protocol/messages.py", [("Ft* formats and CompoundType", "nbc/protocol/format.py"), ("Message.binary/parse", "nbc/protocol/messages.py")], (), ["frame bytes", "message fields"])
prop("P02", "A message that can be built can be sent; bad fields are refused early",
 "A field value outside what the wire can carry - number out of range or of wrong type, byte string of wrong length, text that has no byte form, list too long or too short, address that is not IPv4 or IPv6 - is refused when the message is built, with an error naming the field, and a missing, repeated, unknown or surplus argument is refused too. Whatever is accepted can be serialised and decodes to equal fields; every value the wire can carry is accepted. Later changes to lists given as arguments do not change the message.",
 "inputs", "every argument list of every message and structure", NOT + "not tested.",
 "nbc/protocol/format.py", [("CompoundType.__init__ and the validate methods", "nbc/protocol/format.py")], (), ["constructor outcome and serialisation"])
prop("P03", "Damaged or foreign frames are never delivered as messages",
 "A frame with the wrong network magic, a checksum that is not that of exactly the announced payload, or missing bytes is rejected with an error and gives no message; an unknown command is reported as unknown, as is each command the library declares unsupported. The rejection does not depend on what the payload would have meant.",
 "inputs fault_sequences", "every message under every byte change, truncation and extension", NOT + "not tested.",
 "nbc/protocol/messages.py", [("Message.parse checks", "nbc/protocol/messages.py"), ("message registry", "nbc/protocol/format.py")], (), ["Message.parse outcome"])
prop("P04", "A hostile payload costs bounded work and never a half-filled message",
 "Parsing any payload, whatever counts and lengths it announces, does work (steps executed, memory held, bytes copied) bounded by a multiple of the payload's size and then either gives a message all of whose bytes were present in the payload or fails with an error. In particular a huge element count, or fields cut off by the end of the payload, are errors, not long loops or shortened values.",
 "inputs", "every payload of every message type with hostile counts and lengths at every position", NOT + "not tested.",
 "nbc/protocol/format.py nbc/protocol/messages.py", [("parse_var_set, FtBytes.parse, FtVarString.parse", "nbc/protocol/format.py")], (), ["executed steps, memory held and bytes allocated", "parse outcome"])
prop("P05", "Hashes and merkle roots are canonical functions of the content",
 "The hash of a transaction or block header is the double SHA-256 of its standard serialisation (80 bytes for headers, whatever the transaction count), the same after every trip over the wire, and the merkle root of a transaction list is the standard tree over those hashes. Two out-points are equal exactly when hash and index are, and equal ones are found in sets and dictionaries. The coin's genesis constants hash to its genesis block hash.",
 "inputs", "every transaction, header, list length and pair of out-points", NOT + "not tested.",
 "nbc/protocol/format.py nbc/util/__init__.py nbc/coins/newbitcoin.py", [("Txn.hash, BlockHeader.hash, OutPoint", "nbc/protocol/format.py"), ("get_merkle_root", "nbc/util/__init__.py")], (), ["hash values"])
prop("P06", "Alert contents read back as signed and only genuine ones verify",
 "Every field of an alert read from its payload equals the value encoded there; a cut-off payload raises an error on every access and never yields leftovers. Verification accepts exactly payloads signed by the holder of the given key. Printing an alert never fails when its payload is complete.",
 "inputs", "every alert payload, truncation, key and signature", NOT + "not tested.",
 "nbc/protocol/messages.py", [("Alert._parse_and_get, verify", "nbc/protocol/messages.py")], (), ["alert properties", "Alert.verify"])

# ---------------------------------------------------------------- node
prop("N01", "Peers' messages are handled once, in order, whatever the packets",
 "The node calls its handler exactly once for each well-formed message a peer sends, in the order sent and with the fields sent, however the byte stream is cut into packets and whatever the log level. Frames that are damaged, unknown or undecodable, and handlers that raise, affect neither earlier nor later messages nor other peers, and invalid ones are reported to the invalid-command hook. Kinds of messages the node has no handler for are passed over like that too, and urgent data between the messages takes nothing from them. Received byte counters equal the bytes received.",
 "inputs schedules fault_sequences", "every message sequence, packetisation, interleaving of peers and log level", NOT + "the node package is not tested (it does not even import on this Python without a compatibility module).",
 "nbc/node/connection.py nbc/node/basenode.py", [("handle_read / handle_message", "nbc/node/connection.py")],
 [("_recv_buffer", "bytes received and not yet consumed", "nbc/node/connection.py")], ["command_* calls", "rx_bytes"])
prop("N02", "Everything a node sends arrives complete, in order, at any send size",
 "The byte stream a peer receives is exactly the concatenation of the frames of the messages sent to it, in order, however little each socket write takes and also when an application sends from several threads while the node serves. Transmitted byte counters equal the bytes that left, per peer and for the node.",
 "schedules fault_sequences", "every message sequence and pattern of partial writes, several peers", NOT + "not tested.",
 "nbc/node/connection.py", [("send_message / handle_write", "nbc/node/connection.py")], [("_send_buffer", "bytes queued", "nbc/node/connection.py")], ["bytes at the peer", "tx_bytes"])
prop("N03", "Handshake, ping and address requests get their protocol replies",
 "On every connection, made or accepted, whatever address the node is bound to, it first sends one version message describing itself, answers each version with one verack, each ping with a pong of the same nonce and each address request with one address message, in order and to that peer only. What the peer announced in its version message is what the connection reports. A peer counts as acknowledged exactly after its verack. A node speaks for the coin it was made for (magic, protocol version, name, seeds) and of the data directory given, or the usual one; frames of another coin are only reported. Nodes in one process have nothing in common, and speak with each other like with any peer.",
 "histories schedules", "every history of messages from several peers", NOT + "not tested.",
 "nbc/node/basenode.py nbc/node/connection.py", [("command_* methods", "nbc/node/basenode.py"), ("Connection.__init__ and handle_message", "nbc/node/connection.py")], (), ["frames received by scripted peers"])
prop("N04", "The address book is bounded and shared most recent first",
 "Whatever peers announce, the node remembers at most 2500 addresses. A request is answered with at most 1000 of the remembered addresses, each with the time and services last learned for it, most recent first; addresses whose services are unknown are left out, and entries are those announced or acknowledged earlier. A peer's own entry is dropped when it disconnects.",
 "histories", "every history of announcements, handshakes, requests and disconnections", NOT + "not tested.",
 "nbc/node/basenode.py", [("command_address, command_get_address, command_version_ack, disconnected", "nbc/node/basenode.py")],
 [("address book", "known addresses with time and services", "nbc/node/basenode.py")], ["address messages sent"])
prop("N05", "Misbehaving peers are banned for an hour, by host",
 "A peer punished more than five times beyond what heartbeats forgave (one per heartbeat, never below zero) is disconnected, and for the next hour every incoming connection from its host, from whatever port, is dropped at once; others, and the same host after the hour, are served. Below the limit nothing is dropped.",
 "histories", "every history of punishments, heartbeats, reconnections and time steps", NOT + "not tested.",
 "nbc/node/basenode.py nbc/node/connection.py", [("punish_peer, handle_accept, heartbeat", "nbc/node/basenode.py"), ("add_banscore / reduce_banscore", "nbc/node/connection.py")],
 [("_banned", "hosts and time of ban", "nbc/node/basenode.py")], ["connection accepted or closed"])
prop("N06", "The peer table holds exactly the live connections",
 "After every history of connects, accepts, refusals, resets, orderly closes, removals and errors, the node's peers are exactly the connections still open, each once, each with its own open socket; closed ones leave no socket, table entry or queued work behind and the event loop keeps running and listening, also when accepting fails or more files are open than it can watch. A peer can be given by its host name, which stands for its address. Connecting again to a connected address is refused, and unforced connecting at the maximum number of peers is refused. Listing the peers from another thread while they come and go is safe. A node made without an address drops whoever connects to it, without a word, and serves the peers it connects to itself.",
 "histories fault_sequences", "every history of connection events, including failing sends, resets and refused connects", NOT + "not tested.",
 "nbc/node/basenode.py nbc/node/connection.py", [("add_peer, remove_peer, handle_accept", "nbc/node/basenode.py"), ("handle_close, handle_error", "nbc/node/connection.py")],
 [("peer map", "open sockets by descriptor", "nbc/node/basenode.py")], ["node.peers, open descriptors"])
prop("N07", "Idle peers are pinged and dead ones dropped on schedule",
 "A connection on which nothing was sent for 30 minutes gets a ping, one on which something was sent since does not, and never two idle pings come within five minutes. One from which nothing was received for three hours is closed, also when data is still queued for it, and one heard from within three hours is not. The time reported for a peer is when it was last heard.",
 "histories", "every schedule of traffic, silence and loop turns on a virtual clock", NOT + "not tested.",
 "nbc/node/connection.py", [("readable", "nbc/node/connection.py")], (), ["pings and closes against a virtual clock"])
prop("N08", "The node believes the majority of its live peers about its own IP",
 "After each version message the node's guessed external address is one reported by the largest number of the currently connected peers that reported any; an address set by the operator always takes precedence. The address used in the version message sent to new peers is that one.",
 "histories", "every history of reports, reconnections and disagreement", NOT + "not tested.",
 "nbc/node/basenode.py", [("_check_external_ip", "nbc/node/basenode.py")], (), ["node.external_ip"])

prop("N09", "Upkeep brings a node the peers and addresses it lacks",
 "More than ten seconds after the last upkeep the next turn of the event loop does one, and none comes earlier. Each makes at most five connection attempts and no more than are missing to the wanted number of peers, only to remembered addresses it is not connected to, each once, or to the configured seeds (addresses or host names), each of which gets its turn, when those are enabled (always, when no address is remembered). An address that fails is forgotten, one that works is kept, so every reachable remembered address is connected before long while peers are wanted. With a peer and fewer than 50 remembered addresses one peer is asked for addresses, otherwise none.",
 "histories", "every address book, mix of reachable and failing addresses, wanted number and timing of upkeep", NOT + "not tested.",
 "nbc/node/basenode.py", [("heartbeat, add_any_peer, items", "nbc/node/basenode.py"), ("add_peer, disconnected", "nbc/node/basenode.py")], [("_addresses", "addresses remembered", "nbc/node/basenode.py")], ["connection attempts and address requests per upkeep"])

prop("N10", "A node serves until it is stopped, whatever the router does",
 "serve_forever, also when started in a thread by startServer, greets and answers every peer until StopNode is raised from the loop hook, which ends it quietly; any other exception from there ends it too and is passed on. In every case the listening socket is then closed. A missing UPnP library, a failing, denying or absent router and a standard output that can not be written change nothing of this. A node that listens asks the router for one TCP mapping of a free external port to its own port and takes that mapping back at the end; mappings of other hosts or programs are never overwritten or removed. A node that does not listen leaves the router alone. A node on a port in use is not made.",
 "histories fault_sequences", "every history of peers, router state, failing router call and way of stopping", NOT + "not tested.",
 "nbc/node/__init__.py nbc/node/basenode.py", [("serve_forever, startServer", "nbc/node/basenode.py"), ("add_portmap, remove_portmap", "nbc/node/__init__.py")], [("port mappings", "mappings held by the router for this node", "nbc/node/__init__.py")], ["answers to peers, router's mapping table, listening socket"])

prop("N11", "The log tells what happened and never interferes",
 "At the protocol and debug levels the log has exactly one entry for each message handled and each message sent, with its direction, peer and kind, in the order they were handled and sent; at higher levels it has none. A line whose level is below the log level is not written, any other is written once and as given; a node made without a log (None) writes them nowhere. A log that cannot be written, because it is full, closed, broken or lacks characters, changes nothing in what the node does for its peers, nor does a standard output that cannot be written.",
 "inputs histories fault_sequences", "every message history, log level, text and failing write", NOT + "not tested.",
 "nbc/node/connection.py nbc/node/basenode.py nbc/protocol/messages.py", [("_log_message", "nbc/node/connection.py"), ("log", "nbc/node/basenode.py"), ("_debug, __str__", "nbc/protocol/messages.py")], (), ["what is written to the log object"])

prop("N12", "Traffic costs a node work in proportion to its size",
 "The work a node does (bytes copied, steps executed) to receive and handle messages, whether one large or many small, well-formed or not, in packets of any size, and to queue, answer and send messages, however little the peer takes at a time or for however long it takes nothing, is bounded by a multiple of the bytes and packets concerned. It does not grow with the square of a message's size, of the number of messages, of what is waiting to be sent or of the addresses learned, so a peer can not stall a node by the way it sends or reads. When nothing is sent and nothing is left to be sent, the event loop sleeps, whatever a peer did before (urgent data, half a message, half-closing).",
 "inputs schedules", "every kind and number of messages, packet size, pace of reading by the peer", NOT + "not tested.",
 "nbc/node/connection.py nbc/node/basenode.py nbc/protocol/format.py", [("handle_read, handle_write, send_message", "nbc/node/connection.py"), ("parse_var_set", "nbc/protocol/format.py")], [("_send_buffer, _recv_buffer", "bytes waiting", "nbc/node/connection.py")], ["bytes allocated and steps executed for n and 4n bytes of traffic"])

# ---------------------------------------------------------------- utilities
prop("U01", "Target, difficulty, header and version helpers are exact",
 "The target of compact bits is mantissa times 256 to the exponent minus three as a 32-byte big-endian string for every non-negative compact value that fits, the difficulty is the ratio of the difficulty-one target to it, and proof-of-work is accepted exactly when the hash read as a little-endian number does not exceed the target. A block header packs to its standard 80 bytes; hex helpers reverse bytes and invert each other; version numbers pack and unpack losslessly and out-of-range parts are refused.",
 "inputs", "every compact value, header, byte string and version", NOT + "not tested.",
 "nbc/util/__init__.py", [("get_target, get_difficulty, verify_target, get_block_header, hex_to_bin, get_version", "nbc/util/__init__.py")], (), ["return values"])
prop("U02", "Block-height guessing returns each source's own answer in bounded time",
 "The result maps source names to what that source returned; a source that raises is absent and one that is late is absent without delaying the call past its timeout; answers that arrive later never appear in a result already returned. A JSON source yields the integer found by following its path through objects and lists, and no value when path or content does not fit.",
 "schedules inputs fault_sequences", "every set of sources, completion order and time, failure and document", NOT + "not tested.",
 "nbc/util/__init__.py", [("guess_block_height, fetch_url_json_path_int, fetch_url_int", "nbc/util/__init__.py")], (), ["returned mapping"])
prop("U03", "The DNS seeder hands out every found address exactly once",
 "Under any interleaving of seed lookups and concurrent takers, the addresses handed out together with those still held are exactly the ones the lookups found (one for each answer), none lost, duplicated or invented, and the reported length is the number held at some moment during the call. A failing lookup loses nothing found by others; taking from an empty seeder is an error.",
 "schedules", "every interleaving of lookup and taker threads and lookup failures", NOT + "not tested.",
 "nbc/util/bootstrap.py", [("DNSSeeder", "nbc/util/bootstrap.py")], [("_found", "addresses found and not yet taken", "nbc/util/bootstrap.py")], ["pop results, len"])

prop("U04", "Hashes, lookups and coin constants are what they are named for",
 "sha1, sha256, sha256d, ripemd160 and hash160 give the standard digests of every byte string; numbers are shown with a comma every three digits and nothing lost. A coin is found by its name or any of its symbols in any case and by nothing else. The block header made of a coin's genesis constants has the coin's genesis hash and meets its own target, its alert key is a point of the curve. The data directory lies in the user's home.",
 "inputs", "every byte string, integer, name and home directory", NOT + "not tested.",
 "nbc/util/hash.py nbc/util/__init__.py nbc/coins", [("sha256d, hash160, ripemd160", "nbc/util/hash.py"), ("commify, default_data_directory", "nbc/util/__init__.py"), ("get_coin", "nbc/coins/__init__.py"), ("Newbitcoin", "nbc/coins/newbitcoin.py")], (), ["return values"])

prop("C01", "Everything holds in an optimised interpreter (python -O) too",
 "Nothing that is refused in the normal mode of Python - a malformed, damaged or off-curve key, a wrong checksum, a damaged wallet file, a wrong passphrase, a number out of range, a malformed signature, message or field - is accepted when the interpreter runs optimised (python -O, PYTHONOPTIMIZE), and what is done there (keys, addresses, messages, replies, bookkeeping of peers) is the same.",
 "inputs histories", "every input and history of the other properties, in an interpreter started with -O",
 "tests run in the normal mode, where assert statements are executed; a check made of asserts, or work done inside one, vanishes in the optimised mode.",
 "nbc/wallet/hdwallet.py nbc/wallet/address.py nbc/util/ecdsa/keys.py nbc/util/ecdsa/ellipticcurve.py nbc/util/ecdsa/util.py nbc/util/ecdsa/der.py nbc/util/ecdsa/numbertheory.py nbc/util/key.py nbc/util/base58.py nbc/util/ecc.py nbc/protocol/format.py nbc/node/basenode.py",
 [("HDWallet.from_extended_key, HDWallet.__init__", "nbc/wallet/hdwallet.py"), ("Point.__init__", "nbc/util/ecdsa/ellipticcurve.py"), ("VerifyingKey.from_string, SigningKey.from_string", "nbc/util/ecdsa/keys.py")], (), ["exception or result of the call under python -O"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
