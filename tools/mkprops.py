#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
P = []
B = "bip38/bip38.py"
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Non-EC encryption round-trips for every key, passphrase and network",
 "For every supported cryptocurrency and network, every private key from 1 to the secp256k1 group order minus 1, both WIF types and every Unicode passphrase, encrypting the WIF and decrypting the result with the same passphrase and network returns exactly the original WIF. In detailed form the decryption also reports that private key, WIF type, public key and address, with no seed, lot or sequence. Encryption of a valid WIF never fails.",
 ["inputs", "configurations"], "all 2^256-ish keys x 2 WIF types x all passphrases x all (WIF prefix, address prefix) pairs",
 "The tests hold 4 encrypt and 12 decrypt vectors from two keys; a rare byte pattern (for instance an XOR or a key that starts with a zero byte) never occurs in them.",
 [B, "bip38/wif.py", "bip38/p2pkh_address.py", "bip38/libs/base58.py", "bip38/utils.py", "bip38/crypto.py", "bip38/secp256k1/private_key.py"],
 [("encrypt: XOR + AES halves", B + " BIP38.encrypt"), ("decrypt, prefix 0x0142 branch", B + " BIP38.decrypt"), ("WIF codec", "bip38/wif.py")],
 ["BIP38.encrypt", "BIP38.decrypt"])

prop("C02", "Non-EC encryption is bit-exact BIP-38",
 "For every accepted WIF, passphrase and network, encryption returns the string the BIP-38 standard prescribes: Base58Check of 0x0142, the flag byte (0xc0 uncompressed, 0xe0 compressed), the first four bytes of the double SHA-256 of the key's address, and the two AES-256 blocks keyed by scrypt(NFC passphrase, address hash, 16384, 8, 8, 64). A WIF that is not valid for the chosen network is rejected, never encrypted.",
 ["inputs", "configurations"], "all WIF strings, passphrases, cryptocurrencies and networks",
 "Round-trip tests pass for any pair of mutually inverse transformations; interoperability needs the exact bytes for every input, and only a handful of published vectors are compared.",
 [B, "bip38/wif.py", "bip38/p2pkh_address.py", "bip38/crypto.py", "bip38/const.py", "bip38/libs/base58.py"],
 [("flag, address hash, key derivation, block layout", B + " BIP38.encrypt"), ("format constants", "bip38/const.py")],
 ["BIP38.encrypt"])

prop("C03", "Intermediate codes are bit-exact and honour lot and sequence",
 "For every passphrase, owner salt, lot in 100000..999999 and sequence in 0..4095 (both bounds included), the intermediate code is the BIP-38 one: Base58Check of the magic bytes, the owner entropy and the compressed pass point; a lot and sequence that were given are always encoded, never silently dropped. An out-of-range lot or sequence, only one of the two, or a salt of the wrong length is rejected with a library error.",
 ["inputs"], "all passphrases x all 4- and 8-byte salts x all integer or absent lot / sequence values, including 0",
 "Three vectors, with sequence 1 and lot 100000 only; the boundary values 0, 4095, 999999 and the half-given combinations are not tried.",
 [B, "bip38/crypto.py", "bip38/utils.py", "bip38/const.py"],
 [("lot/sequence validation and owner entropy", B + " BIP38.intermediate_code")],
 ["BIP38.intermediate_code"])

prop("C04", "EC-multiplied key creation is bit-exact BIP-38",
 "For every valid intermediate code, WIF type, 24-byte seed and network, creating an encrypted WIF returns the encrypted WIF and confirmation code prescribed by BIP-38 together with the matching public key, its type, the address and the seed. A malformed intermediate code, an unknown WIF type or a seed that is not 24 bytes is rejected with a library error, so a key that could never be decrypted is never handed out.",
 ["inputs", "configurations"], "all intermediate codes x seeds x WIF types x networks",
 "Two vectors; every XOR half, point prefix parity and leading-zero pattern needs its own input to show up.",
 [B, "bip38/p2pkh_address.py", "bip38/crypto.py", "bip38/const.py", "bip38/secp256k1/public_key.py", "bip38/secp256k1/point.py"],
 [("seed encryption, confirmation code", B + " BIP38.create_new_encrypted_wif")],
 ["BIP38.create_new_encrypted_wif"])

prop("C05", "EC-multiplied keys decrypt to the advertised address, seed, lot, sequence",
 "For every passphrase, owner salt, optional lot and sequence, seed, WIF type and network, decrypting the encrypted WIF made from the owner's intermediate code with the same passphrase succeeds and yields the private key of exactly the public key and address announced at creation. The detailed result reports the same seed, WIF type, lot and sequence that went in.",
 ["inputs", "configurations"], "all passphrases x salts x (lot, sequence) or none x seeds x WIF types x networks",
 "The tests decrypt a few fixed strings; they never run the creation and decryption sides against each other on arbitrary seeds and salts.",
 [B, "bip38/utils.py", "bip38/wif.py", "bip38/crypto.py", "bip38/libs/base58.py"],
 [("decrypt, prefix 0x0143 branch", B + " BIP38.decrypt"), ("creation", B + " BIP38.create_new_encrypted_wif")],
 ["BIP38.intermediate_code", "BIP38.create_new_encrypted_wif", "BIP38.decrypt"])

prop("C06", "A confirmation code confirms exactly the key that was created",
 "For every passphrase, owner salt, optional lot and sequence, seed, WIF type and network, checking the confirmation code issued at creation with the owner's passphrase succeeds and returns the same address; the detailed form also returns the public key, its type, the lot and the sequence. With any passphrase, an accepted confirmation code returns only an address whose hash is the one carried by the code, and otherwise the incorrect passphrase error is raised.",
 ["inputs", "configurations"], "all passphrases x salts x (lot, sequence) or none x seeds x WIF types x networks",
 "Two vectors are confirmed; a false rejection on about one code in a hundred would pass them.",
 [B, "bip38/secp256k1/public_key.py", "bip38/utils.py", "bip38/p2pkh_address.py"],
 [("point B decryption and address comparison", B + " BIP38.confirm_code")],
 ["BIP38.create_new_encrypted_wif", "BIP38.confirm_code"])

prop("C07", "Decryption never returns a key that does not match the encrypted string",
 "Whatever encrypted string and passphrase are given, whenever decryption returns, the address of the returned private key on the selected network hashes to the address hash embedded in the encrypted string. A wrong passphrase never yields a WIF: it is reported as an incorrect-passphrase error (or, if the derived scalar is out of range, another library error).",
 ["inputs"], "all well-formed encrypted strings x all passphrases x all networks",
 "No test decrypts with a wrong passphrase or on a wrong network at all.",
 [B, "bip38/p2pkh_address.py", "bip38/crypto.py"],
 [("address hash comparison before returning", B + " BIP38.decrypt")],
 ["BIP38.decrypt"])

prop("C08", "Mistyped or corrupted strings are rejected everywhere",
 "Every operation that consumes a Base58Check string (a WIF being encrypted or decoded, an encrypted WIF, an intermediate code, a confirmation code, an address) rejects it with an error unless it consists only of Base58 characters and its four checksum bytes match its payload. No such string is silently treated as some other payload.",
 ["inputs"], "all strings, at every consuming operation",
 "The tests feed one obviously fake intermediate code and confirmation code and never a corrupted WIF, encrypted WIF or address.",
 [B, "bip38/wif.py", "bip38/libs/base58.py", "bip38/p2pkh_address.py"],
 [("checksum verification", "bip38/libs/base58.py check_decode"), ("WIF decoding", "bip38/wif.py decode_wif"), ("encrypted WIF decoding", B + " BIP38.decrypt")],
 ["BIP38.encrypt", "BIP38.decrypt", "BIP38.create_new_encrypted_wif", "BIP38.confirm_code", "decode_wif", "P2PKHAddress.decode"])

prop("C09", "Passphrases act through the UTF-8 of their NFC form only",
 "In every operation that takes a passphrase, the key material is derived from the complete UTF-8 encoding of the passphrase's Unicode NFC normalisation: two passphrases with the same NFC form are interchangeable in all operations. Nothing else (case, whitespace, compatibility characters, embedded NULs, length) is altered or cut off.",
 ["inputs"], "all pairs of Unicode passphrases, in all four passphrase operations",
 "One non-ASCII vector is decrypted; equivalence of composed and decomposed forms, compatibility characters and long or NUL-bearing passphrases are not compared.",
 [B], [("unicodedata.normalize before each key derivation", B + " (intermediate_code, encrypt, confirm_code, decrypt)")],
 ["BIP38.intermediate_code", "BIP38.encrypt", "BIP38.confirm_code", "BIP38.decrypt"])

prop("C10", "Base58 and Base58Check are lossless and strict",
 "For every byte string of every length, Base58 encoding yields its standard representation (one leading first-alphabet character per leading zero byte) and decoding returns the original bytes; the same holds with the four-byte double SHA-256 checksum added and verified. Decoding a string that contains a character outside the alphabet, or, with checksum, whose checksum does not match, raises an error.",
 ["inputs"], "all byte strings of any length, all strings, both alphabets in use",
 "Only fixed-length payloads from the vectors pass through it; lengths, leading zeros and foreign characters are unbounded.",
 ["bip38/libs/base58.py"],
 [("encode / decode", "bip38/libs/base58.py"), ("check_encode / check_decode", "bip38/libs/base58.py")],
 ["base58.encode", "base58.decode", "base58.check_encode", "base58.check_decode"])

prop("C11", "WIF encoding and decoding are inverse and bound to their prefix",
 "For every 32-byte private key and every cryptocurrency and network, converting to either WIF type and back returns the same key, the WIF type and the checksum carried by the string. A string whose prefix, length, compression marker or checksum is not that of the requested network's WIF format is rejected with an error, and an unknown WIF type or a key of another length is never encoded.",
 ["inputs", "configurations"], "all keys (leading zeros included) x WIF types x WIF prefixes; all strings",
 "One key is converted; leading-zero keys, foreign prefixes and malformed WIFs are not tried.",
 ["bip38/wif.py", "bip38/libs/base58.py", "bip38/utils.py"],
 [("encode_wif / decode_wif", "bip38/wif.py"), ("private_key_to_wif, wif_to_private_key, get_wif_type, get_wif_checksum", "bip38/wif.py")],
 ["private_key_to_wif", "wif_to_private_key", "get_wif_type", "get_wif_checksum", "encode_wif", "decode_wif"])

prop("C12", "P2PKH addresses encode and decode HASH160 of the chosen key form",
 "For every secp256k1 public key, address prefix and key form, the address is Base58Check of the prefix bytes followed by RIPEMD-160(SHA-256(serialised key)), whichever accepted form the key is supplied in. Decoding an address with the right prefix returns exactly that 20-byte hash, and an address with another prefix or another length is rejected.",
 ["inputs", "configurations"], "all public keys x address prefixes of one or two bytes x key forms; all strings for decoding",
 "Two addresses with prefix 0 are encoded and decoded; the keyword the test passes is not even the one the code reads, so other prefixes go untested.",
 ["bip38/p2pkh_address.py", "bip38/crypto.py", "bip38/libs/base58.py", "bip38/secp256k1/public_key.py"],
 [("P2PKHAddress.encode / decode", "bip38/p2pkh_address.py")],
 ["P2PKHAddress.encode", "P2PKHAddress.decode"])

prop("C13", "Hashes are exact for every message",
 "For every message of every length the library's RIPEMD-160 (also when the bundled pure-Python implementation has to be used because the platform lacks one), SHA-256, double SHA-256, HASH160 and four-byte checksum return the standard digests. Hexadecimal strings hash as the bytes they denote.",
 ["inputs", "configurations"], "all byte strings of any length; platform with and without RIPEMD-160",
 "Nine published RIPEMD-160 vectors and one eight-byte message; padding boundaries and block counts are unbounded, and the fallback selection is never exercised.",
 ["bip38/crypto.py", "bip38/libs/ripemd160.py"],
 [("ripemd160, compress, fi, rol", "bip38/libs/ripemd160.py"), ("hash wrappers", "bip38/crypto.py")],
 ["crypto.ripemd160", "crypto.sha256", "crypto.double_sha256", "crypto.hash160", "crypto.get_checksum"])

prop("C14", "Key objects accept exactly the valid keys and serialise them losslessly",
 "A private key object exists only for 32-byte scalars from 1 to the group order minus 1 and returns the same bytes; its public key is that multiple of the generator. Every valid public key or curve point is preserved by serialising (compressed or uncompressed) and parsing, point multiplication and addition follow the group law, and malformed private or public keys raise the library's secp256k1 error.",
 ["inputs"], "all byte strings offered as keys, all points, all scalars",
 "One key pair is parsed and serialised; range limits, other lengths and invalid encodings are not tried.",
 ["bip38/secp256k1/private_key.py", "bip38/secp256k1/public_key.py", "bip38/secp256k1/point.py"],
 [("PrivateKey", "bip38/secp256k1/private_key.py"), ("PublicKey", "bip38/secp256k1/public_key.py"), ("Point", "bip38/secp256k1/point.py")],
 ["PrivateKey", "PublicKey", "Point"])

prop("C15", "Integer, byte and hex conversions are lossless",
 "For every non-negative integer, conversion to bytes (minimal or of a requested sufficient length, either byte order) and back returns the integer, a requested length is always the length produced, and a length too short is an error, never a truncation. For every byte string, conversion to hexadecimal and back and double reversal return the original.",
 ["inputs"], "all integers, byte strings, lengths and byte orders",
 "The tests only check result types on random eight-byte values.",
 ["bip38/utils.py"],
 [("integer_to_bytes, bytes_to_integer, bytes_to_string, get_bytes, bytes_reverse", "bip38/utils.py")],
 ["integer_to_bytes", "bytes_to_integer", "bytes_to_string", "get_bytes", "bytes_reverse"])

prop("C16", "Operations are pure and bound to the selected network",
 "Every operation uses the network named in the call, or else the one the object was created with, for both the WIF and the address, and an unknown network is refused with the network error both at construction and in every call. Apart from drawing randomness no operation changes or depends on state: the object, the currency tables and the arguments are never modified, and a call's result does not depend on which calls came before it.",
 ["inputs", "configurations", "histories"], "all call sequences over one or more objects, all networks, known or not",
 "Each test makes an isolated call; a per-call override that leaks, or a memo keyed too coarsely, needs a specific sequence of calls.",
 [B, "bip38/wif.py", "bip38/p2pkh_address.py", "bip38/cryptocurrencies.py"],
 [("network resolution in each operation", B), ("constructor", B + " BIP38.__init__")],
 ["BIP38.__init__", "BIP38.encrypt", "BIP38.decrypt", "BIP38.create_new_encrypted_wif", "BIP38.confirm_code"],
 [dict(name="BIP38.network / networks / cryptocurrency", meaning="defaults fixed at construction", where=B)])

prop("C17", "Every listed cryptocurrency and network is usable and as documented",
 "Each supported cryptocurrency declares, for each of its networks, a one- or two-byte WIF prefix and address prefix equal to those published in the project's documentation table, and none is missing or added silently. Every declared alphabet is a permutation of the 58 Base58 characters.",
 ["configurations"], "all 155 currencies and their networks",
 "The tests use Bitcoin only.",
 ["bip38/cryptocurrencies.py", "docs/cryptocurrencies.rst"],
 [("NETWORKS tables", "bip38/cryptocurrencies.py")],
 ["bip38.cryptocurrencies"])

prop("C18", "Omitted salts and seeds are fresh system randomness, used in full",
 "When no owner salt is given, an intermediate code uses eight bytes newly drawn from the operating system's random source as its salt (four of them plus lot and sequence when those are given); when no seed is given, key creation uses 24 newly drawn bytes, and reports them as the seed. A salt or seed that is given is used exactly as given and no randomness is drawn in its place.",
 ["inputs", "histories"], "all calls with and without an explicit salt or seed",
 "Randomised results cannot be compared with vectors, so the tests always pass explicit salts and seeds.",
 [B], [("os.urandom defaults", B + " BIP38.intermediate_code, BIP38.create_new_encrypted_wif")],
 ["BIP38.intermediate_code", "BIP38.create_new_encrypted_wif"])

prop("C19", "Bad input fails with a documented error, never an internal one",
 "For any text given as WIF, encrypted WIF, intermediate code, confirmation code, network, WIF type or passphrase, and any integer lot and sequence, each operation either returns a result or raises one of the library's own errors or a ValueError. No other kind of exception escapes, and unknown networks and wrong passphrases are always distinguishable by their error types.",
 ["inputs"], "all strings and integers, all operations",
 "A handful of fake strings are tried; the exceptions reachable from arbitrary decoded payloads are not.",
 [B, "bip38/wif.py", "bip38/libs/base58.py", "bip38/secp256k1/private_key.py", "bip38/secp256k1/public_key.py", "bip38/exceptions.py"],
 [("error translation", B), ("exception classes", "bip38/exceptions.py")],
 ["BIP38.*", "wif.*"])

prop("C20", "Detailed results are self-consistent and agree with plain results",
 "The plain result of decrypting or confirming equals the WIF or address of the detailed result for the same arguments, and both forms accept and reject the same inputs. In every detailed result the WIF, private key, WIF type, public key, public key type and address all describe one and the same key on the selected network, and lot and sequence are those embedded in the string, or absent when none are.",
 ["inputs"], "all encrypted strings and confirmation codes that are accepted, all passphrases, all networks",
 "Only fields of twelve fixed strings are compared, one lot and one sequence among them.",
 [B, "bip38/wif.py", "bip38/p2pkh_address.py"],
 [("detail dictionaries", B + " BIP38.decrypt, BIP38.confirm_code")],
 ["BIP38.decrypt", "BIP38.confirm_code"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
