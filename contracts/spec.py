"""Functional specifications, written from BIP-38, Base58Check, the WIF and P2PKH conventions and SEC 1.

Restricted Python over the primitives of module `prim`; nothing here comes from the package under verification.
The same text is executed symbolically (to generate and discharge obligations) and natively (as the oracle when a
theorem is replayed on the real code).
"""
from prim import (
    reject, undefined, sha256, ripemd160, scrypt, aes_enc, aes_dec, xor, i2osp, fits, minbytes, os2ip,
    pt, pt_parse, pt_mul, pt_add, pt_ser, pt_inf, pt_x, pt_y, pt_from_xy, mulmodn, nfc, utf8, encodable, ishex, unhex,
    hexstr, b58enc, is58, b58dec, known, wif_prefix, address_prefix, is_text, is_bytes, is_point, random, breverse,
    rmd_rol, rmd_f, rmd_compress, N, ALPHABET
)

LIB = ("Error", "ValueError")        # "a library error": the package's own errors, or ValueError

MAGIC_LOT = bytes.fromhex("2ce9b3e1ff39e251")
MAGIC_NOLOT = bytes.fromhex("2ce9b3e1ff39e253")
CFRM = bytes.fromhex("643bf6a89a")
FLAG_COMPRESSED = 0x20
FLAG_LOT = 0x04


# ---------------------------------------------------------------- bytes and integers
def get_bytes(data, unhexlify=True):
    if data is None:
        return b""
    if is_bytes(data):
        return data
    if len(data) == 0:
        return b""
    if unhexlify:
        if not ishex(data):
            reject("ValueError")
        return unhex(data)
    if not encodable(data):
        reject("ValueError")
    return utf8(data)


def bytes_to_string(data):
    """Hexadecimal text of bytes; text that is hexadecimal already is kept, other text counts as its UTF-8 bytes."""
    if len(data) == 0:
        return ""
    if is_text(data):
        if ishex(data):
            return data
        if not encodable(data):
            reject("ValueError")
        return hexstr(utf8(data))
    return hexstr(data)


def bytes_reverse(data):
    return breverse(data)


def bytes_to_integer(data, endianness="big"):
    if endianness == "little":
        return os2ip(breverse(data))
    return os2ip(data)


def integer_to_bytes(data, bytes_num=None, endianness="big"):
    if bytes_num is None:
        out = minbytes(data)
    else:
        out = i2osp_checked(data, bytes_num)
    if endianness == "little":
        return breverse(out)
    return out


def i2osp_checked(x, n):
    if not fits(x, n):
        reject("OverflowError", "ValueError", "Error")
    return i2osp(x, n)


# ---------------------------------------------------------------- hashes
def h_sha256(data):
    return sha256(get_bytes(data))


def h_double_sha256(data):
    return sha256(sha256(get_bytes(data)))


def h_ripemd160(data):
    return ripemd160(get_bytes(data))


def word_rol(x, i):
    return rmd_rol(x, i)


def word_f(x, y, z, i):
    return rmd_f(x, y, z, i)


def word_compress(h0, h1, h2, h3, h4, block):
    return rmd_compress(h0, h1, h2, h3, h4, block)


def h_hash160(data):
    return ripemd160(sha256(get_bytes(data)))


def h_checksum(data):
    return sha256(sha256(get_bytes(data)))[:4]


def dsha(b):
    return sha256(sha256(b))


# ---------------------------------------------------------------- Base58 and Base58Check
def b58_encode(data, alphabet=ALPHABET):
    return b58enc(data, alphabet)


def b58_decode(data, alphabet=ALPHABET):
    if not is58(data, alphabet):
        reject("ValueError")
    return b58dec(data, alphabet)


def b58_check_encode(raw, alphabet=ALPHABET):
    return b58enc(raw + dsha(raw)[:4], alphabet)


def b58_check_decode(enc, alphabet=ALPHABET):
    if not is58(enc, alphabet):
        reject("ValueError")
    d = b58dec(enc, alphabet)
    if len(d) < 4:
        reject("ValueError")
    if dsha(d[:-4])[:4] != d[-4:]:
        reject("ValueError")
    return d[:-4]


def ensure_string(data):
    return data


# ---------------------------------------------------------------- WIF
def wif_encode(private_key, prefix):
    """(uncompressed, compressed) WIF of a 32-byte key."""
    key = get_bytes(private_key)
    if len(key) != 32:
        reject("Error")
    p = minbytes(prefix)
    return (b58_check_encode(p + key), b58_check_encode(p + key + b"\x01"))


def wif_decode(wif, prefix):
    """(private key, type, checksum)"""
    if not is58(wif, ALPHABET):
        reject("ValueError", "WIFError")
    raw = b58dec(wif, ALPHABET)
    p = minbytes(prefix)
    k = len(p)
    if len(raw) == k + 36:
        kind = "wif"
    elif len(raw) == k + 37:
        kind = "wif-compressed"
    else:
        reject("WIFError", "ValueError")
    if raw[:k] != p:
        reject("WIFError", "ValueError")
    if kind == "wif-compressed":
        if raw[k + 32:k + 33] != b"\x01":
            reject("WIFError", "ValueError")
    if dsha(raw[:-4])[:4] != raw[-4:]:
        reject("WIFError", "ValueError")
    return (raw[k:k + 32], kind, raw[-4:])


def prefix_of(coin, network):
    if not known(coin, network):
        reject("NetworkError")
    return wif_prefix(coin, network)


def private_key_to_wif(private_key, wif_type, coin, network):
    if wif_type != "wif" and wif_type != "wif-compressed":
        reject("Error")
    w = wif_encode(private_key, prefix_of(coin, network))
    if wif_type == "wif":
        return w[0]
    return w[1]


def wif_to_private_key(wif, coin, network):
    return hexstr(wif_decode(wif, prefix_of(coin, network))[0])


def get_wif_type(wif, coin, network):
    return wif_decode(wif, prefix_of(coin, network))[1]


def get_wif_checksum(wif, coin, network):
    return hexstr(wif_decode(wif, prefix_of(coin, network))[2])


# ---------------------------------------------------------------- P2PKH
def p2pkh(point, prefix, compressed, alphabet=ALPHABET):
    return b58_check_encode(minbytes(prefix) + ripemd160(sha256(pt_ser(point, compressed))), alphabet)


def p2pkh_decode(address, prefix, alphabet=ALPHABET):
    if not is58(address, alphabet):
        reject("ValueError", "Error")
    d = b58dec(address, alphabet)
    p = minbytes(prefix)
    if len(d) != len(p) + 24:
        reject("Error", "ValueError")
    if dsha(d[:-4])[:4] != d[-4:]:
        reject("ValueError", "Error")
    if d[:len(p)] != p:
        reject("Error", "ValueError")
    return hexstr(d[len(p):-4])


def address_encode(public_key, address_prefix, public_key_type, alphabet):
    """P2PKHAddress.encode; an option that is None is not given: compressed key, Bitcoin's prefix and alphabet."""
    if address_prefix is None:
        address_prefix = 0
    if alphabet is None:
        alphabet = ALPHABET
    if is_point(public_key):
        p = public_key
    else:
        p = pt_parse(get_bytes(public_key))
        if p is None:
            reject("Secp256k1Error")
    return p2pkh(p, address_prefix, public_key_type is None or public_key_type == "compressed", alphabet)


def address_decode(address, address_prefix, alphabet):
    if address_prefix is None:
        address_prefix = 0
    if alphabet is None:
        alphabet = ALPHABET
    return p2pkh_decode(address, address_prefix, alphabet)


# ---------------------------------------------------------------- secp256k1 (keys and points seen as scalar and point)
def private_key(data):
    if len(data) != 32:
        reject("Secp256k1Error")
    k = os2ip(data)
    if k == 0 or k >= N:
        reject("Secp256k1Error")
    return k


def private_key_length():
    return 32


def private_key_raw(k):
    return i2osp(k, 32)


def private_key_public(k):
    return pt(k)


def public_key(data):
    p = pt_parse(data)
    if p is None:
        reject("Secp256k1Error")
    return p


def identity(p):
    return p


def compressed_length():
    return 33


def uncompressed_length():
    return 65


def public_key_raw(p, public_key_type):
    return pt_ser(p, public_key_type == "compressed")


def compressed(p):
    return pt_ser(p, True)


def uncompressed(p):
    return pt_ser(p, False)


def coordinates(p):
    return pt_ser(p, False)[1:]


def point(data):
    """An encoding of no point of the curve: nothing is specified."""
    p = pt_parse(data)
    if p is None:
        undefined()
    return p


def point_from_coordinates(x, y):
    p = pt_from_xy(x, y)
    if p is None:
        undefined()
    return p


def point_x(p):
    return pt_x(p)


def point_y(p):
    return pt_y(p)


def point_add(p, q):
    return pt_add(p, q)


def point_mul(p, n):
    return pt_mul(p, n)


def address_hash(address):
    return dsha(utf8(address))[:4]


# ---------------------------------------------------------------- BIP-38
def the_network(coin, default, network):
    n = default
    if network is not None:
        n = network
    if not known(coin, n):
        reject("NetworkError")
    return n


def pw(passphrase):
    if not encodable(passphrase):
        reject("ValueError")
    return utf8(nfc(passphrase))


def encrypt(coin, default, wif, passphrase, network):
    n = the_network(coin, default, network)
    w = wif_decode(wif, wif_prefix(coin, n))
    key = w[0]
    k = os2ip(key)
    if k == 0 or k >= N:
        reject("Error", "ValueError")
    compressed = w[1] == "wif-compressed"
    addr = p2pkh(pt(k), address_prefix(coin, n), compressed)
    ah = address_hash(addr)
    dk = scrypt(pw(passphrase), ah, 16384, 8, 8, 64)
    h1 = aes_enc(dk[32:], xor(key[:16], dk[:16]))
    h2 = aes_enc(dk[32:], xor(key[16:], dk[16:32]))
    flag = b"\xc0"
    if compressed:
        flag = b"\xe0"
    return b58_check_encode(b"\x01\x42" + flag + ah + h1 + h2)


def intermediate(passphrase, lot, sequence, owner_salt):
    """owner_salt None: eight bytes of randomness."""
    if owner_salt is None:
        salt = random(8)
    else:
        salt = get_bytes(owner_salt)
    if len(salt) != 4 and len(salt) != 8:
        reject("Error")
    if (lot is None) != (sequence is None):
        reject("Error")
    if lot is None:
        if len(salt) != 8:
            reject("Error")
        entropy = salt
        factor = scrypt(pw(passphrase), salt, 16384, 8, 8, 32)
        magic = MAGIC_NOLOT
    else:
        if lot < 100000 or lot > 999999:
            reject("Error")
        if sequence < 0 or sequence > 4095:
            reject("Error")
        entropy = salt[:4] + i2osp(lot * 4096 + sequence, 4)
        factor = dsha(scrypt(pw(passphrase), salt[:4], 16384, 8, 8, 32) + entropy)
        magic = MAGIC_LOT
    k = os2ip(factor)
    if k == 0 or k >= N:
        reject("Error")
    return b58_check_encode(magic + entropy + pt_ser(pt(k), True))


def create(coin, default, code, wif_type, seed, network):
    """seed None: 24 bytes of randomness."""
    n = the_network(coin, default, network)
    if seed is None:
        s = random(24)
    else:
        s = get_bytes(seed)
    if len(s) != 24:
        reject("Error")
    if not is58(code, ALPHABET):
        reject("PassphraseError")
    raw = b58dec(code, ALPHABET)
    if len(raw) != 53:
        reject("PassphraseError")
    if dsha(raw[:-4])[:4] != raw[-4:]:
        reject("PassphraseError")
    if wif_type != "wif" and wif_type != "wif-compressed":
        reject("Error")
    compressed = wif_type == "wif-compressed"
    magic = raw[:8]
    if magic != MAGIC_LOT and magic != MAGIC_NOLOT:
        reject("Error")
    flag = 0
    if compressed:
        flag = flag + FLAG_COMPRESSED
    if magic == MAGIC_LOT:
        flag = flag + FLAG_LOT
    entropy = raw[8:16]
    factor = dsha(s)
    f = os2ip(factor)
    if f == 0 or f >= N:
        reject("Error")
    passpoint = raw[16:49]
    pp = pt_parse(passpoint)
    if pp is None:
        reject("Error")
    gen = pt_mul(pp, f)
    addr = p2pkh(gen, address_prefix(coin, n), compressed)
    ah = address_hash(addr)
    dk = scrypt(passpoint, ah + entropy, 1024, 1, 1, 64)
    e1 = aes_enc(dk[32:], xor(s[:16], dk[:16]))
    e2 = aes_enc(dk[32:], xor(e1[8:] + s[16:], dk[16:32]))
    fb = bytes([flag])
    enc = b58_check_encode(b"\x01\x43" + fb + ah + entropy + e1[:8] + e2)
    pb = pt_ser(pt(f), True)
    px = bytes([pb[0] ^ (dk[63] & 1)])
    c1 = aes_enc(dk[32:], xor(pb[1:17], dk[:16]))
    c2 = aes_enc(dk[32:], xor(pb[17:], dk[16:32]))
    conf = b58_check_encode(CFRM + fb + ah + entropy + px + c1 + c2)
    kind = "uncompressed"
    if compressed:
        kind = "compressed"
    return dict(
        encrypted_wif=enc, confirmation_code=conf, public_key=hexstr(pt_ser(gen, compressed)), seed=hexstr(s),
        public_key_type=kind, address=addr
    )


def pass_factor(passphrase, entropy, lot):
    if lot:
        return dsha(scrypt(pw(passphrase), entropy[:4], 16384, 8, 8, 32) + entropy)
    return scrypt(pw(passphrase), entropy, 16384, 8, 8, 32)


def lot_of(entropy):
    return os2ip(entropy[4:]) // 4096


def sequence_of(entropy):
    return os2ip(entropy[4:]) % 4096


def flag_ok(flag):
    """The flag bytes BIP-38 defines for EC-multiplied keys."""
    return flag == 0x00 or flag == 0x04 or flag == 0x20 or flag == 0x24


def confirm(coin, default, passphrase, code, network, detail):
    n = the_network(coin, default, network)
    if not is58(code, ALPHABET):
        reject("Error", "ValueError")
    raw = b58dec(code, ALPHABET)
    if len(raw) != 55:
        reject("Error", "ValueError")
    if dsha(raw[:-4])[:4] != raw[-4:]:
        reject("Error", "ValueError")
    if raw[:5] != CFRM:
        reject("Error", "ValueError")
    flag = raw[5]
    if not flag_ok(flag):
        undefined()
    ah = raw[6:10]
    entropy = raw[10:18]
    lot = flag & FLAG_LOT != 0
    compressed = flag & FLAG_COMPRESSED != 0
    factor = pass_factor(passphrase, entropy, lot)
    k = os2ip(factor)
    if k == 0 or k >= N:
        reject("Error")
    dk = scrypt(pt_ser(pt(k), True), ah + entropy, 1024, 1, 1, 64)
    pb = bytes([raw[18] ^ (dk[63] & 1)]) + xor(aes_dec(dk[32:], raw[19:35]), dk[:16]) \
        + xor(aes_dec(dk[32:], raw[35:51]), dk[16:32])
    b = pt_parse(pb)
    if b is None:
        reject("PassphraseError")
    gen = pt_mul(b, k)
    addr = p2pkh(gen, address_prefix(coin, n), compressed)
    if address_hash(addr) != ah:
        reject("PassphraseError")
    if not detail:
        return addr
    kind = "uncompressed"
    if compressed:
        kind = "compressed"
    res = dict(public_key=hexstr(pt_ser(gen, compressed)), public_key_type=kind, address=addr, lot=None, sequence=None)
    if lot:
        res["lot"] = lot_of(entropy)
        res["sequence"] = sequence_of(entropy)
    return res


def decrypt(coin, default, enc, passphrase, network, detail):
    n = the_network(coin, default, network)
    if not is58(enc, ALPHABET):
        reject("Error", "ValueError")
    raw = b58dec(enc, ALPHABET)
    if len(raw) != 43:
        reject("Error", "ValueError")
    if dsha(raw[:-4])[:4] != raw[-4:]:
        reject("Error", "ValueError")
    ah = raw[3:7]
    seed = None
    lot = None
    sequence = None
    if raw[:2] == b"\x01\x42":
        if raw[2] == 0xc0:
            compressed = False
        elif raw[2] == 0xe0:
            compressed = True
        else:
            reject("Error", "ValueError")
        dk = scrypt(pw(passphrase), ah, 16384, 8, 8, 64)
        key = xor(aes_dec(dk[32:], raw[7:23]) + aes_dec(dk[32:], raw[23:39]), dk[:32])
        k = os2ip(key)
        if k == 0 or k >= N:
            reject("Error")
    elif raw[:2] == b"\x01\x43":
        flag = raw[2]
        if not flag_ok(flag):
            undefined()
        compressed = flag & FLAG_COMPRESSED != 0
        entropy = raw[7:15]
        has_lot = flag & FLAG_LOT != 0
        factor = pass_factor(passphrase, entropy, has_lot)
        a = os2ip(factor)
        if a == 0 or a >= N:
            reject("Error")
        dk = scrypt(pt_ser(pt(a), True), ah + entropy, 1024, 1, 1, 64)
        d2 = xor(aes_dec(dk[32:], raw[23:39]), dk[16:32])
        d1 = xor(aes_dec(dk[32:], raw[15:23] + d2[:8]), dk[:16])
        s = d1 + d2[8:]
        f = os2ip(dsha(s))
        if f == 0 or f >= N:
            reject("Error")
        k = mulmodn(a, f)
        key = i2osp(k, 32)
        seed = hexstr(s)
        if has_lot:
            lot = lot_of(entropy)
            sequence = sequence_of(entropy)
    else:
        reject("Error", "ValueError")
    q = pt(k)
    addr = p2pkh(q, address_prefix(coin, n), compressed)
    if address_hash(addr) != ah:
        reject("PassphraseError")
    kind = "uncompressed"
    wtype = "wif"
    if compressed:
        kind = "compressed"
        wtype = "wif-compressed"
    wif = private_key_to_wif(key, wtype, coin, n)
    if not detail:
        return wif
    return dict(
        wif=wif, private_key=hexstr(key), wif_type=wtype, public_key=hexstr(pt_ser(q, compressed)),
        public_key_type=kind, seed=seed, address=addr, lot=lot, sequence=sequence
    )
