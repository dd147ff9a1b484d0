"""Primitives of the specification language (module `prim`), native side: plain CPython, nothing from the package.

Independent implementations (RIPEMD-160, AES, secp256k1, Base58) or the standard library (SHA-256, scrypt, NFC).
Used as the oracle when a theorem is run on the real code.
"""
import hashlib
import struct
import unicodedata

N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
P = 2 ** 256 - 2 ** 32 - 977
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
ALPHABET = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


class SpecReject(Exception):
    pass


class Undefined(BaseException):
    """The specification says nothing about this case."""


class Skip(BaseException):
    """An assumption of the theorem does not hold."""


class Stop(BaseException):
    """The trial ran out of time."""


def reject(*names):
    raise SpecReject(*names)


def undefined():
    raise Undefined()


def assume(c):
    if not c:
        raise Skip()


# ---------------------------------------------------------------- hashes
def sha256(b):
    return hashlib.sha256(bytes(b)).digest()


def _rol(x, n):
    x &= 0xffffffff
    return ((x << n) | (x >> (32 - n))) & 0xffffffff


def _rmd_tables():
    rho = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
    left, right = [list(range(16))], [[(9 * i + 5) % 16 for i in range(16)]]
    for _ in range(4):
        left.append([rho[i] for i in left[-1]])
        right.append([rho[i] for i in right[-1]])
    shifts = [
        [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
        [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
        [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
        [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
        [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5],
    ]
    kl = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
    kr = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
    return left, right, shifts, kl, kr


_LEFT, _RIGHT, _SHIFT, _KL, _KR = _rmd_tables()


def ripemd160(data):
    data = bytes(data)
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
    f = [
        lambda x, y, z: x ^ y ^ z,
        lambda x, y, z: (x & y) | (~x & z),
        lambda x, y, z: (x | ~y) ^ z,
        lambda x, y, z: (x & z) | (y & ~z),
        lambda x, y, z: x ^ (y | ~z),
    ]
    msg = data + b"\x80" + b"\0" * ((55 - len(data)) % 64) + struct.pack("<Q", 8 * len(data) % 2 ** 64)
    for o in range(0, len(msg), 64):
        w = struct.unpack("<16L", msg[o:o + 64])
        a, b, c, d, e = h
        for j in range(5):
            for i in range(16):
                k = _LEFT[j][i]
                t = (_rol(a + f[j](b, c, d) + w[k] + _KL[j], _SHIFT[j][k]) + e) & 0xffffffff
                a, e, d, c, b = e, d, _rol(c, 10), b, t
        p, q, r, s, u = h
        for j in range(5):
            for i in range(16):
                k = _RIGHT[j][i]
                t = (_rol(p + f[4 - j](q, r, s) + w[k] + _KR[j], _SHIFT[j][k]) + u) & 0xffffffff
                p, u, s, r, q = u, s, _rol(r, 10), q, t
        h = [h[1] + c + s, h[2] + d + u, h[3] + e + p, h[4] + a + q, h[0] + b + r]
        h = [x & 0xffffffff for x in h]
    return struct.pack("<5L", *h)


_memo = {}
real_scrypt = hashlib.scrypt
FAST = False        # a cheap stand-in for scrypt on both sides, for finding candidates only


def scrypt(pw, salt, n, r, p, ln):
    pw, salt = bytes(pw), bytes(salt)
    k = (pw, salt, n, r, p, ln, FAST)
    v = _memo.get(k)
    if v is None:
        if len(_memo) > 4000:
            _memo.clear()
        if FAST:
            v = hashlib.shake_256(repr((pw, salt, n, r, p)).encode()).digest(ln)
        else:
            v = real_scrypt(pw, salt=salt, n=n, r=r, p=p, maxmem=2 ** 27, dklen=ln)
        _memo[k] = v
    return v


# ---------------------------------------------------------------- AES-256
def _aes_tables():
    exp, log = [0] * 512, [0] * 256
    x = 1
    for i in range(255):
        exp[i] = x
        log[x] = i
        x ^= (x << 1) ^ (0x11b if x & 0x80 else 0)
        x &= 0xff
    for i in range(255, 512):
        exp[i] = exp[i - 255]
    sbox = [0] * 256
    for i in range(256):
        inv = 0 if i == 0 else exp[255 - log[i]]
        s = inv
        for k in range(1, 5):
            s ^= ((inv << k) | (inv >> (8 - k))) & 0xff
        sbox[i] = s ^ 0x63
    inv = [0] * 256
    for i, s in enumerate(sbox):
        inv[s] = i
    mul = {m: [0 if a == 0 else exp[log[a] + log[m]] for a in range(256)] for m in (2, 3, 9, 11, 13, 14)}
    return sbox, inv, mul


_SBOX, _INV, _MUL = _aes_tables()


def _expand(key):
    if len(key) != 32:
        raise ValueError("AES-256 key")
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [_SBOX[b] for b in t[1:] + t[:1]]
            t[0] ^= rc
            rc <<= 1
        elif i % 8 == 4:
            t = [_SBOX[b] for b in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(15)]


def aes_enc(key, block):
    ks = _expand(bytes(key))
    s = [a ^ b for a, b in zip(block, ks[0])]
    m2, m3 = _MUL[2], _MUL[3]
    for r in range(1, 15):
        s = [_SBOX[b] for b in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 14:
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t += [m2[a] ^ m3[b] ^ d ^ e, a ^ m2[b] ^ m3[d] ^ e, a ^ b ^ m2[d] ^ m3[e], m3[a] ^ b ^ d ^ m2[e]]
            s = t
        s = [a ^ b for a, b in zip(s, ks[r])]
    return bytes(s)


def aes_dec(key, block):
    ks = _expand(bytes(key))
    s = [a ^ b for a, b in zip(block, ks[14])]
    m9, m11, m13, m14 = _MUL[9], _MUL[11], _MUL[13], _MUL[14]
    for r in range(13, -1, -1):
        s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
        s = [_INV[b] for b in s]
        s = [a ^ b for a, b in zip(s, ks[r])]
        if r:
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t += [m14[a] ^ m11[b] ^ m13[d] ^ m9[e], m9[a] ^ m14[b] ^ m11[d] ^ m13[e],
                      m13[a] ^ m9[b] ^ m14[d] ^ m11[e], m11[a] ^ m13[b] ^ m9[d] ^ m14[e]]
            s = t
    return bytes(s)


def xor(a, b):
    if len(a) != len(b):
        raise ValueError("xor of different lengths")
    return bytes(x ^ y for x, y in zip(a, b))


# ---------------------------------------------------------------- bytes, integers, text
def i2osp(x, n):
    return x.to_bytes(n, "big")


def fits(x, n):
    return x < 256 ** n


def minbytes(x):
    return x.to_bytes(max(1, (x.bit_length() + 7) // 8), "big")


def os2ip(b):
    return int.from_bytes(b, "big")


def nfc(s):
    return unicodedata.normalize("NFC", s)


def utf8(s):
    return s.encode("utf-8")


def encodable(s):
    try:
        s.encode("utf-8")
        return True
    except UnicodeEncodeError:
        return False


def ishex(s):
    try:
        bytes.fromhex(s)
        return True
    except ValueError:
        return False


def unhex(s):
    return bytes.fromhex(s)


def hexstr(b):
    return bytes(b).hex()


def is_text(v):
    return isinstance(v, str)


def is_bytes(v):
    return isinstance(v, (bytes, bytearray))


def breverse(b):
    return bytes(b)[::-1]


# ---------------------------------------------------------------- Base58
def b58enc(data, alphabet=ALPHABET):
    data = bytes(data)
    v = int.from_bytes(data, "big")
    out = []
    while v:
        v, d = divmod(v, 58)
        out.append(alphabet[d])
    z = len(data) - len(data.lstrip(b"\0"))
    return alphabet[0] * z + "".join(reversed(out))


def is58(s, alphabet=ALPHABET):
    return all(c in alphabet for c in s)


def b58dec(s, alphabet=ALPHABET):
    v = 0
    for c in s:
        v = v * 58 + alphabet.index(c)
    z = len(s) - len(s.lstrip(alphabet[0]))
    return b"\0" * z + v.to_bytes((v.bit_length() + 7) // 8, "big")


# ---------------------------------------------------------------- secp256k1 (affine points; None is infinity)
class Pt:
    __slots__ = ("x", "y")

    def __init__(self, x=None, y=None):
        self.x, self.y = x, y

    def __eq__(self, o):
        return isinstance(o, Pt) and (self.x, self.y) == (o.x, o.y)

    def __hash__(self):
        return hash((self.x, self.y))

    def __repr__(self):
        return "Pt(inf)" if self.x is None else f"Pt({self.x:x}, {self.y:x})"


def _jdbl(p):
    x, y, z = p
    if not y:
        return (0, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return (x2, (m * (s - x2) - 8 * pow(y, 4, P)) % P, 2 * y * z % P)


def _jadd(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    z1, z2 = p[2] * p[2] % P, q[2] * q[2] % P
    u1, u2 = p[0] * z2 % P, q[0] * z1 % P
    s1, s2 = p[1] * z2 * q[2] % P, q[1] * z1 * p[2] % P
    if u1 == u2:
        return _jdbl(p) if s1 == s2 else (0, 1, 0)
    h, r = u2 - u1, s2 - s1
    h2 = h * h % P
    h3 = h2 * h % P
    x = (r * r - h3 - 2 * u1 * h2) % P
    return (x, (r * (u1 * h2 - x) - s1 * h3) % P, h * p[2] * q[2] % P)


def _aff(p):
    if not p[2]:
        return Pt()
    i = pow(p[2], -1, P)
    return Pt(p[0] * i * i % P, p[1] * i * i * i % P)


def pt_mul(p, k):
    k %= N
    if p.x is None or not k:
        return Pt()
    acc, base = (0, 1, 0), (p.x, p.y, 1)
    for bit in bin(k)[2:]:
        acc = _jdbl(acc)
        if bit == "1":
            acc = _jadd(acc, base)
    return _aff(acc)


_G = Pt(GX, GY)
_ptmemo = {}


def pt(k):
    if k not in _ptmemo:
        if len(_ptmemo) > 4000:
            _ptmemo.clear()
        _ptmemo[k] = pt_mul(_G, k)
    return _ptmemo[k]


def pt_add(p, q):
    if p.x is None:
        return q
    if q.x is None:
        return p
    return _aff(_jadd((p.x, p.y, 1), (q.x, q.y, 1)))


def pt_from_xy(x, y):
    if not (0 <= x < P and 0 <= y < P) or (y * y - x * x * x - 7) % P:
        return None
    return Pt(x, y)


def pt_parse(data):
    data = bytes(data)
    if len(data) == 33 and data[0] in (2, 3):
        x = os2ip(data[1:])
        if x >= P:
            return None
        y = pow(x * x * x + 7, (P + 1) // 4, P)
        if (y * y - x * x * x - 7) % P:
            return None
        return Pt(x, y if y % 2 == data[0] % 2 else P - y)
    if len(data) == 64:
        return pt_from_xy(os2ip(data[:32]), os2ip(data[32:]))
    if len(data) == 65 and data[0] in (4, 6, 7):
        p = pt_from_xy(os2ip(data[1:33]), os2ip(data[33:]))
        if p is not None and data[0] != 4 and p.y % 2 != data[0] % 2:
            return None
        return p
    return None


def pt_ser(p, compressed):
    if p.x is None:
        raise ValueError("infinity")
    if compressed:
        return bytes([2 + p.y % 2]) + i2osp(p.x, 32)
    return b"\x04" + i2osp(p.x, 32) + i2osp(p.y, 32)


def pt_inf(p):
    return p.x is None


def is_point(p):
    return isinstance(p, Pt)


def pt_x(p):
    return p.x


def pt_y(p):
    return p.y


def _words():
    import os
    import sys
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if d not in sys.path:
        sys.path.append(d)
    from engine import rmd
    return rmd


def rmd_rol(x, n):
    return _words().Native.rol(x, n)


def rmd_f(x, y, z, i):
    r = _words()
    return r.f(r.Native, x, y, z, i) & r.Native.M


def rmd_compress(h0, h1, h2, h3, h4, block):
    r = _words()
    return r.compress(r.Native, (h0, h1, h2, h3, h4), [int.from_bytes(block[4 * j:4 * j + 4], "little") for j in range(16)])


def mulmodn(a, b):
    return a * b % N


# ---------------------------------------------------------------- currencies
def known(coin, network):
    return network in coin.NETWORKS


def wif_prefix(coin, network):
    return coin.NETWORKS[network]["wif_prefix"]


def address_prefix(coin, network):
    return coin.NETWORKS[network]["address_prefix"]


# ---------------------------------------------------------------- outcomes
def outcome(f, *args, **kwargs):
    try:
        return ("ok", f(*args, **kwargs))
    except (Undefined, Skip, Stop, KeyboardInterrupt):
        raise
    except BaseException as e:
        return ("exc", e)


def exc_class(name):
    import builtins
    if name in ("ValueError", "TypeError", "OverflowError", "KeyError", "AssertionError", "UnicodeEncodeError"):
        return getattr(builtins, name)
    import bip38.exceptions
    return getattr(bip38.exceptions, name)


def raised(out, *names):
    if out[0] != "exc":
        return False
    assert not isinstance(out[1], SpecReject)
    return any(isinstance(out[1], exc_class(n)) for n in names)


def rejects(out, *names):
    r = out[0] == "exc" and isinstance(out[1], SpecReject)
    return r and (not names or tuple(out[1].args) == names)


class SpecFailed(BaseException):
    """The specification itself raised: an error of the machinery, not of the code."""


def same(got, want):
    if want[0] == "ok":
        return got[0] == "ok" and same_value(got[1], want[1])
    if not rejects(want):
        raise SpecFailed(repr(want[1]))
    return raised(got, *want[1].args)


def agrees(got, want):
    if want[0] == "ok":
        return same(got, want)
    if not rejects(want):
        raise SpecFailed(repr(want[1]))
    if "NetworkError" in want[1].args:
        return raised(got, "NetworkError")
    return raised(got, "Error", "ValueError")


def same_value(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same_value(a[k], b[k]) for k in b)
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and isinstance(a, tuple) == isinstance(b, tuple) \
            and all(same_value(x, y) for x, y in zip(a, b))
    if b is None or isinstance(b, bool):
        return a is b
    if isinstance(b, (bytes, bytearray)):
        return isinstance(a, (bytes, bytearray)) and bytes(a) == bytes(b)
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- randomness (filled in by native.py)
DRAWS = []
OTHER = []


def draws():
    return list(DRAWS)


def other_draws():
    return len(OTHER)


def random(n):
    raise Undefined()


SCRYPTS = []


def passwords():
    return list(SCRYPTS)


def same_nfc(p, q):
    assume(nfc(p) == nfc(q))
