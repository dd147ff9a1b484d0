"""Conformance of the verifier's Python semantics with CPython.

Small functions over many built-in operations are run by CPython on concrete inputs; the verifier then has to prove, for a
symbolic input assumed equal to that input, that the result is that one.  A refuted obligation is a wrong model; an
undecided one is outside the verifier's subset.       python3-vt -B tools/conform.py [seed]
"""
import os, random, shutil, struct, binascii, subprocess, sys, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SNIPS = r'''
bytes8: x[2:5] | x[-3:] | x[:-3] | x[::-1] | x[1] | x[-1] | x[3:2] | x[100:] | x[-100:3] | x + b"ab" | b"q" + x[:2] | x * 2
bytes8: int.from_bytes(x, "big") | int.from_bytes(x, "little") | int.from_bytes(x[:3], "big") * 3 | x.hex() | len(x) | x == x[::-1]
bytes8: x.startswith(b"\x00") | x.endswith(b"\x01") | x.startswith((b"\x00", b"\x01")) | x[:2] in (b"\x00\x01", b"ab") | x < b"\x80" | bool(x)
bytes8: bytes(a ^ b for a, b in zip(x[:4], x[4:])) | bytes([a & 15 for a in x]) | list(x) | sum(x) | max(x) | min(x) | sorted(x)
bytes8: list(enumerate(x)) | tuple(reversed(x)) | [x[i:i + 2] for i in range(0, 8, 2)] | bytes(reversed(x)) | any(x) | all(x)
bytes8: bytearray(x)[2:4] == x[2:4] | bytes(bytearray(x)[::-1]) | x.rjust(10, b"\x00") | x.ljust(10, b"\x00") | b"".join([x[4:], x[:4]])
bytes8: struct.unpack("<Q", x)[0] | struct.unpack(">II", x) | struct.unpack("<HHHH", x) | struct.unpack(">BxHI", x) | struct.unpack("<q", x)[0]
bytes8: binascii.hexlify(x) | binascii.unhexlify(x.hex()) | bytes.fromhex(x.hex()) | int(x.hex(), 16) | "%02x" % x[0] | f"{x[0]:02x}" | str(x[0])
bytes8: x.lstrip(b"\x00") | len(x) - len(x.lstrip(b"\x00")) | x.strip(b"\x00") | x.rstrip(b"\x00") | x.count(b"\x00") | x.find(b"\x00")
bytes8: divmod(x[0], 7) | x[0] // 16, x[0] % 16 | x[0] >> 3 | x[0] << 3 | x[0] & ~3 | ~x[0] | -x[0] | x[0] ^ x[1] | (x[0] | x[1])
bytes8: x[0] - x[1] | (x[0] - x[1]) // 3 | (x[0] - x[1]) % 5 | abs(x[0] - x[1]) | (x[0] - x[1]) & 0xff | (x[0] - x[1]) >> 1 | pow(x[0], 2) | x[0] ** 2
bytes8: x[0].bit_length() | int.from_bytes(x, "big").bit_length() | (int.from_bytes(x, "big") + 7) // 8 | x[0].to_bytes(2, "little") | (x[0] + x[1]).to_bytes(2, "big")
bytes8: int.from_bytes(x, "big").to_bytes(8, "little") | (int.from_bytes(x, "big") + 1).to_bytes(9, "big") | int.from_bytes(x, "big", signed=True) | (x[0] * x[1] * x[2])
bytes8: bytes(8) + x | bytes([x[0]]) + x[1:2] | x.partition(b"\x00")[0] | x.replace(b"\x00", b"") | x.split(b"\x00") | {x[0]: 1}.get(x[0]) | x[0] in {0, 1, 255}
bytes8: 0 <= x[0] < 128 | not x[0] | x[0] or 5 | x[0] and 7 | (3 if x[0] else 4) | min(x[0], 9) | max(x[0], 9) | isinstance(x[0], int) | x[0] is None
u32: x >> 12 | x & 0xfff | x >> 12 << 12 | divmod(x, 4096) | x % 4096 | (x - x % 4096) // 4096 | x.to_bytes(4, "big") | x.to_bytes(5, "little") | struct.pack(">I", x)
u32: x * 4096 + 5 | (x << 12 | 5) | x ^ 0xffffffff | ~x & 0xffffffff | (x << 3 | x >> 29) & 0xffffffff | -x % 7 | -x // 7 | -x >> 3 | x - 2 ** 31
u32: x == 0 | x != 7 | x < 100 | -5 < x <= 100 | hex(x) | "%x" % x | f"{x:08x}" | str(x) | f"{x}" | bin(x) | x.bit_length() | (x.bit_length() + 7) // 8
u32: struct.pack("<Q", 8 * x) | struct.pack("<L", x & 0xffffffff) | int.to_bytes(x, 4, "little") | bytes([x & 255, x >> 8 & 255]) | [x >> (8 * i) & 255 for i in range(4)]
u32: x.to_bytes(3, "big") | x.to_bytes(1, "big") | bytes([x]) | chr(x % 128) | int(x) | bool(x) | float(x) == x | round(x) | abs(-x) | x if x > 5 else -x
nat: x >> 3 | x << 3 | x & 255 | x % 58 | x // 58 | divmod(x, 256) | x + 1 | x - 1 | x * x | -x | x == 0 | x > 99 | (x.bit_length() + 7) // 8 | x.bit_length()
nat: x.to_bytes((x.bit_length() + 7) // 8, "big") | x.to_bytes(max(1, (x.bit_length() + 7) // 8), "little") | (x | 1) | x ^ 1 | x & ~7 | min(x, 5) | max(x, 5) | not x
int: -x // 3 | -x % 3 | x // -3 | x % -3 | divmod(x, -7) | x >> 2 | x & 7 | x & -8 | abs(x) | x < 0 | 0 <= x <= 4095 | 100000 <= x | x is None | x == 5 | x in (1, 2)
bytes: len(x) | x[:2] | x[-2:] | x[2:] | x[:-2] | x + b"\x01" | x == b"" | not x | x[::-1][::-1] == x | x.hex() | bytes.fromhex(x.hex()) | len(x) in (4, 8) | x[:1] == b"\x00"
bytes: x.startswith(b"\x00") | x[0] | x[-1] | x[5] | bytes(x) | int.from_bytes(x, "big") | len(x.hex()) | x or b"z" | (x and 1) | isinstance(x, bytes) | x[1:3] + x[:1] | x[len(x) - 2:]
bytes: len(x) == 3 and x[2] | x[:4][-1:] | bytearray(x) == x | x != b"a" | x in (b"", b"a") | b"a" + x == b"a" | x * 1 | len(x + x) | x[:len(x)] == x | x.endswith(b"\x01")
text: x == "ab" | len(x) | not x | x + "q" == "abq" | isinstance(x, str) | x.encode() | x.encode("utf-8") | x.encode("ascii") | bytes(x, "utf-8") | bytes.fromhex(x) | x in ("ab", "") | x or "z"
text: x is None | str(x) | f"{x}" == x | x != "wif" | {"ab": 1}.get(x) | {"ab": 1, "": 2}.get(x, 5) | x in {"ab": 1} | hash(x) == hash(x) | type(x) == str | x == b"ab" | binascii.unhexlify(x)
'''
# formatting, and operations that fail on most of the kinds
ALIKE = r'''
f"{x}" | f"{x!r}" | f"{x!s}" | f"{x:02x}" | f"{x:x}" | f"{x:>4}" | f"{x:d}" | f"{x!r:>4}" | f"{x!s:x}" | f"{x:{4}}" | f"{x:s}" | f"{x:c}"
f"{x=}" | f"{x:08b}" | f"{x:,}" | f"{x:.3}" | f"{x:e}" | f"{[x]}" | f"{[x]:x}" | f"{(x, 1)!r}" | f"{x}{x:02x}"
format(x) | format(x, "") | format(x, "02x") | format(x, "04d") | format(x, "s") | format(x, x) | str(x) | repr(x) | ascii(x) | str(x, "utf-8")
"%s" % x | "%r" % x | "%d" % x | "%x" % x | "%02x" % x | "%s %s" % x | "%s %s" % (x, 1) | "%d %x" % (x, x) | "%%" % x | "a" % x | "%c" % x
"%s" % (x,) | "%5s|%-3s" % (x, x) | "%i" % x | "%o" % (x,) | "%d" % (x, x) | "%(a)s" % {"a": x} | "%(b)s" % {"a": x} | "%f" % x | "%q" % x
"{}".format(x) | "{:02x}".format(x) | "{!r}".format(x) | "{0}{0}".format(x) | "{a}".format(a=x) | "{1}".format(x) | "{}{}".format(x) | "{0[0]}".format(x)
"{:>{}}".format("a", x) | "{".format(x) | "{:d}".format(x) | "{0.real}".format(x) | "".join([x]) | "".join([str(x)]) | "-".join(x) | b"".join([x])
hex(x) | oct(x) | bin(x) | chr(x) | ord(x) | int(x) | int(x, 16) | int(x, 10) | float(x) | abs(x) | bool(x) | bytes(x) | bytes([x]) | bytearray(x) == x | list(x)
tuple(x) | set(x) == x | dict(x) | dict([x]) | len(x) | iter(x) is None | next(x) | sum(x) | max(x) | min(x) | max(x, 3) | sorted(x) | reversed(x) is None | range(x) == 1
all(x) | any(x) | list(zip(x, x)) | list(map(str, x)) | list(enumerate(x)) | isinstance(x, x) | isinstance(x, (str, bytes)) | issubclass(x, int) | callable(x) | divmod(x, 3)
pow(x, 2) | pow(x, 2, 5) | pow(2, x, 5) | round(x) | getattr(x, "real") | getattr(x, "nope", 1) | hasattr(x, "hex") | hasattr(x, "encode") | x.nope | x() | x[0] | x["a"] | x[None]
x[1:2] | x["a":] | x[b"a":] | x[0:2:0] | x + 1 | x + "a" | x + b"a" | x + [1] | 1 + x | "a" + x | b"a" + x | [1] + x | (1,) + x | x * 2 | x * "a" | x * b"a" | 2 * x | "a" * x
b"a" * x | [1] * x | x - 1 | x - "a" | x / 2 | x // 2 | x % 3 | x % "a" | x ** 2 | x @ x | x << 1 | x >> 1 | x & 1 | x | (x | 1) | x ^ 1 | ~x | -x | +x | not x | x and 1 | x or 1
x < 1 | x < "a" | x < b"a" | x <= x | x == 1 | x == "a" | x == b"a" | x == None | x != 1 | x is None | 1 in x | "a" in x | b"a" in x | x in x | x in "a" | x in b"a" | x in [1]
x in {1: 2} | x in {"a"} | x in 5 | x == [x] | (x,) == (x,) | {x: 1}[x] | {x: 1}["a"] | [1, 2][x] | "abc"[x] | b"abc"[x] | (1, 2)[x:] | "abc"[x:] | {1: 2}[x] | [0][x:x]
x.hex() | x.encode() | x.decode() | x.decode("utf-8") | x.upper() | x.lower() | x.strip() | x.strip("a") | x.strip(b"a") | x.split() | x.split("a") | x.startswith("a")
x.startswith(b"a") | x.startswith(1) | x.endswith("a") | x.endswith(b"a") | x.find("a") | x.find(b"a") | x.index(b"a") | x.count(b"a") | x.count("a") | x.replace("a", "b") | x.replace(b"a", b"b")
x.rjust(9) | x.rjust(9, "0") | x.rjust(9, b"0") | x.ljust(9, b"0") | x.zfill(9) | x.lstrip("0") | x.lstrip(b"0") | x.to_bytes(2, "big") | x.to_bytes(20, "big") | x.to_bytes("a", "big") | x.to_bytes(20, 1)
x.bit_length() | x.join([]) | x.append(1) | x.get(1) | x.keys() | x.isdigit() | x.isascii() | x.isalnum() | x.copy() | x.items() | x.real
"a".startswith(x) | "abc".find(x) | "abc".split(x) | "abc".strip(x) | "a".replace(x, "b") | "a".rjust(x) | "a".join(x) | "a".encode(x) | "a".count(x) | b"a".startswith(x) | b"abc".find(x)
b"a".rjust(x) | b"a".join(x) | b"a".hex(x) | b"a".strip(x) | b"abc".split(x) | b"a".replace(x, b"b") | b"a".decode(x) | (5).to_bytes(x, "big") | (5).to_bytes(2, x) | [1].index(x) | [1].count(x)
bytes.fromhex(x) | int.from_bytes(x, "big") | int.from_bytes(x, x) | int.to_bytes(x, 9, "big") | bytes.hex(x) | str.encode(x) | str.lower(x) | bytes.decode(x) | dict.fromkeys(x) | str.join("", x)
struct.pack(">I", x) | struct.pack("<Q", x) | struct.pack(">B", x) | struct.pack("4s", x) | struct.unpack(">I", x) | struct.unpack(x, b"a") | struct.unpack(">Q", x) | struct.pack(">h", x)
binascii.hexlify(x) | binascii.unhexlify(x) | [a for a in x] | {a for a in x} == x | {a: 1 for a in x} | [*x] | (lambda *a: a)(*x) | (lambda **a: a)(**x) | (lambda a: a)(a=x) | [1][x] | print(x)
bytes(x, "utf-8") | bytes(x, "ascii") | bytes("a", x) | str(b"a", x) | int("12", x) | slice(x) == 1 | type(x) is bytes | type(x) == int | type(x).__name__ | x.__class__.__name__ | id(x) == id(x) | hash(x) == hash(x)
'''
# the models of the libraries (run this script with /opt/venv/bin/python)
LIBS = r'''
hashlib.sha256(x).digest() | hashlib.sha256(x).hexdigest() | hashlib.sha256().digest() == x | hashlib.new("sha256", x).digest() | hashlib.new(x, b"").digest() | hashlib.new("sha256", data=x).digest()
hashlib.new("ripemd160", x).digest() | hashlib.new("nope", x) | hashlib.sha256(x, x) | hashlib.sha256(b"").update(x) | hashlib.sha256(string=x).digest() | hashlib.sha256(x).digest_size | hashlib.sha256(x).name
hashlib.sha256(x).digest(5) | hashlib.sha256(x).hexdigest()[:8] | hashlib.sha256(x).nope | hashlib.sha512(x).digest() | hashlib.sha1(x).digest() | hashlib.md5(x).hexdigest() | hashlib.sha256(hashlib.sha256(x).digest()).digest()[:4]
unicodedata.normalize("NFC", x) | unicodedata.normalize(x, "a") | unicodedata.normalize("NFX", x) | unicodedata.normalize("NFC") | unicodedata.is_normalized("NFC", x) | unicodedata.normalize("NFC", x).encode() | unicodedata.normalize("NFKD", x)
len(os.urandom(x)) | len(secrets.token_bytes(x)) | len(secrets.token_hex(x)) | len(random.randbytes(x)) | random.getrandbits(x) >= 0 | secrets.randbits(x) >= 0 | len(os.urandom(8)) | len(os.urandom()) | os.urandom(size=x) and 1
secrets.compare_digest(x, x) | secrets.compare_digest(x, "a") | secrets.compare_digest(x, b"a") | hmac.compare_digest(x, x) | hmac.compare_digest(x, "ab") | hmac.compare_digest(b"abcdefgh", x) | hmac.compare_digest(x, None)
len(scrypt.hash(x, b"s", 2, 1, 1)) | len(scrypt.hash("p", x, 2, 1, 1)) | len(scrypt.hash(x, x, 2, 1, 1, 32)) | len(scrypt.hash("p", "s", 2, 1, 1, x)) | len(scrypt.hash("p", "s", x, 1, 1)) | len(scrypt.hash("p", "s", 2, x, 1)) | len(scrypt.hash("p", "s", 2, 1, x))
len(scrypt.hash(password=x, salt=b"a", N=2, r=1, p=1, buflen=64)) | len(scrypt.hash("p", "s", 16384, 8)) | scrypt.hash("p") | len(scrypt.hash(x, b"", 2, 1, 1))
pyaes.AESModeOfOperationECB(x) and 1 | len(pyaes.AESModeOfOperationECB(bytes(32)).encrypt(x)) | len(pyaes.AESModeOfOperationECB(bytes(32)).decrypt(x)) | len(pyaes.AESModeOfOperationECB(bytes(16)).encrypt(x)) | pyaes.AESModeOfOperationECB()
pyaes.AESModeOfOperationECB(bytes(32)).encrypt(x) == b"" | pyaes.AESModeOfOperationECB(x).encrypt(bytes(16)) and 1 | pyaes.AESModeOfOperationECB(bytes(31)) | pyaes.AESModeOfOperationECB(bytes(32)).nope
functools.reduce(lambda a, b: a + b, x) | functools.reduce(lambda a, b: a + b, x, 0) | functools.partial(int)(x) | functools.reduce(max, x) | math.ceil(x) | math.gcd(x, 4) | math.floor(x) | operator.add(x, 1) | operator.xor(x, 1)
operator.itemgetter(0)(x) | operator.index(x) | operator.neg(x) | operator.concat(x, x) | operator.getitem(x, 0) | operator.contains(x, 1) | operator.methodcaller("hex")(x) | operator.attrgetter("real")(x)
list(itertools.chain(x, x)) | list(itertools.islice(x, 2)) | list(itertools.islice(b"abc", x)) | list(itertools.takewhile(bool, x)) | list(itertools.accumulate(x)) | list(itertools.zip_longest(x, b"a")) | list(itertools.repeat(x, 2))
list(itertools.repeat(1, x)) | list(itertools.batched(x, 2)) | list(itertools.batched(b"ab", x)) | list(itertools.pairwise(x)) | list(itertools.starmap(max, x)) | list(itertools.compress(x, x)) | list(itertools.chain.from_iterable(x))
struct.calcsize(x) | io.BytesIO(x).read() | io.BytesIO(x).read(2) | io.BytesIO(b"abc").read(x) | string.hexdigits + x | binascii.hexlify(x, ":") | binascii.unhexlify(x).hex() | binascii.crc32(x) >= 0
SigningKey.from_string(x, curve=SECP256k1).to_string() | SigningKey.from_string(x).to_string() | SigningKey.from_string(x, curve=SECP256k1).get_verifying_key().to_string("compressed") | SigningKey.from_string(x, SECP256k1).verifying_key.to_string()
SigningKey.from_secret_exponent(x, curve=SECP256k1).to_string() | VerifyingKey.from_string(x, curve=SECP256k1).to_string() | VerifyingKey.from_string(x, curve=SECP256k1).to_string("compressed") | VerifyingKey.from_string(x, curve=SECP256k1).pubkey.point.x()
VerifyingKey.from_string(b"\x02" + x, curve=SECP256k1).to_string() | VerifyingKey.from_string(b"\x04" + x + x, curve=SECP256k1).to_string() | PointJacobi.from_bytes(curve_secp256k1, x).x() | PointJacobi.from_bytes(curve_secp256k1, x).to_bytes("compressed")
(generator_secp256k1 * x).x() | (x * generator_secp256k1).x() | (generator_secp256k1 * x).to_bytes("compressed") | (generator_secp256k1 + x).x() | (generator_secp256k1 * x).to_bytes(x) | generator_secp256k1.to_bytes(x) | (generator_secp256k1 * 2).y() == x
Point(curve_secp256k1, x, x).x() | PointJacobi.from_affine(Point(curve_secp256k1, x, 1)).x() | PointJacobi.from_affine(x).x() | VerifyingKey.from_public_point(x, curve=SECP256k1).to_string() | SigningKey.from_string(x, curve=x).to_string()
(generator_secp256k1 * x == INFINITY) | generator_secp256k1.order() == x | (generator_secp256k1 * x + generator_secp256k1).x() | (generator_secp256k1 * x + generator_secp256k1 * x).y() | (generator_secp256k1 * x).nope | (generator_secp256k1 * x)[0]
get_bytes(x) | bytes_to_string(x) | bytes_to_integer(x) | bytes_to_integer(x, "little") | integer_to_bytes(x) | integer_to_bytes(x, 4) | integer_to_bytes(x, 4, "little") | hash160(x) | get_checksum(x) | double_sha256(x) | encode(x) | decode(x) | check_encode(x) | check_decode(x)
'''
LIBSRC = '''import struct, binascii, hashlib, unicodedata, os, secrets, random, hmac, scrypt, pyaes, functools, math, operator, itertools, io, string
from ecdsa import SigningKey, VerifyingKey, SECP256k1
from ecdsa.ecdsa import curve_secp256k1, generator_secp256k1
from ecdsa.ellipticcurve import Point, PointJacobi, INFINITY
from bip38.utils import get_bytes, bytes_to_string, bytes_to_integer, integer_to_bytes
from bip38.crypto import hash160, get_checksum, double_sha256
from bip38.libs.base58 import encode, decode, check_encode, check_decode'''
PROGS = r'''
bytes8
    out = []
    for i, b in enumerate(x):
        if b == 0:
            continue
        if b > 250:
            break
        out.append(b)
    else:
        out.append(-1)
    return out
---
bytes8
    i = n = 0
    while True:
        if i >= len(x):
            break
        n = n * 256 + x[i]
        i += 1
    return n
---
bytes8
    try:
        if x[0] == 0:
            raise ValueError("zero")
        r = 1
    except (KeyError, ValueError) as e:
        r = str(e)
    else:
        r += 1
    finally:
        s = 5
    return r, s
---
bytes8
    def gen(v):
        for b in v:
            if b & 1:
                yield b
    return list(gen(x)), sum(gen(x)), next(gen(x), None)
---
bytes8
    def gen():
        yield from x[:3]
        yield 7
    return tuple(gen())
---
bytes8
    acc = []
    def add(v, *rest, k=1, **kw):
        acc.append((v, rest, k, sorted(kw)))
        return len(acc)
    add(x[0]); add(1, 2, 3, k=x[1]); add(*x[:3], z=1, a=2); add(**{"v": 4, "k": 2})
    return acc
---
bytes8
    n = 0
    def inc():
        nonlocal n
        n += x[0]
        return n
    inc(); inc()
    return n
---
bytes8
    fs = [lambda v=i: x[v] + i for i in range(3)]
    return [f() for f in fs]
---
bytes8
    a, *b, c = x
    (d, e), f = (a, c), b
    return a, b, c, d, e, f
---
bytes8
    if (n := x[0] + x[1]) > 300:
        return n
    return -n
---
bytes8
    d = {}
    for i, b in enumerate(x):
        d[i] = b
    d.update({1: 5}); d.setdefault(99, 3); e = dict(d, a=1); p = d.pop(0)
    return d, e, p, d.get(77), list(d), list(d.values()), {k: v for k, v in d.items() if k > 3}, 3 in d
---
bytes8
    class A:
        K = 5
        def __init__(self, v): self.v = v
        @property
        def w(self): return self.v[0] + self.K
        @staticmethod
        def s(q): return q + 1
        @classmethod
        def c(cls, q): return cls(q)
        def __len__(self): return len(self.v)
        def __getitem__(self, i): return self.v[i]
        def __eq__(self, o): return isinstance(o, A) and self.v == o.v
    class B(A):
        K = 6
        def __init__(self, v):
            super().__init__(v)
            self.u = 1
        @property
        def w(self): return super().w * 2
    a, b = A(x), B.c(x)
    return a.w, b.w, A.s(3), len(b), b[2], a == b, isinstance(b, A), type(b) is B, type(b).__name__, b.u, [q for q in a[:2]]
---
bytes8
    match x[0]:
        case 0:
            return "z"
        case 1 | 0xff:
            return "one"
        case n if n < 128:
            return n
        case _:
            return "hi"
---
bytes8
    match list(x):
        case [0, *rest]:
            return "zero", rest
        case [255, _, *rest, 255]:
            return "ff", rest
        case [a, b]:
            return "two"
        case [a, *_, 7 | 9 as z]:
            return a, z
        case [*all_]:
            return all_
---
bytes8
    out = []
    for v in (x, x[0], "s", None, [1, x[1]], (3,), {"k": x[2]}, True, bytearray(b"q")):
        match v:
            case bytes(b) if len(b) == 8:
                out.append(b[0])
            case bool():
                out.append("bool")
            case int(n):
                out.append(n + 1)
            case str():
                out.append("str")
            case None:
                out.append("none")
            case [int(p), q]:
                out.append((p, q))
            case [one]:
                out.append(one)
            case dict():
                out.append("dict")
            case _:
                out.append("other")
    return out
---
bytes8
    from dataclasses import dataclass, asdict, astuple, replace
    @dataclass
    class P:
        a: int
        b: bytes
        c: list = None
    p = P(x[0], x[1:], [1, x[2]])
    match p:
        case P(5, b=w):
            r = w
        case P(a=n, c=[_, m]) if n > m:
            r = n, m
        case P(n, w, None):
            r = "none"
        case _:
            r = "rest"
    return r, asdict(p), astuple(replace(p, a=3))
---
bytes8
    d = {(1, "a"): 1, (2, "a"): 2, (2, "b"): 3}
    try:
        v = d[x[0], "a"]
    except KeyError:
        v = "missing"
    return v, d.get((x[1], "b")), (x[2], "b") in d, d.get((x[3], 3), 9)
---
bytes8
    try:
        return {1: 2}[x[0], [1]]
    except TypeError:
        return "unhashable"
---
bytes8
    from contextlib import suppress
    r = None
    with suppress(ValueError, KeyError):
        if x[0] > 3:
            raise ValueError("x")
        r = x[1]
        if x[0] == 2:
            r = {}[5]
    return r
---
bytes8
    return bytes(a ^ b for a, b in zip(x, x[::-1])), bytes(a & b for a, b in zip(x[:4], x[4:])), bytes(a | 15 for a in x), bytes(a ^ b for a, b in zip(x, b"abcdefgh")), bytes(b ^ a for a, b in zip(x[1:], x))
---
bytes8
    r = []
    for i in range(len(x) - 1, -1, -2):
        r.append(x[i])
    for a, b in zip(x, x[1:]):
        r.append(a - b)
    for a, b in zip(*[iter(x)] * 2):
        r.append(a + b)
    return r
---
bytes8
    b = bytearray(x)
    b[0] = 5
    b.append(9)
    b += b"zz"
    b[1:3] = b"q"
    b.extend([1, 2])
    del b[-1]
    b.reverse()
    b.insert(0, x[3])
    return bytes(b), len(b), b.pop()
---
bytes8
    l = list(x)
    l[2:4] = [1]
    l.insert(1, 300); l.pop(); l.pop(0); l.reverse(); l.append(4); l += [5, 6]; l.extend((7,))
    return l, l.index(300), l.count(7), l[::2], l[-1], 300 in l, l * 2, l + [1], l.copy() == l
---
bytes8
    try:
        return x[9]
    except IndexError:
        return "index"
---
bytes8
    try:
        try:
            int("zz" if x[0] else "5")
        except ValueError as e:
            raise KeyError("inner") from e
        finally:
            y = 3
    except LookupError as e:
        return type(e).__name__, e.args, type(e.__cause__).__name__, y
    return "fine"
---
bytes8
    def f(n, acc=b""):
        return acc if n == 0 else f(n - 1, acc + x[n - 1:n])
    return f(8)
---
bytes8
    from functools import reduce
    import operator
    return reduce(lambda a, b: a * 256 + b, x, 0), reduce(operator.xor, x), list(map(lambda v: v + 1, x)), list(filter(None, x))
---
bytes8
    import itertools
    return list(itertools.chain(x[:2], [1])), list(itertools.islice(x, 2)), len(list(itertools.takewhile(lambda b: b == 0, x)))
---
bytes8
    s = "".join("%02x" % b for b in x)
    t = "".join(format(b, "02x") for b in x)
    u = "".join([f"{b:02x}" for b in x])
    return s, t == u, s == x.hex()
---
bytes8
    assert len(x) == 8, "no"
    y = None
    if not (x[0] and x[1]) or x[2] is None:
        y = 1
    return y if y is not None else 0
---
bytes8
    from collections import namedtuple
    P = namedtuple("P", "a b c")
    p = P(x[:1], x[1:4], c=x[4])
    a, b, c = p
    return p.a, b, p[2], p._replace(a=1).a, len(p), tuple(p)
---
bytes8
    from enum import Enum, IntEnum
    class E(Enum):
        A = 1
        B = 2
    class F(IntEnum):
        X = 0x40
    return E.A is E.A, E(2) is E.B, E.A.value, F.X + 1, x[0] & F.X, E["B"].name
---
bytes8
    from dataclasses import dataclass
    @dataclass
    class D:
        a: int
        b: bytes = b"q"
    d = D(x[0]); e = D(x[0], b=b"q")
    return d == e, d.a, d.b
---
bytes8
    from contextlib import suppress
    r = 1
    with suppress(ValueError):
        if x[0] == 0:
            raise ValueError
        r = 2
    return r
---
bytes8
    class C:
        def __init__(self): self.log = []
        def __enter__(self): self.log.append(1); return self
        def __exit__(self, t, v, tb): self.log.append(t is None); return t is ValueError
    c = C()
    with c as d:
        if x[0] > 100:
            raise ValueError
        d.log.append(2)
    return c.log
---
bytes8
    def deco(k):
        def w(f):
            def g(*a, **kw):
                return f(*a, **kw) + k
            return g
        return w
    @deco(x[0])
    def h(v): return v * 2
    return h(5)
---
bytes8
    import functools
    @functools.lru_cache(maxsize=None)
    def f(n): return n + x[0]
    g = functools.partial(int.from_bytes, byteorder="big")
    return f(1), f(1), g(x[:2])
---
bytes8
    it = iter(x)
    a = next(it)
    rest = bytes(it)
    return a, rest, next(iter([]), 5)
---
bytes8
    i = 0
    while i < 8 and x[i] == 0:
        i += 1
    else:
        j = i
    return i, j, x[i:] if i < 8 else b""
---
u32
    r = []
    for _ in range(4):
        x, m = divmod(x, 256)
        r.append(m)
    return bytes(r[::-1]), x
---
u32
    if x > 1000 and not x % 2 or x == 1:
        return "a"
    elif 5 <= x < 300:
        return "b"
    return "c"
---
u32
    lo, hi = x & 0xffff, x >> 16
    lo, hi = hi, lo
    return lo, hi, (lo << 16) + hi, hi if lo else lo
---
nat
    n = 0
    while x:
        x >>= 8
        n += 1
        if n > 40:
            break
    return n
---
int
    if not isinstance(x, int) or isinstance(x, bool):
        raise TypeError("no")
    if x < 0:
        raise ValueError(f"negative {x}")
    return x * 2
---
int
    return {True: "neg", False: "pos"}[x < 0]
---
int
    return int(x < 0) + True, (x < 0) * 5, [1, 2][x < 0], x < 0 == False
---
bytes
    if not x:
        raise ValueError("empty")
    head, tail = x[0], x[1:]
    return head, len(tail), tail[:1] or None
---
bytes
    if len(x) not in (2, 4):
        return None
    return x[0] ^ x[-1]
---
bytes
    for n in (1, 2, 3):
        if len(x) == n:
            return n, x[n - 1]
    return x
---
text
    if x in ("wif", "ab"):
        return {"wif": 1, "ab": 2}[x]
    try:
        return bytes.fromhex(x)
    except ValueError:
        return None
---
text
    try:
        return x.encode("ascii")
    except UnicodeEncodeError as e:
        return type(e).__name__, isinstance(e, ValueError)
---
text
    kw = {"key": x}
    def f(*, key, other=1): return key, other
    return f(**kw), f(key=x, other=2)
---
text
    return getattr(x, "nothing", 5), hasattr(x, "encode"), callable(x), isinstance(x, (bytes, str)), type(x).__name__
---
text
    try:
        return {"ab": 1}[x]
    except KeyError as e:
        return "missing"
---
text
    return x if x else None, x and 1, (x or "d") == "d", bool(x), len(x) > 2, not x == "ab"
---
bytes8
    from typing import NamedTuple
    class P(NamedTuple):
        a: bytes
        b: int = 5
        @property
        def c(self): return self.a + b"!"
        def d(self, k): return self.b + k
    p = P(x[:2])
    q, r = p
    return p.a, p.b, p.c, p.d(x[0]), q, r, p == (x[:2], 5), isinstance(p, tuple), p._replace(b=x[1]).b, P(a=x, b=1)[0], len(p)
---
bytes8
    from typing import NamedTuple
    P = NamedTuple("P", [("a", int), ("b", bytes)])
    return P(1, b=x).b, P(x[0], x)[0]
---
bytes8
    from dataclasses import dataclass, field
    @dataclass(frozen=True)
    class D:
        a: int
        b: bytes = b""
        c: list = field(default_factory=list)
        def total(self): return self.a + len(self.b)
    d = D(x[0], x[1:])
    try:
        d.a = 3
        w = False
    except AttributeError:
        w = True
    return d.total(), d.c, w, d == D(x[0], b=x[1:]), d.b
---
bytes8
    import enum
    class F(enum.IntFlag):
        COMPRESSED = 0x20
        LOT = 0x04
    f = x[0] & F.COMPRESSED
    class T(enum.Enum):
        A = b"\x01\x42"
        B = b"\x01\x43"
    try:
        t = T(x[:2])
    except ValueError:
        t = None
    return bool(f), (F.LOT | 1) == 5, t is None, [m.name for m in T], T.A.value[0]
---
bytes8
    from itertools import chain, islice, takewhile, count, accumulate, zip_longest, repeat, dropwhile, pairwise
    return (list(chain(x[:2], [1])), list(islice(x, 2)), len(list(takewhile(lambda b: b == 0, x))), list(islice(count(3), 2)),
            list(accumulate(x[:3])), list(zip_longest(x[:2], x[:1], fillvalue=9)), list(zip(x[:2], repeat(7))),
            list(dropwhile(lambda b: b < 100, x)), list(pairwise(x[:3])), list(chain.from_iterable([x[:1], [4]])), list(islice(x, 1, 6, 2)))
---
bytes8
    it = iter(x)
    out = []
    for a in it:
        b = next(it)
        out.append(a * 256 + b)
        if a > 100:
            break
    return out, list(it)
---
bytes8
    import operator
    from functools import reduce
    return reduce(operator.add, x), list(map(operator.xor, x[:4], x[4:])), operator.itemgetter(1, 2)(x), sum(map(int, x))
---
bytes8
    class R:
        def __init__(self, v): self.v, self.i = v, 0
        def read(self, n):
            r = self.v[self.i:self.i + n]
            self.i += n
            return r
        def __iter__(self): return self
        def __next__(self):
            if self.i >= len(self.v): raise StopIteration
            return self.read(1)[0]
    r = R(x)
    return r.read(2), r.read(3), list(r)
---
bytes8
    class W:
        def __init__(self, v): self.v = v
        def __add__(self, o): return W(self.v + o.v)
        def __bytes__(self): return self.v
        def __bool__(self): return self.v[0] == 0
        def __call__(self, k): return self.v[k]
        def __contains__(self, k): return k in self.v
        def __hash__(self): return 5
        def __ne__(self, o): return True
        def __str__(self): return self.v.hex()
    w = W(x[:2]) + W(x[2:])
    return bytes(w), bool(w), w(3), 0 in w, w != w, str(w), f"{w}"
---
bytes8
    import io
    s = io.BytesIO(x)
    return s.read(2), s.read(1)[0], s.read(), s.read()
---
bytes8
    v = memoryview(x)
    return bytes(v[:3]), v[4], len(v), v[2:].tobytes()
---
bytes8
    s = x.hex()
    return s[:4], s[2:6], int(s[:2], 16), s[-2:], len(s), s.upper() == s, [int(s[i:i + 2], 16) for i in range(0, 4, 2)], bytes.fromhex(s[4:8])
---
bytes8
    any_bad = any(b > 200 for b in x) or all(b == 0 for b in x)
    first = next((i for i, b in enumerate(x) if b), -1)
    return any_bad, first, max(x, key=lambda b: -b), min(x, default=3), sum(1 for b in x if b == 0)
---
bytes8
    def f(*args, sep=b"-", **kw):
        return sep.join(args) + b"".join(kw.values())
    t = (x[:1], x[1:2])
    return f(*t, sep=b"+", z=x[2:3]), f(), f(x)
---
bytes8
    global_value = [0]
    def bump(n=[]):
        n.append(x[0])
        global_value[0] += 1
        return len(n)
    return bump(), bump(), global_value
---
bytes8
    t = x[:1], *x[1:3], x[3]
    a = b = x[0]
    b += 1
    c: int = 5
    d = [*x[:2], *[1]]
    e = {**{"a": a}, "b": b}
    return t, a, b, c, d, e, -a + +b, a if a < b else c, not a, a == b != c
---
bytes8
    if x[0]:
        pass
    elif x[1]:
        return 1
    else:
        return 2
    try:
        pass
    except Exception:
        return 9
    else:
        for i in []:
            return 5
        else:
            k = 3
    while k:
        k -= 1
        if k == 1:
            break
    else:
        return 7
    return k
---
u32
    b = x.to_bytes(4, "big")
    return b, int.from_bytes(b, "little"), b.hex(), x.bit_count() if False else 0, f"{x:08x}", "%08x" % x, "{:08x}".format(x), format(x, "08x"), hex(x & 15)
---
u32
    r = b""
    while x:
        x, m = x // 256, x % 256
        r = bytes([m]) + r
    return r.rjust(4, b"\0")
---
int
    try:
        return x.to_bytes(4, "big")
    except OverflowError as e:
        return type(e).__name__
---
bytes
    try:
        a, b = x
    except ValueError:
        return None
    return a, b
---
bytes
    n = len(x)
    return (n > 2 and x[2]) or (n == 1 and x[0]) or None
---
bytes
    return x.hex() + "ff", b"".join([x, x[:1]]), bytes(bytearray(x)), x[0:1] + x[1:], x + b"" == x, len(x + b"ab") - 2 == len(x)
---
text
    return x == x.strip() if x in ("ab", "wif") else 0, str(x) == x, x[:1] == "a" if x == "ab" else 1, "ab" == x, x.lower() if x == "ABC" else 2
'''
POOL = {
    "bytes8": lambda r: r.choice([bytes(8), b"\0\0\1\2\3\0\0\0", b"\xff" * 8, bytes(r.randrange(256) for _ in range(8)),
                                  bytes([0, 1, 0x80, 0x7f, 0xff, 0, 0, r.randrange(256)]), b"abcdefgh", b"\1" + bytes(6) + b"\1"]),
    "u32": lambda r: r.choice([0, 1, 4095, 4096, 255, 256, 2 ** 32 - 1, r.getrandbits(32), r.getrandbits(12)]),
    "nat": lambda r: r.choice([0, 1, 57, 58, 255, 256, 2 ** 64, 2 ** 64 - 1, r.getrandbits(100), r.getrandbits(9)]),
    "int": lambda r: r.choice([0, 1, -1, 5, -7, 4095, 4096, 100000, -2 ** 40, r.getrandbits(50), -r.getrandbits(20)]),
    "bytes": lambda r: r.choice([b"", b"a", b"\0\1", b"\0\0\0\1", bytes(r.randrange(256) for _ in range(r.randrange(9)))]),
    "none": lambda r: None,
    "bool": lambda r: r.random() < 0.5,
    "text": lambda r: r.choice(["", "ab", "wif", "0g", "00ff", "\u00e9", "a b", "ABC", "0", "\ud800"]),
}


KINDS = [ValueError, TypeError, OverflowError, AttributeError, KeyError, IndexError, ZeroDivisionError, Exception]


def main():
    libs = "libs" in sys.argv
    cross = libs or "cross" in sys.argv
    sys.argv = [a for a in sys.argv if a not in ("cross", "libs")]
    sys.path.insert(0, "/repo")
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    r = random.Random(seed)
    snips, cases = [], []
    for line in [] if libs else SNIPS.strip().splitlines():
        kind, _, rest = line.partition(":")
        acc = ""
        for s in rest.split(" | "):
            if cross:
                kind = None
            acc = acc + " | " + s if acc else s
            try:
                compile(acc.strip(), "", "eval")
            except SyntaxError:
                continue
            snips.append((kind, acc.strip()))
            acc = ""
    if cross:
        for line in (LIBS if libs else ALIKE).strip().splitlines():
            acc = ""
            for s in line.split(" | "):
                acc = acc + " | " + s if acc else s
                try:
                    compile(acc.strip(), "", "eval")
                except SyntaxError:
                    continue
                snips.append((None, acc.strip()))
                acc = ""
        snips = [(k, s) for s in sorted({s for _, s in snips}) for k in POOL]
    else:
        snips += [tuple(p.strip("\n").split("\n", 1)) for p in PROGS.strip().split("\n---\n")]
    if libs:
        POOL["bytes32"] = lambda r: r.choice([bytes(32), bytes(31) + b"\1", b"\xff" * 32, r.randbytes(32), bytes.fromhex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")])
        POOL["bytes33"] = lambda r: r.choice([bytes(33), b"\2" + bytes.fromhex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), r.randbytes(33), b"\3" + r.randbytes(32)])
        snips = [(k, s) for s in sorted({s for _, s in snips}) for k in POOL]
    src = [LIBSRC if libs else "import struct, binascii"]
    th = ["from bip38 import snip", "from prim import assume, outcome, same_value, raised", "METHODS = []", "INLINE = {}"]
    for i, (kind, s) in enumerate(snips):
        src.append(f"def f{i}(x):\n" + (s if s.startswith("    ") else f"    return {s}"))
    env = {}
    exec("\n".join(src), env)
    for i, (kind, s) in enumerate(snips):
        seen = []
        for j in range(2 if cross else 6):
            v = POOL[kind](r)
            if cross and kind in ("u32", "nat", "int"):
                v = r.choice([0, 1, 5, 58, 255, 256, 4096] + [-1, -7, -300] * (kind == "int"))
            if v in seen:
                continue
            seen.append(v)
            th.append(f"def t_{i}_{j}(x: {kind!r}):\n    assume(x == {v!r})\n    got = outcome(snip.f{i}, x)")
            try:
                e = env[f"f{i}"](v)
                if isinstance(e, bytearray):
                    continue
                if libs:
                    # results are terms over uninterpreted functions: only refutable, so the opposite must not be provable
                    th.append(f"    assert not (got[0] == 'ok' and same_value(got[1], {e!r}))")
                    cases.append((f"t_{i}_{j}", kind, s, v, e))
                    continue
                th.append(f"    assert got[0] == 'ok'\n    assert same_value(got[1], {e!r})")
            except Exception as ex:
                e = type(ex).__name__
                k = next(k.__name__ for k in KINDS if isinstance(ex, k))
                if libs:
                    th.append("    assert got[0] != 'exc'" if k == "Exception" else f"    assert not (got[0] == 'exc' and raised(got, {k!r}))")
                    cases.append((f"t_{i}_{j}", kind, s, v, e))
                    continue
                th.append("    assert got[0] == 'exc'")
                if k != "Exception":
                    th.append(f"    assert raised(got, {k!r})")
            cases.append((f"t_{i}_{j}", kind, s, v, e))
    d = tempfile.mkdtemp(prefix="conform")
    try:
        shutil.copytree(V, d + "/v", ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "__pycache__"))
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        open(d + "/repo/bip38/snip.py", "w").write("\n".join(src) + "\n")
        open(d + "/v/contracts/theorems.py", "w").write("\n".join(th) + "\n")
        json.dump([c[0] for c in cases], open(d + "/cases.json", "w"))
        open(d + "/run.py", "w").write(f'''
import sys, json
sys.path.insert(0, {d!r} + "/v")
sys.setrecursionlimit(20000)
from engine import verify
e = verify.Engine(repo={d!r} + "/repo")
for n in json.load(open({d!r} + "/cases.json")):
    try:
        r = e.verify_theorem(n, frozenset(e.contracts), budget=20)
        print(n, r.status, r.ok_paths + r.rejecting_paths if hasattr(r, "ok_paths") else "", r.paths, (r.error or "")[:120].replace(chr(10), " "), flush=True)
    except Exception as ex:
        print(n, "crash", 0, 0, repr(ex)[:150], flush=True)
''')
        p = subprocess.run(["python3-vt", "-B", d + "/run.py"], capture_output=True, text=True)
        by = {l.split(" ")[0]: l.split(" ", 4) for l in p.stdout.splitlines()}
        n = {}
        unsup = {}
        for t, kind, s, v, e in cases:
            g = by.get(t)
            if not by:
                sys.exit(p.stderr[-2000:])
            st = g[1] if g else "missing"
            if libs:
                st = "proved" if st == "refuted" else "refuted" if st == "proved" else st
            n[st] = n.get(st, 0) + 1
            if st == "undecided":
                unsup.setdefault(f"{kind}: {s}", []).append((v, g[4]))
            elif st != "proved":
                print("WRONG" if st == "refuted" else st, kind, "|", s, "| x =", ascii(v), "| CPython:", ascii(e), "|", g)
        for k, why in unsup.items():
            print("undecided", k, "|", ascii(why[0][0]), "|", why[0][1], f"({len(why)})")
        print(n, p.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True) if not os.environ.get('KEEP') else print(d)


main()
