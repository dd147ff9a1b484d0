"""Runs theorems on the real code: counterexample replay, bounded search, histories.

Run by /opt/venv/bin/python (the interpreter and libraries /repo is used with):
  native.py search JOB.json OUT.json     seeded search for a failing input
  native.py replay CASE.json             exit 1 when the recorded case fails on the current source, 0 when it does not
A trial is determined by (theorem, decision seed, value seed): the generator below makes the arguments from them.
"""
import ast
import hashlib
import importlib
import json
import multiprocessing
import os
import random as _random
import signal
import subprocess
import sys
import time
import traceback
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HISTORY = "h16_history"
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


# ---------------------------------------------------------------- loading the real code
class World:
    pass


W = World()
real_urandom = os.urandom
_draw_rng = None
_trace_on = False


def _urandom(n):
    if not _trace_on:
        return real_urandom(n)
    if W.fixed_draws:
        b = W.fixed_draws.pop(0)
        b = b if len(b) == n else real_urandom(n)
    elif _draw_rng is not None:
        b = bytes(_draw_rng.getrandbits(8) for _ in range(n))
        if n and _draw_rng.random() < 0.1:
            b = b"\0" + b[1:]
    else:
        b = real_urandom(n)
    W.prim.DRAWS.append(b)
    return b


def load(fast, memo=True):
    """Imports the package and the theorems with the environment instrumented."""
    global _trace_on
    sys.path[:0] = [REPO, HERE, os.path.join(HERE, "engine")]
    import nprim
    prim = W.prim = nprim
    prim.FAST = fast
    sys.modules["prim"] = prim
    os.urandom = _urandom
    os.getrandom = lambda n, flags=0: _urandom(n)
    import random
    random._urandom = _urandom
    W.fixed_draws = []

    def watch(name):
        f = getattr(random, name)

        def g(*a, **k):
            if _trace_on:
                prim.OTHER.append("random." + name)
            return f(*a, **k)
        setattr(random, name, g)
    for n in ("random", "randint", "randrange", "getrandbits", "randbytes", "choice", "choices", "sample", "shuffle",
              "uniform"):
        watch(n)
    import scrypt

    real_hash = scrypt.hash

    def spy(password, salt, N=1 << 14, r=8, p=1, buflen=64):
        pw = password.encode("utf-8") if isinstance(password, str) else password
        sa = salt.encode("utf-8") if isinstance(salt, str) else salt
        if not all(isinstance(x, int) for x in (N, r, p, buflen)) or not isinstance(pw, (bytes, bytearray)) or \
                not isinstance(sa, (bytes, bytearray)) or N < 2 or N & (N - 1) or r < 1 or p < 1 or buflen < 1:
            return real_hash(password, salt, N, r, p, buflen)
        if _trace_on and (N, r, p) != (1024, 1, 1):
            prim.SCRYPTS.append(bytes(pw))
        if not memo and not fast:
            return real_hash(password, salt, N, r, p, buflen)
        return prim.scrypt(pw, sa, N, r, p, buflen)
    scrypt.hash = spy
    hs = hashlib.scrypt
    prim.real_scrypt = hs

    def hscrypt(password, *, salt, n, r, p, maxmem=0, dklen=64):
        if _trace_on and (n, r, p) != (1024, 1, 1):
            prim.SCRYPTS.append(bytes(password))
        if fast:
            return prim.scrypt(password, salt, n, r, p, dklen)
        return hs(password, salt=salt, n=n, r=r, p=p, maxmem=maxmem, dklen=dklen)
    hashlib.scrypt = hscrypt
    sys.dont_write_bytecode = True
    W.th = importlib.import_module("contracts.theorems")
    W.spec = importlib.import_module("contracts.spec")
    import bip38.cryptocurrencies as cc
    import bip38.exceptions
    W.cc = cc
    W.coins = sorted((c for c in vars(cc).values() if isinstance(c, type) and issubclass(c, cc.ICryptocurrency)
                      and c is not cc.ICryptocurrency and isinstance(getattr(c, "NETWORKS", None), dict)
                      and c.NETWORKS), key=lambda c: c.__name__)
    W.pool = mine()
    _trace_on = True


class SharedObjects:
    """Stands for the BIP38 class in the theorems: one object per set of arguments, kept from trial to trial."""
    def __init__(self, real):
        self.real, self.made = real, {}

    def __call__(self, *a, **k):
        key = (repr(a), repr(sorted(k.items())))
        if key not in self.made:
            self.made[key] = self.real(*a, **k)
        return self.made[key]

    def __getattr__(self, name):
        return getattr(self.real, name)


def share_objects():
    W.th.BIP38 = SharedObjects(W.th.BIP38)


def mine():
    """Constants of the current source: candidates for the values a change may depend on."""
    ints, texts, blobs = set(), set(), set()
    for top, _, files in os.walk(os.path.join(REPO, "bip38")):
        for f in files:
            if f.endswith(".py") and f not in ("cryptocurrencies.py", "ripemd160.py"):
                try:
                    t = ast.parse(open(os.path.join(top, f), encoding="utf-8").read())
                except (SyntaxError, OSError):
                    continue
                doc = {id(n.value) for n in ast.walk(t) if isinstance(n, ast.Expr)}
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and id(n) not in doc:
                        v = n.value
                        if isinstance(v, bool):
                            continue
                        if isinstance(v, int):
                            ints.add(v)
                        elif isinstance(v, str) and len(v) < 60:
                            texts.add(v)
                        elif isinstance(v, bytes) and len(v) < 60:
                            blobs.add(v)
    return dict(ints=sorted(ints), texts=sorted(texts), blobs=sorted(blobs))


# ---------------------------------------------------------------- generators
PASS = [
    "TestingOneTwoThree", "Satoshi", "MOLON LABE", "\u03d2\u0301\u0000\U00010400\U0001f4a9", "", "a", " ", "\0", "a\0b",
    "\0a", "a\0", "pass word", " leading", "trailing ", "trailing\n", "\ttab\t", "\r\n", "UPPER", "upper", "MiXeD",
    "\u00e9", "e\u0301", "\u212b", "A\u030a", "\u00c5", "\ufb01n", "\uff21", "\u00df", "\u0130", "\u1e9e", "\u2460",
    "\u00b2", "\u200d", "\ufeffbom", "\u00a0", "\u3000", "\u0344", "\u1100\u1161", "\uac00", "\u0958", "\u2126", "q\u0307\u0323",
    "q\u0323\u0307", "\U0001d15e", "\ufa0c", "0", "00", "deadbeef", "0x00", "12345678", "x" * 31, "x" * 32, "x" * 33,
    "x" * 63, "x" * 64, "x" * 65, "x" * 72, "x" * 73, "x" * 127, "x" * 128, "x" * 129, "x" * 255, "x" * 256, "y" * 300,
    "\u00e9" * 64, "e\u0301" * 40, "\U0001f4a9" * 33, "None", "null", "\\x00", "%s", "{}", "'", '"', "\x7f", "\x80", "\u0085",
    "a\u0301\u0327", "a\u0327\u0301", "\u0390", "\u03b9\u0308\u0301", "\u1e9b\u0323", "\u1e69", "ss", "\u2002", "\ud800", "a\udfffb",
]
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


class Gen:
    """Argument generator; d decides shapes, r draws values."""

    def __init__(self, dseed, rseed, hints=None):
        self.d = _random.Random(f"d{dseed}")
        self.r = _random.Random(f"r{rseed}")
        self.hints = hints or {}
        self.env = {}

    def pick(self, xs):
        return xs[self.d.randrange(len(xs))]

    def chance(self, p):
        return self.d.random() < p

    def raw(self, n):
        return bytes(self.r.getrandbits(8) for _ in range(n))

    # -- values
    def blob(self, n):
        b = self.raw(n)
        if not n:
            return b
        t = self.d.randrange(14)
        if t == 0:
            return b"\0" * n
        if t == 1:
            return b"\xff" * n
        if t == 2:
            k = self.d.randrange(1, n + 1)
            return b"\0" * k + b[k:]
        if t == 3:
            k = self.d.randrange(1, n + 1)
            return b[:n - k] + b"\0" * k
        if t == 4:
            return b"\0" * (n - 1) + b"\x01"
        if t == 5:
            i = self.d.randrange(n)
            return b[:i] + b"\0" + b[i + 1:]
        if t == 6 and W.pool["blobs"]:
            return (self.pick(W.pool["blobs"]) + b)[:n]
        if t == 7:
            return (b"0123456789abcdef" * 9)[:n]
        if t == 8:
            return b"\x80" + b[1:] if self.chance(0.5) else b[:-1] + self.pick([b"\x80", b"\x01", b"\n", b" ", b"\xff"])
        return b

    def integer(self, lo=None):
        t = self.d.randrange(6)
        if t == 0:
            v = self.pick([0, 1, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 2 ** 24, 2 ** 32 - 1, 2 ** 32, 2 ** 64])
        elif t == 1:
            v = self.pick(W.pool["ints"]) + self.pick([-1, 0, 1])
        elif t == 2:
            v = 256 ** self.d.randrange(0, 70) + self.pick([-1, 0, 1])
        elif t == 3:
            v = self.r.getrandbits(self.d.randrange(1, 600))
        elif t == 4:
            v = self.r.getrandbits(256)
        else:
            v = self.r.getrandbits(self.d.randrange(1, 40))
        if lo is None:
            return -v if self.chance(0.1) else v
        return max(lo, abs(v))

    def scalar(self):
        t = self.d.randrange(12)
        v = self.r.getrandbits(256) % (N - 1) + 1
        if t == 0:
            v = self.pick([1, 2, 3, 255, 256, N - 1, N - 2, N // 2, N // 2 + 1, 2 ** 255, 2 ** 248, 2 ** 128])
        elif t in (1, 2):
            v = v >> (8 * self.d.randrange(1, 31)) or 1
        elif t == 3:
            k = 8 * self.d.randrange(1, 31)
            v = (v >> k << k) or 1
        elif t == 4:
            v = (v >> 8 << 8 | self.pick([0, 1, 0x80, 0xff])) or 1
        return v if 0 < v < N else 1

    def passphrase(self):
        t = self.d.randrange(10)
        if t < 5:
            return self.pick(PASS)
        if t == 5 and W.pool["texts"]:
            return self.pick(W.pool["texts"])
        if t == 6:
            n = self.d.choice([1, 5, 8, 16, 40, 64, 65, 100, 200])
            return "".join(chr(self.r.randrange(32, 127)) for _ in range(n))
        if t == 7:
            return "".join(chr(self.r.choice([self.r.randrange(1, 0x250), self.r.randrange(0x300, 0x370),
                                              self.r.randrange(0x1e00, 0x2100), self.r.randrange(0xac00, 0xad00)]))
                           for _ in range(self.d.randrange(1, 9)))
        if t == 8:
            n = self.d.choice([1, 2, 7, 8, 15, 16, 20, 31, 32, 33, 40, 63, 64, 65, 72, 100, 127, 128, 129, 255, 256, 400])
            a = self.pick(["x", "0", "Pass", "\u00e9", "correct horse battery staple "])
            return (a * n)[:n] + self.pick(PASS)
        return f"pass{self.r.getrandbits(40)}"

    def variant(self, p):
        """A passphrase close to p: same NFC form or nearly so."""
        import unicodedata as u
        t = self.d.randrange(9)
        if t < 3:
            return u.normalize(self.pick(["NFD", "NFC"]), p)
        if t == 3:
            return u.normalize(self.pick(["NFKC", "NFKD"]), p)
        if t == 4:
            return p.swapcase()
        if t == 5:
            return p.strip() if p.strip() != p else p + " "
        if t == 6:
            return p.split("\0")[0]
        if t == 7:
            return p[:64] if len(p) > 64 else p + "\0"
        return p

    def coin(self):
        if self.chance(0.35):
            for c in W.coins:
                if c.__name__ == "Bitcoin":
                    return c
        return self.pick(W.coins)

    def network(self):
        coin = self.env.get("coin") or W.coins[0]
        return self.pick(sorted(coin.NETWORKS))

    def name(self):
        t = self.d.randrange(10)
        if t < 7:
            return self.network()
        if t == 7:
            return self.pick(["mainnet", "testnet", "regtest", "MAINNET", "Mainnet", "main", " mainnet", "unknown", "stagenet"])
        if t == 8 and [x for x in W.pool["texts"] if x]:
            return self.pick([x for x in W.pool["texts"] if x])
        if self.chance(0.5):
            return self.pick(["testn\u00e9t", "", "\ud800", "\uff4dainnet", "ma\u0131nnet", "MA\u0130NNET", "mai\u0301nnet",
                              "0", "None", "m", "wif", "Bitcoin", "main net", "m" * 300, "mainnet\u200b", "\U0001f4a9"])
        return self.network() + self.pick([" ", "x", "\0", "\n"])

    # -- Base58Check strings
    def net(self):
        e = self.env
        n = e.get("net")
        if n is None:
            n = e.get("default")
        coin = e.get("coin")
        if coin is not None and n in coin.NETWORKS:
            return n
        return None

    def where(self):
        """(coin, network) a string is made for: usually the ones of the call."""
        coin, n = self.env.get("coin"), self.net()
        if coin is None or n is None or self.chance(0.1):
            coin = self.pick(W.coins)
            n = self.pick(sorted(coin.NETWORKS))
        return coin, n

    def wif_raw(self):
        coin, n = self.where()
        p = self.env.get("prefix")
        if p is None or self.chance(0.1):
            p = coin.NETWORKS[n]["wif_prefix"]
        k = W.prim.i2osp(self.scalar(), 32)
        if self.chance(0.05):
            k = W.prim.i2osp(self.pick([0, N, N + 1, 2 ** 256 - 1]), 32)
        return W.prim.minbytes(p) + k + (b"\x01" if self.chance(0.5) else b"")

    def enc_pass(self):
        p = self.env.get("passphrase", self.env.get("p"))
        if p is None:
            p = self.passphrase()
        elif self.chance(0.15):
            p = self.variant(p)
        elif self.chance(0.1):
            p = self.passphrase()
        return p if W.prim.encodable(p) else "fallback"

    def lot_seq(self):
        if self.chance(0.5):
            return None, None
        return self.good_lot(), self.good_seq()

    def good_lot(self):
        v = self.pick([100000, 100001, 999999, 999998, 263183, 567885, 131072, 524288, 0, 0, 0])
        return v or self.r.randrange(100000, 1000000)

    def good_seq(self):
        return self.pick([0, 1, 4095, 4094, 255, 256, 2048, self.r.randrange(4096), self.r.randrange(4096)])

    def inter(self):
        lot, seq = self.lot_seq()
        salt = self.blob(8 if lot is None or self.chance(0.5) else 4)
        return W.spec.intermediate(self.enc_pass(), lot, seq, salt)

    def created(self):
        coin, n = self.where()
        return W.spec.create(coin, n, self.inter(), self.pick(["wif", "wif-compressed"]), self.blob(24), None)

    def text_of(self, role):
        """A valid string of the role, or None."""
        prim, spec = W.prim, W.spec
        try:
            if role == "wif":
                return spec.b58_check_encode(self.wif_raw())
            if role == "enc":
                coin, n = self.where()
                if self.chance(0.4):
                    w = spec.b58_check_encode(prim.minbytes(coin.NETWORKS[n]["wif_prefix"]) +
                                              prim.i2osp(self.scalar(), 32) + (b"\x01" if self.chance(0.5) else b""))
                    return spec.encrypt(coin, n, w, self.enc_pass(), None)
                return self.created()["encrypted_wif"]
            if role == "confirmation":
                return self.created()["confirmation_code"]
            if role == "intermediate":
                return self.inter()
            if role == "address":
                coin, n = self.where()
                p = self.env.get("prefix")
                if p is None or self.chance(0.1):
                    p = coin.NETWORKS[n]["address_prefix"]
                a = self.env.get("alphabet") or B58
                return spec.b58_check_encode(prim.minbytes(p) + self.blob(20), a)
        except prim.SpecReject:
            return None
        return None

    def mutate(self, s):
        """A string derived from s: byte-level change with a fresh or stale checksum, or a character-level change."""
        prim = W.prim
        t = self.d.randrange(20)
        if not s:
            return s
        if t < 9:
            raw = prim.b58dec(s) if prim.is58(s) else b"\0\0\0\0\0"
            body, chk = raw[:-4], raw[-4:]
            if t == 0 and body:
                i = self.d.randrange(len(body))
                body = body[:i] + bytes([body[i] ^ (1 << self.d.randrange(8))]) + body[i + 1:]
            elif t == 1 and body:
                i = self.d.randrange(min(12, len(body)))
                body = body[:i] + bytes([self.d.randrange(256)]) + body[i + 1:]
            elif t == 2:
                body = body + self.blob(self.pick([1, 2, 4]))
            elif t == 3:
                body = body[:-self.pick([1, 2, 4])]
            elif t == 4 and self.chance(0.5):
                body = body[1:] if self.chance(0.5) else b"\0" + body
            elif t == 4:
                i, k = self.pick([1, 2, 3, 5, 7, 11, 13, 15, 18, 23, 31]), self.pick([1, 2, 4, 8, 16])
                k = min(k, max(0, len(body) - i))
                body = body[:i] + self.pick([b"\0", b"\xff", b"\x01"]) * k + body[i + k:]
            elif t == 5 and body:
                body = body[:-1] + bytes([self.pick([0, 1, 2, 3, 0x80, 0xff])])
            elif t == 6 and len(raw) > 4:
                i = self.d.randrange(4)
                chk = bytearray(chk)
                chk[i] ^= 1 << self.d.randrange(8)
                return prim.b58enc(body + bytes(chk))
            elif t == 7 and len(body) > 4:
                i = self.d.randrange(len(body))
                body = body[:i] + bytes([body[i] ^ (1 << self.d.randrange(8))]) + body[i + 1:]
                return prim.b58enc(body + chk)
            elif self.chance(0.5):
                h = hashlib.sha256(body).digest()
                hh = hashlib.sha256(h).digest()
                chk = self.pick([h[:4], h[-4:], hh[-4:], hh[:4][::-1], b"\0\0\0\0", hh[:3] + b"\0", b"\0" + hh[1:4],
                                 hh[:2] + chk[2:][::-1], hashlib.sha256(hh).digest()[:4]])
                return prim.b58enc(body + chk)
            else:
                k = self.pick([2, 3, 5, 8])
                body = self.raw(k) + body[k:]
            return W.spec.b58_check_encode(body)
        i = self.d.randrange(len(s))
        if t == 9:
            return s[:i] + self.pick(B58) + s[i + 1:]
        if t == 10:
            return s[:i] + self.pick("0OIl+/ \u00e9\n\u0661-_\u200b") + s[i + 1:]
        if t == 11:
            return "1" + s if self.chance(0.5) else s.lstrip("1")
        if t == 12:
            return self.pick([" ", "\n", "\t", "\u00a0"]) + s if self.chance(0.5) else s + self.pick([" ", "\n", "\0", "l", "0"])
        if t == 13:
            return s[:-self.pick([1, 2, 5])]
        if t == 14:
            return s + self.pick(B58)
        if t == 15:
            return s[:i] + s[i:i + 1].swapcase() + s[i + 1:]
        if t == 16:
            j = self.d.randrange(len(s))
            a = list(s)
            a[i], a[j] = a[j], a[i]
            return "".join(a)
        if t == 17:
            return s[:i] + s[i + 1:]
        if t == 18:
            return s[:i] + self.pick("0OIl ") + s[i:]
        return self.pick(["", "1", "z", "111111", s.upper(), s.lower(), s[::-1], s * 2, s[:i]])

    def role(self, name):
        if name in ("wif", "enc", "address"):
            return name
        t = W.theorem
        if name in ("code", "confirmation_code"):
            return "intermediate" if "create" in t or t.startswith("c04") or "seed" in t else "confirmation"
        if name == "text" and "confirm" in self.env:
            return "confirmation" if self.env["confirm"] else "enc"
        return None

    def text(self, name):
        if name in ("passphrase", "p"):
            return self.passphrase()
        if name == "q":
            return self.variant(self.env["p"])
        if name in ("wif_type", "kind"):
            return self.pick(["wif", "wif-compressed"] * 5 + ["WIF", "", "compressed", "uncompressed", "wif-uncompressed", "wif "])
        if name in ("name", "net", "network"):
            return self.name()
        if name == "key":
            return self.pick([self.blob(32).hex(), self.blob(32).hex().upper(), self.blob(31).hex(), self.blob(33).hex(), "",
                              "zz" * 32, self.blob(32).hex()[1:], " " + self.blob(32).hex()])
        role = self.role(name)
        if role is None and name == "data":
            t = self.d.randrange(4)
            if t == 0:
                return self.passphrase()
            h = self.blob(self.d.choice([0, 1, 2, 20, 32, 33, 64, 65])).hex()
            return h if t == 1 else h.upper() if t == 2 else h[:-1]
        if role is None:
            role = self.pick(["wif", "enc", "confirmation", "intermediate", "address"])
        if self.chance(0.08):
            role = self.pick(["wif", "enc", "confirmation", "intermediate", "address"])
        s = self.text_of(role)
        if s is None:
            s = W.spec.b58_check_encode(self.blob(self.d.choice([0, 1, 4, 33, 39, 49, 51])))
        alpha = self.env.get("alphabet")
        if alpha and alpha != B58 and self.chance(0.7) and W.prim.is58(s):
            s = s.translate(str.maketrans(B58, alpha))
        bad = W.theorem.startswith("c08")
        k = 0
        while self.chance(0.9 if bad and k == 0 else 0.45) and k < 3:
            s = self.mutate(s)
            k += 1
        if self.chance(0.03):
            s = self.pick(["", "l", "0", "é", "1" * 60, "z" * 58, "6P", "\0", "\ud800"])
        return s

    def make1(self, k, name):
        if k == "none":
            return None
        if k == "bool":
            return self.chance(0.5)
        if k == "coin":
            return self.coin()
        if k == "network":
            return self.network()
        if k == "name":
            return self.name() or "x"
        if k in ("text", "text1"):
            if name in ("owner_salt", "seed"):
                n = {"owner_salt": self.pick([4, 8, 8, 7, 9, 3]), "seed": self.pick([24, 24, 24, 23, 25, 8])}[name]
                h = self.blob(n).hex()
                h = self.pick([h, h, h.upper(), h[:-1], " " + h, "zz" + h[2:], "0x" + h, self.passphrase()])
                return h or "x"
            s = self.text(name)
            return s if s or k == "text" else "x"
        if k in ("nat", "pos", "int"):
            if name == "lot":
                t = self.d.randrange(8)
                return self.good_lot() if t < 4 else self.pick([0, 1, -1, 99999, 1000000, 100000, 999999, -100000, 2 ** 32, 2 ** 64]) \
                    if t < 7 else self.integer()
            if name == "sequence":
                t = self.d.randrange(8)
                return self.good_seq() if t < 4 else self.pick([0, 1, -1, 4095, 4096, 4097, -4095, 2 ** 32]) if t < 7 else self.integer()
            if name == "n":
                return self.d.choice([1, 2, 3, 4, 8, 16, 31, 32, 33, 64]) if self.chance(0.8) else self.d.randrange(1, 100)
            return self.integer({"nat": 0, "pos": 1, "int": None}[k])
        if k == "prefix":
            if self.chance(0.6):
                c = self.coin()
                return c.NETWORKS[self.pick(sorted(c.NETWORKS))][self.pick(["wif_prefix", "address_prefix"])]
            return self.pick([0, 1, 127, 128, 255, 256, 257, 0xff00, 65535, self.r.randrange(65536), self.r.randrange(256)])
        if k in ("bytes", "bytes+"):
            if name == "owner_salt":
                n = self.pick([8, 8, 8, 4, 4, 7, 9, 3, 5, 16])
            elif name == "seed":
                n = self.pick([24] * 6 + [23, 25, 16, 32, 8, 1])
            elif name == "key":
                n = self.pick([32] * 6 + [31, 33, 1, 64])
            elif W.theorem == "c14_private":
                return self.private_bytes()
            elif W.theorem == "c14_public":
                return self.public_bytes()
            else:
                n = self.pick([0, 1, 2, 3, 4, 5, 8, 16, 20, 21, 25, 32, 33, 37, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 200,
                               300, self.d.randrange(1, 80)])
            return self.blob(max(n, 1) if k == "bytes+" else n)
        if k.startswith("bytes"):
            n = int(k[5:])
            if name == "key" and n == 32:
                return self.blob(32) if self.chance(0.4) else W.prim.i2osp(self.scalar(), 32)
            return self.blob(n)
        if k == "scalar":
            return self.scalar()
        if k.startswith("u"):
            if name == "lot":
                return self.good_lot()
            if name == "sequence":
                return self.good_seq()
            n = int(k[1:])
            t = self.d.randrange(8)
            if t == 0:
                return self.pick([0, 1, 2, N - 1, N, N + 1, 2 ** n - 1, 2 ** (n - 1), 2 ** (n // 2)]) % 2 ** n
            if t == 1:
                return self.r.getrandbits(n) >> self.d.randrange(n)
            return self.r.getrandbits(n)
        if k.startswith("'"):
            return k.strip("'")
        return int(k)

    def private_bytes(self):
        t = self.d.randrange(8)
        if t < 4:
            return W.prim.i2osp(self.scalar(), 32)
        if t < 6:
            return W.prim.i2osp(self.pick([0, N, N + 1, N - 1, 2 ** 256 - 1, 1]), 32)
        return self.blob(self.pick([0, 1, 31, 33, 64]))

    def public_bytes(self):
        prim = W.prim
        p = prim.pt(self.scalar())
        t = self.d.randrange(9)
        x, y = prim.i2osp(p.x, 32), prim.i2osp(p.y, 32)
        b = [prim.pt_ser(p, True), prim.pt_ser(p, True), prim.pt_ser(p, False), x + y, bytes([6 + p.y % 2]) + x + y,
             bytes([7 - p.y % 2]) + x + y, prim.pt_ser(p, True), prim.pt_ser(p, False), b"\x04" + self.raw(64)][t]
        if t >= 6 and self.chance(0.7):
            u = self.d.randrange(6)
            if u == 0:
                b = b[:-1]
            elif u == 1:
                b = b + b"\0"
            elif u == 2:
                b = bytes([self.d.randrange(256)]) + b[1:]
            elif u == 3:
                i = self.d.randrange(1, len(b))
                b = b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]
            elif u == 4:
                b = b[:1] + b"\xff" * 32 + b[33:]
            else:
                b = b[:1] + b"\0" * (len(b) - 1)
        return b

    def belongs(self, kind, v):
        """Whether v is in the domain `kind`: a hint may have been made for other values of the other parameters."""
        if kind == "alphabet":
            from contracts import kindconst
            return v in kindconst.ALPHABETS
        return any(self.belongs1(k, v) for k in kind.split("|"))

    def belongs1(self, k, v):
        text, blob = isinstance(v, str), isinstance(v, bytes)
        num = isinstance(v, int) and not isinstance(v, bool)
        if k == "none":
            return v is None
        if k == "bool":
            return isinstance(v, bool)
        if k == "coin":
            return v in W.coins
        if k == "network":
            return text and v in self.env["coin"].NETWORKS
        if k == "text":
            return text
        if k in ("text1", "name"):
            return text and v != ""
        if k in ("nat", "pos", "int"):
            return num and (k == "int" or v >= (k == "pos"))
        if k == "prefix":
            return num and 0 <= v < 65536
        if k in ("bytes", "bytes+"):
            return blob and (k == "bytes" or v != b"")
        if k.startswith("bytes"):
            return blob and len(v) == int(k[5:])
        if k == "scalar":
            return num and 0 < v < N
        if k.startswith("u"):
            return num and 0 <= v < 2 ** int(k[1:])
        if k.startswith("'"):
            return text and v == k.strip("'")
        return num and v == int(k)

    def make(self, kind, name):
        if name in self.hints and self.belongs(kind, self.hints[name]):
            return self.hints[name]
        if kind == "alphabet":
            from contracts import kindconst
            return self.pick(kindconst.ALPHABETS)
        alts = kind.split("|")
        k = self.pick(alts)
        if k == "none" and len(alts) > 1 and self.chance(0.3):
            k = self.pick(alts)
        return self.make1(k, name)

    def args(self, fn):
        W.theorem = fn.__name__
        params = list(fn.__annotations__.items())
        # strings are made for the currency, network, prefix and passphrase of the call
        late = {"wif": 1, "enc": 1, "code": 1, "address": 1, "text": 1, "q": 1}
        order = sorted(params, key=lambda p: late.get(p[0], 0))
        for n, k in order:
            v = self.make(k, n)
            if k == "scalar" and n == "b" and isinstance(self.env.get("a"), int) and self.chance(0.2):
                v = self.pick([self.env["a"], N - self.env["a"]])
            self.env[n] = v
        return {n: self.env[n] for n, _ in params}


# ---------------------------------------------------------------- one trial
class Result:
    def __init__(self, status, detail="", line=None):
        self.status, self.detail, self.line = status, detail, line


def _alarm(*_):
    raise W.prim.Stop()


def run_theorem(name, args, limit=60):
    fn = getattr(W.th, name)
    W.prim.DRAWS.clear()
    W.prim.OTHER.clear()
    W.prim.SCRYPTS.clear()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(**args)
        if name.startswith("c13_"):
            have = hashlib.algorithms_available
            hashlib.algorithms_available = set(have) - {"ripemd160"}       # as on a host without RIPEMD-160
            try:
                fn(**args)
            finally:
                hashlib.algorithms_available = have
        return Result("ok")
    except (W.prim.Skip, W.prim.Undefined):
        return Result("skip")
    except W.prim.Stop:
        return Result("fail", f"no result after {limit} s")
    except (W.prim.SpecFailed, KeyboardInterrupt):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        mine_ = [f for f in tb if f.filename.endswith("contracts/theorems.py")]
        where = mine_[-1] if mine_ else tb[-1]
        loc = {}
        t = e.__traceback__
        while t is not None:
            if t.tb_frame.f_code.co_name == name:
                loc = {k: short(v) for k, v in t.tb_frame.f_locals.items() if isinstance(v, tuple)}
            t = t.tb_next
        kind = "assertion fails" if isinstance(e, AssertionError) and tb[-1].filename.endswith("theorems.py") else \
            f"{type(e).__name__}: {e} escapes"
        return Result("fail", f"{kind}: {where.line}; {loc}", where.lineno)
    finally:
        signal.alarm(0)


def short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def trial(name, dseed, rseed, hints=None):
    """(result, args)"""
    global _draw_rng, _trace_on
    fn = getattr(W.th, name, None)
    _trace_on = False
    if name == HISTORY:
        try:
            g = Gen(dseed, rseed, hints)
            W.theorem = name
            try:
                h = make_history(g)
            except W.prim.SpecReject:
                return Result("skip"), None
        finally:
            _trace_on = True
        return run_history(h), h
    try:
        g = Gen(dseed, rseed, hints)
        try:
            args = g.args(fn)
        except W.prim.SpecReject:
            return Result("skip"), None
    finally:
        _trace_on = True
    _draw_rng = _random.Random(f"u{rseed}")
    return run_theorem(name, args, allowance(args)), args


def allowance(args, limit=60):
    """Seconds after which a call counts as not returning."""
    return limit + sum(len(v) for v in args.values() if isinstance(v, (bytes, str))) // 4000


# ---------------------------------------------------------------- histories (C16)
def _calls():
    from bip38 import BIP38, wif, p2pkh_address, crypto, utils
    from bip38.libs import base58
    return dict(
        wif=wif.private_key_to_wif, key=wif.wif_to_private_key, type=wif.get_wif_type, checksum=wif.get_wif_checksum,
        addr=p2pkh_address.P2PKHAddress.encode, unaddr=p2pkh_address.P2PKHAddress.decode, enc58=base58.check_encode,
        dec58=base58.check_decode, hash160=crypto.hash160, checksum4=crypto.get_checksum, get_bytes=utils.get_bytes,
        int_bytes=utils.integer_to_bytes, intermediate=BIP38.intermediate_code)


def make_history(g):
    """A sequence of operations on a few objects, over small pools of values so that calls share arguments."""
    spec, prim = W.spec, W.prim
    a = g.coin()
    if g.chance(0.4):
        multi = [c for c in W.coins if len(c.NETWORKS) > 1]
        a = g.pick(multi) if multi else a
    b = g.coin() if g.chance(0.5) else a
    objects = [[c, g.pick(sorted(c.NETWORKS))] for c in (a, a, b)]
    ps = [g.passphrase() for _ in range(2)]
    ps = [p if prim.encodable(p) else "fallback" for p in ps]
    keys = [g.scalar() for _ in range(2)]
    inters, encs, confs, wifs = [], [], [], []
    for p in ps:
        lot, seq = g.lot_seq()
        salt = g.blob(8)
        inters.append(spec.intermediate(p, lot, seq, salt))
        c, n = g.pick(objects)
        n = g.pick(sorted(c.NETWORKS))
        try:
            m = spec.create(c, n, inters[-1], g.pick(["wif", "wif-compressed"]), g.blob(24), None)
            encs.append(m["encrypted_wif"])
            confs.append(m["confirmation_code"])
        except prim.SpecReject:
            pass
    for k in keys:
        c = g.pick(objects)[0]
        n = g.pick(sorted(c.NETWORKS))
        wifs.append(spec.private_key_to_wif(prim.i2osp(k, 32), g.pick(["wif", "wif-compressed"]), c, n))
        encs.append(spec.encrypt(c, n, wifs[-1], g.pick(ps), None))
    encs.append(g.mutate(encs[-1]))
    wifs.append(g.mutate(wifs[-1]))
    salts, seeds = [g.blob(8), g.blob(8)], [g.blob(24), g.blob(24)]
    lots = [(None, None), (g.good_lot(), g.good_seq())]
    pubs = [prim.pt_ser(prim.pt(keys[0]), g.chance(0.5)), prim.pt_ser(prim.pt(keys[1]), True)]

    def net(c):
        t = g.d.randrange(6)
        return None if t < 2 else g.pick(sorted(c.NETWORKS)) if t < 5 else g.pick(["unknown", "regtest", "testnet"])
    ops = []
    for _ in range(g.d.choice([2, 2, 3, 3, 4, 6])):
        if ops and g.chance(0.3):
            o = g.pick(ops)
            o = [o[0] if g.chance(0.6) else g.d.randrange(3), o[1], dict(o[2])]
            if "network" in o[2] and g.chance(0.6):
                o[2]["network"] = net(objects[o[0] or 0][0])
            ops.append(o)
            continue
        i = g.d.randrange(3)
        c = objects[i][0]
        t = g.d.randrange(12)
        lot, seq = g.pick(lots)
        if t < 2:
            o = [i, "encrypt", dict(wif=g.pick(wifs), passphrase=g.pick(ps), network=net(c))]
        elif t < 4:
            o = [i, "create_new_encrypted_wif", dict(
                intermediate_passphrase=g.pick(inters), wif_type=g.pick(["wif", "wif-compressed"]),
                seed=g.pick(seeds + [None]), network=net(c))]
        elif t < 6 and confs:
            o = [i, "confirm_code", dict(passphrase=g.pick(ps), confirmation_code=g.pick(confs), network=net(c),
                                         detail=g.chance(0.5))]
        elif t < 8:
            o = [i, "decrypt", dict(encrypted_wif=g.pick(encs), passphrase=g.pick(ps), network=net(c),
                                    detail=g.chance(0.5))]
        elif t < 10:
            o = [None, "intermediate", dict(passphrase=g.pick(ps), lot=lot, sequence=seq,
                                            owner_salt=g.pick(salts + [None]))]
        else:
            n = g.pick(sorted(c.NETWORKS))
            o = g.pick([
                [None, "wif", dict(private_key=prim.i2osp(g.pick(keys), 32), wif_type=g.pick(["wif", "wif-compressed"]),
                                   cryptocurrency=c, network=n)],
                [None, "key", dict(wif=g.pick(wifs), cryptocurrency=c, network=n)],
                [None, "type", dict(wif=g.pick(wifs), cryptocurrency=c, network=n)],
                [None, "checksum", dict(wif=g.pick(wifs), cryptocurrency=c, network=n)],
                [None, "addr", dict(public_key=g.pick(pubs), address_prefix=c.NETWORKS[n]["address_prefix"],
                                    public_key_type=g.pick(["compressed", "uncompressed"]))],
                [None, "enc58", dict(raw=g.pick(pubs))],
                [None, "dec58", dict(enc=g.pick(encs))],
                [None, "hash160", dict(data=g.pick(pubs))],
                [None, "get_bytes", dict(data=g.pick(pubs).hex())],
            ])
        ops.append(o)
    return dict(objects=objects, ops=ops, seed=g.r.getrandbits(40))


def state(objs):
    out = [sorted((k, repr(v)) for k, v in vars(o).items()) for o in objs]
    out += [(c.__name__, repr(c.NETWORKS), repr(getattr(c, "ALPHABET", None))) for c in W.coins]
    return out


def in_child(f, limit):
    """f() in a forked process, or None when it gives no answer."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            os.write(w, pickle.dumps(f()))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def run_ops(h, which):
    """Outcomes of the operations named, in order, in this process."""
    global _draw_rng
    from bip38 import BIP38
    calls = _calls()
    objs = [BIP38(cryptocurrency=c, network=n) for c, n in h["objects"]]
    before = state(objs)
    out, changed = [], None
    for i in which:
        ob, m, kw = h["ops"][i]
        _draw_rng = _random.Random(f"h{h['seed']}/{i}")
        kept = repr(kw)
        f = calls[m] if ob is None else getattr(objs[ob], m)
        try:
            v = ("ok", repr(f(**kw)))
        except Exception as e:
            v = ("exc", type(e).__name__)
        out.append(v)
        if changed is None:
            now = state(objs)
            if now != before:
                d = [(x, y) for x, y in zip(before, now) if x != y]
                changed = f"operation {i} ({m}) changes the object or a currency table: {short(d)}"
            elif repr(kw) != kept:
                changed = f"operation {i} ({m}) changes its arguments"
    return out, changed


def run_history(h, limit=100):
    n = len(h["ops"])
    got = in_child(lambda: run_ops(h, range(n)), limit)
    if got is None:
        return Result("skip")
    out, changed = got
    if changed:
        return Result("fail", changed)
    for i in sorted({n - 1, n - 2, 1} & set(range(1, n)), reverse=True):
        alone = in_child(lambda: run_ops(h, [i]), limit)
        if alone is None:
            return Result("skip")
        if alone[0][0] != out[i]:
            return Result("fail", f"operation {i} ({h['ops'][i][1]}) gives {short(out[i])} after the operations before it "
                          f"and {short(alone[0][0])} on its own")
    return Result("ok")


# ---------------------------------------------------------------- argument transport
def enc(v):
    if isinstance(v, type):
        return {"coin": v.__name__}
    if isinstance(v, (bytes, bytearray)):
        if len(v) > 4096 and v.count(v[0]) == len(v):
            return {"repeat": [v[0], len(v)]}
        return {"hex": bytes(v).hex()}
    if isinstance(v, int) and not isinstance(v, bool):
        return {"int": str(v)}
    if isinstance(v, str):
        return {"text": [ord(c) for c in v]} if any(0xd800 <= ord(c) < 0xe000 for c in v) else v
    if isinstance(v, (list, tuple)):
        return {"list": [enc(x) for x in v]}
    if isinstance(v, dict):
        return {"dict": {k: enc(x) for k, x in v.items()}}
    return v


def dec(v):
    if isinstance(v, dict):
        if "coin" in v:
            return getattr(W.cc, v["coin"])
        if "hex" in v:
            return bytes.fromhex(v["hex"])
        if "repeat" in v:
            return bytes([v["repeat"][0]]) * v["repeat"][1]
        if "int" in v:
            return int(v["int"])
        if "text" in v:
            return "".join(chr(c) for c in v["text"])
        if "list" in v:
            return [dec(x) for x in v["list"]]
        if "dict" in v:
            return {k: dec(x) for k, x in v["dict"].items()}
    return v


AGAIN = "the arguments of an earlier trial"


def resolve(h):
    """The arguments a hint fixes.  Those of an earlier trial are made anew: they may depend on derived values."""
    global _trace_on
    if not h:
        return None
    if AGAIN not in h:
        return {k: dec(v) for k, v in h.items()}
    (t, ds, rs, h2), drop = h[AGAIN]
    _trace_on = False
    try:
        args = Gen(ds, rs, resolve(h2)).args(getattr(W.th, t))
    except W.prim.SpecReject:
        return None
    finally:
        _trace_on = True
    return {k: v for k, v in args.items() if k not in drop}


# ---------------------------------------------------------------- search
def worker(job, wid, q, fast):
    """Trials until the time is up; every failure is reported with the history of the process."""
    os.nice(5)
    names = job["theorems"]
    end = time.time() + job["seconds"]
    hints = job.get("hints", {})
    n = {t: 0 for t in names}
    skipped = 0
    hist = []
    i = 0
    found = 0
    d = _random.Random(f"{job['seed']}/{wid}")
    shared = wid % 2 == 1
    if shared:
        share_objects()
    recent = []
    pinned = job.get("pinned")
    # every candidate from the verifier once, as it is
    first = [] if pinned is not None else [(t, h) for t in names for h in hints.get(t, [])][wid::job.get("workers", 8)]
    for t in names:
        if not hasattr(W.th, t) and t != HISTORY:
            q.put(("error", f"no theorem {t}"))
            return
    while time.time() < end and found < job.get("max_found", 1) and i < job.get("max_trials", 10 ** 9):
        t = names[(i + wid) % len(names)]
        i += 1
        h = None
        hs = hints.get(t)
        again = recent and pinned is None and not first and d.random() < (0.3 if shared else 0.1)
        if again:
            # an earlier trial again, all but one or two of its arguments
            o = recent[-1 - d.randrange(min(len(recent), 6))]
            t = o[0]
            k = sorted(getattr(W.th, t).__annotations__)
            h = {AGAIN: [list(o), sorted(d.sample(k, min(len(k), d.choice([0, 1, 1, 1, 2]))))]}
            ds, rs = d.getrandbits(60), d.getrandbits(60)
        elif first:
            t, h = first.pop()
            ds, rs = d.getrandbits(60), d.getrandbits(60)
        elif pinned is not None:
            ds, rs = pinned, d.getrandbits(60)
            h = job.get("pinned_hint")
        else:
            ds, rs = d.getrandbits(60), d.getrandbits(60)
            if hist and d.random() < 0.25:
                # part of an earlier trial again: the same decisions or the same values
                o = hist[-1 - d.randrange(min(len(hist), 4))]
                if d.random() < 0.5:
                    ds = o[1]
                else:
                    rs = o[2]
            hs = hs and [x for x in hs if not any(isinstance(v, dict) and "repeat" in v for v in x.values())]
            if hs and d.random() < 0.5:
                h = d.choice(hs)
                k = sorted(h)
                if d.random() < 0.5 and len(k) > 1:
                    h = {x: h[x] for x in k if d.random() < 0.7}
        try:
            r, args = trial(t, ds, rs, resolve(h))
        except W.prim.SpecFailed as e:
            q.put(("error", f"{t}: specification failed: {e}"))
            return
        if r.status == "skip":
            skipped += 1
            continue
        n[t] += 1
        if r.status == "fail":
            found += 1
            q.put(("fail", dict(theorem=t, dseed=ds, rseed=rs, hint=h, args={k: enc(v) for k, v in args.items()},
                                draws=[enc(x) for x in W.prim.DRAWS], detail=r.detail, line=r.line, fast=fast,
                                shared=shared, history=[list(x) for x in hist[-400:]])))
        if t != HISTORY:
            hist.append((t, ds, rs, h))
            if not again:
                recent.append((t, ds, rs, h))
            del recent[:-12]
    q.put(("done", n, skipped))


def search(job):
    fast = job.get("fast", True)
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    nw = job.get("workers", 8)
    ps = [ctx.Process(target=worker, args=(job, w, q, fast), daemon=True) for w in range(nw)]
    for p in ps:
        p.start()
    res = dict(trials={}, skipped=0, failures=[], errors=[])
    alive = nw
    end = time.time() + job["seconds"] + 90
    while alive and time.time() < end:
        try:
            m = q.get(timeout=1)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
            continue
        if m[0] == "fail":
            res["failures"].append(m[1])
            if len(res["failures"]) >= job.get("enough", 1):
                break
        elif m[0] == "error":
            res["errors"].append(m[1])
            alive -= 1
        else:
            alive -= 1
            res["skipped"] += m[2]
            for k, v in m[1].items():
                res["trials"][k] = res["trials"].get(k, 0) + v
    for p in ps:
        p.terminate()
    return res


# ---------------------------------------------------------------- replay
def replay(case):
    """Runs the recorded calls in order; the last one decides.  Its actual arguments are left in case["last"]."""
    load(case.get("fast", False), memo=False)
    if case.get("shared"):
        share_objects()
    r = Result("ok")
    for c in case["calls"]:
        W.fixed_draws = [dec(x) for x in c.get("draws", [])]
        hint = resolve(c.get("hint"))
        if "args" not in c:
            r, args = trial(c["theorem"], c["dseed"], c["rseed"], hint)
        else:
            args = {k: dec(v) for k, v in c["args"].items()}
            if c["theorem"] == HISTORY:
                r = run_history(args)
            else:
                r = run_theorem(c["theorem"], args, allowance(args, 120))
        case["last"] = dict(theorem=c["theorem"], args={k: enc(v) for k, v in (args or {}).items()},
                            draws=[enc(x) for x in W.prim.DRAWS])
    return r


def main():
    cmd = sys.argv[1]
    if cmd == "search":
        job = json.load(open(sys.argv[2]))
        load(job.get("fast", True))
        res = search(job)
        json.dump(res, open(sys.argv[3], "w"))
        return 0
    if cmd == "replay":
        case = json.load(open(sys.argv[2]))
        if case.get("kind") == "obligation":
            print(json.dumps(case, indent=1)[:4000])
            return 0
        r = replay(case)
        print(f"{r.status}: {r.detail}")
        if len(sys.argv) > 3:
            json.dump(dict(status=r.status, detail=r.detail, line=r.line, last=case.get("last")), open(sys.argv[3], "w"))
        return 1 if r.status == "fail" else 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
