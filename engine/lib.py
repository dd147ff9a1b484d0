"""Assumed contracts of the libraries the package is built on.

Nothing in this file is proved: it is the trusted base.  Each model states what the library is assumed to do
(ecdsa 0.19, pyaes 1.6, scrypt 0.9, hashlib, unicodedata, os, ...), over uninterpreted functions whose only laws are
the axioms added here.  `native.py` (differential run) compares every one of them with the installed library.
"""
import hashlib as _hashlib
import itertools as _itertools
import math as _math
import operator as _operator
import string as _string
import binascii as _binascii
import functools as _functools
import struct as _struct
import types as _types
import unicodedata as _unicodedata

import z3

from . import models as M
from . import sym, seqs
from .sym import *
from .values import *

P_SECP = 2 ** 256 - 2 ** 32 - 977
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA8FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
S256 = BVS(256)
X = UF("PT_X", S256, S256)
Y = UF("PT_Y", S256, S256)
ONC = UF("PT_ONC", S256, S256, B)
DLXY = UF("PT_DLXY", S256, S256, S256)
VALIDC = UF("PT_VALIDC", BVS(264), B)
DLC = UF("PT_DLC", BVS(264), S256)


def raise_py(cls, msg=""):
    raise PyRaise(HExc(cls, (msg,)))


# ------------------------------------------------------------------ exception classes of ecdsa
class MalformedPointError(AssertionError):
    pass


class ScryptError(Exception):
    pass


class StructError(Exception):
    pass


# ------------------------------------------------------------------ elliptic curve points
def v256(v):
    return bvval(v, 256)


def kx(ctx, k):
    """Laws of the point with (symbolic) discrete logarithm k, 0 < k < N."""
    k = z3.simplify(k)
    key = ("pt", eid(k))
    if key not in ctx.memo:
        ctx.memo[key] = True
        x, y = X(k), Y(k)
        ok = z3.And(k != 0, z3.ULT(k, v256(N_SECP)))
        ctx.axiom(z3.Implies(ok, z3.And(
            z3.ULT(x, v256(P_SECP)), z3.ULT(y, v256(P_SECP)), y != 0,
            ONC(x, y), DLXY(x, y) == k, VALIDC(serc_e(k)), DLC(serc_e(k)) == k)))
        if z3.is_bv_value(k) and k.as_long() == 1:
            ctx.axiom(z3.And(x == v256(GX), y == v256(GY)))
    return k


def serc_e(k):
    return z3.Concat(bvval(1, 7), z3.Extract(0, 0, Y(k)), X(k))


def from_compressed(ctx, e):
    """(valid, k) for 33 bytes."""
    key = ("decc", eid(e))
    if key not in ctx.memo:
        ctx.memo[key] = True
        k = DLC(e)
        ctx.axiom(z3.Implies(VALIDC(e), z3.And(
            k != 0, z3.ULT(k, v256(N_SECP)), serc_e(k) == e,
            z3.Extract(263, 257, e) == 1, z3.ULT(z3.Extract(255, 0, e), v256(P_SECP)))))
        ctx.axiom(z3.Implies(VALIDC(e), z3.And(
            z3.ULT(X(k), v256(P_SECP)), z3.ULT(Y(k), v256(P_SECP)), Y(k) != 0, ONC(X(k), Y(k)),
            DLXY(X(k), Y(k)) == k)))
    return VALIDC(e), DLC(e)


def from_xy(ctx, x, y):
    """(the point is on the curve, its discrete logarithm)"""
    if z3.is_app(x) and z3.is_app(y) and x.decl().eq(X) and y.decl().eq(Y) and x.arg(0).eq(y.arg(0)):
        k = x.arg(0)
        if ctx.must(z3.And(k != 0, z3.ULT(k, v256(N_SECP)))) == "yes":
            return z3.BoolVal(True), k
    key = ("decxy", eid(x), eid(y))
    if key not in ctx.memo:
        ctx.memo[key] = True
        k = DLXY(x, y)
        ctx.axiom(z3.Implies(ONC(x, y), z3.And(
            k != 0, z3.ULT(k, v256(N_SECP)), X(k) == x, Y(k) == y, y != 0,
            z3.ULT(x, v256(P_SECP)), z3.ULT(y, v256(P_SECP)),
            VALIDC(serc_e(k)), DLC(serc_e(k)) == k)))
    return ONC(x, y), DLXY(x, y)


def addmod(ctx, a, b):
    """(a + b) mod N for a, b < N."""
    s = z3.ZeroExt(1, a) + z3.ZeroExt(1, b)
    m = bvval(N_SECP, 257)
    return z3.simplify(z3.Extract(255, 0, z3.If(z3.ULT(s, m), s, s - m)))


def scalar(ctx, v):
    """v mod N as a 256-bit expression."""
    v = bool_to_int(v)
    if isinstance(v, int):
        return v256(v % N_SECP)
    if not isinstance(v, SInt):
        raise_py(TypeError, "scalar expected")
    if v.k == "z":
        if ctx.must(z3.And(v.e >= 0, v.e < N_SECP)) != "yes":
            raise Unsupported("unbounded scalar")
        return z_to_bv(ctx, v, 256).e
    if v.k == "res":
        raise Unsupported("residue scalar")
    if v.fac is not None:
        return mulmod(ctx, v.fac[0], v.fac[1], N_SECP)
    if v.signed:
        raise Unsupported("signed scalar")
    e = v.e
    if e.size() > 256:
        r = int_mod(ctx, v, N_SECP)
        return v256(r) if isinstance(r, int) else ext(r.e, False, 256)
    e = z3.simplify(ext(e, False, 256))
    if ctx.must(z3.ULT(e, v256(N_SECP))) == "yes":
        return e
    return z3.simplify(z3.If(z3.ULT(e, v256(N_SECP)), e, e - v256(N_SECP)))


class SymPoint(ModelObj):
    """A point of the curve: k * G (k = 0: infinity)."""

    def __init__(self, k, cls, order=None):
        self.k = k
        self.model_class = cls
        self.off = False

    def finite(self, it):
        """Is the point finite (forks)?"""
        ctx = it.ctx
        if self.off:
            raise Unsupported("point that is not on the curve")
        k = z3.simplify(self.k)
        if z3.is_bv_value(k):
            return k.as_long() != 0
        return not ctx.branch(k == 0)

    def coords(self, it):
        k = kx(it.ctx, self.k)
        return X(k), Y(k)

    def m_x(self, it):
        if not self.finite(it):
            return None
        return mk_int(self.coords(it)[0])

    def m_y(self, it):
        if not self.finite(it):
            return None
        return mk_int(self.coords(it)[1])

    def m_to_bytes(self, it, encoding="raw"):
        enc = M.as_choice(it, encoding, ("raw", "uncompressed", "compressed", "hybrid"))
        if enc is None:
            raise_py(AssertionError, "")
        if not self.finite(it):
            raise_py(TypeError, "point at infinity")
        x, y = self.coords(it)
        if enc == "compressed":
            return mk_bytes(serc_e(z3.simplify(self.k)))
        if enc == "raw":
            return mk_bytes(z3.Concat(x, y))
        if enc == "uncompressed":
            return mk_bytes(z3.Concat(bvval(4, 8), x, y))
        return mk_bytes(z3.Concat(bvval(3, 7), z3.Extract(0, 0, y), x, y))

    def m_scale(self, it):
        return self

    def m_to_affine(self, it):
        return SymPoint(self.k, POINT)

    def m_double(self, it):
        if self.off:
            raise Unsupported("point that is not on the curve")
        return SymPoint(addmod(it.ctx, self.k, self.k), self.model_class)

    def m_order(self, it):
        raise Unsupported("order of a point")

    def m_curve(self, it):
        return CURVE

    def m_mul_add(self, it, a, other, b):
        return SymPoint(addmod(it.ctx, mulmod(it.ctx, scalar(it.ctx, a), self.k, N_SECP),
                               mulmod(it.ctx, scalar(it.ctx, b), other.k, N_SECP)), self.model_class)

    def m_binop(self, it, op, o, swapped):
        if self.off or isinstance(o, SymPoint) and o.off:
            raise Unsupported("point that is not on the curve")
        ctx = it.ctx
        if op == "Add" and isinstance(o, SymPoint):
            return SymPoint(addmod(ctx, self.k, o.k), JACOBI)
        if op == "Sub" and isinstance(o, SymPoint):
            raise_py(TypeError, "unsupported operand type(s) for -")
        if op == "Mult" and isinstance(M.bool_to_int(o), (int, SInt)):
            return SymPoint(mulmod(ctx, scalar(ctx, o), self.k, N_SECP), self.model_class)
        if op == "Mult" and isinstance(o, SymPoint):
            raise Unsupported("product of points")
        # what the library does with other operands depends on their truth value and on the point
        raise Unsupported(f"{op} of a point and something else")

    def m_unop(self, it, op):
        if op == "USub":
            k = self.k
            return SymPoint(z3.simplify(z3.If(k == 0, k, v256(N_SECP) - k)), self.model_class)
        raise_py(TypeError, "bad operand type")

    def m_eq(self, it, o):
        if not isinstance(o, SymPoint):
            return False
        if self.off or o.off:
            raise Unsupported("point that is not on the curve")
        return mk_bool(self.k == o.k)


def need_bytes(it, b):
    if isinstance(b, SByteArray):
        b = b_from_items(b.items) if b.items else b""
    if isinstance(b, bytearray):
        b = bytes(b)
    if not M.is_bytes(b):
        raise_py(TypeError, "a bytes-like object is required")
    return M.vforce(it.ctx, b)


def decode_point(it, data, validate, what, encodings=None):
    """Parse an encoded point; validate: the curve equation is checked."""
    ctx = it.ctx
    b = need_bytes(it, data)
    encs = encodings or ("raw", "uncompressed", "compressed", "hybrid")
    if isinstance(b, VBytes):
        L = M.bytes_len_z(b)
        for n in (33, 64, 65):
            if ctx.branch(L == n):
                b = M.fixed_piece(ctx, b, n)
                break
        else:
            raise_py(MalformedPointError, "Length of string does not match lengths of any of the enabled encodings")
    n = b_len(b)
    bad = lambda: raise_py(MalformedPointError, "invalid point encoding")

    def off():
        if validate:
            bad()
        # an encoding is accepted although no point of the curve has it
        p = SymPoint(v256(1), JACOBI)
        p.off = True
        return p

    def xy(x, y, pre):
        ok, k = from_xy(ctx, x, y)
        if ctx.branch(ok):
            return SymPoint(k, JACOBI)
        return off()

    e = b_e(b) if n else None
    if n == 33 and "compressed" in encs:
        ok, k = from_compressed(ctx, e)
        if ctx.branch(ok):
            return SymPoint(k, JACOBI)
        if validate:
            bad()
        if ctx.branch(z3.And(z3.Extract(263, 257, e) == 1, z3.UGE(z3.Extract(255, 0, e), v256(P_SECP)))):
            if ctx.choose(2) == 0:
                bad()
            return off()
        bad()
    if n == 64 and "raw" in encs:
        return xy(z3.simplify(z3.Extract(511, 256, e)), z3.simplify(z3.Extract(255, 0, e)), None)
    if n == 65 and ("uncompressed" in encs or "hybrid" in encs):
        pre = z3.Extract(519, 512, e)
        x, y = z3.simplify(z3.Extract(511, 256, e)), z3.simplify(z3.Extract(255, 0, e))
        if "uncompressed" in encs and ctx.branch(pre == 4):
            return xy(x, y, 4)
        if "hybrid" in encs and ctx.branch(z3.Or(pre == 6, pre == 7)):
            if not ctx.branch(z3.Extract(0, 0, pre) == z3.Extract(0, 0, y)):
                bad()
            return xy(x, y, 6)
        bad()
    bad()


def jacobi_from_bytes(it, args, kwargs):
    curve = args[0] if args else kwargs["curve"]
    data = args[1] if len(args) > 1 else kwargs["data"]
    if curve is not CURVE:
        raise Unsupported("another curve")
    for k in kwargs:
        if k not in ("curve", "data", "order", "generator", "valid_encodings"):
            raise Unsupported("PointJacobi.from_bytes option " + k)
    p = decode_point(it, data, False, "point", encs_of(kwargs))
    return p


def encs_of(kwargs):
    v = kwargs.get("valid_encodings")
    if not v:
        return None
    if not deep_concrete(v):
        raise Unsupported("symbolic encodings")
    return tuple(v)


def jacobi_from_affine(it, args, kwargs):
    p = args[0]
    if not isinstance(p, SymPoint):
        raise_py(AttributeError, "from_affine of something else")
    q = SymPoint(p.k, JACOBI)
    q.off = p.off
    return q


def coord256(it, v):
    """(256-bit expression, certainly within 256 bits)"""
    v = bool_to_int(v)
    if v is None:
        raise_py(TypeError, "unsupported operand type(s)")
    if isinstance(v, int):
        return v256(v) if 0 <= v < 2 ** 256 else None
    if not isinstance(v, SInt):
        raise_py(TypeError, "unsupported operand type(s)")
    if v.k == "z":
        if not it.ctx.branch(z3.And(v.e >= 0, v.e < 2 ** 256)):
            return None
        return z_to_bv(it.ctx, v, 256).e
    e, s = as_bv(v)
    if s:
        raise Unsupported("signed coordinate")
    if e.size() > 256:
        if not it.ctx.branch(z3.Extract(e.size() - 1, 256, e) == 0):
            return None
        return z3.simplify(z3.Extract(255, 0, e))
    return z3.simplify(ext(e, False, 256))


def affine_point(it, curve=None, x=None, y=None, order=None):
    if curve is None:
        return SymPoint(v256(0), POINT)
    if curve is not CURVE:
        raise Unsupported("another curve")
    ex, ey = coord256(it, x), coord256(it, y)
    if ex is None or ey is None:
        # contains_point reduces modulo p: a non-canonical coordinate may satisfy the equation
        raise Unsupported("coordinate outside 256 bits")
    ok, k = from_xy(it.ctx, ex, ey)
    if it.ctx.branch(ok):
        return SymPoint(k, POINT)
    if it.ctx.branch(z3.And(z3.ULT(ex, v256(P_SECP)), z3.ULT(ey, v256(P_SECP)))):
        raise_py(AssertionError, "")
    if it.ctx.choose(2) == 0:
        raise_py(AssertionError, "")
    p = SymPoint(v256(1), POINT)
    p.off = True
    return p


def jacobi_point(it, curve=None, x=None, y=None, z=None, order=None, generator=False):
    if curve is not CURVE or z not in (1,):
        raise Unsupported("PointJacobi construction")
    ex, ey = coord256(it, x), coord256(it, y)
    if ex is None or ey is None:
        raise Unsupported("coordinate outside 256 bits")
    ok, k = from_xy(it.ctx, ex, ey)
    if it.ctx.branch(ok):
        return SymPoint(k, JACOBI)
    p = SymPoint(v256(1), JACOBI)
    p.off = True
    return p


class PointBase:
    pass


class JacobiBase(PointBase):
    pass


POINT = ModelClass("ellipticcurve.Point", affine_point, None)
JACOBI = ModelClass("ellipticcurve.PointJacobi", jacobi_point, None)
POINT.inst = JACOBI.inst = SymPoint
JACOBI.attrs["from_bytes"] = Builtin("PointJacobi.from_bytes", jacobi_from_bytes)
JACOBI.attrs["from_affine"] = Builtin("PointJacobi.from_affine", jacobi_from_affine)


def point_from_bytes(it, args, kwargs):
    p = jacobi_from_bytes(it, args, kwargs)
    return p


POINT.attrs["from_bytes"] = Builtin("Point.from_bytes", point_from_bytes)


class Curve(ModelObj):
    """curve_secp256k1 (the curve) and curves.SECP256k1 (the named curve)."""

    def __init__(self, named):
        self.named = named

    def m_p(self, it):
        return P_SECP

    def m_a(self, it):
        return 0

    def m_b(self, it):
        return 7

    def m_cofactor(self, it):
        return 1

    def m_contains_point(self, it, x, y):
        ex, ey = coord256(it, x), coord256(it, y)
        if ex is None or ey is None:
            raise Unsupported("coordinate outside 256 bits")
        if it.ctx.branch(z3.And(z3.ULT(ex, v256(P_SECP)), z3.ULT(ey, v256(P_SECP)))):
            return mk_bool(from_xy(it.ctx, ex, ey)[0])
        raise Unsupported("coordinate outside the field")

    def a_order(self, it):
        return N_SECP

    def a_baselen(self, it):
        return 32

    def a_verifying_key_length(self, it):
        return 64

    def a_curve(self, it):
        return CURVE

    def a_generator(self, it):
        return GEN

    def a_name(self, it):
        return "SECP256k1"


CURVE = Curve(False)
NAMED = Curve(True)


class Generator(SymPoint):
    def m_order(self, it):
        return N_SECP


GEN = Generator(v256(1), JACOBI)


class Pubkey(ModelObj):
    def __init__(self, vk):
        self.vk = vk

    def a_point(self, it):
        return SymPoint(self.vk.k, JACOBI)

    def a_order(self, it):
        return N_SECP

    def a_generator(self, it):
        return GEN

    def a_curve(self, it):
        return CURVE

    def m_eq(self, it, o):
        return isinstance(o, Pubkey) and mk_bool(self.vk.k == o.vk.k)


class SymVK(ModelObj):
    """VerifyingKey: the finite point k * G."""

    def __init__(self, k):
        self.k = k

    def a_pubkey(self, it):
        return Pubkey(self)

    def a_curve(self, it):
        return NAMED

    def m_to_string(self, it, encoding="raw"):
        return SymPoint(self.k, JACOBI).m_to_bytes(it, encoding)

    def m_precompute(self, it, lazy=False):
        return None

    def m_eq(self, it, o):
        return isinstance(o, SymVK) and mk_bool(self.k == o.k)


def the_curve(it, args, kwargs, i):
    c = args[i] if len(args) > i else kwargs.get("curve")
    if c is not NAMED:
        raise Unsupported("a curve other than secp256k1")


def vk_from_string(it, args, kwargs):
    the_curve(it, args, kwargs, 1)
    for k in kwargs:
        if k not in ("string", "curve", "hashfunc", "valid_encodings", "validate_point"):
            raise Unsupported("VerifyingKey option " + k)
    if len(args) > 3 or kwargs.get("validate_point", True) is not True:
        raise Unsupported("unvalidated key")
    p = decode_point(it, args[0] if args else kwargs["string"], True, "key", encs_of(kwargs))
    return SymVK(p.k)


def vk_from_public_point(it, args, kwargs):
    the_curve(it, args, kwargs, 1)
    for k in kwargs:
        if k not in ("point", "curve", "hashfunc"):
            raise Unsupported("VerifyingKey option " + k)
    p = args[0] if args else kwargs["point"]
    if not isinstance(p, SymPoint):
        raise_py(AttributeError, "point expected")
    if p.off:
        raise_py(MalformedPointError, "Point does not lay on the curve")
    if not p.finite(it):
        raise_py(TypeError, "point at infinity")
    return SymVK(p.k)


VK = ModelClass("ecdsa.VerifyingKey", None, SymVK, {
    "from_string": Builtin("VerifyingKey.from_string", vk_from_string),
    "from_public_point": Builtin("VerifyingKey.from_public_point", vk_from_public_point)})


class Privkey(ModelObj):
    def __init__(self, sk):
        self.sk = sk

    def a_secret_multiplier(self, it):
        return mk_int(self.sk.k)

    def a_order(self, it):
        return N_SECP

    def a_public_key(self, it):
        return Pubkey(SymVK(self.sk.k))


class SymSK(ModelObj):
    def __init__(self, k):
        self.k = k

    def m_to_string(self, it):
        return mk_bytes(self.k)

    def m_get_verifying_key(self, it):
        return SymVK(self.k)

    def a_verifying_key(self, it):
        return SymVK(self.k)

    def a_privkey(self, it):
        return Privkey(self)

    def a_curve(self, it):
        return NAMED

    def a_baselen(self, it):
        return 32

    def m_eq(self, it, o):
        return isinstance(o, SymSK) and mk_bool(self.k == o.k)


def sk_from_string(it, args, kwargs):
    the_curve(it, args, kwargs, 1)
    for k in kwargs:
        if k not in ("string", "curve", "hashfunc"):
            raise Unsupported("SigningKey option " + k)
    b = need_bytes(it, args[0] if args else kwargs["string"])
    if isinstance(b, VBytes):
        if not it.ctx.branch(M.bytes_len_z(b) == 32):
            raise_py(MalformedPointError, "Invalid length of private key")
        b = M.fixed_piece(it.ctx, b, 32)
    if b_len(b) != 32:
        raise_py(MalformedPointError, "Invalid length of private key")
    return sk_of(it, b_e(b))


def sk_of(it, e):
    if not it.ctx.branch(z3.And(e != 0, z3.ULT(e, v256(N_SECP)))):
        raise_py(MalformedPointError, "Invalid value for secexp")
    return SymSK(e)


def sk_from_exponent(it, args, kwargs):
    the_curve(it, args, kwargs, 1)
    for k in kwargs:
        if k not in ("secexp", "curve", "hashfunc"):
            raise Unsupported("SigningKey option " + k)
    v = bool_to_int(args[0] if args else kwargs["secexp"])
    if isinstance(v, int):
        if not 1 <= v < N_SECP:
            raise_py(MalformedPointError, "Invalid value for secexp")
        return SymSK(v256(v))
    if not it.truth(int_cmp(it.ctx, ">=", v, 1)) or not it.truth(int_cmp(it.ctx, "<", v, N_SECP)):
        raise_py(MalformedPointError, "Invalid value for secexp")
    return SymSK(scalar(it.ctx, v))


SK = ModelClass("ecdsa.SigningKey", None, SymSK, {
    "from_string": Builtin("SigningKey.from_string", sk_from_string),
    "from_secret_exponent": Builtin("SigningKey.from_secret_exponent", sk_from_exponent)})


# ------------------------------------------------------------------ AES
def aes_uf(ctx, op, key, block):
    n = b_len(key)
    f = UF(f"AES{8 * n}_{op}", BVS(8 * n), BVS(128), BVS(128))
    g = UF(f"AES{8 * n}_{'dec' if op == 'enc' else 'enc'}", BVS(8 * n), BVS(128), BVS(128))
    k, b = b_e(key), b_e(block)
    r = f(k, b)
    mk = ("aes", eid(r))
    if mk not in ctx.memo:
        ctx.memo[mk] = True
        ctx.axiom(g(k, r) == b)
    return mk_bytes(r)


class SymAES(ModelObj):
    def __init__(self, key):
        self.key = key

    def block(self, it, b):
        if b is None or isinstance(b, (int, SInt, SBool, float)):
            raise_py(TypeError, "object has no len()")
        if isinstance(b, bytearray):
            if len(b) != 16:
                raise_py(ValueError, "block must be 16 bytes")
            raise_py(TypeError, "ord() expected string of length 1, but int found")
        if not M.is_bytes(b):
            raise Unsupported("something else than bytes given to AES")
        b = M.vforce(it.ctx, b)
        if isinstance(b, VBytes):
            if not it.ctx.branch(M.bytes_len_z(b) == 16):
                raise_py(ValueError, "block must be 16 bytes")
            b = M.fixed_piece(it.ctx, b, 16)
        if b_len(b) != 16:
            raise_py(ValueError, "block must be 16 bytes")
        return b

    def m_encrypt(self, it, plaintext):
        return aes_uf(it.ctx, "enc", self.key, self.block(it, plaintext))

    def m_decrypt(self, it, ciphertext):
        return aes_uf(it.ctx, "dec", self.key, self.block(it, ciphertext))


def aes_new(it, key):
    if not (key is None or M.is_bytes(key) or isinstance(key, (bytearray, SByteArray, int, SInt, SBool))):
        raise Unsupported("AES key of this type")
    k = need_bytes(it, key)
    if isinstance(k, VBytes):
        raise Unsupported("AES key of unknown length")
    if b_len(k) not in (16, 24, 32):
        raise_py(ValueError, "Invalid key size")
    return SymAES(k)


class RawAES(SymAES):
    """pyaes.AES: lists of integers."""

    def block(self, it, b):
        if isinstance(b, (bytearray, SByteArray, M.VByteArray, list)):
            b = M.to_bytes(it, [b], {})
        return SymAES.block(self, it, b)

    def m_encrypt(self, it, plaintext):
        return b_items(SymAES.m_encrypt(self, it, plaintext))

    def m_decrypt(self, it, ciphertext):
        return b_items(SymAES.m_decrypt(self, it, ciphertext))


# ------------------------------------------------------------------ scrypt
def text_or_bytes(it, v):
    if isinstance(v, (str, SStr, Opaque)):
        return M.utf8(it, v)
    if isinstance(v, SByteArray):
        return b_from_items(v.items) if v.items else b""
    if M.is_bytes(v):
        return v
    if v is None or isinstance(v, (SInt, int, SBool)):
        raise_py(TypeError, "object has no len()")
    raise Unsupported("scrypt of something else")


def vb_term(ctx, b):
    return M.vterm(ctx, M.vresolve(ctx, b))


def scrypt_hash(it, password, salt, N=1 << 14, r=8, p=1, buflen=64):
    ctx = it.ctx
    if not all(isinstance(x, int) for x in (N, r, p, buflen)):
        raise Unsupported("symbolic scrypt parameters")
    pw = text_or_bytes(it, password)
    st = text_or_bytes(it, salt)
    if r * p >= (1 << 30) or N <= 1 or N & (N - 1) or p < 1 or r < 1:
        raise_py(ScryptError, "hash parameters are wrong")
    if buflen < 1:
        if buflen == 0:
            return b""
        raise_py(ValueError, "negative size")
    if (N, r, p) != (1024, 1, 1):
        ctx.scrypts.append(pw)
    n = 64 if buflen <= 64 else buflen
    e = UF(f"SCRYPT_{N}_{r}_{p}_{n}", VB, VB, BVS(8 * n))(vb_term(ctx, pw), vb_term(ctx, st))
    r = mk_bytes(e)
    return b_slice(r, 0, buflen) if buflen < n else r


# ------------------------------------------------------------------ hashes
DIGEST = {"sha256": 32, "ripemd160": 20, "sha512": 64, "sha1": 20, "md5": 16, "sha224": 28, "sha384": 48,
          "sha3_256": 32, "sha3_512": 64, "blake2b": 64, "blake2s": 32, "sha512_256": 32}


def digest(ctx, name, data):
    n = DIGEST[name]
    d = M.vforce(ctx, data)
    if isinstance(d, (bytes, bytearray)):
        return _hashlib.new(name, bytes(d)).digest()
    if isinstance(d, VBytes):
        b = d.base
        if b.lens or b.fixed is None:
            b.opaque_used = True
        return mk_bytes(UF(f"{name.upper()}_V", VB, BVS(8 * n))(M.vterm(ctx, d)))
    return mk_bytes(UF(f"{name.upper()}_{d.n}", BVS(8 * d.n), BVS(8 * n))(d.e))


class SymHash(ModelObj):
    def __init__(self, name, data=b""):
        self.nm, self.data = name, data

    def m_update(self, it, data):
        d = hash_input(it, data)
        self.data = M.b_concat(it.ctx, [self.data, d])

    def m_digest(self, it):
        return digest(it.ctx, self.nm, self.data)

    def m_hexdigest(self, it):
        return M.mk_hex(it, digest(it.ctx, self.nm, self.data))

    def m_copy(self, it):
        return SymHash(self.nm, self.data)

    def a_digest_size(self, it):
        return DIGEST[self.nm]

    def a_block_size(self, it):
        return 128 if self.nm in ("sha512", "sha384") else 64

    def a_name(self, it):
        return self.nm


def hash_input(it, d):
    if isinstance(d, SByteArray):
        return b_from_items(d.items) if d.items else b""
    if isinstance(d, bytearray):
        return bytes(d)
    if isinstance(d, M.VByteArray):
        return d.v
    if M.is_bytes(d):
        return d
    if isinstance(d, memoryview):
        return bytes(d)
    raise_py(TypeError, "Strings must be encoded before hashing")


def hash_new(name):
    def f(it, args, kwargs):
        for k in kwargs:
            if k not in ("usedforsecurity", "string"):
                raise_py(TypeError, "unexpected keyword")
        if len(args) > 1 or args and "string" in kwargs:
            raise_py(TypeError, "too many arguments")
        d = args[0] if args else kwargs.get("string", b"")
        return SymHash(name, hash_input(it, d))
    return f


def rmd_available(ctx):
    return z3.Const("RIPEMD160_AVAILABLE", B)


class Algorithms(ModelObj):
    """hashlib.algorithms_available: RIPEMD-160 may or may not be there."""

    def m_contains(self, it, x):
        if isinstance(x, str):
            if x == "ripemd160":
                return mk_bool(rmd_available(it.ctx))
            return x in _hashlib.algorithms_guaranteed
        raise Unsupported("symbolic algorithm name")

    def m___contains__(self, it, x):
        return self.m_contains(it, x)


def hashlib_new(it, args, kwargs):
    # def new(name, data=b'', **kwargs)
    if len(args) > 2 or args and "name" in kwargs or len(args) == 2 and "data" in kwargs:
        raise_py(TypeError, "too many arguments")
    if not args and "name" not in kwargs:
        raise_py(TypeError, "name missing")
    if set(kwargs) - {"name", "data", "usedforsecurity"}:
        raise Unsupported("hashlib.new option")
    name = args[0] if args else kwargs["name"]
    data = args[1] if len(args) > 1 else kwargs.get("data", b"")
    if not isinstance(name, str):
        raise Unsupported("symbolic algorithm name")
    data = hash_input(it, data)
    nm = name.lower().replace("-", "_").replace("rmd160", "ripemd160").replace("ripemd_160", "ripemd160")
    nm = {"sha_256": "sha256"}.get(nm, nm)
    if nm == "ripemd160":
        if not it.ctx.branch(rmd_available(it.ctx)):
            raise_py(ValueError, "unsupported hash type ripemd160")
    elif nm not in DIGEST:
        raise_py(ValueError, "unsupported hash type " + name)
    return SymHash(nm, data)


# ------------------------------------------------------------------ unicodedata
def norm_term(ctx, form, s):
    t = M.str_term(ctx, s)
    f = UF("NORM_" + form, StrS, StrS)
    r = f(t)
    key = ("norm", form, eid(t))
    if key not in ctx.memo:
        ctx.memo[key] = True
        ctx.axiom(f(r) == r)
        enc = UF("ENCODABLE", StrS, B)
        ctx.axiom(enc(r) == enc(t))
        asc = UF("ISASCII", StrS, B)
        ctx.axiom(z3.Implies(asc(t), r == t))
        sl = UF("SLEN", StrS, I)
        ctx.axiom(z3.And(sl(r) >= 0, sl(t) >= 0, (sl(r) == 0) == (sl(t) == 0)))
        ctx.axiom((sl(t) == 0) == (t == ctx.strlit("")))
        ctx.axiom((sl(r) == 0) == (r == ctx.strlit("")))
    return r


def normalize(it, form, unistr):
    if not isinstance(form, str):
        raise Unsupported("symbolic normalisation form")
    if unistr is None or M.is_bytes(unistr) or isinstance(unistr, (int, SInt, SBool, bytearray, list, tuple)):
        raise_py(TypeError, "normalize() argument 2 must be str")
    if form not in ("NFC", "NFD", "NFKC", "NFKD"):
        if isinstance(unistr, (str, SStr)) and it.truth(M.eq(it, unistr, "")):
            return ""              # CPython looks at the form only when there is something to normalise
        raise_py(ValueError, "invalid normalization form")
    if isinstance(unistr, str):
        return _unicodedata.normalize(form, unistr)
    if isinstance(unistr, Opaque):
        raise Unsupported("normalisation of opaque text")
    if not isinstance(unistr, SStr):
        raise_py(TypeError, "normalize() argument 2 must be str")
    if unistr.prov and unistr.prov[0] in ("b58", "hex"):
        return unistr
    other = it.ctx.memo.get(("norm-alias", eid(M.str_term(it.ctx, unistr))))
    if other is not None:
        return normalize(it, form, other)
    if unistr.prov and unistr.prov[0] == "norm" and unistr.prov[1] == form:
        return unistr
    return SStr(norm_term(it.ctx, form, unistr), ("norm", form, unistr))


def is_normalized(it, form, unistr):
    r = normalize(it, form, unistr)
    return M.eq(it, r, unistr)


# ------------------------------------------------------------------ randomness
def draw(it, n, source):
    if isinstance(n, SInt):
        n = concretize(it.ctx, n, 0, 64)
    if isinstance(n, SBool):
        n = concretize(it.ctx, bool_to_int(n), 0, 1)
    if n is None or M.is_bytes(n) or isinstance(n, (str, SStr, float, list)):
        raise_py(TypeError, "integer expected")
    if not isinstance(n, int):
        raise Unsupported("size of a random draw")
    if n < 0:
        raise_py(ValueError, "negative argument not allowed")
    if n == 0:
        return b""
    v = SBytes(z3.BitVec(f"random!{len(it.ctx.events)}", 8 * n))
    it.ctx.events.append((source, n, v))
    return v


def bits(it, n, source):
    if not isinstance(n, int) or n % 8:
        raise Unsupported("random bits")
    return mk_int(draw(it, n // 8, source).e)


# ------------------------------------------------------------------ base58 (specification functions)
def alpha_id(a):
    if isinstance(a, bytes):
        a = a.decode("latin-1")
    if not isinstance(a, str):
        raise Unsupported("symbolic alphabet")
    return _hashlib.md5(a.encode()).hexdigest()[:6]


def b58enc(it, data, alphabet):
    ctx = it.ctx
    if not M.is_bytes(data):
        raise Unsupported("b58enc of something else")
    d = M.vforce(ctx, data)
    a = alpha_id(alphabet)
    if isinstance(d, bytes):
        return b58enc_native(d, alphabet)
    is58, d58, l58 = UF("IS58_" + a, StrS, B), UF("D58_" + a, StrS, VB), UF("LEN58_" + a, StrS, I)
    if isinstance(d, VBytes):
        e = UF("B58V_" + a, VB, StrS)(M.vterm(ctx, d))
        key = ("b58v", eid(e))
        if key not in ctx.memo:
            ctx.memo[key] = True
            ctx.axiom(is58(e))
            ctx.axiom(d58(e) == M.vterm(ctx, d))
            ctx.axiom(l58(e) == M.bytes_len_z(d))
    else:
        e = UF(f"B58_{d.n}_{a}", d.e.sort(), StrS)(d.e)
        key = ("b58", eid(e))
        if key not in ctx.memo:
            ctx.memo[key] = True
            ctx.axiom(is58(e))
            ctx.axiom(l58(e) == d.n)
            ctx.axiom(UF(f"D58_{d.n}_{a}", StrS, d.e.sort())(e) == d.e)
            ctx.axiom(d58(e) == M.vterm(ctx, d))
            ctx.axiom(e != ctx.strlit(""))
    for s in (e,):
        ctx.axiom(UF("ISASCII", StrS, B)(s))
        ctx.axiom(UF("ENCODABLE", StrS, B)(s))
    return SStr(e, ("b58", alphabet, d))


def is58(it, s, alphabet):
    ctx = it.ctx
    if isinstance(s, str):
        return all(c in alphabet for c in s)
    if isinstance(s, SStr):
        if s.prov and s.prov[0] == "b58" and s.prov[1] == alphabet:
            return True
        r = UF("IS58_" + alpha_id(alphabet), StrS, B)(s.e)
        ctx.axiom(z3.Implies(r, z3.And(UF("ISASCII", StrS, B)(s.e), UF("ENCODABLE", StrS, B)(s.e))))
        return mk_bool(r)
    raise Unsupported("is58 of something else")


def b58dec(it, s, alphabet):
    """The byte string denoted by base58 text (precondition: is58)."""
    ctx = it.ctx
    if isinstance(s, str):
        return b58dec_native(s, alphabet)
    if s.prov and s.prov[0] == "b58" and s.prov[1] == alphabet:
        return s.prov[2]
    a = alpha_id(alphabet)
    e = s.e

    def fix(n):
        r = UF(f"D58_{n}_{a}", StrS, BVS(8 * n))(e)
        ctx.axiom(UF(f"B58_{n}_{a}", BVS(8 * n), StrS)(r) == e)
        ctx.axiom(UF("D58_" + a, StrS, VB)(e) == M.vterm(ctx, SBytes(r)))
        return SBytes(r)

    t = UF("D58_" + a, StrS, VB)(e)
    L = UF("LEN58_" + a, StrS, I)(e)
    b = M.vbase(ctx, t, L, fix=fix, lens=M.INTERESTING, prov=("d58", alphabet, s))
    ctx.axiom((L == 0) == (e == ctx.strlit("")))
    ctx.axiom(UF("B58V_" + a, VB, StrS)(t) == e)
    return VBytes(b)


def b58enc_native(b, alphabet):
    n = int.from_bytes(b, "big")
    out = ""
    while n:
        n, r = divmod(n, 58)
        out = alphabet[r] + out
    return alphabet[0] * (len(b) - len(b.lstrip(b"\0"))) + out


def b58dec_native(s, alphabet):
    n = 0
    for c in s:
        n = n * 58 + alphabet.index(c)
    z = len(s) - len(s.lstrip(alphabet[0]))
    return bytes(z) + (n.to_bytes((n.bit_length() + 7) // 8, "big"))


# ------------------------------------------------------------------ modules
class LibModule(ModelObj):
    def __init__(self, name, ns, host=None):
        self.nm, self.ns, self.host = name, ns, host

    def py_getattr(self, it, name):
        if name in self.ns:
            v = self.ns[name]
            if type(v).__name__ == "FromSource":
                from . import pylib
                return pylib.from_source(it, v.name)
            return v
        if name == "__name__":
            return self.nm
        if self.host is not None and hasattr(self.host, name):
            return getattr(self.host, name)
        raise Unsupported(f"{self.nm}.{name}")

    def __repr__(self):
        return f"<library {self.nm}>"


class TypingModule(LibModule):
    def py_getattr(self, it, name):
        if name == "TYPE_CHECKING":
            return False
        if name == "cast":
            return fn("cast", lambda it, t, v: v)
        return Typing(name)


def fn(name, f):
    return Builtin(name, lambda it, a, k: f(it, *a, **k))


def reduce_(it, f, xs, *init):
    g = seqs.as_gen(it, xs) if init else None
    if g is not None:
        return g.reduce(it, f, init[0])
    items = list(M.iterate(it, xs))
    if init:
        acc = init[0]
    else:
        if not items:
            raise_py(TypeError, "reduce() of empty iterable with no initial value")
        acc = items.pop(0)
    for x in items:
        acc = it.call(f, [acc, x], {})
    return acc


def partial_(it, f, *a0, **k0):
    return Builtin("partial", lambda it2, a, k: it2.call(f, list(a0) + list(a), {**k0, **k}))


def lru_cache(it, *a, **k):
    if a and not isinstance(a[0], int) and a[0] is not None:
        f = a[0].fn if isinstance(a[0], Wrapped) else a[0]
        f.memo = True
        return a[0]
    return Builtin("lru_cache", lambda it2, a2, k2: M.decorate(it2, CACHE, a2[0], None))


CACHE = Builtin("cache", lambda it, a, k: M.decorate(it, CACHE, a[0], None))


def unpack(it, fmt, data):
    if isinstance(data, (bytes, bytearray)):
        return M.host(_struct.unpack, fmt, bytes(data))
    if not M.is_bytes(data) and not isinstance(data, (SByteArray, M.VByteArray)):
        if isinstance(data, (int, SInt, SBool, str, SStr, list, tuple, dict, float)) or data is None:
            raise_py(TypeError, "a bytes-like object is required")
        raise Unsupported("unpack of this value")
    if not isinstance(fmt, (str, bytes)):
        raise Unsupported("symbolic structure format")
    d = M.vforce(it.ctx, M.to_bytes(it, [data], {}))
    if isinstance(d, VBytes):
        raise Unsupported("unpack of unknown length")
    try:
        n = _struct.calcsize(fmt)
    except _struct.error as ex:
        raise_py(StructError, str(ex))
    if n != b_len(d):
        raise_py(StructError, "unpack requires a buffer of another size")
    out, i = [], 0
    for cnt, c, little in fields(fmt):
        if c == "s":
            out.append(b_slice(d, i, i + cnt))
            i += cnt
            continue
        w = SIZES[c.upper()]
        for _ in range(cnt):
            if c != "x":
                out.append(M.from_bytes(it, b_slice(d, i, i + w), "little" if little else "big",
                                        c.islower() and c != "c"))
            i += w
    return tuple(out)


SIZES = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8, "X": 1}


def fields(fmt):
    import re
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not fmt or fmt[0] not in "<>!=":
        if not re.fullmatch(r"[0-9]*[Bbs]*", fmt):
            raise Unsupported("native struct format")
    little = fmt[:1] in ("<", "=")
    out = []
    for cnt, c in re.findall(r"(\d*)([A-Za-z])", fmt):
        if c != "s" and c.upper() not in SIZES or c == "c":
            raise Unsupported("struct format " + c)
        out.append((int(cnt) if cnt else 1, c, little))
    return out


def pack(it, fmt, *args):
    if deep_concrete(args) and not M.has_p(args):
        try:
            return _struct.pack(fmt, *args)
        except _struct.error as ex:
            raise_py(StructError, str(ex))
    out = []
    args = list(args)
    for cnt, c, little in fields(fmt):
        if c == "s":
            v = M.vforce(it.ctx, args.pop(0))
            if isinstance(v, VBytes):
                raise Unsupported("pack of unknown length")
            v = b_slice(v, 0, cnt)
            out.append(b_cat(v, bytes(cnt - b_len(v))) if b_len(v) < cnt else v)
            continue
        for _ in range(cnt):
            v = args.pop(0)
            try:
                out.append(M.int_to_bytes(it, v, SIZES[c.upper()], "little" if little else "big", c.islower()))
            except PyRaise as ex:
                raise_py(StructError, "argument out of range")
    if args:
        raise_py(StructError, "too many arguments")
    return M.b_concat(it.ctx, out)


def unhexlify(it, s):
    if M.is_bytes(s):
        raise Unsupported("unhexlify of bytes")
    try:
        return M.fromhex(it, s)
    except PyRaise as ex:
        raise


def hexlify(it, b):
    h = M.mk_hex(it, b)
    return M.utf8(it, h)


def compare_digest(it, a, b):
    text = [isinstance(x, (str, SStr)) for x in (a, b)]
    if all(text):
        for x in (a, b):
            if not it.truth(M.call_method(it, x, "isascii", [], {})):
                raise_py(TypeError, "comparing strings with non-ASCII characters is not supported")
        return M.eq(it, a, b)
    for x in (a, b):
        if x is None or isinstance(x, (str, SStr, int, SInt, SBool, list, tuple, dict, float)):
            raise_py(TypeError, "a bytes-like object is required")
        if not (M.is_bytes(x) or isinstance(x, (bytearray, SByteArray, M.VByteArray))):
            raise Unsupported("compare_digest of this value")
    return M.eq(it, a, b)


def positional(name, n, f, low=None):
    def g(it, a, k):
        if k or not (n if low is None else low) <= len(a) <= n:
            raise_py(TypeError, name + "() takes positional arguments only")
        return f(it, *a)
    return Builtin(name, g)


def wraps(it, f, *a, **k):
    return Builtin("wraps", lambda it2, a2, k2: a2[0])


def xor_bytes(a, b):
    return mk_bytes(b_e(a) ^ b_e(b))


_mods = {}


def module(name):
    if not _mods:
        build()
    return _mods.get(name)


def mod(name, host=None, **ns):
    _mods[name] = LibModule(name, ns, host)
    return _mods[name]


def build():
    keys = mod("ecdsa.keys", SigningKey=SK, VerifyingKey=VK, MalformedPointError=MalformedPointError)
    curves = mod("ecdsa.curves", SECP256k1=NAMED)
    INF = SymPoint(v256(0), POINT)
    ec = mod("ecdsa.ellipticcurve", Point=POINT, PointJacobi=JACOBI, INFINITY=INF)
    low = mod("ecdsa.ecdsa", curve_secp256k1=CURVE, generator_secp256k1=GEN)
    errs = mod("ecdsa.errors", MalformedPointError=MalformedPointError)
    mod("ecdsa", SigningKey=SK, VerifyingKey=VK, keys=keys, curves=curves, ellipticcurve=ec, ecdsa=low, errors=errs,
        SECP256k1=NAMED, MalformedPointError=MalformedPointError)
    ecb = ModelClass("AESModeOfOperationECB", aes_new, SymAES)
    mod("pyaes", AESModeOfOperationECB=ecb,
        AES=ModelClass("AES", lambda it, key: RawAES(aes_new(it, key).key), RawAES))
    mod("pyaes.aes", AESModeOfOperationECB=ecb)
    mod("scrypt", hash=fn("scrypt.hash", scrypt_hash), error=ScryptError)
    hs = {n: Builtin("hashlib." + n, hash_new(n)) for n in ("sha256", "sha512", "sha1", "md5", "sha224", "sha384")}
    mod("hashlib", new=Builtin("hashlib.new", hashlib_new), algorithms_available=Algorithms(),
        algorithms_guaranteed=set(_hashlib.algorithms_guaranteed), **hs)
    mod("unicodedata", normalize=fn("normalize", normalize), is_normalized=fn("is_normalized", is_normalized))
    mod("os", urandom=positional("os.urandom", 1, lambda it, size: draw(it, size, "os.urandom")),
        getrandom=fn("os.getrandom", lambda it, size, flags=0: draw(it, size, "os.urandom")))
    mod("secrets", token_bytes=fn("token_bytes", lambda it, nbytes=None: draw(it, 32 if nbytes is None else nbytes, "os.urandom")),
        token_hex=fn("token_hex", lambda it, nbytes=None: M.mk_hex(it, draw(it, 32 if nbytes is None else nbytes, "os.urandom"))),
        randbits=fn("randbits", lambda it, k: bits(it, k, "os.urandom")),
        compare_digest=positional("compare_digest", 2, compare_digest))
    mod("random", randbytes=fn("randbytes", lambda it, n: draw(it, n, "random")),
        getrandbits=fn("getrandbits", lambda it, n: bits(it, n, "random")))
    mod("struct", pack=fn("pack", pack), unpack=fn("unpack", unpack),
        calcsize=fn("calcsize", lambda it, f: _struct.calcsize(f)), error=StructError)
    mod("six", binary_type=bytes, string_types=(str,), text_type=str, integer_types=(int,), PY2=False, PY3=True)
    _mods["typing"] = TypingModule("typing", {})
    _mods["typing_extensions"] = TypingModule("typing_extensions", {})
    mod("collections.abc", **{})
    mod("abc", ABC=object, abstractmethod=fn("abstractmethod", lambda it, f: f))
    mod("binascii", hexlify=fn("hexlify", hexlify), unhexlify=fn("unhexlify", unhexlify),
        b2a_hex=fn("hexlify", hexlify), a2b_hex=fn("unhexlify", unhexlify), Error=_binascii.Error)
    mod("functools", reduce=fn("reduce", reduce_), partial=fn("partial", partial_),
        lru_cache=fn("lru_cache", lru_cache), cache=CACHE, wraps=fn("wraps", wraps))
    mod("hmac", compare_digest=positional("compare_digest", 2, compare_digest))
    mod("unittest", TestCase=type("TestCase", (), {}), main=fn("main", lambda it, *a, **k: None))
    mod("math", _math)
    from . import pylib
    pylib.build(mod)
    mod("string", _string)
    mod("warnings", warn=fn("warn", lambda it, *a, **k: None))
    mod("logging", getLogger=fn("getLogger", lambda it, *a, **k: LOGGER))
    mod("types", MappingProxyType=fn("MappingProxyType", lambda it, d: d), SimpleNamespace=None)
    mod("sys", maxsize=2 ** 63 - 1, version_info=(3, 12, 3), byteorder="little")
    from . import prims
    _mods["prim"] = LibModule("prim", prims.table())


class Logger(ModelObj):
    def py_getattr(self, it, name):
        return Builtin("log", lambda it2, a, k: None)


LOGGER = Logger()
