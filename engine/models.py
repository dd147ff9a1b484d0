"""Semantics of Python's built-ins on symbolic values, and dispatch to the library models (lib.py)."""
import ast
import binascii
import builtins as _b
import math
import enum
import operator
import string as _string
import struct as _struct

import z3

from . import sym
from .sym import *
from .values import *
from . import seqs

HOST_TYPES = (int, str, bytes, bytearray, list, tuple, dict, set, frozenset, bool, float, object, type, slice,
              range, complex, memoryview)

INTERESTING = (25, 26, 37, 38, 39, 43, 53, 55)


def raise_py(cls, msg=""):
    raise PyRaise(HExc(cls, (msg,)))


class SymMap(ModelObj):
    """cryptocurrency.NETWORKS of an arbitrary currency: a finite map from names to (wif_prefix, address_prefix)."""

    def __init__(self, tag):
        self.tag = tag
        self.known = UF("KNOWN_" + tag, StrS, B)
        self.wp = UF("WIFPREFIX_" + tag, StrS, BVS(16))
        self.ap = UF("ADDRPREFIX_" + tag, StrS, BVS(16))

    def m_keys(self, it):
        return SymKeys(self)

    def m_get(self, it, k, d=None):
        if it.truth(self.contains(it, k)):
            return SymNet(self, k)
        return d

    def m_copy(self, it):
        return self

    def m___contains__(self, it, k):
        return self.contains(it, k)

    def contains(self, it, k):
        t = str_term(it.ctx, k)
        if t is None:
            return False
        return mk_bool(self.known(t))


class SymKeys(ModelObj):
    """The network names, as a view, list, tuple or set; is_list for the list conversion."""

    def __init__(self, m, kind="view"):
        self.m, self.kind = m, kind

    def m___contains__(self, it, k):
        return self.m.contains(it, k)

    def m_copy(self, it):
        return self


class SymNet(ModelObj):
    def __init__(self, m, name):
        self.m, self.nm = m, name

    def item(self, it, k):
        if not isinstance(k, str):
            raise Unsupported("symbolic key of a network entry")
        t = str_term(it.ctx, self.nm)
        if k == "wif_prefix":
            return mk_int(self.m.wp(t))
        if k == "address_prefix":
            return mk_int(self.m.ap(t))
        raise_py(KeyError, k)

    def m_get(self, it, k, d=None):
        if k in ("wif_prefix", "address_prefix"):
            return self.item(it, k)
        return d


def str_term(ctx, s):
    if isinstance(s, str):
        return ctx.strlit(s)
    if isinstance(s, SStr):
        return s.e
    if isinstance(s, Opaque):
        raise Unsupported("opaque text used as data")
    return None


def slen_term(ctx, s):
    e = str_term(ctx, s)
    r = UF("SLEN", StrS, I)(e)
    key = ("slen", eid(e))
    if key not in ctx.memo:
        ctx.memo[key] = True
        ctx.axiom(r >= 0)
        ctx.axiom((r == 0) == (e == ctx.strlit("")))
    return r


# ------------------------------------------------------------------ bytes of symbolic length
def vkey(term):
    return eid(term)


def vbase(ctx, term, length, **kw):
    key = ("vbase", vkey(term))
    b = ctx.memo.get(key)
    if b is None:
        b = VBase(term, length, **kw)
        b.fixed = None
        b.other = False
        b.gets = []
        ctx.memo[key] = b
        ctx.axiom(length >= 0)
    return b


def vabs(v, pos):
    rel, off = pos
    return v.base.length + off if rel else (off if not isinstance(off, int) else z3.IntVal(off))


def vlen(v):
    if v.a[0] == v.b[0]:
        d = v.b[1] - v.a[1]
        return d if isinstance(d, int) else z3.simplify(d)
    return z3.simplify(vabs(v, v.b) - vabs(v, v.a))


def vfull(v):
    return v.a == (0, 0) and v.b == (1, 0)


def vterm(ctx, v):
    """VB term of a byte string."""
    if isinstance(v, VBytes):
        if vfull(v):
            return v.base.term
        return UF("VSUB", VB, I, I, VB)(v.base.term, vabs(v, v.a), vabs(v, v.b))
    if b_len(v) == 0:
        return z3.Const("VEMPTY", VB)
    e = b_e(v)
    n = e.size() // 8
    t = UF(f"VFIX{n}", e.sort(), VB)(e)
    key = ("vfix", eid(t))
    if key not in ctx.memo:
        ctx.memo[key] = True
        ctx.axiom(UF(f"VBV{n}", VB, e.sort())(t) == e)
    return t


def vpin(ctx, base, n):
    """The length of base is n on this path: its content becomes a bit-vector."""
    if base.fixed is not None:
        return
    if n == 0:
        base.fixed = b""
        return
    if base.prov and base.prov[0] == "cat":
        # pin the single unknown part
        known = sum(b_len(p) for p in base.prov[1] if not isinstance(p, VBytes))
        unk = [p for p in base.prov[1] if isinstance(p, VBytes)]
        if len(unk) == 1:
            u = unk[0]
            r = fixed_piece(ctx, u, n - known)
            out = b""
            for p in base.prov[1]:
                out = b_cat(out, r if p is u else p)
            base.fixed = out
    if base.fixed is None:
        if base.fix is not None:
            base.fixed = base.fix(n)
        else:
            e = UF(f"VBV{n}", VB, BVS(8 * n))(base.term)
            base.fixed = SBytes(e)
            ctx.axiom(UF(f"VFIX{n}", BVS(8 * n), VB)(e) == base.term)
    if base.opaque_used:
        ctx.note_inexact("length of a hashed string was fixed afterwards")
    for (a, k, e) in base.gets:
        i = a[1] if a[0] == 0 else n + a[1]
        if isinstance(i, int) and 0 <= i and i + k <= n:
            ctx.axiom(e == b_e(b_slice(base.fixed, i, i + k)))


def vresolve(ctx, v):
    """Fixed-length bytes if the length is determined on this path, else v."""
    if not isinstance(v, VBytes):
        return v
    base = v.base
    if base.fixed is None and not (isinstance(vlen(v), int) and not base.lens):
        L = base.length
        key = ("vres", vkey(base.term), len(ctx.pc))
        if key not in ctx.memo:
            ctx.memo[key] = True
            r = ctx.check()
            if r == z3.sat:
                val = ctx.solver.model().eval(L, model_completion=True)
                if z3.is_int_value(val) and val.as_long() <= 4096:
                    n = val.as_long()
                    if ctx.must(L == n) == "yes":
                        vpin(ctx, base, n)
            elif r == z3.unsat:
                raise PathAbort()
    if base.fixed is not None:
        n = b_len(base.fixed)
        i = v.a[1] if v.a[0] == 0 else n + v.a[1]
        j = v.b[1] if v.b[0] == 0 else n + v.b[1]
        if not isinstance(i, int) or not isinstance(j, int):
            raise Unsupported("symbolic slice bounds")
        return b_slice(base.fixed, max(0, i), max(0, j))
    return v


def vforce(ctx, v, split=True):
    """Fixed-length bytes if possible; splits on the lengths that matter for decoded strings."""
    v = vresolve(ctx, v)
    if not isinstance(v, VBytes):
        return v
    base = v.base
    if base.lens and not base.other and split:
        lens = base.lens
        c = ctx.decide(len(lens) + 1, lambda i: base.length == lens[i] if i < len(lens) else
                       z3.And(*[base.length != n for n in lens]))
        if c < len(lens):
            vpin(ctx, base, lens[c])
            return vresolve(ctx, v)
        base.other = True
    return v


def fixed_piece(ctx, v, n):
    """The n bytes of v, whose length is n."""
    v = vforce(ctx, v)
    if not isinstance(v, VBytes):
        if b_len(v) != n:
            raise PathAbort()
        return v
    if n == 0:
        return b""
    p = rope_piece(ctx, v, n)
    if p is not None:
        return p
    start = z3.simplify(vabs(v, v.a))
    e = UF(f"VGET{n}", VB, I, BVS(8 * n))(v.base.term, start)
    v.base.gets.append((v.a, n, e))
    return mk_bytes(e)


def rope_piece(ctx, v, n):
    """Piece of a concatenation that lies within one known end or start part."""
    base = v.base
    if not (base.prov and base.prov[0] == "cat"):
        return None
    parts = base.prov[1]
    if v.a[0] == 1 and v.b[0] == 1:
        tail = b""
        for p in reversed(parts):
            if isinstance(p, VBytes):
                break
            tail = b_cat(p, tail)
        m = b_len(tail)
        if -v.a[1] <= m:
            return b_slice(tail, m + v.a[1], m + v.b[1])
    if v.a[0] == 0 and v.b[0] == 0:
        head = b""
        for p in parts:
            if isinstance(p, VBytes):
                break
            head = b_cat(head, p)
        if v.b[1] <= b_len(head):
            return b_slice(head, v.a[1], v.b[1])
    return None


def rope_sub(ctx, v):
    """A view that is exactly a run of parts of a concatenation is that run."""
    base = v.base
    if not (base.prov and base.prov[0] == "cat"):
        return v
    parts = base.prov[1]
    # positions of part boundaries from start / from end
    if v.a == (0, 0) and v.b[0] == 1:
        off, i = 0, len(parts)
        while i > 0 and -v.b[1] > off:
            p = parts[i - 1]
            if isinstance(p, VBytes):
                return v
            off += b_len(p)
            i -= 1
        if off == -v.b[1]:
            return b_concat(ctx, parts[:i])
    if v.b == (1, 0) and v.a[0] == 0:
        off, i = 0, 0
        while i < len(parts) and v.a[1] > off:
            p = parts[i]
            if isinstance(p, VBytes):
                return v
            off += b_len(p)
            i += 1
        if off == v.a[1]:
            return b_concat(ctx, parts[i:])
    return v


def b_concat(ctx, parts):
    flat = []
    for p in parts:
        p = vresolve(ctx, p)
        if isinstance(p, VBytes) and vfull(p) and p.base.prov and p.base.prov[0] == "cat":
            sub = p.base.prov[1]
        else:
            sub = [p]
        for q in sub:
            if not isinstance(q, VBytes):
                if b_len(q) == 0:
                    continue
                if flat and not isinstance(flat[-1], VBytes):
                    flat[-1] = b_cat(flat[-1], q)
                    continue
            flat.append(q)
    if not flat:
        return b""
    if len(flat) == 1:
        return flat[0]
    t = vterm(ctx, flat[0])
    ln = bytes_len_z(flat[0])
    for p in flat[1:]:
        t = UF("VCAT", VB, VB, VB)(t, vterm(ctx, p))
        ln = ln + bytes_len_z(p)
    base = vbase(ctx, t, z3.simplify(ln), prov=("cat", flat))
    return VBytes(base)


def bytes_len_z(v):
    if isinstance(v, VBytes):
        n = vlen(v)
        return z3.IntVal(n) if isinstance(n, int) else n
    return z3.IntVal(b_len(v))


def vslice(ctx, v, i, j):
    v0 = v
    v = vresolve(ctx, v)
    if not isinstance(v, VBytes):
        return b_slice(v, i, j)

    def norm(k, default):
        if k is None:
            return default
        L = bytes_len_z(v)
        if isinstance(k, int):
            if k >= 0:
                if k == 0:
                    return v.a
                if ctx.branch(L >= k):
                    return (v.a[0], v.a[1] + k)
                return v.b
            if ctx.branch(L >= -k):
                return (v.b[0], v.b[1] + k)
            return v.a
        z = as_z(k)
        if ctx.must(z3.And(z >= 0, z <= L)) == "yes":
            return (v.a[0], z3.simplify(v.a[1] + z))
        raise Unsupported("symbolic slice bound")

    a = norm(i, v.a)
    b = norm(j, v.b)
    r = VBytes(v.base, a, b)
    n = vlen(r)
    if isinstance(n, int):
        if n <= 0:
            return b""
        return fixed_piece(ctx, r, n)
    if z3.is_int_value(n):
        n = n.as_long()
        return fixed_piece(ctx, r, n) if n > 0 else b""
    if not (a == v.a or b == v.b) or (i is not None and j is not None):
        if not ctx.branch(n >= 0):
            return b""
    r2 = vresolve(ctx, r)
    if not isinstance(r2, VBytes):
        return r2
    return rope_sub(ctx, r)


# ------------------------------------------------------------------ predicates on kinds
def is_bytes(v):
    return isinstance(v, (bytes, SBytes, VBytes))


def is_int(v):
    return isinstance(v, (int, SInt)) and not isinstance(v, bool)


def is_str(v):
    return isinstance(v, (str, SStr)) or isinstance(v, Opaque) and v.kind == "str"


def type_of(it, v):
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SInt):
        return int
    if isinstance(v, (SBytes, VBytes)):
        return bytes
    if isinstance(v, SStr):
        return str
    if isinstance(v, Opaque):
        if v.kind == "str":
            return str
        raise Unsupported("type of an opaque value")
    if isinstance(v, SByteArray):
        return bytearray
    if isinstance(v, PObj):
        return v.cls
    if isinstance(v, AbsExc):
        if len(v.classes) != 1:
            raise Unsupported("class of an exception known by contract only")
        return v.classes[0]
    if isinstance(v, HExc):
        return v.cls
    if isinstance(v, PClass):
        return type
    if isinstance(v, SymKeys):
        return list if v.kind == "list" else tuple if v.kind == "tuple" else set if v.kind == "set" else type({}.keys())
    if isinstance(v, (SymMap, SymNet)):
        return dict
    if isinstance(v, ModelObj):
        return _b.getattr(v, "model_class", type(v))
    if isinstance(v, (PFunc, Bound, Builtin)):
        return type(lambda: 0)
    return type(v)


def _isinst(it, v, c):
    if isinstance(c, (tuple, list)):
        return any(_isinst(it, v, x) for x in c)
    if isinstance(c, Typing):
        raise Unsupported("isinstance with a typing construct")
    if is_sym(c) and not isinstance(c, Opaque) or c is None or isinstance(c, (int, str, bytes, float, dict, list)):
        raise_py(TypeError, "isinstance() arg 2 must be a type, a tuple of types, or a union")
    if isinstance(c, ModelClass):
        c = c.inst
        if c is None:
            raise Unsupported("isinstance with a library class")
        if isinstance(c, type) and issubclass(c, ModelObj):
            return isinstance(v, c)
    if isinstance(v, AbsExc):
        return it.exc_matches(v, c)
    if isinstance(v, PObj):
        return c in v.cls.mro or isinstance(c, type) and any(
            isinstance(m, type) and issubclass(m, c) for m in v.cls.mro)
    if isinstance(c, PClass):
        return False
    t = type_of(it, v)
    if t is _b.property:
        t = object
    return isinstance(t, type) and isinstance(c, type) and issubclass(t, c)


def truth(it, v):
    ctx = it.ctx
    if isinstance(v, SBool):
        return ctx.branch(v.e)
    if isinstance(v, SInt):
        r = int_cmp(ctx, "!=", v, 0)
        return r if isinstance(r, bool) else ctx.branch(r.e)
    if isinstance(v, SBytes):
        return True
    if isinstance(v, VBytes):
        v2 = vresolve(ctx, v)
        if not isinstance(v2, VBytes):
            return b_len(v2) > 0
        return ctx.branch(bytes_len_z(v) > 0)
    if isinstance(v, SStr):
        if v.prov and v.prov[0] in ("b58", "hex") and is_fixed_bytes(v.prov[-1]) and b_len(v.prov[-1]) > 0:
            return True
        slen_term(ctx, v)
        return ctx.branch(v.e != ctx.strlit(""))
    if isinstance(v, Opaque):
        raise Unsupported("decision on an opaque value: " + v.why)
    if isinstance(v, SByteArray):
        return len(v.items) > 0
    if isinstance(v, PObj):
        f, _ = v.cls.lookup("__bool__")
        if f is not None:
            return truth(it, it.call(f, [v], {}))
        f, _ = v.cls.lookup("__len__")
        if f is not None:
            return truth(it, it.call(f, [v], {}))
        return True
    if isinstance(v, (PClass, PFunc, Bound, Builtin, PModule, HExc, ModelClass, Typing)):
        return True
    if isinstance(v, (SymKeys, SymMap)):
        raise Unsupported("emptiness of the network table")
    if isinstance(v, ModelObj):
        if _hasattr(v, "m_truth"):
            return v.m_truth(it)
        return True
    return bool(v)


# ------------------------------------------------------------------ equality
def eq(it, a, b):
    """a == b as bool or SBool."""
    ctx = it.ctx
    if a is b:
        return True
    if isinstance(a, (PObj,)) or isinstance(b, PObj):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PObj):
                f, _ = x.cls.lookup("__eq__")
                if f is not None:
                    r = it.call(f, [x, y], {})
                    if r is not NotImplemented:
                        return r if isinstance(r, (bool, SBool)) else truth(it, r)
        return False
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        o = b if isinstance(a, Opaque) else a
        if o is None:
            return False
        raise Unsupported("comparison of an opaque value")
    a, b = bool_to_int(a) if isinstance(a, SBool) else a, bool_to_int(b) if isinstance(b, SBool) else b
    if isinstance(a, SInt) or isinstance(b, SInt):
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            return int_cmp(ctx, "==", a, b)
        return False
    if isinstance(a, VByteArray) or isinstance(b, VByteArray):
        return a.m_eq(it, b) if isinstance(a, VByteArray) else b.m_eq(it, a)
    if isinstance(a, SByteArray) or isinstance(b, SByteArray):
        a = b_from_items(a.items) if isinstance(a, SByteArray) else bytes(a) if isinstance(a, bytearray) else a
        b = b_from_items(b.items) if isinstance(b, SByteArray) else bytes(b) if isinstance(b, bytearray) else b
    if is_bytes(a) or is_bytes(b):
        if not (is_bytes(a) and is_bytes(b)):
            return False
        return bytes_eq(it, a, b)
    if isinstance(a, SStr) or isinstance(b, SStr):
        if not (is_str(a) and is_str(b)):
            return False
        return str_eq(it, a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if isinstance(a, tuple) != isinstance(b, tuple) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = b_and(r, eq(it, x, y))
            if r is False:
                return False
        return r
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        r = True
        for k in a:
            r = b_and(r, eq(it, a[k], b[k]))
            if r is False:
                return False
        return r
    if isinstance(a, ModelObj) and hasattr(a, "m_eq"):
        return a.m_eq(it, b)
    if isinstance(b, ModelObj) and hasattr(b, "m_eq"):
        return b.m_eq(it, a)
    if isinstance(a, ModelObj) or isinstance(b, ModelObj):
        return False
    return a == b


def b_and(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return mk_bool(z3.And(x.e, y.e))


def b_or(x, y):
    if x is True or y is True:
        return True
    if x is False:
        return y
    if y is False:
        return x
    return mk_bool(z3.Or(x.e, y.e))


def b_not(x):
    if isinstance(x, bool):
        return not x
    return mk_bool(z3.Not(x.e))


def bytes_eq(it, a, b):
    ctx = it.ctx
    for v, f in ((a, b), (b, a)):
        if isinstance(f, bytes) and isinstance(v, VBytes) and vfull(v) and v.base.prov and v.base.prov[0] == "utf8":
            try:
                return str_eq(it, v.base.prov[1], f.decode("utf-8"))
            except UnicodeDecodeError:
                return False
    a, b = vresolve(ctx, a), vresolve(ctx, b)
    va, vb = isinstance(a, VBytes), isinstance(b, VBytes)
    if not va and not vb:
        if b_len(a) != b_len(b):
            return False
        if b_len(a) == 0:
            return True
        return mk_bool(b_e(a) == b_e(b))
    if va and vb:
        if a.base is b.base and a.a == b.a and a.b == b.b:
            return True
        # lengths worth a split are split first, so that both sides are exact
        a, b = vforce(ctx, a), vforce(ctx, b)
        if not (isinstance(a, VBytes) and isinstance(b, VBytes)):
            return bytes_eq(it, a, b)
        return mk_bool(vterm(ctx, a) == vterm(ctx, b))
    v, f = (a, b) if va else (b, a)
    v = vforce(ctx, v)
    if not isinstance(v, VBytes):
        return bytes_eq(it, v, f)
    n = b_len(f)
    if not ctx.branch(bytes_len_z(v) == n):
        return False
    return bytes_eq(it, fixed_piece(ctx, v, n), f)


def str_eq(it, a, b):
    ctx = it.ctx
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("comparison of opaque text")
    pa = a.prov if isinstance(a, SStr) else None
    pb = b.prov if isinstance(b, SStr) else None
    if pa and pb and pa[0] == pb[0] == "hex":
        return bytes_eq(it, pa[1], pb[1])
    if pa and pb and pa[0] == pb[0] == "b58" and pa[1] == pb[1]:
        return bytes_eq(it, pa[2], pb[2])
    for p, o in ((pa, b), (pb, a)):
        if p and p[0] == "hex" and isinstance(o, str):
            try:
                raw = bytes.fromhex(o)
                raw = raw if raw.hex() == o else None
            except ValueError:
                raw = None
            return False if raw is None else bytes_eq(it, p[1], raw)
        if p and p[0] == "cat" and isinstance(o, str):
            if isinstance(p[1], str):
                return str_eq(it, p[2], o[len(p[1]):]) if o.startswith(p[1]) else False
            if isinstance(p[2], str):
                return str_eq(it, p[1], o[:len(o) - len(p[2])]) if o.endswith(p[2]) else False
            ctx.note_inexact("concatenated texts against a literal")
    return mk_bool(str_term(ctx, a) == str_term(ctx, b))


def compare(it, op, a, b):
    ctx = it.ctx
    if op == "==":
        return eq(it, a, b)
    if op == "!=":
        for x, y in ((a, b), (b, a)):
            f = x.cls.lookup("__ne__")[0] if isinstance(x, PObj) else None
            if f is not None:
                r = it.call(f, [x, y], {})
                if r is not NotImplemented:
                    return mkb(it, r)
        return b_not(eq(it, a, b))
    a, b = bool_to_int(a), bool_to_int(b)
    if isinstance(a, SInt) or isinstance(b, SInt):
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            return int_cmp(ctx, op, a, b)
        if isinstance(a, float) or isinstance(b, float):
            raise Unsupported("float comparison")
        raise_py(TypeError, f"'{op}' not supported between these types")
    if is_sym(a) or is_sym(b):
        a2, b2 = vforce(ctx, a) if is_bytes(a) else a, vforce(ctx, b) if is_bytes(b) else b
        if is_fixed_bytes(a2) and is_fixed_bytes(b2) and b_len(a2) == b_len(b2) and b_len(a2) > 0:
            return int_cmp(ctx, op, SInt("bv", b_e(a2)), SInt("bv", b_e(b2)))
        if a is None or b is None or is_str(a) != is_str(b):
            raise_py(TypeError, f"'{op}' not supported between these types")
        raise Unsupported("ordering of symbolic values")
    if isinstance(a, PObj) or isinstance(b, PObj):
        nm = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
        if isinstance(a, PObj):
            f, _ = a.cls.lookup(nm)
            if f is not None:
                return it.call(f, [a, b], {})
        raise Unsupported("ordering of objects")
    if not (deep_concrete(a) and deep_concrete(b)):
        raise Unsupported("ordering of containers of symbolic values")
    f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
    return host(f, a, b)


def host(f, *a, **k):
    try:
        return f(*a, **k)
    except (Unsupported, PathAbort, PyRaise):
        raise
    except Exception as ex:
        raise PyRaise(HExc(type(ex), ex.args))


def contains(it, x, c):
    ctx = it.ctx
    if isinstance(c, SymKeys) or isinstance(c, SymMap):
        return (c.m if isinstance(c, SymKeys) else c).contains(it, x)
    if isinstance(c, SymNet):
        return isinstance(x, str) and x in ("wif_prefix", "address_prefix")
    if isinstance(c, ModelObj) and hasattr(c, "m_contains"):
        return c.m_contains(it, x)
    if isinstance(x, seqs.SSeq) and isinstance(c, str):
        return seqs.char_in(it, x, c)
    if isinstance(c, PObj):
        f, _ = c.cls.lookup("__contains__")
        if f is not None:
            return mkb(it, it.call(f, [c, x], {}))
        raise Unsupported("in on an object")
    if isinstance(c, (set, frozenset, dict)) and isinstance(x, (list, dict, bytearray)):
        raise_py(TypeError, "unhashable type")
    if isinstance(c, (list, tuple, set, frozenset, dict)) or type(c).__name__ in ("dict_keys", "dict_values"):
        if not is_sym(x) and deep_concrete(list(c)) and not isinstance(x, (list, dict, tuple)):
            return host(operator.contains, c, x)
        r = False
        for y in list(c):
            e = eq(it, x, y)
            if e is True:
                return True
            r = b_or(r, e)
        return r
    if isinstance(c, range):
        if isinstance(x, SInt):
            r = b_and(compare(it, "<=", c.start, x), compare(it, "<", x, c.stop))
            if c.step != 1:
                raise Unsupported("in range with a step")
            return r
        return x in c
    if is_str(c) and is_str(x):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(x, str) and x == "":
            return True
        if isinstance(c, Opaque) or isinstance(x, Opaque):
            raise Unsupported("substring test on opaque text")
        ctx.note_inexact("substring test")
        return mk_bool(UF("SUBSTR", StrS, StrS, B)(str_term(ctx, x), str_term(ctx, c)))
    if is_str(c):
        raise_py(TypeError, "'in <string>' requires string as left operand")
    if is_bytes(c):
        c = vforce(ctx, c)
        if isinstance(c, VBytes):
            raise Unsupported("membership in bytes of unknown length")
        if isinstance(x, (int, SInt, SBool)):
            x = bool_to_int(x)
            if not it.truth(b_and(compare(it, "<=", 0, x), compare(it, "<", x, 256))):
                raise_py(ValueError, "byte must be in range(0, 256)")
            r = False
            for y in b_items(c):
                r = b_or(r, eq(it, x, y))
            return r
        if x is None or is_str(x) or isinstance(x, (float, list, tuple, dict)):
            raise_py(TypeError, "a bytes-like object is required")
        if is_fixed_bytes(x):
            r = False
            for i in range(b_len(c) - b_len(x) + 1):
                r = b_or(r, eq(it, x, b_slice(c, i, i + b_len(x))))
            return r
        raise Unsupported("membership of bytes of unknown length")
    if c is None or isinstance(c, int):
        raise_py(TypeError, "argument is not iterable")
    raise Unsupported(f"in on {type(c).__name__}")


def mkb(it, v):
    if isinstance(v, (bool, SBool)):
        return v
    return truth(it, v)


def compare_op(it, op, a, b):
    if op == "Is" or op == "IsNot":
        if isinstance(a, SBool) and isinstance(b, bool):
            r = a if b else b_not(a)
        elif isinstance(b, SBool) and isinstance(a, bool):
            r = b if a else b_not(b)
        elif a is None or b is None or isinstance(a, (bool, enum.Enum)) or isinstance(b, (bool, enum.Enum)):
            r = a is b
        elif isinstance(a, (PObj, PClass, PModule, PFunc, type, list, dict, ModelObj, ModelClass)) or \
                isinstance(b, (PObj, PClass, PModule, PFunc, type, list, dict, ModelObj, ModelClass)):
            r = a is b
        else:
            raise Unsupported("identity of immutable values")
        return r if op == "Is" else b_not(r)
    if op == "In":
        return contains(it, a, b)
    if op == "NotIn":
        return b_not(contains(it, a, b))
    return compare(it, {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op], a, b)


# ------------------------------------------------------------------ arithmetic
_HOST_OPS = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Mod": operator.mod,
             "FloorDiv": operator.floordiv, "Pow": operator.pow, "LShift": operator.lshift,
             "RShift": operator.rshift, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor,
             "Div": operator.truediv, "MatMult": operator.matmul}
_DUNDER = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
           "Mod": ("__mod__", "__rmod__"), "BitXor": ("__xor__", "__rxor__"), "BitAnd": ("__and__", "__rand__"),
           "BitOr": ("__or__", "__ror__"), "FloorDiv": ("__floordiv__", "__rfloordiv__"),
           "Pow": ("__pow__", "__rpow__"), "LShift": ("__lshift__", "__rlshift__"),
           "RShift": ("__rshift__", "__rrshift__"), "Div": ("__truediv__", "__rtruediv__")}


def binop(it, op, a, b):
    ctx = it.ctx
    if isinstance(a, PObj) or isinstance(b, PObj):
        n, rn = _DUNDER[op]
        if isinstance(a, PObj):
            f, _ = a.cls.lookup(n)
            if f is not None:
                r = it.call(f, [a, b], {})
                if r is not NotImplemented:
                    return r
        if isinstance(b, PObj):
            f, _ = b.cls.lookup(rn)
            if f is not None:
                r = it.call(f, [b, a], {})
                if r is not NotImplemented:
                    return r
        raise_py(TypeError, f"unsupported operand type(s) for {op}")
    for x, y, r in ((a, b, False), (b, a, True)):
        if isinstance(x, ModelObj):
            f = _b.getattr(x, "m_binop", None)
            if f is not None:
                v = f(it, op, y, r)
                if v is not NotImplemented:
                    return v
            raise_py(TypeError, f"unsupported operand type(s) for {op}")
    if isinstance(a, SBool):
        if op in ("BitAnd", "BitOr") and isinstance(b, (bool, SBool)):
            return b_and(a, b) if op == "BitAnd" else b_or(a, b)
        a = bool_to_int(a)
    if isinstance(b, SBool):
        if op in ("BitAnd", "BitOr") and isinstance(a, bool):
            return b_and(a, b) if op == "BitAnd" else b_or(a, b)
        b = bool_to_int(b)
    if isinstance(a, SInt) or isinstance(b, SInt):
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            if op == "Add":
                return int_add(ctx, a, b)
            if op == "Sub":
                return int_sub(ctx, a, b)
            if op == "Mult":
                return int_mul(ctx, a, b)
            if op == "Mod":
                return int_mod(ctx, a, b) if isinstance(a, SInt) else int_mod(ctx, _const_bv(a), b)
            if op == "FloorDiv":
                return int_floordiv(ctx, a, b) if isinstance(a, SInt) else int_floordiv(ctx, _const_bv(a), b)
            if op == "LShift":
                return int_shl(ctx, a, b)
            if op == "RShift":
                return int_shr(ctx, a, b)
            if op in ("BitAnd", "BitOr", "BitXor"):
                return int_bit(ctx, {"BitAnd": "&", "BitOr": "|", "BitXor": "^"}[op], a, b)
            if op == "Pow":
                return int_pow(ctx, a, b)
            raise Unsupported(f"{op} on integers")
        s = b if isinstance(a, SInt) else a
        i = a if isinstance(a, SInt) else b
        if op == "Mult" and (is_bytes(s) or is_str(s) or isinstance(s, (list, tuple))):
            if it.seq_mode and isinstance(s, (str, bytes)) and i.k == "z":
                return seqs.str_times(it, s, i)
            if isinstance(s, bytes) and len(s) == 1 and i.k == "z":
                L = z3.simplify(z3.If(i.e > 0, i.e, 0))
                t = UF("VREP", BVS(8), I, VB)(bvval(s[0], 8), L)

                def fix(n):
                    if n:
                        ctx.axiom(UF(f"VFIX{n}", BVS(8 * n), VB)(b_e(s * n)) == t)
                    return s * n
                return VBytes(vbase(ctx, t, L, fix=fix, prov=("rep", s, L)))
            n = concretize(ctx, i, 0, 64)
            return binop(it, op, s, n)
        if op == "Mod" and is_str(s) and s is a:
            return str_mod(it, a, b)
        if isinstance(s, float):
            raise Unsupported("float arithmetic")
        raise_py(TypeError, f"unsupported operand type(s) for {op}")
    if isinstance(a, (SByteArray, bytearray)) or isinstance(b, (SByteArray, bytearray)):
        if op == "Add":
            x = to_byte_items(it, a)
            y = to_byte_items(it, b)
            return SByteArray(x + y) if isinstance(a, (SByteArray, bytearray)) else b_from_items(x + y)
        raise Unsupported("bytearray arithmetic")
    if op == "Mod" and is_str(a):
        return str_mod(it, a, b)
    if is_bytes(a) or is_bytes(b):
        if op == "Mod" and is_bytes(a):
            return bytes_mod(it, a, b)
        if op == "Add":
            if not (is_bytes(a) and is_bytes(b)):
                raise_py(TypeError, "can't concat to bytes")
            return b_concat(ctx, [a, b])
        if op == "Mult":
            s, n = (a, b) if is_bytes(a) else (b, a)
            if isinstance(s, bytes) and not is_sym(n):
                return host(operator.mul, s, n)
            if isinstance(n, (SInt, SBool)):
                raise Unsupported("repetition of symbolic bytes a symbolic number of times")
            if not isinstance(n, int):
                raise_py(TypeError, "can't multiply sequence by non-int")
            return b_concat(ctx, [s] * n)
        raise_py(TypeError, f"unsupported operand type(s) for {op}")
    if is_str(a) or is_str(b):
        if op == "Add":
            if not (is_str(a) and is_str(b)):
                raise_py(TypeError, "can only concatenate str to str")
            return str_cat(it, a, b)
        if op == "Mod" and is_str(a):
            if isinstance(a, str) and deep_concrete(b) and not has_p(b if isinstance(b, (list, tuple, dict, set)) else [b]):
                return host(operator.mod, a, b)
            return str_mod(it, a, b)
        if op == "Mult":
            t, n = (a, b) if is_str(a) else (b, a)
            if is_str(n) or is_bytes(n) or n is None or isinstance(n, (float, list, tuple, dict)):
                raise_py(TypeError, "can't multiply sequence by non-int")
            if isinstance(t, str) and isinstance(n, int):
                return host(operator.mul, t, n)
            if isinstance(t, SStr) and isinstance(n, int) and n <= 8:
                r = ""
                for _ in range(n):
                    r = str_cat(it, r, t)
                return r
            raise Unsupported("repetition of symbolic text")
        raise_py(TypeError, f"unsupported operand type(s) for {op}")
    if isinstance(a, (list, tuple)) and op in ("Add", "Mult") or isinstance(b, (list, tuple)) and op == "Mult":
        return host(_HOST_OPS[op], a, b)
    if isinstance(a, (PClass, PFunc, Typing, ModelClass)):
        if isinstance(a, Typing) or isinstance(b, Typing) or op == "BitOr":
            return Typing("union")
        raise_py(TypeError, "unsupported operand")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("arithmetic on an opaque value")
    return host(_HOST_OPS[op], a, b)


def str_mod(it, a, b):
    """a % b of a constant text."""
    import re
    if not isinstance(a, str):
        raise Unsupported("symbolic format text")
    args = list(b) if isinstance(b, tuple) else [b]
    if isinstance(b, (PObj, ModelObj)) or isinstance(b, Opaque) and b.kind == "any":
        raise Unsupported("formatting an object with %")
    mapping = isinstance(b, (dict, list, bytes, bytearray, SBytes, VBytes, SByteArray, VByteArray))
    out, i, used, pos = "", 0, 0, 0
    for m in re.finditer(r"%(\(([^()]*)\))?([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?[hlL]?(.?)", a, re.S):
        out = str_cat(it, out, a[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, c = m.group(2), m.group(3), m.group(4), m.group(5), m.group(6)
        if c == "":
            raise_py(ValueError, "incomplete format")
        if c == "%":
            out = str_cat(it, out, "%")
            continue
        if "*" in (width, prec):
            raise Unsupported("* in a format")
        if key is not None:
            if not isinstance(b, dict):
                if mapping:
                    raise Unsupported("format key of a sequence")
                raise_py(TypeError, "format requires a mapping")
            x = getitem(it, b, key)
        else:
            if used == len(args):
                raise_py(TypeError, "not enough arguments for format string")
            x = args[used]
            used += 1
        plain = not flags and not width and prec is None
        if c in "sra":
            t = text_of(it, x, {"s": 115, "r": 114, "a": 97}[c])
            out = str_cat(it, out, t if plain else Opaque("padded text"))
        elif c in "diuxXo":
            if isinstance(x, (float, Opaque, PObj, ModelObj)):
                raise Unsupported("% format of this value")
            if not isinstance(x, (int, SInt, SBool)):
                raise_py(TypeError, f"%{c} format: an integer is required")
            y = bool_to_int(x)
            if isinstance(y, int):
                out = str_cat(it, out, host(operator.mod, m.group(0), y))
            elif prec is None and c == "x" and flags in ("", "0"):
                out = str_cat(it, out, format_value(it, y, flags + width + "x", -1))
            else:
                out = str_cat(it, out, Opaque("formatted integer"))
        elif c in "eEfFgGc":
            if is_bytes(x) or x is None or is_str(x) and c != "c":
                raise_py(TypeError, "must be real number")
            raise Unsupported("% format " + c)
        else:
            raise_py(ValueError, "unsupported format character")
    out = str_cat(it, out, a[pos:])
    if used < len(args) and not (mapping and not isinstance(b, tuple)):
        raise_py(TypeError, "not all arguments converted during string formatting")
    return out


def bytes_mod(it, a, b):
    """a % b of a constant byte string."""
    import re
    if not isinstance(a, bytes):
        raise Unsupported("symbolic format")
    args = list(b) if isinstance(b, tuple) else [b]
    if not isinstance(b, (tuple, int, bytes, SBytes, VBytes, SInt, SBool)):
        raise Unsupported("formatting this value with %")
    out, used, pos = [], 0, 0
    for m in re.finditer(rb"%(\(([^()]*)\))?([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?[hlL]?(.?)", a, re.S):
        out.append(a[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, c = m.group(2), m.group(3), m.group(4), m.group(5), m.group(6)
        if c == b"":
            raise_py(ValueError, "incomplete format")
        if key is not None or b"*" in (width, prec):
            raise Unsupported("% format of bytes")
        if c == b"%":
            out.append(b"%")
            continue
        if used == len(args):
            raise_py(TypeError, "not enough arguments for format string")
        x = args[used]
        used += 1
        plain = not flags and not width and prec is None
        if c in b"bs":
            if isinstance(x, SByteArray):
                x = b_from_items(x.items) if x.items else b""
            elif isinstance(x, VByteArray):
                x = x.v
            elif isinstance(x, bytearray):
                x = bytes(x)
            if isinstance(x, (Opaque, PObj, ModelObj)):
                raise Unsupported("% format of bytes")
            if not is_bytes(x):
                raise_py(TypeError, "%b requires a bytes-like object, or an object that implements __bytes__")
            if not plain:
                raise Unsupported("padded % format of bytes")
            out.append(x)
        elif c == b"c" and plain:
            if isinstance(x, (int, SInt, SBool)):
                y = bool_to_int(x)
                if not it.truth(b_and(compare(it, ">=", y, 0), compare(it, "<", y, 256))):
                    raise_py(OverflowError, "%c arg not in range(256)")
                out.append(b_from_items([byte_item(it, y)]))
            elif is_fixed_bytes(x) and b_len(x) == 1:
                out.append(x)
            else:
                raise Unsupported("%c format of bytes")
        elif isinstance(x, int) and c in b"diuxXo":
            out.append(host(operator.mod, m.group(0), x))
        else:
            raise Unsupported("% format of bytes")
    out.append(a[pos:])
    if used < len(args):
        raise_py(TypeError, "not all arguments converted during bytes formatting")
    return b_concat(it.ctx, out)


def str_format(it, s, args, kwargs, auto=None):
    """s.format(...) of a constant text."""
    auto = auto if auto is not None else [0]
    out = ""
    for lit, field, spec, conv in host(lambda: list(_string.Formatter().parse(s))):
        out = str_cat(it, out, lit)
        if field is None:
            continue
        first, rest = host(lambda: (lambda p: (p[0], list(p[1])))(_string._string.formatter_field_name_split(field)))
        if first == "" or isinstance(first, int):
            if first == "":
                if auto[0] is None:
                    raise_py(ValueError, "cannot switch from manual field specification to automatic field numbering")
                first = auto[0]
                auto[0] += 1
            else:
                if auto[0]:
                    raise_py(ValueError, "cannot switch from automatic field numbering to manual field specification")
                auto[0] = None
            if first >= len(args):
                raise_py(IndexError, "Replacement index out of range for positional args tuple")
            x = args[first]
        else:
            if first not in kwargs:
                raise_py(KeyError, first)
            x = kwargs[first]
        for attr, n in rest:
            x = it.getattr(x, n) if attr else getitem(it, x, n)
        if conv not in (None, "r", "s", "a"):
            raise_py(ValueError, "Unknown conversion specifier")
        if "{" in spec:
            spec = str_format(it, spec, args, kwargs, auto)
        out = str_cat(it, out, format_value(it, x, spec, {None: -1, "s": 115, "r": 114, "a": 97}[conv]))
    return out


class NoWitness(Exception):
    pass


def witness(v):
    """A value of CPython of the same type."""
    if isinstance(v, SInt):
        return 1
    if isinstance(v, SBool):
        return True
    if isinstance(v, SStr):
        return "a"
    if isinstance(v, SBytes):
        return b"a" * v.n
    if isinstance(v, VBytes):
        return b"a"
    if isinstance(v, (SByteArray, VByteArray)):
        return bytearray(b"a")
    if v is None or type(v) in (bool, int, str, bytes, float):
        return v
    if type(v) is tuple:
        return tuple(witness(x) for x in v)
    raise NoWitness()


def type_errors(o, name, args, kwargs):
    """The TypeError that CPython raises for arguments of these types, if it does (methods of int, str and bytes, whose
    type errors do not depend on the values)."""
    try:
        w = [witness(x) for x in args]
        kw = {k: witness(x) for k, x in kwargs.items()}
        if isinstance(o, type):
            f = _b.getattr(o, name)
        else:
            f = _b.getattr(witness(o), name)
    except (NoWitness, AttributeError):
        return
    try:
        f(*w, **kw)
    except TypeError as ex:
        raise_py(TypeError, str(ex))
    except Exception:
        return


# methods whose type errors may depend on values
BY_VALUE = {"join", "format", "format_map", "translate", "maketrans", "extend", "__mod__", "__mul__", "__rmul__", "__getitem__",
            "__contains__"}


def unop(it, op, v):
    ctx = it.ctx
    if isinstance(v, SBool):
        v = bool_to_int(v)
    if isinstance(v, SInt):
        if op == "USub":
            return int_neg(ctx, v)
        if op == "UAdd":
            return v
        return int_invert(ctx, v)
    if isinstance(v, PObj):
        f, _ = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
        if f is not None:
            return it.call(f, [v], {})
    if isinstance(v, ModelObj) and hasattr(v, "m_unop"):
        return v.m_unop(it, op)
    if is_sym(v) or isinstance(v, (PObj, ModelObj)):
        raise_py(TypeError, "bad operand type for unary operator")
    return host({"USub": operator.neg, "UAdd": operator.pos, "Invert": operator.invert}[op], v)


# ------------------------------------------------------------------ text
def str_cat(it, a, b):
    ctx = it.ctx
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) and a == "":
        return b
    if isinstance(b, str) and b == "":
        return a
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque("text")
    pa = a.prov if isinstance(a, SStr) else None
    pb = b.prov if isinstance(b, SStr) else None

    def hexof(x, p):
        if p and p[0] == "hex":
            return p[1]
        if isinstance(x, str):
            try:
                if bytes.fromhex(x).hex() == x:
                    return bytes.fromhex(x)
            except ValueError:
                pass
        return None
    ha, hb = hexof(a, pa), hexof(b, pb)
    if ha is not None and hb is not None and (pa and pa[0] == "hex" or pb and pb[0] == "hex"):
        return mk_hex(it, b_concat(ctx, [ha, hb]))
    e = UF("SCAT", StrS, StrS, StrS)(str_term(ctx, a), str_term(ctx, b))
    if ("scat", eid(e)) not in ctx.memo:
        ctx.memo["scat", eid(e)] = True
        n = [z3.IntVal(len(x)) if isinstance(x, str) else slen_term(ctx, x) for x in (a, b)]
        ctx.axiom(UF("SLEN", StrS, I)(e) == n[0] + n[1])
    return SStr(e, ("cat", a, b))


def mk_hex(it, b):
    """Lower-case hexadecimal text of a byte string."""
    ctx = it.ctx
    b = vresolve(ctx, b)
    if isinstance(b, (bytes, bytearray)):
        return bytes(b).hex()
    if isinstance(b, VBytes):
        e = UF("HEXV", VB, StrS)(vterm(ctx, b))
    else:
        e = UF(f"HEX{b.n}", b.e.sort(), StrS)(b.e)
        key = ("hex", eid(e))
        if key not in ctx.memo:
            ctx.memo[key] = True
            ctx.axiom(UF(f"UNHEX{b.n}", StrS, b.e.sort())(e) == b.e)
            ctx.axiom(UF("SLEN", StrS, I)(e) == 2 * b.n)
            ctx.axiom(UF("ISHEX", StrS, B)(e))
            ctx.axiom(UF("HEXLEN", StrS, I)(e) == b.n)
    return SStr(e, ("hex", b))


def format_value(it, x, spec, conversion):
    """format(x, spec) after the conversion (-1, or the code of s, r or a); fails as CPython does."""
    if not isinstance(spec, str):
        if not is_str(spec):
            raise_py(TypeError, "format() argument 2 must be str")
        raise Unsupported("symbolic format specification")
    if isinstance(x, Opaque) and x.kind not in ("str", "int") and (spec or conversion != -1 and x.kind == "any"):
        raise Unsupported("formatting an opaque value")
    if conversion != -1:
        t = text_of(it, x, conversion)
        if spec == "":
            return t
        return host(format, t, spec) if isinstance(t, str) else (host(format, "x", spec), Opaque("padded text"))[1]
    if isinstance(x, PObj):
        f, _ = x.cls.lookup("__format__")
        if f is not None:
            r = it.call(f, [x, spec], {})
            if not is_str(r):
                raise_py(TypeError, "__format__ must return a str")
            return r
        if any(isinstance(m, type) and m is not object for m in x.cls.mro):
            if spec:
                raise Unsupported("formatting an object of a class with a built-in base")
            return text_of(it, x, 115)
    if spec == "":
        return text_of(it, x, 115)
    if isinstance(x, SInt):
        import re
        m = re.fullmatch(r"0?(\d*)x", spec)
        if m and x.k == "bv" and not x.signed:
            n = int(m.group(1) or 0)
            x = force_mul(x)
            if n % 2 == 0 and n and x.w <= 4 * n and spec.startswith("0"):
                return mk_hex(it, mk_bytes(ext(x.e, False, 4 * n)))
        if spec[-1] in "eEfFgG%cn":
            raise Unsupported(f"format specification {spec} of a symbolic integer")
        host(format, 5, spec)
        return Opaque("formatted integer")
    if isinstance(x, SBool):
        host(format, True, spec)
        return Opaque("formatted truth value")
    if isinstance(x, (SStr, Opaque)):
        host(format, "x" if isinstance(x, SStr) or x.kind == "str" else 5, spec)
        return Opaque("padded text")
    if isinstance(x, (int, str, float)):
        return host(format, x, spec)
    if isinstance(x, ModelObj):
        raise Unsupported("formatting a library object")
    raise_py(TypeError, "unsupported format string passed to __format__")


def text_of(it, x, conversion):
    """str(x), repr(x) or ascii(x)."""
    if isinstance(x, SStr) and conversion == 115:
        return x
    if isinstance(x, PObj):
        for n in ("__str__", "__repr__") if conversion == 115 else ("__repr__",):
            f, _ = x.cls.lookup(n)
            if isinstance(f, (PFunc, Bound)):
                r = it.call(f, [x], {})
                if not is_str(r):
                    raise_py(TypeError, f"{n} returned non-string")
                return r if conversion != 97 else Opaque("text of an object")
        return Opaque("text of an object")
    if is_sym(x) or has_p(x):
        if isinstance(x, (list, tuple, set, dict)) and any(isinstance(y, PObj) for y in parts_of(x)):
            raise Unsupported("text of a container of objects")
        return Opaque("text of a symbolic value")
    if not deep_concrete(x):
        return Opaque("text of a container")
    if isinstance(x, str) and conversion == 115:
        return x
    return host({114: repr, 115: str, 97: ascii}[conversion], x)


def parts_of(x):
    if isinstance(x, dict):
        x = list(x.keys()) + list(x.values())
    for y in x:
        if isinstance(y, (list, tuple, set, dict)):
            yield from parts_of(y)
        else:
            yield y


def has_p(x):
    if isinstance(x, (list, tuple, set)):
        return any(has_p(y) for y in x)
    if isinstance(x, dict):
        return any(has_p(y) for y in x.values())
    return isinstance(x, (PObj, HExc, PClass, SByteArray, PFunc, Bound, Builtin, ModelObj, ModelClass, Typing,
                          PModule))


# ------------------------------------------------------------------ containers
def iterate(it, v):
    ctx = it.ctx
    if isinstance(v, VBytes):
        v = vforce(ctx, v)
        if isinstance(v, VBytes):
            raise Unsupported("iteration over bytes of unknown length without an invariant")
    if isinstance(v, (SBytes, bytes)):
        return b_items(v)
    if isinstance(v, SByteArray):
        return list(v.items)
    if isinstance(v, bytearray):
        return list(v)
    if isinstance(v, (list, tuple)):
        return v if isinstance(v, tuple) else LiveList(v)
    if isinstance(v, SymKeys):
        return SymIter(it)
    if isinstance(v, (dict, set, frozenset, range, str)):
        return list(v)
    if isinstance(v, SStr):
        raise Unsupported("iteration over symbolic text")
    if isinstance(v, Opaque):
        raise Unsupported("iteration over an opaque value")
    if isinstance(v, PObj):
        f, _ = v.cls.lookup("__iter__")
        if f is not None:
            r = it.call(f, [v], {})
            if r is v:
                nxt, _ = v.cls.lookup("__next__")
                if nxt is None:
                    raise_py(TypeError, "iter() returned non-iterator")
                return _obj_iter(it, v, nxt)
            return iterate(it, r)
        f, _ = v.cls.lookup("__getitem__")
        if f is not None:
            return _index_iter(it, v, f)
        raise_py(TypeError, f"'{v.cls.name}' object is not iterable")
    if isinstance(v, ModelObj) and hasattr(v, "iterate"):
        return v.iterate(it)
    if v is None or isinstance(v, (int, SInt, float)):
        raise_py(TypeError, f"'{type_of(it, v).__name__}' object is not iterable")
    if hasattr(v, "__iter__"):
        return list(v)
    raise Unsupported(f"iteration over {type(v).__name__}")


class PyIter(ModelObj):
    """An iterator: a host iterator of values, consumed once."""
    model_class = type(iter([]))

    def __init__(self, src, kind="iterator"):
        self.src, self.kind = iter(src), kind

    used = 0               # times it was advanced (the loop rule asks)

    def iterate(self, it):
        self.used += 1
        return self.src

    def m_contains(self, it, x):
        r = False
        self.used += 1
        for y in self.src:
            e = eq(it, x, y)
            if e is True or e is not False and it.truth(e):
                return True
        return r

    def m___next__(self, it):
        return B_next(it, [self], {})

    def m___iter__(self, it):
        return self

    def m_close(self, it):
        self.src = iter(())


class VRevIter(PyIter):
    """reversed() of bytes of unknown length: good for bytes(...) and the like, not element by element."""

    def __init__(self, v):
        self.v, self.kind = v, "reversed"

    def rest(self):
        self.used += 1
        return b"" if self.used > 1 else self.v

    @property
    def src(self):
        raise Unsupported("iteration over bytes of unknown length without an invariant")

    def m_close(self, it):
        raise Unsupported("close")


def _obj_iter(it, v, nxt):
    while True:
        try:
            x = it.call(nxt, [v], {})
        except PyRaise as pr:
            if isinstance(pr.exc, HExc) and pr.exc.cls is StopIteration:
                return
            raise
        yield x


def _index_iter(it, v, get):
    i = 0
    while True:
        try:
            x = it.call(get, [v, i], {})
        except PyRaise as pr:
            if isinstance(pr.exc, HExc) and issubclass(pr.exc.cls, IndexError):
                return
            raise
        yield x
        i += 1


class LiveList:
    def __init__(self, v):
        self.v = v

    def __iter__(self):
        i = 0
        while i < len(self.v):
            yield self.v[i]
            i += 1


class SymIter:
    """The network names: any number of them (0, 1, or 'two and more', whose state is the same as after two)."""

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        n = self.it.ctx.choose(3)
        for i in range(n):
            yield Opaque("network name")


def getslice(it, o, lo, hi, step):
    ctx = it.ctx
    if isinstance(o, SymKeys):
        raise Unsupported("slice of the network names")
    if isinstance(o, seqs.SSeq):
        return o.m_slice(it, lo, hi, step)
    if isinstance(o, ModelObj) and _hasattr(o, "getslice"):
        return o.getslice(it, lo, hi, step)
    if isinstance(step, SInt):
        step = concretize(ctx, step, -8, 8)
    if isinstance(o, (VBytes,)):
        o2 = vresolve(ctx, o)
        if isinstance(o2, VBytes):
            if step == -1 and lo is None and hi is None:
                return vreverse(it, o2)
            if step not in (None, 1):
                raise Unsupported("stepped slice of bytes of unknown length")
            return vslice(ctx, o2, lo, hi)
        o = o2
    if isinstance(lo, SInt) or isinstance(hi, SInt):
        n = b_len(o) if is_fixed_bytes(o) else len(o) if not is_sym(o) else None
        if n is None:
            raise Unsupported("symbolic slice of symbolic text")
        lo = concretize(ctx, lo, -n - 64, n + 64) if isinstance(lo, SInt) else lo
        hi = concretize(ctx, hi, -n - 64, n + 64) if isinstance(hi, SInt) else hi
    if isinstance(o, SBytes):
        if step in (None, 1):
            return b_slice(o, lo, hi)
        return b_from_items(b_items(o)[lo:hi:step])
    if isinstance(o, SByteArray):
        return SByteArray(o.items[lo:hi:step])
    if isinstance(o, SStr):
        if o.prov and o.prov[0] == "hex" and step in (None, 1):
            b = vresolve(ctx, o.prov[1])
            if not isinstance(b, VBytes):
                i, j, _ = slice(lo, hi).indices(2 * b_len(b))
                if i % 2 == 0 and j % 2 == 0:
                    return mk_hex(it, b_slice(b, i // 2, j // 2))
        ctx.note_inexact("slice of text")
        c = lambda x: z3.IntVal(x if isinstance(x, int) else -10 ** 9)
        e = UF("SSLICE", StrS, I, I, I, StrS)(o.e, c(lo), c(hi), c(step))
        return SStr(e, ("slice",))
    if isinstance(o, Opaque):
        return Opaque("slice of " + o.why)
    if isinstance(o, PObj):
        f, _ = o.cls.lookup("__getitem__")
        if f is not None:
            return it.call(f, [o, slice(lo, hi, step)], {})
    if o is None or isinstance(o, int):
        raise_py(TypeError, "object is not subscriptable")
    return host(operator.getitem, o, slice(lo, hi, step))


def vreverse(it, v):
    ctx = it.ctx
    if vfull(v) and v.base.prov and v.base.prov[0] == "rev":
        return v.base.prov[1]
    t = UF("VREV", VB, VB)(vterm(ctx, v))
    b = vbase(ctx, t, bytes_len_z(v), prov=("rev", v))
    return VBytes(b)


def getitem(it, o, k):
    ctx = it.ctx
    if isinstance(k, slice):
        return getslice(it, o, k.start, k.stop, k.step)
    if isinstance(o, type) and issubclass(o, enum.Enum):
        if not isinstance(k, str):
            raise Unsupported("enum member by symbolic name")
        return host(operator.getitem, o, k)
    if isinstance(o, Typing) or isinstance(o, type) or isinstance(o, PClass) and not isinstance(o, PObj):
        return Typing("generic")
    if isinstance(o, SymMap):
        if not it.truth(o.contains(it, k)):
            raise_py(KeyError, "network")
        return SymNet(o, k)
    if isinstance(o, SymNet):
        return o.item(it, k)
    if isinstance(o, SymKeys):
        raise Unsupported("index into the network names")
    if isinstance(o, PObj):
        f, _ = o.cls.lookup("__getitem__")
        if f is not None:
            return it.call(f, [o, k], {})
        raise_py(TypeError, f"'{o.cls.name}' object is not subscriptable")
    if isinstance(k, SBool) and (is_bytes(o) or is_str(o) or isinstance(o, (SByteArray, VByteArray, list, tuple, bytearray))):
        k = int(it.truth(k))
    if isinstance(o, VBytes):
        o = vforce(ctx, o)
        if isinstance(o, VBytes):
            L = bytes_len_z(o)
            if isinstance(k, int):
                if not ctx.branch(L >= (k + 1 if k >= 0 else -k)):
                    raise_py(IndexError, "index out of range")
                p = vslice(ctx, o, k, k + 1 if k != -1 else None)
                return b_items(p)[0]
            raise Unsupported("symbolic index")
    if isinstance(o, (SBytes, SByteArray)) or isinstance(o, (bytes, bytearray, list, tuple, str)) and isinstance(k, SInt):
        n = b_len(o) if isinstance(o, SBytes) else len(o.items) if isinstance(o, SByteArray) else len(o)
        if isinstance(k, SInt):
            if it.seq_mode and isinstance(o, str):
                return seqs.str_index(it, o, k)
            if not it.truth(b_and(compare(it, ">=", k, -n), compare(it, "<", k, n))):
                raise_py(IndexError, "index out of range")
            if isinstance(o, (list, tuple, bytes)) and k.k == "bv" and not k.signed and n and \
                    all(isinstance(x, int) and 0 <= x < 2 ** 64 for x in o):
                w = max(1, max(o).bit_length())
                ke, _ = as_bv(k)
                r = bvval(o[-1], w)
                for i in range(min(n, 2 ** k.w) - 1, -1, -1):
                    r = z3.If(ke == i, bvval(o[i], w), r)
                return mk_int(r)
            k = concretize(ctx, k, -n, n - 1)
        if not isinstance(k, int):
            raise_py(TypeError, "indices must be integers")
        items = o.items if isinstance(o, SByteArray) else b_items(o) if isinstance(o, (SBytes, bytes)) else o
        if not -n <= k < n:
            raise_py(IndexError, "index out of range")
        return items[k]
    if isinstance(o, SStr):
        if is_sym(k):
            raise Unsupported("symbolic index of text")
        if not isinstance(k, int):
            raise_py(TypeError, "string indices must be integers")
        L = B_len(it, [o], {})
        if not it.truth(compare(it, ">=", L, k + 1 if k >= 0 else -k)):
            raise_py(IndexError, "string index out of range")
        return getslice(it, o, k, k + 1 if k != -1 else None, None)
    if isinstance(o, dict):
        if sym_key(k):
            for x in o:
                if it.truth(eq(it, k, x)):
                    return o[x]
            raise_py(KeyError, "symbolic key")
        return host(operator.getitem, o, key(it, k))
    if isinstance(o, ModelObj):
        f = _b.getattr(o, "getitem", None)
        if f:
            return f(it, k)
        raise_py(TypeError, "object is not subscriptable")
    if isinstance(o, (ModelClass, Builtin)):
        return Typing("generic")
    if isinstance(o, Opaque):
        raise Unsupported("item of an opaque value")
    if is_sym(k):
        raise Unsupported("symbolic key")
    if isinstance(o, (SInt, SBool, PFunc, Bound)):
        raise_py(TypeError, "object is not subscriptable")
    return host(operator.getitem, o, k)


def sym_key(k):
    return is_sym(k) or isinstance(k, tuple) and not deep_concrete(k) and not _holds_mutable(k)


def _holds_mutable(k):
    return any(isinstance(x, (list, dict, set, bytearray)) or isinstance(x, tuple) and _holds_mutable(x) for x in k)


def key(it, k):
    if isinstance(k, (list, dict, set, bytearray)) or isinstance(k, tuple) and _holds_mutable(k):
        raise_py(TypeError, "unhashable type")
    if is_sym(k):
        raise Unsupported("symbolic dictionary key")
    if isinstance(k, tuple):
        if not deep_concrete(k):
            raise Unsupported("symbolic dictionary key")
    return k


def setitem(it, o, k, v):
    ctx = it.ctx
    it.note_write(o, "[...]")
    if isinstance(o, dict):
        o[key(it, k)] = v
        return
    if isinstance(o, list):
        if isinstance(k, slice):
            o[k] = it.iter_list(v)
            return
        if isinstance(k, SInt):
            k = concretize(ctx, k, -len(o), len(o) - 1)
        return host(operator.setitem, o, k, v)
    if isinstance(o, SByteArray):
        if isinstance(k, slice):
            o.items[k] = to_byte_items(it, v)
            return
        if isinstance(k, SInt):
            k = concretize(ctx, k, -len(o.items), len(o.items) - 1)
        o.items[k] = byte_item(it, v)
        return
    if isinstance(o, bytearray):
        raise Unsupported("host bytearray assignment")
    if isinstance(o, PObj):
        f, _ = o.cls.lookup("__setitem__")
        if f is not None:
            return it.call(f, [o, k, v], {})
    if isinstance(o, (SymMap, SymNet)):
        it.frame_writes.append("currency table")
        raise Unsupported("write to the currency table")
    if isinstance(o, ModelObj) and hasattr(o, "setitem"):
        return o.setitem(it, k, v)
    raise_py(TypeError, "object does not support item assignment")


def delitem(it, o, k):
    it.note_write(o, "[...]")
    if isinstance(o, dict):
        k = key(it, k)
        if k not in o:
            raise_py(KeyError, k)
        del o[k]
        return
    if isinstance(o, list):
        return host(operator.delitem, o, k)
    if isinstance(o, SByteArray):
        del o.items[k]
        return
    raise Unsupported("del item")


def byte_item(it, v):
    if isinstance(v, SBool):
        v = bool_to_int(v)
    if isinstance(v, SInt):
        if v.k == "bv" and not v.signed and v.w <= 8:
            return v
        ok = b_and(compare(it, ">=", v, 0), compare(it, "<", v, 256))
        if not it.truth(ok):
            raise_py(ValueError, "byte must be in range(0, 256)")
        if v.k == "bv":
            e, s = as_bv(v)
            return mk_int(z3.Extract(7, 0, e) if e.size() > 8 else ext(e, False, 8))
        if v.k == "z":
            return z_to_bv(it.ctx, v, 8)
        raise Unsupported("byte from a residue")
    if not isinstance(v, int):
        raise_py(TypeError, "an integer is required")
    if not 0 <= v < 256:
        raise_py(ValueError, "byte must be in range(0, 256)")
    return v


def to_byte_items(it, v):
    if isinstance(v, SByteArray):
        return list(v.items)
    if isinstance(v, bytearray):
        return list(v)
    if is_bytes(v):
        v = vforce(it.ctx, v)
        if isinstance(v, VBytes):
            raise Unsupported("items of bytes of unknown length")
        return b_items(v)
    return [byte_item(it, x) for x in iterate(it, v)]


# ------------------------------------------------------------------ attributes of built-in values
def getattr(it, o, name):
    if isinstance(o, ModelObj):
        r = o.py_getattr(it, name)
        if r is NotImplemented:
            if it.ctx is not None:
                raise Unsupported(f"library attribute {type(o).__name__}.{name}")
        return r
    if isinstance(o, ModelClass):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__name__":
            return o.name
        raise Unsupported(f"library attribute {o.name}.{name}")
    if isinstance(o, Typing):
        return Typing(name)
    if isinstance(o, AbsExc):
        if name == "args":
            return (Opaque("message"),)
        if name == "__class__":
            return type_of(it, o)
        if name == "with_traceback":
            return Builtin("with_traceback", lambda i, a, k: o)
        raise Unsupported("attribute of an exception known by contract only")
    if isinstance(o, HExc):
        if name == "args":
            return o.args
        if name == "__class__":
            return o.cls
        if name == "with_traceback":
            return Builtin("with_traceback", lambda i, a, k: o)
        if hasattr(o.cls, name):
            raise Unsupported(f"attribute {name} of an exception")
        raise_py(AttributeError, name)
    if isinstance(o, (PFunc, Bound)):
        f = o.fn if isinstance(o, Bound) else o
        if name in f.attrs:
            return f.attrs[name]
        if name in ("__name__", "__qualname__"):
            return f.name
        if name == "__doc__":
            return None
        if name == "__self__" and isinstance(o, Bound):
            return o.self_
        if name == "__func__" and isinstance(o, Bound):
            return o.fn
        raise_py(AttributeError, name)
    if isinstance(o, Builtin):
        if name == "__name__":
            return o.name
        if name in o.attrs:
            return o.attrs[name]
        raise Unsupported(f"attribute {name} of {o.name}")
    if isinstance(o, Wrapped):
        if o.kind == "property" and name == "setter":
            return Builtin("setter", lambda i, a, k: Wrapped("property", o.fn, a[0]))
        raise Unsupported("attribute of a descriptor")
    if isinstance(o, type):
        if name in ("__name__", "__qualname__"):
            return o.__name__
        if issubclass(o, enum.Enum):
            if name in o.__members__:
                return o[name]
            if name == "__members__":
                return dict(o.__members__)
            raise Unsupported(f"enum.{name}")
        if _hasattr(o, "py_methods"):
            if name == "_fields":
                return o._fields
            if name == "_make":
                return Builtin("_make", lambda i, a, k: o._make(list(iterate(i, a[0]))))
            v = o.py_methods.get(name)
            if v is not None:
                return Bound(v.fn, o) if isinstance(v, Wrapped) and v.kind == "classmethod" else \
                    v.fn if isinstance(v, Wrapped) and v.kind == "staticmethod" else v
        return HMethod(o, name) if hasattr(o, name) else raise_py(AttributeError, name)
    if name == "__class__":
        return type_of(it, o)
    t = type_of(it, o)
    if isinstance(o, tuple) and _hasattr(t, "py_methods"):
        from . import pylib
        r = pylib.nt_getattr(it, o, name)
        if r is not NotImplemented:
            return r
    if isinstance(o, enum.Enum) and name in ("name", "value", "_name_", "_value_"):
        return _b.getattr(o, name)
    if isinstance(o, Opaque):
        return HMethod(o, name)
    if isinstance(t, type) and hasattr(t, name):
        if isinstance(o, int) and name in ("real", "imag", "numerator", "denominator"):
            return _b.getattr(o, name)
        if isinstance(o, (SInt, SBool)) and name in ("real", "imag", "numerator", "denominator"):
            return bool_to_int(o) if name in ("real", "numerator") else int(name == "denominator")
        if not callable(_b.getattr(t, name)):
            raise Unsupported(f"attribute {name} of a value")
        return HMethod(o, name)
    raise_py(AttributeError, f"'{_b.getattr(t, '__name__', t)}' object has no attribute '{name}'")


_hasattr = hasattr


def as_choice(it, v, options):
    """Which of the constant strings is v?  None if none of them."""
    if isinstance(v, str) or v is None:
        return v if v in options else None
    for o in options:
        if it.truth(eq(it, v, o)):
            return o
    return None


# ------------------------------------------------------------------ calls of built-ins
def call(it, fn, args, kwargs):
    if isinstance(fn, Builtin):
        return fn.fn(it, args, kwargs)
    if isinstance(fn, HMethod):
        return call_method(it, fn.self_, fn.name, args, kwargs)
    if isinstance(fn, ModelClass):
        if fn.call is None:
            if isinstance(fn.inst, type) and issubclass(fn.inst, BaseException):
                return HExc(fn.inst, args)
            raise Unsupported(f"construction of {fn.name}")
        return fn.call(it, *args, **kwargs)
    if isinstance(fn, type):
        return call_type(it, fn, args, kwargs)
    if isinstance(fn, Typing):
        if fn.name == "NamedTuple":
            from . import pylib
            return pylib.typing_namedtuple(it, *args, **kwargs)
        if fn.name == "NewType":
            return Builtin("NewType", lambda i, a, k: a[0])
        if fn.name in ("final", "runtime_checkable", "no_type_check", "override", "overload"):
            return args[0]
        if fn.name in ("TypeVar", "ParamSpec", "TypeVarTuple"):
            return Typing("variable")
        raise Unsupported(f"call of typing.{fn.name}")
    if isinstance(fn, ModelObj) and _hasattr(fn, "m_call"):
        return fn.m_call(it, *args, **kwargs)
    if callable(fn) and not is_sym(fn) and not isinstance(fn, (PObj,)):
        if deep_concrete(args) and deep_concrete(kwargs) and not has_p(args) and not has_p(kwargs):
            if fn in HOST_OK or _b.getattr(fn, "__module__", None) in HOST_MODULES:
                return host(fn, *args, **kwargs)
        raise Unsupported(f"call of host function {fn!r}")
    if isinstance(fn, Opaque):
        raise Unsupported("call of an opaque value")
    raise_py(TypeError, f"'{_b.getattr(type_of(it, fn), '__name__', '?')}' object is not callable")


HOST_OK = set()
HOST_MODULES = {"math", "_struct", "binascii", "itertools", "operator", "_operator", "string"}


def call_type(it, t, args, kwargs):
    ctx = it.ctx
    if issubclass(t, BaseException):
        return HExc(t, args)
    if issubclass(t, enum.Enum):
        from . import pylib
        return pylib.enum_call(it, t, args, kwargs)
    if issubclass(t, tuple) and _hasattr(t, "py_methods"):
        if "__new__" in t.py_methods:
            raise Unsupported("named tuple with __new__")
        return host(t, *args, **kwargs)
    if t is type:
        if len(args) == 1:
            return type_of(it, args[0])
        raise Unsupported("type()")
    if t is bool:
        return truth(it, args[0]) if args else False
    if t is object:
        return PObj(PClass("object", [], {}))
    if t is int:
        return to_int(it, args, kwargs)
    if t is str:
        return to_str(it, args, kwargs)
    if t is bytes:
        return to_bytes(it, args, kwargs)
    if t is bytearray:
        b = to_bytes(it, args, kwargs, ba=True)
        if isinstance(b, seqs.SSeq):
            return seqs.SSeq("bytearray", b.parts, b.base)
        if isinstance(b, VBytes):
            return VByteArray(b)
        if isinstance(b, ModelObj):
            return b
        if it.seq_mode:
            return seqs.SSeq("bytearray", [seqs.unit(as_z(x)) for x in (b_items(b) if b_len(b) else [])])
        return SByteArray(b_items(b) if b_len(b) else [])
    if t in (list, tuple):
        if not args:
            return t()
        if isinstance(args[0], (SymKeys, SymMap)):
            m = args[0].m if isinstance(args[0], SymKeys) else args[0]
            return SymKeys(m, t.__name__)
        if isinstance(args[0], seqs.SGen):
            return args[0].materialize(it)
        return t(iterate(it, args[0]))
    if t in (set, frozenset):
        if not args:
            return t()
        if isinstance(args[0], (SymKeys, SymMap)):
            m = args[0].m if isinstance(args[0], SymKeys) else args[0]
            return SymKeys(m, "set")
        xs = list(iterate(it, args[0]))
        if not deep_concrete(xs):
            raise Unsupported("set of symbolic values")
        return t(xs)
    if t is dict:
        d = {}
        if args:
            if isinstance(args[0], dict):
                d.update(args[0])
            elif isinstance(args[0], (SymMap, SymNet)):
                return args[0]
            else:
                for kv in iterate(it, args[0]):
                    k, v = list(iterate(it, kv))
                    d[key(it, k)] = v
        d.update(kwargs)
        return d
    if t is range:
        if it.seq_mode and len(args) == 1 and isinstance(args[0], SInt):
            return seqs.SRange(args[0])
        if it.seq_mode and len(args) in (2, 3) and isinstance(args[1], SInt) and isinstance(args[0], int) and \
                (len(args) == 2 or isinstance(args[2], int) and args[2] > 0):
            st = args[2] if len(args) == 3 else 1
            d = binop(it, "Sub", args[1], args[0]) if args[0] else args[1]
            if it.truth(compare(it, ">", d, 0)):
                n = binop(it, "FloorDiv", binop(it, "Add", d, st - 1), st) if st > 1 else d
                return seqs.SRange(n, args[0], st) if isinstance(n, SInt) else range(args[0], args[0] + n * st, st)
            return range(0)
        xs = [concretize(ctx, bool_to_int(a), -1, 256) if isinstance(a, SInt) else a for a in args]
        return host(range, *xs)
    if t is slice:
        return slice(*args)
    if t is float:
        if deep_concrete(args):
            return host(float, *args)
        raise Unsupported("float()")
    if t is memoryview:
        raise Unsupported("memoryview")
    if t is property:
        return Wrapped("property", args[0], args[1] if len(args) > 1 else None)
    if t is classmethod:
        return Wrapped("classmethod", args[0])
    if t is staticmethod:
        return Wrapped("staticmethod", args[0])
    if t in (zip, map, filter, enumerate, reversed):
        return ITER_FNS[t.__name__](it, args, kwargs)
    if t is super:
        return SuperProxy(args[0], args[1])
    raise Unsupported(f"call of {t.__name__}")


class VByteArray(ModelObj):
    """bytearray of symbolic length supporting whole-value operations."""

    def __init__(self, v):
        self.v = v

    def m_reverse(self, it):
        self.v = getslice(it, self.v, None, None, -1)

    def m_extend(self, it, x):
        self.v = b_concat(it.ctx, [self.v, to_bytes(it, [x], {})])

    def m_hex(self, it):
        return mk_hex(it, self.v)

    def m_copy(self, it):
        return VByteArray(self.v)

    def getslice(self, it, lo, hi, step):
        r = getslice(it, self.v, lo, hi, step)
        return VByteArray(r) if isinstance(r, VBytes) else call_type(it, bytearray, [r], {})

    def getitem(self, it, k):
        return getitem(it, self.v, k)

    def m_eq(self, it, o):
        if isinstance(o, VByteArray):
            o = o.v
        elif isinstance(o, SByteArray):
            o = b_from_items(o.items) if o.items else b""
        elif isinstance(o, bytearray):
            o = bytes(o)
        return bytes_eq(it, self.v, o) if is_bytes(o) else False


def to_int(it, args, kwargs):
    ctx = it.ctx
    if not args:
        return 0
    v = args[0]
    base = args[1] if len(args) > 1 else kwargs.get("base")
    if isinstance(v, SBool):
        return bool_to_int(v)
    if isinstance(v, SInt) and base is None:
        return v
    if isinstance(v, seqs.SeqHex):
        return v.value(it, base)
    if isinstance(v, SStr):
        if base == 16 and v.prov and v.prov[0] == "hex":
            return from_bytes(it, v.prov[1], "big", False)
        raise Unsupported("int() of text")
    if isinstance(v, PObj):
        f, _ = v.cls.lookup("__int__")
        if f is not None:
            return it.call(f, [v], {})
    if is_bytes(v) and base is None and not isinstance(v, bytes):
        raise Unsupported("int() of bytes")
    if is_sym(v):
        raise Unsupported("int() of a symbolic value")
    return host(int, *args, **kwargs)


def from_bytes(it, b, order, signed):
    ctx = it.ctx
    if isinstance(b, seqs.SSeq):
        return seqs.os2ip(it, b, order, signed)
    if isinstance(b, (list, tuple)):
        b = b_from_items([byte_item(it, x) for x in b])
    if isinstance(b, SByteArray):
        b = b_from_items(b.items)
    if isinstance(b, bytearray):
        b = bytes(b)
    if isinstance(b, VByteArray):
        b = b.v
    if order not in ("big", "little"):
        if is_sym(order) and is_str(order):
            order = "little" if it.truth(eq(it, order, "little")) else "big" if it.truth(eq(it, order, "big")) else None
        if not is_str(order):
            raise_py(TypeError, "from_bytes() argument 'byteorder' must be str")
        if order not in ("big", "little"):
            raise_py(ValueError, "byteorder must be either 'little' or 'big'")
    if not is_bytes(b):
        raise_py(TypeError, "cannot convert object to bytes")
    if isinstance(b, bytes):
        return int.from_bytes(b, order, signed=truth(it, signed))
    b = vresolve(ctx, b)
    if isinstance(b, VBytes):
        if vfull(b) and b.base.prov and b.base.prov[0] == "i2b" and b.base.prov[3:] == (order, bool(signed)):
            return b.base.prov[1]
        b2 = vforce(ctx, b) if b.base.lens else b
        if isinstance(b2, VBytes):
            if truth(it, signed):
                raise Unsupported("signed value of bytes of unknown length")
            if order == "little":
                return from_bytes(it, vreverse(it, b2), "big", False)
            r = UF("OS2IP", VB, I)(vterm(ctx, b2))
            k = ("os2ip", eid(r))
            if k not in ctx.memo:
                ctx.memo[k] = True
                ctx.axiom(r >= 0)
                bl = bit_length(ctx, SInt("z", r))
                ctx.axiom(as_z(bl) <= 8 * bytes_len_z(b2))
            return SInt("z", r)
        b = b2
    if not is_bytes(b):
        raise_py(TypeError, "cannot convert object to bytes")
    if isinstance(b, bytes):
        return int.from_bytes(b, order, signed=truth(it, signed))
    if order == "little":
        b = b_from_items(list(reversed(b_items(b))))
        if isinstance(b, bytes):
            return int.from_bytes(b, "big", signed=truth(it, signed))
    if truth(it, signed):
        return mk_int(b.e, True)
    return mk_int(b.e)


def int_to_bytes(it, x, n, order, signed):
    ctx = it.ctx
    if order not in ("big", "little"):
        if isinstance(order, SStr):
            order = "little" if it.truth(eq(it, order, "little")) else "big" if it.truth(eq(it, order, "big")) else None
        if not is_str(order):
            raise_py(TypeError, "to_bytes() argument 'byteorder' must be str")
        if order not in ("big", "little"):
            raise_py(ValueError, "byteorder must be either 'little' or 'big'")
    signed = truth(it, signed)
    x = bool_to_int(x)
    if isinstance(n, SInt):
        big = isinstance(x, SInt) and x.k == "z"
        if not big:
            n = concretize(ctx, n, 0, 64)
    if isinstance(n, int) and n < 0:
        raise_py(ValueError, "length argument must be non-negative")
    if isinstance(x, int):
        if isinstance(n, SInt):
            n = concretize(ctx, n, 0, 64)
        return host(x.to_bytes, n, order, signed=signed)
    if x.k == "z":
        # the value may be any integer
        nz = as_z(n)
        if isinstance(n, SInt) and ctx.branch(nz < 0):
            raise_py(ValueError, "length argument must be non-negative")
        if isinstance(n, int) and n <= 64:
            lo, hi = (-(1 << (8 * n - 1)) if n else 0, (1 << (8 * n - 1)) if n else 1) if signed else (0, 1 << (8 * n))
            if not ctx.branch(z3.And(x.e >= lo, x.e < hi)):
                raise_py(OverflowError, "int too big to convert")
            if n == 0:
                return b""
            if signed:
                raise Unsupported("signed conversion of an unbounded integer")
            b = z_to_bv(ctx, x, 8 * n)
            r = mk_bytes(b.e)
            return r if order == "big" else b_from_items(list(reversed(b_items(r))))
        if signed:
            if ctx.branch(x.e >= 0):
                fits = z3.Or(x.e == 0, as_z(bit_length(ctx, x)) <= 8 * nz - 1)
            else:
                fits = as_z(bit_length(ctx, SInt("z", z3.simplify(-x.e - 1)))) <= 8 * nz - 1
                fits = z3.And(nz >= 1, fits)
        else:
            fits = z3.And(x.e >= 0, as_z(bit_length(ctx, x)) <= 8 * nz)
        if not ctx.branch(fits):
            raise_py(OverflowError, "int too big to convert")
        if it.seq_mode:
            return seqs.i2osp(it, x, nz, order, signed)
        if order == "little" and not signed:
            return vreverse(it, int_to_bytes_z(ctx, x, n, nz))
        if not signed:
            return int_to_bytes_z(ctx, x, n, nz)
        sg = "s" if signed else "u"
        t = UF("I2OSP" + sg + order, I, I, VB)(x.e, nz)
        base = vbase(ctx, t, nz, prov=("i2b", x, n, order, signed))
        return VBytes(base)
    if x.k == "res":
        raise Unsupported("bytes of a residue")
    e, s = as_bv(x)
    if n == 0:
        if it.truth(int_cmp(ctx, "!=", x, 0)):
            raise_py(OverflowError, "int too big to convert")
        return b""
    w = 8 * n
    if signed:
        e2 = to_signed(e, s)
        if e2.size() > w:
            top = z3.Extract(e2.size() - 1, w - 1, e2)
            ok = z3.Or(top == 0, top == bvval(2 ** top.size() - 1, top.size()))
            if not ctx.branch(ok):
                raise_py(OverflowError, "int too big to convert")
            e2 = z3.Extract(w - 1, 0, e2)
        r = mk_bytes(ext(e2, True, w))
    else:
        if s:
            if ctx.branch(e < 0):
                raise_py(OverflowError, "can't convert negative int to unsigned")
        if e.size() > w:
            if not ctx.branch(z3.Extract(e.size() - 1, w, e) == 0):
                raise_py(OverflowError, "int too big to convert")
            e = z3.Extract(w - 1, 0, e)
        r = mk_bytes(ext(e, False, w))
    if order == "little":
        r = b_from_items(list(reversed(b_items(r))))
    return r


def int_to_bytes_z(ctx, x, n, nz):
    base = vbase(ctx, UF("I2OSPubig", I, I, VB)(x.e, nz), nz, prov=("i2b", x, n, "big", False))
    return VBytes(base)


def to_str(it, args, kwargs):
    if not args:
        return ""
    v = args[0]
    if len(args) > 1 or "encoding" in kwargs:
        return call_method(it, v, "decode", args[1:], kwargs)
    if isinstance(v, SStr):
        return v
    if isinstance(v, str):
        return v
    return format_value(it, v, "", 115)


def utf8(it, s, enc="utf-8", errors="strict"):
    """Encoding of text."""
    ctx = it.ctx
    if isinstance(enc, str):
        n = enc.lower().replace("_", "-")
    else:
        raise Unsupported("symbolic encoding name")
    if isinstance(s, str):
        return host(s.encode, enc, errors)
    if isinstance(s, Opaque):
        raise Unsupported("encoding of opaque text")
    ascii_known = bool(s.prov and s.prov[0] in ("b58", "hex"))
    ctx.lit_facts("utf8", utf8_facts)
    if n in ("utf-8", "utf8"):
        if not ascii_known and errors == "strict":
            if not ctx.branch(UF("ENCODABLE", StrS, B)(s.e)):
                raise PyRaise(HExc(UnicodeEncodeError, ("utf-8", "", 0, 1, "surrogates not allowed")))
        elif errors != "strict":
            raise Unsupported("lossy encoding")
    elif n in ("ascii", "us-ascii"):
        if errors != "strict":
            raise Unsupported("lossy encoding")
        if not ascii_known:
            if not ctx.branch(UF("ISASCII", StrS, B)(s.e)):
                raise PyRaise(HExc(UnicodeEncodeError, ("ascii", "", 0, 1, "ordinal not in range")))
            ctx.axiom(UF("ENCODABLE", StrS, B)(s.e))
    else:
        if errors != "strict":
            raise Unsupported("lossy encoding")
        ctx.note_inexact(f"encoding {n}")
        if not ctx.branch(UF("ENCODABLE_" + n, StrS, B)(s.e)):
            raise PyRaise(HExc(UnicodeEncodeError, (n, "", 0, 1, "not encodable")))
        t = UF("ENC_" + n, StrS, VB)(s.e)
        return VBytes(vbase(ctx, t, UF("ENCLEN_" + n, StrS, I)(s.e)))
    if s.prov and s.prov[0] == "utf8":
        return s.prov[1]
    t = UF("UTF8", StrS, VB)(s.e)
    L = UF("UTF8LEN", StrS, I)(s.e)
    b = vbase(ctx, t, L, prov=("utf8", s))
    sl = slen_term(ctx, s)
    ctx.axiom(z3.And(L >= sl, (L == 0) == (sl == 0)))
    if s.prov and s.prov[0] == "hex":
        ctx.axiom(L == sl)
    return VBytes(b)


def to_bytes(it, args, kwargs, ba=False):
    ctx = it.ctx
    if not args and not kwargs:
        return b""
    v = args[0] if args else kwargs.get("source", b"")
    if isinstance(v, seqs.SSeq):
        if v.kind == "str":
            enc = args[1] if len(args) > 1 else kwargs.get("encoding")
            if enc is None:
                raise_py(TypeError, "string argument without an encoding")
            return seqs.encode(it, v, enc, args[2] if len(args) > 2 else kwargs.get("errors", "strict"))
        if v.kind == "list":
            raise Unsupported("bytes of a list of unknown length")
        return seqs.SSeq("bytes", v.parts, v.base)
    if isinstance(v, ModelObj) and _hasattr(v, "m_bytes") and len(args) == 1:
        return v.m_bytes(it, ba)
    if is_str(v):
        enc = args[1] if len(args) > 1 else kwargs.get("encoding")
        if enc is None:
            raise_py(TypeError, "string argument without an encoding")
        return utf8(it, v, enc, args[2] if len(args) > 2 else kwargs.get("errors", "strict"))
    if len(args) > 1 or kwargs.get("encoding") is not None:
        raise_py(TypeError, "encoding without a string argument")
    if is_bytes(v):
        return v
    if isinstance(v, VByteArray):
        return v.v
    if isinstance(v, VRevIter):
        return v.rest()
    if isinstance(v, SByteArray):
        return b_from_items(v.items) if v.items else b""
    if isinstance(v, bytearray):
        return bytes(v)
    if isinstance(v, int):
        return host(bytes, v)
    if isinstance(v, SInt):
        if it.seq_mode and v.k == "z":
            return seqs.SSeq("bytes", seqs.zeros(it, v))
        return bytes(concretize(ctx, v, 0, 256))
    if isinstance(v, PObj):
        f, _ = v.cls.lookup("__bytes__")
        if f is not None:
            return it.call(f, [v], {})
        f, _ = v.cls.lookup("__iter__")
        if f is None:
            raise_py(TypeError, f"cannot convert '{v.cls.name}' object to bytes")
    if v is None or isinstance(v, (float, ModelObj, PClass, SBool, PFunc, Bound)) and not isinstance(v, PyIter):
        raise_py(TypeError, "cannot convert object to bytes")
    items = [byte_item(it, x) for x in iterate(it, v)]
    return b_from_items(items) if items else b""


def hex_facts(ctx, text, c):
    """What bytes.fromhex does on a literal."""
    try:
        raw = bytes.fromhex(text)
    except ValueError:
        raw = None
    ctx.axiom(UF("ISHEX", StrS, B)(c) == (raw is not None))
    if raw is not None:
        ctx.axiom(UF("HEXLEN", StrS, I)(c) == len(raw))
        ctx.axiom(UF("FROMHEX", StrS, VB)(c) == vterm(ctx, raw))
        if raw:
            n = len(raw)
            ctx.axiom(UF(f"UNHEX{n}", StrS, BVS(8 * n))(c) == bvval(int.from_bytes(raw, "big"), 8 * n))


def utf8_facts(ctx, text, c):
    """What str.encode does on a literal."""
    try:
        raw = text.encode("utf-8")
    except UnicodeEncodeError:
        raw = None
    ctx.axiom(UF("ENCODABLE", StrS, B)(c) == (raw is not None))
    ctx.axiom(UF("ISASCII", StrS, B)(c) == text.isascii())
    if raw is not None:
        ctx.axiom(UF("UTF8LEN", StrS, I)(c) == len(raw))
        ctx.axiom(UF("UTF8", StrS, VB)(c) == vterm(ctx, raw))


def fromhex(it, s):
    ctx = it.ctx
    if isinstance(s, str):
        return host(bytes.fromhex, s)
    if not isinstance(s, SStr):
        if isinstance(s, Opaque):
            raise Unsupported("hex of opaque text")
        raise_py(TypeError, "fromhex() argument must be str")
    if s.prov and s.prov[0] == "hex":
        return s.prov[1]
    ctx.lit_facts("hex", hex_facts)
    if not ctx.branch(UF("ISHEX", StrS, B)(s.e)):
        raise_py(ValueError, "non-hexadecimal number found in fromhex() arg")
    t = UF("FROMHEX", StrS, VB)(s.e)
    L = UF("HEXLEN", StrS, I)(s.e)
    e = s.e
    b = vbase(ctx, t, L, fix=lambda n: SBytes(UF(f"UNHEX{n}", StrS, BVS(8 * n))(e)),
              lens=(4, 8, 24, 32, 33, 64, 65), prov=("fromhex", s))
    return VBytes(b)


def b_strip(it, b, chars, left, right):
    ctx = it.ctx
    b = vforce(ctx, b)
    if isinstance(b, VBytes):
        raise Unsupported("strip of bytes of unknown length")
    if isinstance(b, bytes) and (chars is None or isinstance(chars, bytes)):
        return b.strip(chars) if left and right else b.lstrip(chars) if left else b.rstrip(chars)
    cs = list(chars) if chars is not None else list(b" \t\n\r\x0b\x0c")
    items = b_items(b)
    i, j = 0, len(items)

    def hit(x):
        r = False
        for c in cs:
            r = b_or(r, eq(it, x, c))
        return it.truth(r)
    if left:
        while i < j and hit(items[i]):
            i += 1
    if right:
        while j > i and hit(items[j - 1]):
            j -= 1
    return b_slice(b, i, j)


def bytes_prefix(it, b, p, end=False):
    ctx = it.ctx
    if isinstance(p, tuple):
        r = False
        for x in p:
            r = b_or(r, bytes_prefix(it, b, x, end))
        return r
    if not is_bytes(p):
        raise_py(TypeError, "startswith first arg must be bytes")
    p = vforce(ctx, p)
    b = vforce(ctx, b)
    if isinstance(p, VBytes):
        raise Unsupported("prefix of unknown length")
    n = b_len(p)
    if n == 0:
        return True
    if isinstance(b, VBytes):
        if not ctx.branch(bytes_len_z(b) >= n):
            return False
        return bytes_eq(it, vslice(ctx, b, -n, None) if end else vslice(ctx, b, 0, n), p)
    if b_len(b) < n:
        return False
    return bytes_eq(it, b_slice(b, b_len(b) - n, None) if end else b_slice(b, 0, n), p)


STR_TO_STR = {"strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "swapcase",
              "replace", "translate", "expandtabs", "zfill", "ljust", "rjust", "center", "removeprefix",
              "removesuffix"}
STR_TO_BOOL = {"startswith", "endswith", "isalnum", "isalpha", "isascii", "isdecimal", "isdigit", "isidentifier",
               "islower", "isnumeric", "isprintable", "isspace", "istitle", "isupper"}


MUTATORS = {"append", "extend", "insert", "pop", "clear", "remove", "sort", "reverse", "update", "setdefault", "popitem",
            "add", "discard", "__setitem__", "__delitem__", "__iadd__", "difference_update", "intersection_update",
            "symmetric_difference_update"}


def call_method(it, o, name, args, kwargs):
    ctx = it.ctx
    if name in MUTATORS and isinstance(o, (list, dict, set, SByteArray)):
        it.note_write(o, "." + name + "()")
    if name not in BY_VALUE and (o in (int, str, bytes) if isinstance(o, type) else
                                 isinstance(o, (int, str, bytes, SInt, SBool, SStr, SBytes, VBytes)) and not isinstance(o, enum.Enum)) and \
            not (isinstance(o, (int, str, bytes, type)) and deep_concrete(args) and deep_concrete(kwargs)):
        type_errors(o, name, args, kwargs)
    # ---- class-level calls: bytes.fromhex, int.from_bytes, str.join, dict.fromkeys, ...
    if isinstance(o, type):
        if o in (bytes, bytearray) and name == "fromhex":
            r = fromhex(it, args[0])
            return r if o is bytes else call_type(it, bytearray, [r], {})
        if o is int and name == "from_bytes":
            b = args[0] if args else kwargs["bytes"]
            order = args[1] if len(args) > 1 else kwargs.get("byteorder", "big")
            return from_bytes(it, b, order, kwargs.get("signed", False))
        if o is str and name == "maketrans" or o is dict and name == "fromkeys" and deep_concrete(args):
            return host(_b.getattr(o, name), *args, **kwargs)
        if args and name not in ("__new__", "__init__"):
            return call_method(it, args[0], name, args[1:], kwargs)
        raise Unsupported(f"{o.__name__}.{name}")
    if isinstance(o, Opaque):
        if o.kind == "str" and name in STR_TO_STR - {"translate", "replace"} and not args:
            return Opaque("text")
        raise Unsupported(f"method {name} of an opaque value")
    # ---- integers
    if is_int(o) or isinstance(o, (SBool, bool)):
        o = bool_to_int(o)
        if name == "to_bytes":
            n = args[0] if args else kwargs.get("length", 1)
            order = args[1] if len(args) > 1 else kwargs.get("byteorder", "big")
            return int_to_bytes(it, o, n, order, kwargs.get("signed", False))
        if name == "bit_length":
            return bit_length(ctx, o)
        if name == "from_bytes":
            return call_method(it, int, name, args, kwargs)
        if isinstance(o, int) and deep_concrete(args):
            return host(_b.getattr(o, name), *args, **kwargs)
        if name == "conjugate" or name == "__int__" or name == "__index__":
            return o
        if name in ("__xor__", "__and__", "__or__", "__add__", "__mul__", "__sub__", "__mod__", "__floordiv__"):
            op = {"__xor__": "BitXor", "__and__": "BitAnd", "__or__": "BitOr", "__add__": "Add", "__mul__": "Mult",
                  "__sub__": "Sub", "__mod__": "Mod", "__floordiv__": "FloorDiv"}[name]
            return binop(it, op, o, args[0])
        raise Unsupported(f"int.{name}")
    # ---- bytes
    if is_bytes(o):
        if isinstance(o, bytes) and name != "join" and deep_concrete(args) and deep_concrete(kwargs) and not has_p(args):
            args = [bytes(b_from_items(a.items)) if isinstance(a, SByteArray) else a for a in args]
            return host(_b.getattr(o, name), *args, **kwargs)
        if name == "hex":
            if args or kwargs:
                raise Unsupported("bytes.hex with a separator")
            return mk_hex(it, o)
        if name == "decode":
            return decode_bytes(it, o, *args, **kwargs)
        if name in ("startswith", "endswith"):
            if len(args) > 1:
                o = getslice(it, o, args[1], args[2] if len(args) > 2 else None, None)
            return bytes_prefix(it, o, args[0], name == "endswith")
        if name in ("strip", "lstrip", "rstrip"):
            return b_strip(it, o, args[0] if args else None, name != "rstrip", name != "lstrip")
        if name == "join":
            parts = []
            for i, x in enumerate(iterate(it, args[0])):
                if i and not (isinstance(o, bytes) and o == b""):
                    parts.append(o)
                if not is_bytes(x):
                    if isinstance(x, (SByteArray, bytearray)):
                        x = to_bytes(it, [x], {})
                    else:
                        raise_py(TypeError, "sequence item: expected a bytes-like object")
                parts.append(x)
            return b_concat(ctx, parts)
        if name in ("rjust", "ljust", "zfill"):
            b = vforce(ctx, o)
            fill = args[1] if len(args) > 1 else (b"0" if name == "zfill" else b" ")
            if isinstance(b, VBytes) or not isinstance(args[0], int) or not isinstance(fill, bytes):
                raise Unsupported(f"bytes.{name}")
            if name == "zfill":
                raise Unsupported("bytes.zfill")
            d = args[0] - b_len(b)
            if d <= 0:
                return b
            return b_cat(fill * d, b) if name == "rjust" else b_cat(b, fill * d)
        if name in ("removeprefix", "removesuffix"):
            if it.truth(bytes_prefix(it, o, args[0], name == "removesuffix")):
                n = b_len(args[0])
                return getslice(it, o, n, None, None) if name == "removeprefix" else \
                    getslice(it, o, None, -n, None) if n else o
            return o
        if name == "find" and isinstance(o, bytes):
            # position of a symbolic byte in a constant table
            x = args[0]
            if isinstance(x, (SBytes,)) and x.n == 1:
                x = mk_int(x.e)
            if isinstance(x, SInt):
                if not it.truth(b_and(compare(it, "<=", 0, x), compare(it, "<", x, 256))):
                    raise_py(ValueError, "byte must be in range(0, 256)")
                if it.seq_mode and x.k == "z":
                    return seqs.table_find(it, o, x)
                return find_table(it, o, x)
        if name in ("index", "find") and is_fixed_bytes(vforce(ctx, o)):
            b = vforce(ctx, o)
            x = args[0]
            if len(args) > 1:
                raise Unsupported("find with bounds")
            if isinstance(x, SInt) and not it.truth(b_and(compare(it, "<=", 0, x), compare(it, "<", x, 256))):
                raise_py(ValueError, "byte must be in range(0, 256)")
            if isinstance(x, (int, SInt)):
                for i, y in enumerate(b_items(b)):
                    if it.truth(eq(it, x, y)):
                        return i
            else:
                n = b_len(x)
                for i in range(b_len(b) - n + 1):
                    if it.truth(eq(it, x, b_slice(b, i, i + n))):
                        return i
            if name == "index":
                raise_py(ValueError, "subsection not found")
            return -1
        if name == "count":
            b = vforce(ctx, o)
            if is_fixed_bytes(b) and (isinstance(args[0], int) or b_len(args[0]) == 1):
                c = args[0] if isinstance(args[0], int) else args[0][0]
                r = 0
                for x in b_items(b):
                    r = binop(it, "Add", r, bool_to_int(eq(it, x, c)))
                return r
        if name in ("__len__",):
            return B_len(it, [o], {})
        if name == "__getitem__":
            return getitem(it, o, args[0])
        if name == "tobytes":
            return o
        raise Unsupported(f"bytes.{name}")
    # ---- bytearray
    if isinstance(o, (SByteArray, bytearray)):
        if isinstance(o, bytearray):
            raise Unsupported("host bytearray")
        if name == "reverse":
            o.items.reverse()
            return None
        if name == "append":
            o.items.append(byte_item(it, args[0]))
            return None
        if name in ("extend", "__iadd__"):
            o.items.extend(to_byte_items(it, args[0]))
            return None
        if name == "insert":
            o.items.insert(args[0], byte_item(it, args[1]))
            return None
        if name == "pop":
            return host(o.items.pop, *args)
        if name == "clear":
            o.items.clear()
            return None
        if name == "copy":
            return SByteArray(o.items)
        return call_method(it, b_from_items(o.items) if o.items else b"", name, args, kwargs)
    # ---- text
    if is_str(o):
        if isinstance(o, str):
            if name == "join":
                if isinstance(args[0], seqs.SSeq) and args[0].kind in ("list", "str") and o == "":
                    return seqs.SSeq("str", args[0].parts)
                parts = list(iterate(it, args[0]))
                if all(isinstance(x, str) for x in parts):
                    return o.join(parts)
                r = ""
                for i, x in enumerate(parts):
                    if not is_str(x):
                        raise_py(TypeError, "sequence item: expected str instance")
                    if i:
                        r = str_cat(it, r, o)
                    r = str_cat(it, r, x)
                return r
            if name == "encode":
                return host(o.encode, *args, **kwargs)
            if deep_concrete(args) and deep_concrete(kwargs) and not has_p(args) and not has_p(kwargs):
                return host(_b.getattr(o, name), *args, **kwargs)
            if name == "format":
                return str_format(it, o, args, kwargs)
            if name in ("index", "find") and len(args) == 1:
                if isinstance(args[0], seqs.SSeq) and len(args[0].parts) == 1 and \
                        args[0].parts[0].decl().kind() == z3.Z3_OP_SEQ_UNIT:
                    r = seqs.table_find(it, o, mk_z(args[0].parts[0].arg(0)))
                    if name == "index" and it.truth(compare(it, "<", r, 0)):
                        raise_py(ValueError, "substring not found")
                    return r
                raise Unsupported("str.find of symbolic text")
            if name in ("startswith", "endswith"):
                ctx.note_inexact("str." + name)
                return mk_bool(UF("STR_" + name + "2", StrS, StrS, B)(str_term(ctx, o), str_term(ctx, args[0])))
            raise Unsupported(f"str.{name} with symbolic arguments")
        if name == "encode":
            return utf8(it, o, args[0] if args else kwargs.get("encoding", "utf-8"),
                        args[1] if len(args) > 1 else kwargs.get("errors", "strict"))
        if name == "isascii":
            if o.prov and o.prov[0] in ("b58", "hex"):
                return True
            ctx.note_inexact("str.isascii")
            return mk_bool(UF("ISASCII", StrS, B)(o.e))
        if name == "__len__":
            return B_len(it, [o], {})
        if name == "lower" and o.prov and o.prov[0] == "hex":
            return o
        if name in STR_TO_STR and deep_concrete(args) and not kwargs:
            ctx.note_inexact("str." + name)
            tag = "STR_" + name + "_" + repr(args)
            return SStr(UF(tag, StrS, StrS)(o.e), ("op", tag, o))
        if name in STR_TO_BOOL and deep_concrete(args):
            ctx.note_inexact("str." + name)
            return mk_bool(UF("STR_" + name + "_" + repr(args), StrS, B)(o.e))
        raise Unsupported(f"str.{name} of symbolic text")
    # ---- containers
    if isinstance(o, list):
        if name in ("append", "extend", "insert", "pop", "reverse", "copy", "clear", "__len__"):
            if name == "extend":
                o.extend(list(iterate(it, args[0])))
                return None
            if any(isinstance(a, SInt) for a in args[:1]) and name in ("pop", "insert"):
                raise Unsupported("symbolic index")
            return host(_b.getattr(o, name), *args)
        if name == "index":
            for i, y in enumerate(o):
                if it.truth(eq(it, args[0], y)):
                    return i
            raise_py(ValueError, "not in list")
        if name == "count":
            return sum(1 for y in o if it.truth(eq(it, args[0], y)))
        if name == "remove":
            for i, y in enumerate(o):
                if it.truth(eq(it, args[0], y)):
                    del o[i]
                    return None
            raise_py(ValueError, "not in list")
        if name == "sort" and deep_concrete(o) and not kwargs.get("key") and not has_p(o):
            o.sort(**kwargs)
            return None
        raise Unsupported(f"list.{name}")
    if isinstance(o, tuple):
        if name in ("index", "count"):
            return call_method(it, list(o), name, args, kwargs)
        raise Unsupported(f"tuple.{name}")
    if isinstance(o, dict):
        if name in ("keys", "values", "items"):
            return list(_b.getattr(o, name)())
        if name == "get":
            k = args[0]
            if sym_key(k):
                for x in o:
                    if it.truth(eq(it, k, x)):
                        return o[x]
                return args[1] if len(args) > 1 else None
            return o.get(key(it, k), *args[1:], **kwargs)
        if name in ("copy", "clear", "popitem"):
            return host(_b.getattr(o, name))
        if name in ("pop", "setdefault"):
            return host(_b.getattr(o, name), key(it, args[0]), *args[1:])
        if name == "update":
            for a in args:
                if isinstance(a, dict):
                    o.update(a)
                else:
                    for kv in iterate(it, a):
                        k, v = list(iterate(it, kv))
                        o[key(it, k)] = v
            o.update(kwargs)
            return None
        if name == "__contains__":
            return contains(it, args[0], o)
        if name == "__getitem__":
            return getitem(it, o, args[0])
        raise Unsupported(f"dict.{name}")
    if isinstance(o, (set, frozenset)):
        if deep_concrete(args):
            return host(_b.getattr(o, name), *args)
        if name == "__contains__":
            return contains(it, args[0], o)
        raise Unsupported(f"set.{name} with symbolic arguments")
    if deep_concrete(args) and deep_concrete(kwargs) and isinstance(o, (float, range, slice)):
        return host(_b.getattr(o, name), *args, **kwargs)
    raise Unsupported(f"method {name} of {type(o).__name__}")


def find_table(it, table, x):
    """table.find(byte) for a constant table."""
    e, s = as_bv(x)
    w = 16
    r = bvval(0xffff, w)
    for i in range(len(table) - 1, -1, -1):
        if table[i] >= 2 ** e.size():
            continue
        r = z3.If(e == table[i], bvval(i, w), r)
    return mk_int(r, True)


def decode_bytes(it, b, encoding="utf-8", errors="strict"):
    ctx = it.ctx
    if isinstance(b, VBytes) and vfull(b) and b.base.prov and b.base.prov[0] == "utf8" and \
            encoding.lower().replace("_", "-") in ("utf-8", "utf8"):
        return b.base.prov[1]
    if isinstance(b, VBytes) and vfull(b) and b.base.prov and b.base.prov[0] == "hexascii":
        return mk_hex(it, b.base.prov[1])
    if isinstance(b, VBytes) and vfull(b) and b.base.prov and b.base.prov[0] == "utf8" and \
            b.base.prov[1].prov and b.base.prov[1].prov[0] in ("b58", "hex"):
        return b.base.prov[1]
    raise Unsupported("decoding of symbolic bytes")


# ------------------------------------------------------------------ built-in functions
def B_len(it, a, k):
    v = a[0]
    ctx = it.ctx
    if isinstance(v, SBytes):
        return v.n
    if isinstance(v, VBytes):
        if v.base.fixed is not None:
            return b_len(vresolve(ctx, v))
        n = vlen(v)
        return n if isinstance(n, int) else mk_z(n)
    if isinstance(v, SStr):
        if v.prov and v.prov[0] == "hex":
            n = B_len(it, [v.prov[1]], {})
            return n * 2 if isinstance(n, int) else binop(it, "Mult", n, 2)
        return mk_z(slen_term(ctx, v))
    if isinstance(v, SByteArray):
        return len(v.items)
    if isinstance(v, VByteArray):
        return B_len(it, [v.v], {})
    if isinstance(v, Opaque):
        return Opaque("length", "int")
    if isinstance(v, ModelObj) and _hasattr(v, "m_len"):
        return v.m_len(it)
    if isinstance(v, PObj):
        f, _ = v.cls.lookup("__len__")
        if f is not None:
            return it.call(f, [v], {})
        raise_py(TypeError, "object has no len()")
    if isinstance(v, (SInt, SBool, PClass, PFunc)):
        raise_py(TypeError, "object has no len()")
    if isinstance(v, ModelObj):
        if isinstance(v, (SymKeys, SymMap)):
            raise Unsupported("number of networks")
        raise_py(TypeError, "object has no len()")
    return host(len, v)


def B_isinstance(it, a, k):
    return _isinst(it, a[0], a[1])


def B_issubclass(it, a, k):
    c, p = a
    if isinstance(p, tuple):
        return any(B_issubclass(it, [c, x], {}) for x in p)
    if isinstance(p, ModelClass):
        p = p.inst
    if isinstance(c, PClass):
        return p in c.mro or isinstance(p, type) and any(isinstance(m, type) and issubclass(m, p) for m in c.mro)
    if isinstance(c, type):
        return isinstance(p, type) and issubclass(c, p)
    raise_py(TypeError, "issubclass() arg 1 must be a class")


def B_getattr(it, a, k):
    try:
        if not isinstance(a[1], str):
            raise Unsupported("symbolic attribute name")
        return it.getattr(a[0], a[1])
    except PyRaise as pr:
        if len(a) > 2 and isinstance(pr.exc, HExc) and pr.exc.cls is AttributeError:
            return a[2]
        raise


def B_hasattr(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise as pr:
        if isinstance(pr.exc, HExc) and pr.exc.cls is AttributeError:
            return False
        raise


def B_setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


def B_range(it, a, k):
    return call_type(it, range, a, k)


def B_enumerate(it, a, k):
    st = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(a[0], (seqs.SSeq, seqs.SMapped)):
        return seqs.SEnum(a[0], st)
    src = iterate(it, a[0])

    def go():
        n = st
        for x in src:
            yield (n, x)
            n = binop(it, "Add", n, 1)
    return PyIter(go(), "enumerate")


def B_zip(it, a, k):
    ls = [iter(iterate(it, x)) for x in a]
    strict = k.get("strict", False)

    def go():
        while ls:
            row = []
            for i, s in enumerate(ls):
                try:
                    row.append(next(s))
                except StopIteration:
                    if strict and (i or any(next(s2, NotImplemented) is not NotImplemented for s2 in ls[1:])):
                        raise_py(ValueError, "zip() arguments have different lengths")
                    return
            yield tuple(row)
    return PyIter(go(), "zip")


def B_map(it, a, k):
    if len(a) == 2:
        g = None if isinstance(a[1], seqs.SGen) else seqs.as_gen(it, a[1], "fun_(x_)", {"fun_": a[0]})
        if g is not None:
            return g
    z = B_zip(it, a[1:], {}).src
    return PyIter((it.call(a[0], list(xs), {}) for xs in z), "map")


def B_filter(it, a, k):
    src = iterate(it, a[1])
    return PyIter((x for x in src if (truth(it, x) if a[0] is None else truth(it, it.call(a[0], [x], {})))), "filter")


def B_reversed(it, a, k):
    if isinstance(a[0], seqs.SSeq):
        return a[0].m_slice(it, None, None, -1)
    if isinstance(a[0], VBytes):
        v = vforce(it.ctx, a[0])
        if isinstance(v, VBytes):
            return VRevIter(vreverse(it, v))
    if isinstance(a[0], (PyIter, set, frozenset)):
        raise_py(TypeError, "object is not reversible")
    if isinstance(a[0], PObj):
        f, _ = a[0].cls.lookup("__reversed__")
        if f is None:
            raise Unsupported("reversed of an object")
        return it.call(f, [a[0]], {})
    return PyIter(reversed(list(iterate(it, a[0]))), "reversed")


def _quant(stop):
    """all (stop False) / any (stop True) without a branch per element."""
    def f(it, a, k):
        r = not stop
        g = seqs.as_gen(it, a[0])
        if g is not None:
            return g.quantifier(it, stop)
        src = iter(iterate(it, a[0]))
        while True:
            try:
                x = next(src)
            except StopIteration:
                return r
            except PyRaise:
                # Python would not have got here if an earlier element decided
                if not isinstance(r, bool) and it.truth(r) is stop:
                    return stop
                raise
            x = mkb(it, x)
            r = b_or(r, x) if stop else b_and(r, x)
            if r is stop:
                return stop
    return f


B_all, B_any = _quant(False), _quant(True)


def B_sum(it, a, k):
    r = a[1] if len(a) > 1 else k.get("start", 0)
    g = seqs.as_gen(it, a[0])
    if g is not None:
        return g.sum(it, r)
    for x in iterate(it, a[0]):
        r = binop(it, "Add", r, x)
    return r


def B_divmod(it, a, k):
    return (binop(it, "FloorDiv", a[0], a[1]), binop(it, "Mod", a[0], a[1]))


def B_pow(it, a, k):
    if deep_concrete(a):
        return host(pow, *a)
    if len(a) == 2:
        return binop(it, "Pow", a[0], a[1])
    raise Unsupported("modular power")


def B_abs(it, a, k):
    if isinstance(a[0], SInt):
        return unop(it, "USub", a[0]) if it.truth(compare(it, "<", a[0], 0)) else a[0]
    return host(abs, *a)


def _minmax(name):
    def f(it, a, k):
        xs = list(iterate(it, a[0])) if len(a) == 1 else list(a)
        kf = k.get("key")
        if not xs:
            if "default" in k:
                return k["default"]
            raise_py(ValueError, f"{name}() iterable argument is empty")
        if deep_concrete(xs) and not has_p(xs) and kf is None:
            return host(_b.getattr(_b, name), xs)
        r, rk = xs[0], xs[0] if kf is None else it.call(kf, [xs[0]], {})
        for x in xs[1:]:
            xk = x if kf is None else it.call(kf, [x], {})
            if it.truth(compare(it, "<" if name == "min" else ">", xk, rk)):
                r, rk = x, xk
        return r
    return f


def B_sorted(it, a, k):
    if isinstance(a[0], (SymKeys, SymMap)):
        return SymKeys(a[0].m if isinstance(a[0], SymKeys) else a[0], "list")
    xs = list(iterate(it, a[0]))
    if not deep_concrete(xs) or has_p(xs) or k.get("key") is not None:
        raise Unsupported("sorted of symbolic values")
    return host(sorted, xs, **k)


def B_hex(it, a, k):
    if isinstance(a[0], SInt):
        return Opaque("hex text")
    return host(hex, *a)


def B_chr(it, a, k):
    if isinstance(a[0], SInt):
        if it.seq_mode:
            if not it.ctx.branch(z3.And(as_z(a[0]) >= 0, as_z(a[0]) <= 0x10ffff)):
                raise_py(ValueError, "chr() arg not in range(0x110000)")
            return seqs.SSeq("str", [seqs.unit(as_z(a[0]))])
        raise Unsupported("chr")
    return host(chr, *a)


def B_ord(it, a, k):
    if is_bytes(a[0]) and not isinstance(a[0], bytes):
        b = vforce(it.ctx, a[0])
        if is_fixed_bytes(b) and b_len(b) == 1:
            return b_items(b)[0]
    if isinstance(a[0], seqs.SSeq):
        if len(a[0].parts) != 1 or a[0].parts[0].decl().kind() != z3.Z3_OP_SEQ_UNIT:
            raise Unsupported("ord")
        return mk_z(a[0].parts[0].arg(0))
    if is_sym(a[0]):
        raise Unsupported("ord")
    return host(ord, *a)


def B_callable(it, a, k):
    return isinstance(a[0], (PFunc, Bound, Builtin, PClass, type, ModelClass, HMethod)) or \
        isinstance(a[0], PObj) and a[0].cls.lookup("__call__")[1] is not None


def B_next(it, a, k):
    v = a[0]
    if isinstance(v, seqs.SGen):
        return v.next(it, a[1] if len(a) > 1 else NotImplemented)
    if isinstance(v, PyIter):
        v.used += 1
        for x in v.src:
            return x
    elif isinstance(v, PObj) and v.cls.lookup("__next__")[0] is not None:
        try:
            return it.call(v.cls.lookup("__next__")[0], [v], {})
        except PyRaise as pr:
            if not (isinstance(pr.exc, HExc) and pr.exc.cls is StopIteration and len(a) > 1):
                raise
            return a[1]
    elif isinstance(v, ModelObj) or hasattr(v, "__next__"):
        raise Unsupported("next() of a library object")
    else:
        raise_py(TypeError, "object is not an iterator")
    if len(a) > 1:
        return a[1]
    raise_py(StopIteration)


def B_iter(it, a, k):
    if len(a) == 1:
        return a[0] if isinstance(a[0], PyIter) else PyIter(iterate(it, a[0]))

    def go():
        while True:
            x = it.call(a[0], [], {})
            if it.truth(eq(it, x, a[1])):
                return
            yield x
    return PyIter(go())


def B_print(it, a, k):
    it.frame_writes.append("print")
    return None


def B_repr(it, a, k):
    return format_value(it, a[0], "", 114)


def B_format(it, a, k):
    return format_value(it, a[0], a[1] if len(a) > 1 else "", -1)


def B_id(it, a, k):
    raise Unsupported("id()")


def B_hash(it, a, k):
    raise Unsupported("hash()")


def B_import(it, a, k):
    raise Unsupported("__import__")


ITER_FNS = {"zip": B_zip, "map": B_map, "filter": B_filter, "enumerate": B_enumerate, "reversed": B_reversed}

BUILTINS = {n[2:]: Builtin(n[2:], f) for n, f in list(globals().items()) if n.startswith("B_")}
BUILTINS["min"] = Builtin("min", _minmax("min"))
BUILTINS["max"] = Builtin("max", _minmax("max"))
BUILTINS["__import__"] = Builtin("__import__", B_import)


def builtin(name):
    if name in BUILTINS:
        return BUILTINS[name]
    v = _b.__dict__.get(name, NotImplemented)
    if isinstance(v, type):
        return v
    if name in ("NotImplemented", "Ellipsis", "True", "False", "None", "__debug__"):
        return v
    if v is not NotImplemented:
        return Builtin(name, lambda it, a, k: unsup(name))
    return NotImplemented


def unsup(name):
    raise Unsupported("built-in " + name)


def decorate(it, d, v, node):
    if d is classmethod or d is staticmethod or d is property:
        return Wrapped(d.__name__, v)
    if isinstance(d, Builtin) and d.name in ("lru_cache", "cache"):
        f = v.fn if isinstance(v, Wrapped) else v
        f.memo = True
        return v
    return it.call(d, [v], {})


def module(name):
    from . import lib
    return lib.module(name)
