"""Symbolic values and path contexts of the verification-condition generator.

A *path* of the code under verification is one run of the interpreter with a fixed trace of branch decisions.
Path conditions, library axioms and obligations are z3 formulas over bit-vectors (fixed-length byte strings and
the integers made from them), unbounded integers and uninterpreted functions (the assumed contracts of the
cryptographic dependencies).
"""
import time
import z3

z3.set_param("model.completion", True)

StrS = z3.DeclareSort("Str")     # text
VB = z3.DeclareSort("VB")        # byte strings of unknown length
I = z3.IntSort()
B = z3.BoolSort()


def BVS(n):
    return z3.BitVecSort(n)


class Unsupported(Exception):
    """The construct is outside the verified subset: the obligation stays undecided."""


class PathAbort(Exception):
    """The path is infeasible or excluded by an assumption."""


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, exc):
        self.exc = exc


_alive = {}


def eid(e):
    """Key of an expression (hash-consed; kept alive so that the key is not reused)."""
    i = e.get_id()
    _alive[i] = e
    return i


_uf = {}


def UF(name, *sorts):
    key = (name,) + tuple(s.sexpr() for s in sorts)
    if key not in _uf:
        _uf[key] = z3.Function(name, *sorts)
    return _uf[key]


class _NoNative:
    """Base of symbolic values: native comparison, hashing and truth tests would be silently wrong."""
    __slots__ = ()

    def __eq__(self, other):
        if self is other:
            return True
        raise Unsupported("native comparison of a symbolic value")

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __bool__(self):
        raise Unsupported("native truth test of a symbolic value")

    def __len__(self):
        raise Unsupported("native len of a symbolic value")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic value")

    def __index__(self):
        raise Unsupported("native index use of a symbolic value")


class SBool(_NoNative):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SBool({self.e})"


class SInt(_NoNative):
    """kind 'bv' (exact value of a bit-vector, signed or not), 'z' (mathematical), 'res' (known modulo 2^32)."""
    __slots__ = ("k", "e", "signed", "fac")

    def __init__(self, k, e, signed=False, fac=None):
        self.k, self.e, self.signed, self.fac = k, e, signed, fac

    @property
    def w(self):
        return self.e.size()

    def __repr__(self):
        return f"SInt({self.k},{self.e if self.fac is None else self.fac})"


class SBytes(_NoNative):
    """Byte string of known length n (n >= 1), big-endian in a bit-vector."""
    __slots__ = ("n", "e")

    def __init__(self, e):
        self.e = e
        self.n = e.size() // 8

    def __repr__(self):
        return f"SBytes[{self.n}]({self.e})"


class VBase:
    """A byte string of symbolic length.

    term: VB term; length: z3 Int; fix(n): its bytes as a bit-vector once the length is known to be n (or None);
    lens: lengths worth a case split; prov: provenance tuple used for inverse laws.
    """

    def __init__(self, term, length, fix=None, lens=(), prov=None, minlen=0):
        self.term, self.length, self.fix, self.lens, self.prov = term, length, fix, tuple(lens), prov
        self.opaque_used = False
        self.minlen = minlen


class VBytes(_NoNative):
    """View [a, b) of a VBase; a and b are (rel, off): rel 0 counts from the start, 1 from the end."""
    __slots__ = ("base", "a", "b", "parts")

    def __init__(self, base, a=(0, 0), b=(1, 0), parts=None):
        self.base, self.a, self.b, self.parts = base, a, b, parts

    def __repr__(self):
        return f"VBytes({self.base.term},{self.a},{self.b})"


class SStr(_NoNative):
    """Text. prov: ('b58', alphabet, bytes) | ('hex', bytes) | ('norm', form, s) | ('utf8', bytes) | ..."""
    __slots__ = ("e", "prov")

    def __init__(self, e, prov=None):
        self.e, self.prov = e, prov

    def __repr__(self):
        return f"SStr({self.e})"


class Opaque(_NoNative):
    """A value about which nothing is known (diagnostic text and the like); using it in a decision is unsupported."""
    __slots__ = ("why", "kind")

    def __init__(self, why="", kind="str"):
        self.why, self.kind = why, kind

    def __repr__(self):
        return f"Opaque({self.why})"


SYMBOLIC = (SBool, SInt, SBytes, VBytes, SStr, Opaque)


def is_sym(v):
    return isinstance(v, SYMBOLIC)


def deep_concrete(v, depth=0):
    if is_sym(v):
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(deep_concrete(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return all(deep_concrete(x, depth + 1) for x in v.values())
    return True


# ------------------------------------------------------------------ path context
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0


STATS = Stats()


class Ctx:
    FEAS_MS = 4000

    QUICK = 1000             # resources of a first look at an alternative

    def __init__(self, prefix=(), deadline=None):
        self.unchecked = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.FEAS_MS)
        self.prefix = list(prefix)
        self.trail = []          # decisions taken
        self.pending = []        # alternative prefixes
        self.pc = []
        self.inexact = []        # reasons why this path over-approximates
        self.events = []         # urandom draws, ...
        self.scrypts = []        # passwords given to the slow key derivation
        self.memo = {}
        self.counter = 0
        self.deadline = deadline
        self.lits = {}
        self.facts = {}
        self.trace = []          # human readable branch log
        self.cur_line = None
        self.mulmods = []
        self.steps = 0

    # -- names
    def fresh(self, name):
        self.counter += 1
        return f"{name}!{self.counter}"

    def note_inexact(self, why):
        if why not in self.inexact:
            self.inexact.append(why)

    # -- solver
    def add(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.pc.append(f)
        self.solver.add(f)

    axiom = add

    def check(self, *assumptions, ms=None, quick=False):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this obligation exhausted")
        t = time.time()
        if ms:
            self.solver.set("timeout", ms)
        elif quick:
            self.solver.set("rlimit", self.QUICK)
        r = self.solver.check(*assumptions)
        if ms:
            self.solver.set("timeout", self.FEAS_MS)
        elif quick:
            self.solver.set("rlimit", 0)
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        return r

    def decide(self, n, feas, labels=None):
        """Take one of n alternatives; feas(i) -> formula or None."""
        pos = len(self.trail)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.trail.append(c)
            f = feas(c)
            if f is not None:
                self.add(f)
            return c
        # Infeasible alternatives are usually refuted at once while feasible ones take a model to be built: first a
        # short look at each. The only one left is taken as it is, with a full check now and then (on an infeasible
        # path every obligation is discharged, so a late discovery costs time only).
        maybe = []
        for i in range(n):
            f = feas(i)
            r = None if f is None else self.check(f, quick=True)
            if r != z3.unsat:
                maybe.append((i, f, r))
        ok = []
        for i, f, r in maybe:
            if f is not None and r != z3.sat:
                if len(maybe) == 1 and self.unchecked < 8:
                    self.unchecked += 1
                else:
                    self.unchecked = 0
                    r = self.check(f)
                    if r == z3.unsat:
                        continue
                    if r == z3.unknown:
                        self.note_inexact("feasibility unknown")
            ok.append(i)
        if not ok:
            raise PathAbort()
        for i in ok[1:]:
            self.pending.append(self.trail + [i])
        c = ok[0]
        self.trail.append(c)
        f = feas(c)
        if f is not None:
            self.add(f)
        return c

    def branch(self, cond):
        """Truth of a z3 Bool on this path (forks)."""
        if isinstance(cond, bool):
            return cond
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        c = self.decide(2, lambda i: cond if i == 0 else z3.Not(cond))
        self.trace.append((self.cur_line, c == 0))
        return c == 0

    def choose(self, n):
        """Non-deterministic choice (no condition)."""
        if n == 1:
            return 0
        return self.decide(n, lambda i: None)

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort()
            return
        self.add(cond)
        if len(self.trail) >= len(self.prefix):
            if self.check() == z3.unsat:
                raise PathAbort()

    def must(self, cond, ms=None):
        """'yes' / 'no' / 'unknown': is cond valid on this path?  (no: a model of the negation exists)"""
        if isinstance(cond, bool):
            return "yes" if cond else "no"
        s = z3.simplify(cond)
        if z3.is_true(s):
            return "yes"
        r = self.check(z3.Not(cond), ms=ms)
        if r == z3.unsat:
            return "yes"
        return "no" if r == z3.sat else "unknown"

    # -- literals of sort Str
    def strlit(self, s):
        if s not in self.lits:
            c = z3.Const("lit:" + ascii(s)[1:-1], StrS)
            sid = UF("STRID", StrS, I)
            self.lits[s] = c
            self.axiom(sid(c) == len(self.lits))
            self.axiom(UF("SLEN", StrS, I)(c) == len(s))
            for f in self.facts.values():
                f(self, s, c)
        return self.lits[s]

    def lit_facts(self, name, f):
        """From here on f states its facts about every text literal of this path."""
        if name not in self.facts:
            self.facts[name] = f
            for s, c in list(self.lits.items()):
                f(self, s, c)


def explore(run, max_paths=4000, deadline=None):
    """Run `run(ctx)` on every feasible path; yields (ctx, result)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        if n >= max_paths:
            raise Unsupported(f"more than {max_paths} paths")
        if deadline and time.time() > deadline:
            raise Unsupported("time budget exhausted")
        n += 1
        ctx = Ctx(prefix, deadline)
        try:
            res = run(ctx)
        except PathAbort:
            res = None
        stack.extend(ctx.pending)
        yield ctx, res


# ------------------------------------------------------------------ constructors
def bvval(v, w):
    return z3.BitVecVal(v, w)


def mk_bool(e):
    if isinstance(e, bool):
        return e
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(s)


def mk_int(e, signed=False):
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        return s.as_signed_long() if signed else s.as_long()
    return SInt("bv", s, signed)


def mk_z(e):
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SInt("z", s)


def mk_res(e):
    return SInt("res", z3.simplify(e))


def mk_bytes(e):
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        return s.as_long().to_bytes(s.size() // 8, "big")
    return SBytes(s)


def b_e(b):
    """Bit-vector of a fixed-length byte string (length >= 1)."""
    if isinstance(b, SBytes):
        return b.e
    if isinstance(b, (bytes, bytearray)):
        return bvval(int.from_bytes(b, "big"), 8 * len(b))
    raise Unsupported(f"fixed-length bytes expected, got {type(b).__name__}")


def is_fixed_bytes(b):
    return isinstance(b, (bytes, SBytes, bytearray, SByteArray))


def b_len(b):
    if isinstance(b, (SBytes,)):
        return b.n
    return len(b)


def b_cat(x, y):
    if isinstance(x, bytes) and isinstance(y, bytes):
        return x + y
    if b_len(x) == 0:
        return y
    if b_len(y) == 0:
        return x
    return mk_bytes(z3.Concat(b_e(x), b_e(y)))


def b_items(b):
    """The bytes of a fixed-length byte string as ints / SInts."""
    if isinstance(b, (bytes, bytearray)):
        return list(b)
    return [mk_int(z3.Extract(8 * (b.n - i) - 1, 8 * (b.n - i - 1), b.e)) for i in range(b.n)]


BITWISE = {z3.Z3_OP_BXOR: lambda a, b: a ^ b, z3.Z3_OP_BAND: lambda a, b: a & b, z3.Z3_OP_BOR: lambda a, b: a | b}


def coalesce(es):
    """Adjacent bytes computed by one bitwise operation from adjacent bytes of the same operands, as one operation on the whole slices."""
    def split(e):
        if not z3.is_app(e) or e.decl().kind() not in BITWISE or e.num_args() != 2:
            return None
        args = []
        for a in e.children():
            if z3.is_bv_value(a):
                args.append((None, a.size() - 1, 0, a))
            elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_EXTRACT:
                h, l = a.decl().params()
                args.append((a.arg(0), h, l, a))
            else:
                args.append((a, a.size() - 1, 0, a))
        args.sort(key=lambda t: -1 if t[0] is None else t[0].get_id())
        return [e.decl().kind(), args]

    out = []
    for e in es:
        cur = split(z3.simplify(e)) if z3.is_app(e) and e.decl().kind() in BITWISE else None
        prev = out[-1][1] if out else None
        if cur and prev and cur[0] == prev[0] and all(
                a[0] is None and b[0] is None or
                a[0] is not None and b[0] is not None and a[0].eq(b[0]) and a[2] == b[1] + 1
                for a, b in zip(prev[1], cur[1])):
            prev[1] = [(a[0], a[1], b[2], z3.Concat(a[3], b[3]) if a[0] is None else z3.Extract(a[1], b[2], a[0]))
                       for a, b in zip(prev[1], cur[1])]
            out[-1][0] = None
        else:
            out.append([e, cur])
    return [e if e is not None else BITWISE[c[0]](z3.simplify(c[1][0][3]), z3.simplify(c[1][1][3])) for e, c in out]


def b_from_items(items):
    out = b""
    if all(isinstance(x, int) for x in items):
        return bytes(items)
    es = []
    for x in items:
        if isinstance(x, int):
            es.append(bvval(x, 8))
        else:
            e = x.e
            if x.k != "bv" or x.signed:
                raise Unsupported("byte from a non bit-vector integer")
            if e.size() < 8:
                e = z3.ZeroExt(8 - e.size(), e)
            elif e.size() > 8:
                e = z3.Extract(7, 0, e)
            es.append(e)
    es = coalesce(es)
    return mk_bytes(z3.Concat(*es) if len(es) > 1 else es[0])


def b_slice(b, i, j):
    n = b_len(b)
    i, j, _ = slice(i, j).indices(n)
    if j <= i:
        return b""
    if isinstance(b, bytes):
        return b[i:j]
    return mk_bytes(z3.Extract(8 * (n - i) - 1, 8 * (n - j), b.e))


class SByteArray:
    """Mutable bytearray: list of int / SInt items."""

    def __init__(self, items):
        self.items = list(items)


# ------------------------------------------------------------------ integers
def _const_bv(v):
    if v >= 0:
        return SInt("bv", bvval(v, max(1, v.bit_length())), False)
    return SInt("bv", bvval(v, v.bit_length() + 1), True)


def bool_to_int(v):
    if isinstance(v, SBool):
        return SInt("bv", z3.If(v.e, bvval(1, 1), bvval(0, 1)), False)
    if isinstance(v, bool):
        return int(v)
    return v


def as_bv(v):
    """(expr, signed)"""
    if isinstance(v, int):
        v = _const_bv(v)
    if v.k != "bv":
        raise Unsupported("bit operation on an unbounded integer")
    if v.fac is not None:
        v = force_mul(v)
    return v.e, v.signed


def force_mul(v):
    if v.fac is None:
        return v
    (a, b) = v.fac
    wa, wb = a.size(), b.size()
    return SInt("bv", z3.ZeroExt(wb, a) * z3.ZeroExt(wa, b), False)


def to_signed(e, signed):
    return e if signed else z3.ZeroExt(1, e)


def ext(e, signed, w):
    d = w - e.size()
    if d == 0:
        return e
    return z3.SignExt(d, e) if signed else z3.ZeroExt(d, e)


def as_z(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if v.k == "z":
        return v.e
    if v.k == "bv":
        e, s = as_bv(v)
        return z3.BV2Int(e, s)
    raise Unsupported("value of a residue")


def as_res(v):
    """32-bit residue of any integer."""
    if isinstance(v, int):
        return bvval(v & 0xffffffff, 32)
    if v.k == "res":
        return v.e
    if v.k == "bv":
        e, s = as_bv(v)
        return ext(e, s, 32) if e.size() <= 32 else z3.Extract(31, 0, e)
    raise Unsupported("residue of a mathematical integer")


def _kinds(a, b):
    ks = set()
    for v in (a, b):
        if isinstance(v, SInt):
            ks.add(v.k)
    return ks


def pair(a, b):
    ea, sa = as_bv(a)
    eb, sb = as_bv(b)
    return ea, sa, eb, sb


def int_add(ctx, a, b):
    ks = _kinds(a, b)
    if "res" in ks:
        return mk_res(as_res(a) + as_res(b))
    if "z" in ks:
        return mk_z(as_z(a) + as_z(b))
    ea, sa, eb, sb = pair(a, b)
    sg = sa or sb
    if sg:
        ea, eb = to_signed(ea, sa), to_signed(eb, sb)
    w = max(ea.size(), eb.size()) + 1
    return mk_int(ext(ea, sg, w) + ext(eb, sg, w), sg)


def int_neg(ctx, a):
    return int_sub(ctx, 0, a)


def int_sub(ctx, a, b):
    ks = _kinds(a, b)
    if "res" in ks:
        return mk_res(as_res(a) - as_res(b))
    if "z" in ks:
        return mk_z(as_z(a) - as_z(b))
    ea, sa, eb, sb = pair(a, b)
    ea, eb = to_signed(ea, sa), to_signed(eb, sb)
    w = max(ea.size(), eb.size()) + 1
    return mk_int(ext(ea, True, w) - ext(eb, True, w), True)


def int_mul(ctx, a, b):
    ks = _kinds(a, b)
    if "res" in ks:
        return mk_res(as_res(a) * as_res(b))
    if "z" in ks:
        return mk_z(as_z(a) * as_z(b))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int) and not isinstance(x, bool) and x > 1 and x & (x - 1) == 0:
            return int_shl(ctx, y, x.bit_length() - 1)
    if isinstance(a, SInt) and isinstance(b, SInt) and not a.signed and not b.signed and a.w + b.w > 96:
        return SInt("bv", bvval(0, a.w + b.w), False, fac=(as_bv(a)[0], as_bv(b)[0]))
    ea, sa, eb, sb = pair(a, b)
    sg = sa or sb
    if sg:
        ea, eb = to_signed(ea, sa), to_signed(eb, sb)
    w = ea.size() + eb.size()
    return mk_int(ext(ea, sg, w) * ext(eb, sg, w), sg)


N_SECP = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def mulmod(ctx, ea, eb, m):
    """(a * b) mod m as an uninterpreted, commutative function with the laws used by the proofs (m = N, prime)."""
    w = 256
    ea = z3.simplify(ext(ea, False, w) if ea.size() < w else ea)
    eb = z3.simplify(ext(eb, False, w) if eb.size() < w else eb)
    if ea.size() > w or eb.size() > w:
        raise Unsupported("modular product of operands wider than 256 bits")
    if z3.is_bv_value(ea) and z3.is_bv_value(eb):
        return bvval(ea.as_long() * eb.as_long() % m, w)
    if z3.is_bv_value(ea) and ea.as_long() == 1 or z3.is_bv_value(eb) and eb.as_long() == 1:
        o = eb if z3.is_bv_value(ea) and ea.as_long() == 1 else ea
        return z3.If(z3.ULT(o, bvval(m, w)), o, z3.URem(o, bvval(m, w)))
    if ea.get_id() > eb.get_id():
        ea, eb = eb, ea
    f = UF(f"MULMOD{m % 9973}", BVS(w), BVS(w), BVS(w))
    r = f(ea, eb)
    key = ("mulmod", m, ea, eb)
    k = ("mm", m, eid(ea), eid(eb))
    if k not in ctx.memo:
        ctx.memo[k] = True
        ctx.axiom(r == f(eb, ea))
        ctx.axiom(z3.ULT(r, bvval(m, w)))
        if m == N_SECP:
            M = bvval(m, w)
            nz = z3.And(ea != 0, eb != 0, z3.ULT(ea, M), z3.ULT(eb, M))
            ctx.axiom(z3.Implies(nz, r != 0))
            ctx.axiom(z3.Implies(z3.Or(ea == 0, eb == 0), r == 0))
    return r


def int_mod(ctx, a, m):
    if isinstance(m, SInt):
        if _kinds(a, m) <= {"bv"} and not m.signed and not (isinstance(a, SInt) and a.signed) \
                and not (isinstance(a, int) and a < 0):
            if ctx.branch(m.e == 0):
                raise_py(ctx, ZeroDivisionError, "modulo by zero")
            ea, _ = as_bv(a)
            w = max(ea.size(), m.w)
            return mk_int(z3.URem(ext(ea, False, w), ext(m.e, False, w)))
        raise Unsupported("modulo by a symbolic integer")
    if m == 0:
        raise_py(ctx, ZeroDivisionError, "modulo by zero")
    if m < 0:
        raise Unsupported("negative modulus")
    if a.k == "res":
        if m & (m - 1) == 0 and m <= 2 ** 32:
            k = m.bit_length() - 1
            return 0 if k == 0 else mk_int(z3.Extract(k - 1, 0, a.e))
        raise Unsupported("modulus of a residue")
    if a.k == "z":
        return mk_z(a.e % m)
    if a.fac is not None and not (m & (m - 1) == 0):
        return mk_int(mulmod(ctx, a.fac[0], a.fac[1], m))
    ea, sa = as_bv(a)
    if m & (m - 1) == 0:
        k = m.bit_length() - 1
        if k == 0:
            return 0
        if k >= ea.size():
            if not sa:
                return a
            return mk_int(ext(ea, True, k))
        return mk_int(z3.Extract(k - 1, 0, ea))
    if sa:
        return mk_z(z3.BV2Int(ea, True) % m)
    w = max(ea.size(), m.bit_length())
    e = ext(ea, False, w)
    M = bvval(m, w)
    if w <= m.bit_length():
        # at most one subtraction when a < 2m
        if 2 * m > 2 ** w - 1:
            return mk_int(z3.If(z3.ULT(e, M), e, e - M))
    r = z3.URem(e, M)
    return mk_int(z3.Extract(m.bit_length() - 1, 0, r) if w > m.bit_length() else r)


def int_floordiv(ctx, a, m):
    if isinstance(m, SInt):
        if _kinds(a, m) <= {"bv"} and not m.signed and not (isinstance(a, SInt) and a.signed):
            if ctx.branch(m.e == 0):
                raise_py(ctx, ZeroDivisionError, "division by zero")
            ea, _ = as_bv(a)
            w = max(ea.size(), m.w)
            return mk_int(z3.UDiv(ext(ea, False, w), ext(m.e, False, w)))
        raise Unsupported("division by a symbolic integer")
    if m == 0:
        raise_py(ctx, ZeroDivisionError, "division by zero")
    if m < 0:
        raise Unsupported("negative divisor")
    if a.k == "z":
        return mk_z(a.e / m)
    if a.k == "res":
        raise Unsupported("division of a residue")
    ea, sa = as_bv(a)
    if m & (m - 1) == 0:
        return int_shr(ctx, a, m.bit_length() - 1)
    if sa:
        return mk_z(z3.BV2Int(ea, True) / m)
    w = max(ea.size(), m.bit_length())
    return mk_int(z3.UDiv(ext(ea, False, w), bvval(m, w)))


def int_shl(ctx, a, k):
    it = getattr(ctx, "interp", None)
    if isinstance(k, SInt) and k.k == "z" and it is not None and it.seq_mode and ctx.must(
            z3.And(k.e >= 0, k.e % 8 == 0)) == "yes":
        return int_mul(ctx, a, int_pow(ctx, 256, mk_z(z3.simplify(k.e / 8))))
    if isinstance(k, SInt):
        k = concretize(ctx, k, 0, 64)
    if k < 0:
        raise_py(ctx, ValueError, "negative shift count")
    if isinstance(a, int):
        return a << k
    if a.k == "res":
        return mk_res(a.e << k) if k < 32 else mk_res(bvval(0, 32))
    if a.k == "z":
        return mk_z(a.e * (1 << k))
    ea, sa = as_bv(a)
    if k == 0:
        return a
    return mk_int(z3.Concat(ea, bvval(0, k)), sa)


def int_shr(ctx, a, k):
    if isinstance(k, SInt):
        k = concretize(ctx, k, 0, 64)
    if k < 0:
        raise_py(ctx, ValueError, "negative shift count")
    if isinstance(a, int):
        return a >> k
    if a.k == "z":
        return mk_z(a.e / (1 << k))
    if a.k == "res":
        raise Unsupported("right shift of a residue")
    ea, sa = as_bv(a)
    if k == 0:
        return a
    if k >= ea.size():
        if sa:
            return mk_int(z3.SignExt(1, z3.Extract(ea.size() - 1, ea.size() - 1, ea)), True)
        return 0
    return mk_int(z3.Extract(ea.size() - 1, k, ea), sa)


def int_bit(ctx, op, a, b):
    ks = _kinds(a, b)
    if "res" in ks:
        # an operand that is an exact non-negative value below 2^32 makes '&' exact
        for v in (a, b):
            if op == "&" and (isinstance(v, int) and 0 <= v < 2 ** 32 or
                              isinstance(v, SInt) and v.k == "bv" and not v.signed and v.w <= 32):
                w = max(1, v.bit_length()) if isinstance(v, int) else v.w
                e = as_res(a) & as_res(b)
                return mk_int(z3.Extract(w - 1, 0, e) if w < 32 else e)
        f = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}[op]
        return mk_res(f(as_res(a), as_res(b)))
    if "z" in ks:
        c = b if isinstance(b, int) else a
        o = a if c is b else b
        if op == "&" and isinstance(c, int) and c >= 0 and c & (c + 1) == 0:
            return mk_z(as_z(o) % (c + 1))
        if op == "&" and isinstance(c, int) and c < 0 and (-c) & (-c - 1) == 0:
            return mk_z(as_z(o) - as_z(o) % (-c))
        if op in ("|", "^"):
            for x, y in ((a, b), (b, a)):
                t = low_zeros(as_z(x))
                for k in ([t] if t else []) + ([8, 16, 32] if op == "|" else []):
                    if ctx.must(z3.And(as_z(y) >= 0, as_z(y) < 2 ** k, as_z(x) % 2 ** k == 0)) == "yes":
                        return mk_z(as_z(x) + as_z(y))
        w = z_width(ctx, a, b)
        return int_bit(ctx, op, z_to_bv(ctx, a, w), z_to_bv(ctx, b, w))
    ea, sa, eb, sb = pair(a, b)
    sg = sa or sb
    if sg:
        if op == "&" and not (sa and sb):
            # the non-negative operand bounds the result
            wn = ea.size() if not sa else eb.size()
            w = max(ea.size(), eb.size(), wn)
            r = ext(ea, sa, w) & ext(eb, sb, w)
            return mk_int(z3.Extract(wn - 1, 0, r) if wn < w else r, False)
        ea, eb = to_signed(ea, sa), to_signed(eb, sb)
    w = max(ea.size(), eb.size())
    mn = min(ea.size(), eb.size())
    x, y = ext(ea, sg, w), ext(eb, sg, w)
    r = x & y if op == "&" else x | y if op == "|" else x ^ y
    if op == "&" and not sg and mn < w:
        r = z3.Extract(mn - 1, 0, r)
    return mk_int(r, sg)


def low_zeros(e):
    """Number of low bits of an integer term that are zero by its form."""
    if z3.is_int_value(e):
        n = e.as_long()
        return 64 if n == 0 else (n & -n).bit_length() - 1
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            return sum(low_zeros(c) for c in e.children())
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            return min(low_zeros(c) for c in e.children())
    return 0


def z_width(ctx, *vs):
    for w in (8, 16, 32, 64, 128, 256):
        if all(isinstance(v, int) and 0 <= v < 2 ** w or isinstance(v, SInt) and (
                v.k == "bv" and not v.signed and v.w <= w or
                v.k == "z" and ctx.must(z3.And(v.e >= 0, v.e < 2 ** w)) == "yes") for v in vs):
            return w
    raise Unsupported("bit operation on an unbounded integer")


def z_to_bv(ctx, v, w):
    """Bit-vector integer equal to v, given that 0 <= v < 2^w holds on the path."""
    if isinstance(v, int) or v.k == "bv":
        return v
    key = ("z2bv", eid(v.e), w)
    if key not in ctx.memo:
        b = z3.BitVec(ctx.fresh("z2bv"), w)
        ctx.axiom(v.e == z3.BV2Int(b, False))
        ctx.memo[key] = b
    return SInt("bv", ctx.memo[key], False)


def int_invert(ctx, a):
    if a.k == "res":
        return mk_res(~a.e)
    if a.k == "z":
        return mk_z(-a.e - 1)
    ea, sa = as_bv(a)
    return mk_int(~to_signed(ea, sa), True)


def int_cmp(ctx, op, a, b):
    ks = _kinds(a, b)
    if "res" in ks:
        raise Unsupported("comparison of a residue")
    if "z" in ks:
        x, y = as_z(a), as_z(b)
        f = {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        return mk_bool(f)
    ea, sa, eb, sb = pair(a, b)
    sg = sa or sb
    if sg:
        ea, eb = to_signed(ea, sa), to_signed(eb, sb)
    w = max(ea.size(), eb.size())
    x, y = ext(ea, sg, w), ext(eb, sg, w)
    if op == "==":
        f = x == y
    elif op == "!=":
        f = x != y
    elif sg:
        f = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    else:
        f = {"<": z3.ULT(x, y), "<=": z3.ULE(x, y), ">": z3.UGT(x, y), ">=": z3.UGE(x, y)}[op]
    return mk_bool(f)


def int_pow(ctx, a, b):
    if isinstance(b, int) and 0 <= b <= 8:
        r = 1
        for _ in range(b):
            r = int_mul(ctx, r, a) if is_sym(r) or is_sym(a) else r * a
        return r
    it = getattr(ctx, "interp", None)
    if it is not None and it.seq_mode and isinstance(a, int) and a in (58, 256) and isinstance(b, SInt) and b.k == "z" and \
            ctx.must(b.e >= 0) == "yes":
        from . import seqs
        return mk_z(seqs.ghosts(it).power(a, b.e))
    if isinstance(a, int) and a > 0 and a & (a - 1) == 0 and isinstance(b, SInt):
        return int_shl(ctx, 1, concretize(ctx, int_mul(ctx, b, a.bit_length() - 1), 0, 4096))
    raise Unsupported("symbolic power")


BL = None


def bit_length(ctx, a):
    if isinstance(a, int):
        return a.bit_length()
    if a.k == "z":
        f = UF("BITLEN", I, I)
        r = f(a.e)
        key = ("bl", eid(a.e))
        if key not in ctx.memo:
            ctx.memo[key] = True
            ctx.axiom(r >= 0)
            ctx.axiom((r == 0) == (a.e == 0))
            ctx.axiom(z3.Implies(a.e == 1, r == 1))
            for k in (1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 32, 64):
                ctx.axiom(z3.Implies(a.e >= 0, (r <= k) == (a.e < 2 ** k)))
            ctx.note_inexact("bit length of an integer without bound")
        return SInt("z", r)
    e, s = as_bv(a)
    if s:
        if ctx.branch(e < 0):
            return bit_length(ctx, int_neg(ctx, a))
        e = z3.simplify(z3.Extract(e.size() - 2, 0, e))
    w = e.size()
    wr = max(1, w.bit_length())
    r = bvval(0, wr)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, e) == 1, bvval(i + 1, wr), r)
    return mk_int(r)


def concretize(ctx, v, lo, hi):
    """Case split on the value of a small symbolic integer."""
    if isinstance(v, int):
        return v
    if v.k == "bv":
        e, s = as_bv(v)
        wmax = 2 ** e.size() - 1
        cands = range(lo, min(hi, wmax) + 1)
        mkc = lambda c: e == bvval(c, e.size())
    else:
        e = as_z(v)
        cands = range(lo, hi + 1)
        mkc = lambda c: e == c
    pos = len(ctx.trail)
    if pos < len(ctx.prefix):
        # replay: decisions name the value itself
        c = ctx.prefix[pos]
        ctx.trail.append(c)
        if c < 0:
            raise Unsupported("integer outside the split range")
        ctx.add(mkc(c))
        return c
    # enumerate feasible values through models
    ok, block = [], []
    while len(ok) <= 70:
        r = ctx.check(*block)
        if r == z3.unsat:
            break
        if r == z3.unknown:
            raise Unsupported("case split of an integer: solver unknown")
        m = ctx.solver.model()
        val = m.eval(e, model_completion=True).as_long()
        if val < lo or val > hi:
            raise Unsupported("integer outside the split range")
        ok.append(val)
        block.append(z3.Not(mkc(val)))
    else:
        raise Unsupported("too many values in a case split")
    if not ok:
        raise PathAbort()
    ok.sort()
    for c in ok[1:]:
        ctx.pending.append(ctx.trail + [c])
    ctx.trail.append(ok[0])
    ctx.add(mkc(ok[0]))
    return ok[0]


def raise_py(ctx, cls, msg=""):
    from . import values
    raise PyRaise(values.HExc(cls, (msg,)))
