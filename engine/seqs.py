"""Sequences of unknown length with their elements: the value domain of the loop proofs (proofs.py).

An SSeq is text, bytes, a bytearray or a list of one-character texts, as a z3 sequence of integers (code points or byte
values).  The ghost functions of the base conversions are uninterpreted functions whose defining equations are
instantiated where a term is made; the facts about them that need induction are proved in lemmas/Base58.lean.
"""
import z3

from .sym import *
from .values import *

SeqS = z3.SeqSort(I)
KINDS = {"str": str, "bytes": bytes, "bytearray": bytearray, "list": list}


def empty():
    return z3.Empty(SeqS)


def unit(e):
    return z3.Unit(e if not isinstance(e, int) else z3.IntVal(e))


def lit(s):
    return [unit(c if isinstance(c, int) else ord(c)) for c in s]


def join(parts):
    if not parts:
        return empty()
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


class Ghosts:
    """Ghost functions over sequences, with on-demand instances of their definitions."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.seen = set()

    def once(self, *key):
        k = tuple(eid(x) if z3.is_expr(x) else x for x in key)
        if k in self.seen:
            return False
        self.seen.add(k)
        return True

    # elements
    def nth(self, s, i, byte=False):
        e = s[i]
        if self.once("nth", e, byte):
            self.ctx.axiom(e >= 0)
            if byte:
                self.ctx.axiom(e < 256)
        return e

    def char(self, a, t):
        """The character of the (constant) alphabet at position t."""
        t = z3.simplify(t)
        if z3.is_int_value(t) and 0 <= t.as_long() < len(a):
            return z3.IntVal(ord(a[t.as_long()]))
        return UF("CHAR_" + a, I, I)(t)

    def digit(self, a, c):
        """Position of the character c in the alphabet, -1 if it is not there; a None: the value itself."""
        if a is None:
            return c
        r = z3.IntVal(-1)
        for i in range(len(a) - 1, -1, -1):
            r = z3.If(c == ord(a[i]), z3.IntVal(i), r)
        return r

    # base conversion
    def power(self, b, i):
        f = UF(f"POW{b}", I, I)
        i = z3.simplify(i)
        r = f(i)
        if self.once("pow", b, i):
            self.ctx.axiom(f(z3.IntVal(0)) == 1)
            self.ctx.axiom(z3.Implies(i >= 0, z3.And(r >= 1, f(i + 1) == b * r)))
        return r

    def digits(self, b, a, v):
        """Digits of v > 0 in base b, most significant first; empty for v <= 0.  a: alphabet, None for byte values."""
        f = UF(f"DIGITS{b}_{a}", I, SeqS)
        v = z3.simplify(v)
        r = f(v)
        if self.once("digits", b, a, v):
            ch = v % b if a is None else self.char(a, v % b)
            self.ctx.axiom(z3.Implies(v <= 0, r == empty()))
            q = f(v / b)
            self.ctx.axiom(z3.Implies(v > 0, r == z3.Concat(q, unit(ch))))
            self.ctx.axiom(z3.Implies(z3.And(v > 0, v < b), z3.And(q == empty(), v % b == v)))
        return r

    def horner(self, b, a, s, i, elem=None):
        """Value of the first i elements of s, most significant first."""
        f = UF(f"HORNER{b}_{a}", SeqS, I, I)
        i = z3.simplify(i)
        r = f(s, i)
        if self.once("horner", b, a, s, i):
            self.ctx.axiom(f(s, z3.IntVal(0)) == 0)
            if a is None:
                self.ctx.axiom(z3.Implies(i >= 0, r >= 0))     # sum of non-negative terms
        return r

    def horner_step(self, b, a, s, i):
        f = UF(f"HORNER{b}_{a}", SeqS, I, I)
        self.horner(b, a, s, i)
        self.ctx.axiom(z3.Implies(
            i >= 0, f(s, i + 1) == self.horner(b, a, s, i) * b + self.digit(a, self.nth(s, i, a is None))))

    def tail(self, s, i):
        """Value of the last i bytes of s (lemma value_of_tail: all of them give the same value as horner)."""
        f = UF("TAIL256", SeqS, I, I)
        i = z3.simplify(i)
        r = f(s, i)
        if self.once("tail", s, i):
            n = z3.Length(s)
            self.ctx.axiom(f(s, z3.IntVal(0)) == 0)
            self.ctx.axiom(f(s, n) == self.horner(256, None, s, n))      # lemma value_of_tail
        return r

    def tail_step(self, s, i):
        f = UF("TAIL256", SeqS, I, I)
        n = z3.Length(s)
        self.ctx.axiom(z3.Implies(
            i >= 0, f(s, i + 1) == self.tail(s, i) + self.power(256, i) * self.nth(s, n - 1 - i, True)))

    def lead(self, a, s, i):
        """Number of leading zero digits among the first i elements."""
        f = UF(f"LEAD_{a}", SeqS, I, I)
        i = z3.simplify(i)
        r = f(s, i)
        if self.once("lead", a, s, i):
            self.ctx.axiom(f(s, z3.IntVal(0)) == 0)
            self.ctx.axiom(z3.Implies(i >= 0, z3.And(r >= 0, r <= i)))   # lemma lead_bounds
        return r

    def lead_step(self, a, s, i, n):
        f = UF(f"LEAD_{a}", SeqS, I, I)
        r = self.lead(a, s, i)
        z = z3.And(r == i, self.digit(a, self.nth(s, i, a is None)) == 0)
        self.ctx.axiom(z3.Implies(i >= 0, f(s, i + 1) == z3.If(z, r + 1, r)))
        self.lead(a, s, i + 1)
        # lemma lead_stops: after the first other digit the count stays
        self.ctx.axiom(z3.Implies(z3.And(i >= 0, i < n, z3.Not(z)), f(s, n) == r))

    def okpre(self, a, s, i):
        """The first i characters are digits of the alphabet."""
        f = UF(f"DIGITS_OK_{a}", SeqS, I, B)
        i = z3.simplify(i)
        r = f(s, i)
        if self.once("ok", a, s, i):
            n = z3.Length(s)
            self.ctx.axiom(f(s, z3.IntVal(0)))
            # lemmas ok_prefix and valid_ascii
            self.ctx.axiom(z3.Implies(z3.And(f(s, n), i >= 0, i <= n), r))
            self.ctx.axiom(z3.Implies(f(s, n), UF("SEQ_ASCII", SeqS, B)(s)))
        return r

    def okpre_step(self, a, s, i):
        f = UF(f"DIGITS_OK_{a}", SeqS, I, B)
        r = self.okpre(a, s, i)
        self.ctx.axiom(z3.Implies(i >= 0, f(s, i + 1) == z3.And(r, self.digit(a, self.nth(s, i)) >= 0)))
        self.okpre(a, s, i + 1)

    def value(self, s):
        return self.horner(256, None, s, z3.Length(s))

    # repetition and reversal
    def rep(self, c, n):
        f = UF("REPEAT", I, I, SeqS)
        c = z3.IntVal(c) if isinstance(c, int) else c
        n = z3.simplify(n)
        r = f(c, n)
        if self.once("rep", c, n):
            self.ctx.axiom(z3.Implies(n <= 0, r == empty()))
            self.ctx.axiom(z3.Length(r) == z3.If(n > 0, n, 0))
        return r

    def rev(self, parts):
        """Reverse of a concatenation, part by part."""
        out = []
        for p in reversed(parts):
            d = p.decl().name() if z3.is_app(p) else ""
            if p.decl().kind() in (z3.Z3_OP_SEQ_UNIT, z3.Z3_OP_SEQ_EMPTY) or d == "REPEAT":
                out.append(p)
            elif d == "REVERSE":
                out.append(p.arg(0))
            else:
                r = UF("REVERSE", SeqS, SeqS)(p)
                if self.once("rev", p):
                    self.ctx.axiom(z3.Length(r) == z3.Length(p))
                out.append(r)
        return out


def ghosts(it):
    g = getattr(it, "ghosts", None)
    if g is None:
        g = it.ghosts = Ghosts(it.ctx)
    return g


def z(v):
    return as_z(v)


def seq_parts(v, kind=None):
    """Parts of a concrete or symbolic sequence value of the given kind, None if it is something else."""
    if isinstance(v, SSeq):
        return v.parts if kind is None or v.kind == kind or {v.kind, kind} == {"bytes", "bytearray"} else None
    if isinstance(v, str) and kind in (None, "str"):
        return lit(v)
    if isinstance(v, bytes) and kind in (None, "bytes", "bytearray"):
        return lit(v)
    if isinstance(v, SByteArray) and kind in ("bytes", "bytearray") or isinstance(v, SBytes) and kind in ("bytes", "bytearray"):
        items = v.items if isinstance(v, SByteArray) else b_items(v)
        return [unit(as_z(x)) for x in items]
    return None


class SSeq(ModelObj):
    def __init__(self, kind, parts, base=None):
        self.kind, self.parts = kind, list(parts)
        self.base = base            # the z3 constant this value is (input), for reversed views see rev_of
        self.rev_of = None
        self.model_class = KINDS[kind]

    @property
    def e(self):
        return join(self.parts)

    def __repr__(self):
        return f"SSeq({self.kind}, {z3.simplify(self.e)})"

    def length(self):
        return z3.Length(self.e)

    # -- dispatched operations
    def m_len(self, it):
        return mk_z(self.length())

    def m_truth(self, it):
        return it.ctx.branch(self.length() > 0)

    def m_eq(self, it, o):
        p = seq_parts(o, self.kind)
        if p is None:
            if isinstance(o, (SStr, SBytes, VBytes, Opaque)):
                raise Unsupported("comparison with a sequence of another domain")
            return False
        return mk_bool(self.e == join(p))

    def m_binop(self, it, op, y, reflected):
        if op == "Add":
            p = seq_parts(y, self.kind)
            if p is None:
                raise Unsupported("concatenation of a sequence with something else")
            if self.kind == "list":
                raise Unsupported("list concatenation")
            kind = self.kind if not reflected else ("bytes" if isinstance(y, bytes) else self.kind)
            return SSeq(kind, p + self.parts if reflected else self.parts + p)
        raise Unsupported(f"{op} on a sequence")

    def m_slice(self, it, lo, hi, step):
        if lo is None and hi is None and step == -1:
            r = SSeq(self.kind, ghosts(it).rev(self.parts))
            if self.base is not None:
                r.rev_of = self.base
            return r
        if lo is None and hi is None and step in (None, 1):
            return SSeq(self.kind, self.parts, self.base)
        raise Unsupported("slice of a sequence of unknown length")

    def getitem(self, it, k):
        if self.base is None and self.rev_of is None or not isinstance(k, (int, SInt)):
            raise Unsupported("index into a computed sequence")
        n, e = self.length(), as_z(k)
        if it.ctx.branch(z3.And(e >= 0, e < n)):
            return self.element(it, e)
        if it.ctx.branch(z3.And(e < 0, e >= -n)):
            return self.element(it, z3.simplify(e + n))
        raise PyRaise(HExc(IndexError, ("index out of range",)))

    def iterate(self, it):
        raise Unsupported("iteration over a sequence of unknown length without an invariant")

    def element(self, it, i):
        """Element at index i (a z3 integer in range), as a value."""
        g = ghosts(it)
        byte = self.kind in ("bytes", "bytearray")
        if self.rev_of is not None:
            c = g.nth(self.rev_of, z3.Length(self.rev_of) - 1 - i, byte)
        elif self.base is not None:
            c = g.nth(self.base, i, byte)
        else:
            raise Unsupported("iteration over a computed sequence")
        return mk_z(c) if byte else SSeq("str", [unit(c)])

    # -- methods
    def m_lstrip(self, it, chars=None):
        if self.base is None or self.kind == "list" or not isinstance(chars, str if self.kind == "str" else bytes) or \
                len(chars) != 1:
            raise Unsupported("strip of a sequence")
        c = ord(chars)
        a = None
        if c != 0 or self.kind == "str":
            a = [x for x in it.prover.alphabets if ord(x[0]) == c]
            if not a or not it.prover.text:
                raise Unsupported("strip of a sequence")
            a = a[0]
        elif it.prover.text:
            raise Unsupported("strip of a sequence")
        g = ghosts(it)
        n = z3.Length(self.base)
        lead = g.lead(a, self.base, n)                         # lemma split_zeros
        r = z3.Const(it.ctx.fresh("stripped"), SeqS)
        it.ctx.axiom(self.base == z3.Concat(g.rep(c, lead), r))
        it.ctx.axiom(z3.Length(r) == n - lead)
        return SSeq(self.kind, [r])

    def m_append(self, it, x):
        if self.kind == "bytearray":
            if not (isinstance(x, (int, SInt))):
                raise Unsupported("append of something else")
            from . import models as M
            ok = M.b_and(M.compare(it, ">=", x, 0), M.compare(it, "<", x, 256))
            if not it.truth(ok):
                raise PyRaise(HExc(ValueError, ("byte must be in range(0, 256)",)))
            self.parts = self.parts + [unit(as_z(x))]
            return None
        if self.kind == "list":
            self.parts = self.parts + [list_item(x)]
            return None
        raise Unsupported("append")

    def m_insert(self, it, i, x):
        if i != 0 or self.kind not in ("list", "bytearray"):
            raise Unsupported("insert")
        self.parts = [list_item(x) if self.kind == "list" else unit(as_z(x))] + self.parts
        return None

    def m_extend(self, it, x):
        p = seq_parts(x, "bytearray") if self.kind == "bytearray" else None
        if p is None:
            raise Unsupported("extend")
        self.parts = self.parts + p
        return None

    def m_reverse(self, it):
        if self.kind not in ("list", "bytearray"):
            raise Unsupported("reverse")
        self.parts = ghosts(it).rev(self.parts)
        return None

    def m_iadd(self, it, x):
        if self.kind == "bytearray":
            self.m_extend(it, x)
            return self
        if self.kind == "list":
            if isinstance(x, (list, tuple)):
                self.parts = self.parts + [list_item(y) for y in x]
                return self
            raise Unsupported("list extension")
        return self.m_binop(it, "Add", x, False)

    def m_encode(self, it, enc="utf-8", errors="strict"):
        return encode(it, self, enc, errors)

    def m_decode(self, it, enc="utf-8", errors="strict"):
        if self.kind not in ("bytes", "bytearray") or str(enc).lower().replace("_", "-") not in (
                "ascii", "us-ascii", "utf-8", "utf8") or it.ctx.must(UF("SEQ_ASCII", SeqS, B)(self.e)) != "yes":
            raise Unsupported("decode")
        return SSeq("str", self.parts, self.base)

    def m_hex(self, it, *a):
        if a or self.kind not in ("bytes", "bytearray"):
            raise Unsupported("hex")
        return SeqHex(self)

    def m_isascii(self, it):
        return mk_bool(UF("SEQ_ASCII", SeqS, B)(self.e))


class SeqHex(ModelObj):
    """The hexadecimal digits of a byte sequence; good for int(..., 16)."""
    model_class = str

    def __init__(self, seq):
        self.seq = seq

    def m_len(self, it):
        return mk_z(2 * self.seq.length())

    def m_truth(self, it):
        return it.ctx.branch(self.seq.length() > 0)

    def value(self, it, base):
        if base != 16:
            raise Unsupported("int() of hexadecimal text")
        if not self.m_truth(it):
            raise PyRaise(HExc(ValueError, ("invalid literal for int() with base 16: ''",)))
        return os2ip(it, self.seq, "big", False)


def list_item(x):
    p = seq_parts(x, "str")
    if p is None or len(p) != 1 or p[0].decl().kind() != z3.Z3_OP_SEQ_UNIT:
        raise Unsupported("list of something other than single characters")
    return p[0]


def encode(it, s, enc, errors="strict"):
    if s.kind != "str" or errors != "strict" or not isinstance(enc, str):
        raise Unsupported("encoding")
    n = enc.lower().replace("_", "-")
    if n not in ("ascii", "us-ascii"):
        if n not in ("utf-8", "utf8"):
            raise Unsupported("encoding " + n)
        if not it.ctx.branch(UF("SEQ_ASCII", SeqS, B)(s.e)):
            raise Unsupported("UTF-8 of text that is not ASCII")
        return SSeq("bytes", s.parts, s.base)
    if not it.ctx.branch(UF("SEQ_ASCII", SeqS, B)(s.e)):
        raise PyRaise(HExc(UnicodeEncodeError, ("ascii", "", 0, 1, "ordinal not in range")))
    return SSeq("bytes", s.parts, s.base)


class SEnum(ModelObj):
    """enumerate() of a sequence."""

    def __init__(self, seq, start):
        self.seq, self.start = seq, start

    def iterate(self, it):
        raise Unsupported("iteration over a sequence of unknown length without an invariant")


class SRange(ModelObj):
    """range(start, ..., step) of n elements for a symbolic n."""

    def __init__(self, n, start=0, step=1):
        self.n, self.start, self.step = n, start, step

    def value(self, it, i):
        from . import models as M
        x = i if self.step == 1 else M.binop(it, "Mult", i, self.step)
        return x if type(self.start) is int and self.start == 0 else M.binop(it, "Add", x, self.start)

    def iterate(self, it):
        raise Unsupported("range of unknown length without an invariant")


class SMapped(ModelObj):
    """[f(x) for x in s] for a sequence s of unknown length, f without effect; not changed afterwards."""
    model_class = list

    def __init__(self, gen):
        self.gen, self.seq = gen, gen.iterv.seq if isinstance(gen.iterv, SEnum) else gen.iterv
        self.kind = "tuple"
        if isinstance(self.seq, SSeq):
            self.rev_of, self.base = self.seq.rev_of, self.seq.base

    def length(self):
        if isinstance(self.seq, SRange):
            raise Unsupported("length of this list")
        return self.seq.length()

    def m_len(self, it):
        if isinstance(self.seq, SRange):
            return self.seq.n
        return mk_z(self.length())

    def m_truth(self, it):
        return it.ctx.branch(self.length() > 0)

    def element(self, it, i):
        if isinstance(self.seq, SRange):
            raise Unsupported("element of this list")
        x = self.seq.element(it, i)
        if isinstance(self.gen.iterv, SEnum):
            x = (mk_z(i + as_z(self.gen.iterv.start)), x)
        return self.gen.each(it, x)

    def iterate(self, it):
        raise Unsupported("iteration over a sequence of unknown length without an invariant")


class SGen(ModelObj):
    """A generator expression or map() over a sequence of unknown length: consumed by a loop (interp.py's For)."""

    def __init__(self, iterv, gen, elt, env, pos):
        import ast
        self.ast = ast
        self.iterv, self.target, self.ifs, self.elt, self.env, self.pos = iterv, gen.target, gen.ifs, elt, env, pos
        self.used = False

    def iterate(self, it):
        raise Unsupported("iteration over a sequence of unknown length without an invariant")

    def child(self):
        from .interp import Env
        e = Env(self.env.module, parent=self.env)
        e.comp = True
        return e

    def each(self, it, x):
        if self.ifs:
            raise Unsupported("filtered sequence")
        env = self.child()
        it.assign(self.target, x, env)
        return it.eval(self.elt, env)

    def loop(self, it, body, orelse="", **init):
        """for TARGET in ITER: BODY else: ORELSE, where ELT stands for the element expression."""
        ast = self.ast
        if self.used:
            raise Unsupported("a generator used twice")
        self.used = True
        elt = self.elt

        class Put(ast.NodeTransformer):
            def visit_Name(self, n):
                return elt if n.id == "ELT" else n
        body = [Put().visit(s) for s in ast.parse(body).body]
        for c in reversed(self.ifs):
            body = [ast.If(test=c, body=body, orelse=[])]
        st = ast.For(target=self.target, iter=ast.Constant(value=None), body=body,
                     orelse=[Put().visit(s) for s in ast.parse(orelse).body])
        for n in ast.walk(st):
            if isinstance(n, (ast.expr, ast.stmt)) and not hasattr(n, "lineno"):
                n.lineno = n.end_lineno = self.pos[0]
                n.col_offset = n.end_col_offset = 0
        st.lineno = f"{self.pos[0]}:{self.pos[1]}"
        env = self.child()
        env.vars.update(init)
        if it.loop_hook is None:
            raise Unsupported("iteration over a sequence of unknown length without an invariant")
        r = it.loop_hook(it, st, env, self.iterv)
        if r is NotImplemented:
            raise Unsupported("iteration over a sequence of unknown length without an invariant")
        return env

    # consumers
    def sum(self, it, start):
        return self.loop(it, "acc_ = acc_ + ELT", acc_=start).vars["acc_"]

    def reduce(self, it, f, start):
        return self.loop(it, "acc_ = fun_(acc_, ELT)", acc_=start, fun_=f).vars["acc_"]

    def quantifier(self, it, stop):
        return self.loop(it, f"if {'' if stop else 'not'} ELT:\n    res_ = {stop}\n    break", f"res_ = {not stop}").vars["res_"]

    def next(self, it, default):
        if default is NotImplemented:
            raise Unsupported("next() without a default")
        return self.loop(it, "res_ = ELT\nbreak", "res_ = dfl_", dfl_=default).vars["res_"]

    def materialize(self, it):
        """list(): every element is computed now (it may raise); afterwards elements are computed when asked for."""
        if self.ifs:
            raise Unsupported("list of unknown length")
        m = SMapped(self)
        self.loop(it, "ELT")
        return m


def as_gen(it, v, elt=None, args=()):
    """A value of unknown length as a generator, None for anything else."""
    import ast
    if isinstance(v, SGen):
        return v
    if it.loop_hook is None or not isinstance(v, (SSeq, SEnum, SRange, SMapped)):
        return None
    from .interp import Env
    line = it.ctx.cur_line
    env = Env(it.p.modules[line[0]], parent=None)
    env.vars.update(args)
    x = ast.Name(id="x_", ctx=ast.Load())
    e = x if elt is None else ast.parse(elt, mode="eval").body
    gen = ast.comprehension(target=ast.Name(id="x_", ctx=ast.Store()), iter=ast.Constant(value=None), ifs=[], is_async=0)
    return SGen(v, gen, e, env, (line[1], "call"))


# ------------------------------------------------------------------ operations on other values, in loop proofs only
def str_times(it, s, n):
    """Text or byte string of one character repeated a symbolic number of times."""
    if len(s) != 1:
        raise Unsupported("repetition of a longer string")
    return SSeq("str" if isinstance(s, str) else "bytes", [ghosts(it).rep(ord(s) if isinstance(s, str) else s[0], as_z(n))])


def str_index(it, s, k):
    """Character of constant text at a symbolic position."""
    from . import models as M
    n = len(s)
    if not it.truth(M.b_and(M.compare(it, ">=", k, 0), M.compare(it, "<", k, n))):
        if not it.truth(M.compare(it, ">=", k, -n)) or not it.truth(M.compare(it, "<", k, n)):
            raise PyRaise(HExc(IndexError, ("string index out of range",)))
        raise Unsupported("negative symbolic index")
    c = ghosts(it).char(s, as_z(k))
    return SSeq("str", [unit(c)])


def table_find(it, table, x):
    """table.find(x) / str.find for a constant table without repetitions."""
    if isinstance(table, bytes):
        table = table.decode("latin-1")
    if len(set(table)) != len(table):
        raise Unsupported("table with repetitions")
    return mk_z(ghosts(it).digit(table, as_z(x)))


def zeros(it, n):
    if not it.truth(mk_bool(as_z(n) >= 0)):
        raise PyRaise(HExc(ValueError, ("negative count",)))
    return [ghosts(it).rep(0, as_z(n))]


def os2ip(it, s, order, signed):
    """int.from_bytes of the whole input."""
    base = s.base if order == "big" else s.rev_of if order == "little" else None
    if base is None or signed is not False or s.kind not in ("bytes", "bytearray"):
        raise Unsupported("from_bytes of a computed sequence")
    return mk_z(ghosts(it).value(base))


def i2osp(it, x, nz, order, signed):
    """x.to_bytes(n) for the least n that fits: the base-256 digits of x (lemma i2osp_digits)."""
    ctx = it.ctx
    if signed or order not in ("big", "little") or ctx.must(nz == (as_z(bit_length(ctx, x)) + 7) / 8) != "yes":
        raise Unsupported("to_bytes of an unbounded integer")
    parts = [ghosts(it).digits(256, None, x.e)]
    return SSeq("bytes", parts if order == "big" else ghosts(it).rev(parts))


def char_in(it, x, c):
    if x.kind != "str" or len(x.parts) != 1 or x.parts[0].decl().kind() != z3.Z3_OP_SEQ_UNIT:
        raise Unsupported("substring test")
    return mk_bool(ghosts(it).digit(c, x.parts[0].arg(0)) >= 0)
