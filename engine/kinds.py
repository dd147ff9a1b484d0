"""Parameter kinds: the domains over which contracts and theorems are quantified (symbolic side).

A kind is a string: alternatives separated by '|', each one of
  none bool text text1 name nat int pos bytes bytesN coin 'literal' any digits=exact integer
The native generator of the same kinds is in native.py.
"""
import z3

from . import models as M
from . import lib as L
from .sym import *
from .values import *


BITCOIN = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
RIPPLE = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
ALIASES = {"alphabet": f"'{BITCOIN}'|'{RIPPLE}'", "rotation": "|".join(str(i) for i in range(1, 32))}




class Absent:
    """An optional keyword that is not given."""

    def __repr__(self):
        return "(not given)"


ABSENT = Absent()

# Objects of the package that wrap one object of the library.  Their view is what they denote: a scalar (private key)
# or a point of the curve.
VIEWS = {"bip38.secp256k1.private_key.PrivateKey": "privkey", "bip38.secp256k1.public_key.PublicKey": "pubkey",
         "bip38.secp256k1.point.Point": "ecpoint"}
CLASSES = {k: q for q, k in VIEWS.items()}


def wrap(it, kind, v):
    """The object of this kind denoting v, built by the real constructor."""
    q = CLASSES[kind]
    mod, name = q.rsplit(".", 1)
    cls = it.import_module(mod).ns[name]
    if kind == "privkey":
        lib = L.SymSK(L.scalar(it.ctx, v))
    elif kind == "pubkey":
        lib = L.SymVK(v.k)
    else:
        lib = L.SymPoint(v.k, L.JACOBI)
    return it.call(cls, [lib], {})


def canonical(it, kind, o):
    """Is o an object of this kind as its constructor leaves it?"""
    if not isinstance(o, PObj) or o.cls.qual != CLASSES[kind] or not o.ghost or "view" not in o.ghost:
        return False
    was = o.ghost["attrs"]
    if set(was) != set(o.attrs) or any(o.attrs[k] is not v for k, v in was.items()):
        return False
    if any(isinstance(v, (list, dict, set, SByteArray, PObj)) for v in was.values()):
        return False
    lib = o.ghost["view"]
    if kind == "privkey":
        return type(lib) is L.SymSK
    if kind == "pubkey":
        return type(lib) is L.SymVK
    return isinstance(lib, L.SymPoint) and lib.model_class is L.JACOBI and not lib.off


def view(o):
    lib = o.ghost["view"]
    return mk_int(lib.k) if isinstance(lib, L.SymSK) else L.SymPoint(lib.k, L.JACOBI)


def value(v):
    """What the specification sees of an argument."""
    if v is ABSENT:
        return None
    return view(v) if isinstance(v, PObj) and v.ghost and "view" in v.ghost else v


def viewed_as(it, kind, o, v):
    """Postcondition of a function returning an object of this kind."""
    if not canonical(it, kind, o):
        raise Unsupported("object in a state its constructor does not leave it in")
    if kind == "privkey":
        return M.eq(it, view(o), v)
    return mk_bool(view(o).k == v.k)


def alternatives(kind):
    return [b for a in kind.split("|") for b in ALIASES.get(a, a).split("|")]


def new_text(it, name, nonempty=False):
    s = SStr(z3.Const(name, StrS))
    if nonempty:
        it.ctx.add(s.e != it.ctx.strlit(""))
    return s


def new_bytes(it, name):
    t = z3.Const(name, VB)
    L_ = z3.Int("len_" + name)
    it.ctx.add(L_ >= 0)
    b = M.vbase(it.ctx, t, L_)
    return VBytes(b)


def the_coin(it, tag="coin"):
    """A currency class about which only the shape of its table is known (one or two byte prefixes)."""
    base = it.import_module("bip38.cryptocurrencies").ns["ICryptocurrency"]
    m = it.import_module("bip38.cryptocurrencies")
    alpha = it.ctx.memo.get("alpha_" + tag)
    c = PClass("AnyCoin_" + tag, [base], {"NETWORKS": M.SymMap(tag)}, m, "AnyCoin_" + tag)
    return c


def make1(it, k, name, env):
    ctx = it.ctx
    if k == "none":
        return None
    if k == "bool":
        return ctx.choose(2) == 0
    if k == "text":
        return new_text(it, name)
    if k in ("text1", "name"):
        return new_text(it, name, True)
    if k == "network":
        s = new_text(it, name, True)
        it.ctx.assume(env["coin"].ns["NETWORKS"].known(s.e))
        return s
    if k in ("nat", "pos", "int"):
        z = z3.Int(name)
        if k != "int":
            ctx.add(z >= (0 if k == "nat" else 1))
        return SInt("z", z)
    if k == "word":
        return SInt("res", z3.BitVec(name, 32))
    if k == "prefix":
        return SInt("bv", z3.BitVec(name, 16), False)
    if k == "bytes":
        return new_bytes(it, name)
    if k == "bytes+":
        b = new_bytes(it, name)
        ctx.add(b.base.length > 0)
        return b
    if k.startswith("bytes"):
        return SBytes(z3.BitVec(name, 8 * int(k[5:])))
    if k.startswith("u"):
        return SInt("bv", z3.BitVec(name, int(k[1:])), False)
    if k.startswith("'"):
        return k.strip("'")
    if k == "coin":
        return the_coin(it, name)
    if k == "scalar":
        e = z3.BitVec(name, 256)
        ctx.add(z3.And(e != 0, z3.ULT(e, bvval(N_SECP, 256))))
        return SInt("bv", e, False)
    if k in CLASSES:
        e = z3.BitVec(name, 256)
        ctx.add(z3.And(e != 0, z3.ULT(e, bvval(N_SECP, 256))))
        return wrap(it, k, SInt("bv", e, False) if k == "privkey" else L.SymPoint(e, L.JACOBI))
    if k == "absent":
        return ABSENT
    try:
        return int(k)
    except ValueError:
        raise ValueError("kind " + k)


def make(it, kind, name, env=None):
    alts = alternatives(kind)
    k = alts[it.ctx.choose(len(alts))]
    return make1(it, k, name, env or {})


def member1(it, k, v, env):
    ctx = it.ctx
    if k == "none":
        return v is None
    if k == "absent":
        return v is ABSENT
    if k in CLASSES:
        return canonical(it, k, v) and \
            (k != "ecpoint" or ctx.must(v.ghost["view"].k != 0) == "yes")
    if k == "bool":
        return isinstance(v, bool)
    if k in ("text", "text1", "name", "network"):
        if not isinstance(v, (str, SStr)):
            return False
        if k == "text":
            return True
        if isinstance(v, str):
            ok = v != ""
        else:
            ok = bool(v.prov and v.prov[0] == "b58") or ctx.must(v.e != ctx.strlit("")) == "yes"
        if not ok or k != "network":
            return ok
        return surely(it, M.contains(it, v, it.getattr(env["coin"], "NETWORKS")))
    if k in ("nat", "pos", "int"):
        if isinstance(v, bool) or not isinstance(v, (int, SInt)):
            return False
        if isinstance(v, SInt) and v.k == "res":
            return False
        if k == "int":
            return True
        return surely(it, M.mkb(it, M.compare(it, ">=", v, 0 if k == "nat" else 1)))
    if k == "word":               # any integer, of which only the residue modulo 2^32 is used
        return not isinstance(v, bool) and isinstance(v, (int, SInt)) and not (isinstance(v, SInt) and v.k == "z")
    if k == "prefix":
        if isinstance(v, bool) or not isinstance(v, (int, SInt)) or isinstance(v, SInt) and v.k == "res":
            return False
        if isinstance(v, SInt) and v.k == "bv" and not v.signed and v.fac is None and v.w <= 16:
            return True
        return surely(it, M.compare(it, ">=", v, 0)) and surely(it, M.compare(it, "<", v, 65536))
    if k == "bytes":
        return M.is_bytes(v)
    if k == "bytes+":
        return M.is_bytes(v) and surely(it, M.compare(it, ">", M.B_len(it, [v], {}), 0))
    if k.startswith("bytes"):
        return M.is_bytes(v) and not isinstance(M.vforce(ctx, v, split=False), VBytes) and \
            b_len(M.vforce(ctx, v, split=False)) == int(k[5:])
    if k.startswith("'"):
        return isinstance(v, str) and v == k.strip("'")
    if k == "coin":
        return isinstance(v, PClass) and v.lookup("NETWORKS")[1] is not None
    if k == "scalar":
        return False
    if k == "u256":
        if isinstance(v, bool) or not isinstance(v, (int, SInt)) or isinstance(v, SInt) and v.k == "res":
            return False
        return surely(it, M.compare(it, ">=", v, 0)) and surely(it, M.compare(it, "<", v, 2 ** 256))
    return v == int(k) if isinstance(v, int) else False


def surely(it, c):
    if isinstance(c, bool):
        return c
    if isinstance(c, SBool):
        return it.ctx.must(c.e) == "yes"
    return False


def member(it, kind, v, env):
    return any(member1(it, k, v, env) for k in alternatives(kind))


def concrete(it, v, model):
    """Concrete value of an input under a model: (value, exact)."""
    ev = lambda e: model.eval(e, model_completion=True)
    if isinstance(v, SInt):
        if v.k in ("z", "res"):
            return ev(v.e).as_long()
        e, s = as_bv(v)
        r = ev(e)
        return r.as_signed_long() if s else r.as_long()
    if isinstance(v, SBytes):
        return ev(v.e).as_long().to_bytes(v.n, "big")
    if isinstance(v, VBytes):
        n = ev(v.base.length).as_long()
        if 0 < n <= 4096:
            return ev(UF(f"VBV{n}", VB, BVS(8 * n))(v.base.term)).as_long().to_bytes(n, "big")
        return b"" if n == 0 else None
    if isinstance(v, SStr):
        for text, c in it.ctx.lits.items():
            if z3.is_true(ev(v.e == c)):
                return text
        return None
    if isinstance(v, SBool):
        return z3.is_true(ev(v.e))
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return v
    return None
