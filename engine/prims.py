"""Primitives of the specification language (module `prim`), symbolic side.

The native side, used when a theorem is replayed against the real code, is /verif/engine/nprim.py; both have the same
names.  A specification never imports the package under verification.
"""
import z3

from . import models as M
from . import lib as L
from .sym import *
from .values import *


class SpecReject(Exception):
    """Raised by a specification: the call must fail with an exception of one of the named classes."""


def _reject(it, *names):
    raise PyRaise(HExc(SpecReject, names))


class Undefined(Exception):
    """The specification says nothing about this case."""


def _undefined(it):
    raise Undefined()


def _bytes(it, v):
    if isinstance(v, SByteArray):
        return b_from_items(v.items) if v.items else b""
    if not M.is_bytes(v):
        raise Unsupported("specification primitive applied to a non-byte string")
    return v


def _sha(name):
    return lambda it, b: L.digest(it.ctx, name, _bytes(it, b))


def _scrypt(it, pw, salt, n, r, p, ln):
    return L.scrypt_hash(it, _bytes(it, pw), _bytes(it, salt), n, r, p, ln)


def _aes(op):
    def f(it, key, block):
        k, b = M.vforce(it.ctx, key), M.vforce(it.ctx, block)
        if isinstance(k, VBytes) or isinstance(b, VBytes):
            raise Unsupported("AES on bytes of unknown length")
        return L.aes_uf(it.ctx, op, k, b)
    return f


def _xor(it, a, b):
    a, b = M.vforce(it.ctx, a), M.vforce(it.ctx, b)
    if isinstance(a, VBytes) or isinstance(b, VBytes) or b_len(a) != b_len(b):
        raise Unsupported("xor of different lengths")
    return mk_bytes(b_e(a) ^ b_e(b))


def _i2osp(it, x, n):
    return M.int_to_bytes(it, x, n, "big", False)


def _fits(it, x, n):
    """x < 256 ** n for a non-negative integer x."""
    if isinstance(n, SInt):
        bl = bit_length(it.ctx, x) if not isinstance(x, int) else x.bit_length()
        return M.mkb(it, M.compare(it, "<=", bl, M.binop(it, "Mult", n, 8)))
    if isinstance(x, int):
        return x < 256 ** n
    if x.k == "bv" and not x.signed and as_bv(x)[0].size() <= 8 * n:
        return True
    return M.mkb(it, M.compare(it, "<", x, 256 ** n))


def _minbytes(it, x):
    """Shortest big-endian representation of a non-negative integer (one byte for zero)."""
    bl = bit_length(it.ctx, x) if not isinstance(x, int) else x.bit_length()
    n = M.binop(it, "FloorDiv", M.binop(it, "Add", bl, 7), 8)
    if isinstance(n, SInt) and not (isinstance(x, SInt) and x.k == "z"):
        n = concretize(it.ctx, n, 0, 64)
    zero = it.truth(M.eq(it, n, 0))
    return M.int_to_bytes(it, x, 1 if zero else n, "big", False)


def _os2ip(it, b):
    return M.from_bytes(it, _bytes(it, b), "big", False)


def _pt(it, k):
    e = L.scalar(it.ctx, k)
    return L.SymPoint(e, L.JACOBI)


def _pt_parse(it, data):
    """The point denoted by an SEC1 encoding (02/03, 04, 06/07 or raw coordinates), None if there is none."""
    try:
        return L.decode_point(it, data, True, "spec")
    except PyRaise as ex:
        if isinstance(ex.exc, HExc) and ex.exc.cls is L.MalformedPointError:
            return None
        raise


def _pt_from_xy(it, x, y):
    ex, ey = L.coord256(it, x), L.coord256(it, y)
    ok, k = L.from_xy(it.ctx, ex, ey)
    if it.ctx.branch(ok):
        return L.SymPoint(k, L.JACOBI)
    return None


def _pt_mul(it, p, k):
    return p.m_binop(it, "Mult", k, False)


def _pt_add(it, p, q):
    return p.m_binop(it, "Add", q, False)


def _pt_ser(it, p, compressed):
    return p.m_to_bytes(it, "compressed" if it.truth(compressed) else "uncompressed")


def _pt_inf(it, p):
    return not p.finite(it)


def _pt_x(it, p):
    return p.m_x(it)


def _pt_y(it, p):
    return p.m_y(it)


def _mulmodn(it, a, b):
    ea, eb = L.scalar(it.ctx, a), L.scalar(it.ctx, b)
    return mk_int(mulmod(it.ctx, ea, eb, N_SECP))


def _nfc(it, s):
    return L.normalize(it, "NFC", s)


def _utf8(it, s):
    return M.utf8(it, s)


def _encodable(it, s):
    """Has the text a UTF-8 encoding (no lone surrogates)?"""
    if isinstance(s, str):
        try:
            s.encode("utf-8")
            return True
        except UnicodeEncodeError:
            return False
    if s.prov and s.prov[0] in ("b58", "hex"):
        return True
    return mk_bool(UF("ENCODABLE", StrS, B)(s.e))


def _ishex(it, s):
    if isinstance(s, str):
        try:
            bytes.fromhex(s)
            return True
        except ValueError:
            return False
    if s.prov and s.prov[0] == "hex":
        return True
    return mk_bool(UF("ISHEX", StrS, B)(s.e))


def _known(it, coin, network):
    nets = it.getattr(coin, "NETWORKS")
    return M.contains(it, network, nets)


def _prefix(name):
    def f(it, coin, network):
        nets = it.getattr(coin, "NETWORKS")
        return M.getitem(it, M.getitem(it, nets, network), name)
    return f


def _is_text(it, v):
    return isinstance(v, (str, SStr)) or isinstance(v, Opaque) and v.kind == "str"


def _is_bytes(it, v):
    return M.is_bytes(v)


def _outcome(it, f, *args, **kwargs):
    """('ok', value) or ('exc', exception)."""
    try:
        v = it.call(f, list(args), kwargs)
        if type(v) is M.SymIter:
            raise Unsupported("iterator result")
        return ("ok", v)
    except PyRaise as ex:
        return ("exc", ex.exc)


def exc_class(it, name):
    if name in ("ValueError", "TypeError", "OverflowError", "KeyError", "AssertionError", "UnicodeEncodeError"):
        import builtins
        return getattr(builtins, name)
    m = it.import_module("bip38.exceptions")
    if name not in m.ns:
        raise Unsupported("exception class " + name)
    return m.ns[name]


def _raised(it, out, *names):
    """Is the outcome an exception of one of the named classes?"""
    if out[0] != "exc":
        return False
    e = out[1]
    if isinstance(e, HExc) and e.cls is SpecReject:
        raise Unsupported("raised() of a specification outcome")
    return any(it.exc_matches(e, exc_class(it, n)) for n in names)


def _rejects(it, out, *names):
    """Does the specification reject (with exactly these classes, if any are named)?"""
    r = out[0] == "exc" and isinstance(out[1], HExc) and out[1].cls is SpecReject
    return r and (not names or tuple(out[1].args) == names)


def _same(it, got, want):
    """Does an outcome of the code agree with an outcome of its specification?"""
    if want[0] == "ok":
        if got[0] != "ok":
            return False
        return deep_eq(it, got[1], want[1])
    if not _rejects(it, want):
        raise Unsupported(f"specification failed: {want[1]}")
    return _raised(it, got, *want[1].args)


def _agrees(it, got, want):
    """Like same(), but any library error will do where the specification rejects (NetworkError stays distinct)."""
    if want[0] == "ok":
        return _same(it, got, want)
    if not _rejects(it, want):
        raise Unsupported(f"specification failed: {want[1]}")
    names = want[1].args
    if "NetworkError" in names:
        return _raised(it, got, "NetworkError")
    return _raised(it, got, "Error", "ValueError")


def deep_eq(it, a, b):
    if isinstance(b, dict):
        if not isinstance(a, dict) or set(a) != set(b):
            return False
        r = True
        for k in b:
            r = M.b_and(r, deep_eq(it, a[k], b[k]))
        return r
    if isinstance(b, (tuple, list)):
        if not isinstance(a, (tuple, list)) or len(a) != len(b) or isinstance(a, tuple) != isinstance(b, tuple):
            return False
        r = True
        for x, y in zip(a, b):
            r = M.b_and(r, deep_eq(it, x, y))
        return r
    if b is None or isinstance(b, bool):
        return a is b if not isinstance(a, SBool) else M.eq(it, a, b)
    if isinstance(b, SInt) and b.k == "res":          # specified up to a multiple of 2^32
        if isinstance(a, bool) or not isinstance(a, (int, SInt)):
            return False
        return mk_bool(as_res(a) == b.e)
    ta, tb = M.type_of(it, a), M.type_of(it, b)
    if ta is not tb and not (ta in (bytes, bytearray) and tb in (bytes, bytearray)):
        return False
    return M.eq(it, a, b)


def _assume(it, c):
    if isinstance(c, SBool):
        it.ctx.assume(c.e)
    elif not it.truth(c):
        raise PathAbort()


def _draws(it):
    """The random byte strings drawn from the operating system so far."""
    return [e[2] for e in it.ctx.events if e[0] == "os.urandom"]


def _other_draws(it):
    return len([e for e in it.ctx.events if e[0] != "os.urandom"])


def _random(it, n):
    """Specification side of a draw: the next unclaimed draw of the code, or a new one."""
    return L.draw(it, n, "os.urandom")


def _passwords(it):
    """Passwords of the key-stretching calls made so far (not those of the fast second-stage derivation)."""
    return list(it.ctx.scrypts)


def _same_nfc(it, p, q):
    """Assumes that p and q have the same NFC form (hence the same form in every normalisation)."""
    a, b = L.normalize(it, "NFC", p), L.normalize(it, "NFC", q)
    _assume(it, M.eq(it, a, b))
    it.ctx.memo[("norm-alias", eid(M.str_term(it.ctx, q)))] = p


def _snapshot(it):
    """Number of writes to state that existed before the call."""
    return len(it.frame_writes)


def _is_point(it, v):
    return isinstance(v, L.SymPoint)


def _rmd_rol(it, x, n):
    from . import rmd
    return mk_res(rmd.Z3Words.rol(as_res(x), n))


def _rmd_f(it, x, y, z, i):
    from . import rmd
    return mk_res(rmd.f(rmd.Z3Words, as_res(x), as_res(y), as_res(z), i))


def _rmd_compress(it, *a):
    """State after one more block, as an opaque function; the proof of `compress` opens it (proofs.rmd_compress)."""
    h, block = [as_res(x) for x in a[:5]], M.vforce(it.ctx, a[5])
    return tuple(mk_res(x) for x in rmd_step(h, b_e(block)))


def rmd_step(h, block):
    W = BVS(32)
    return [UF(f"RMD_COMPRESS{i}", W, W, W, W, W, BVS(512), W)(*h, block) for i in range(5)]


def table():
    t = {}
    for name, f in dict(
            reject=_reject, undefined=_undefined, agrees=_agrees, sha256=_sha("sha256"), ripemd160=_sha("ripemd160"), scrypt=_scrypt,
            aes_enc=_aes("enc"), aes_dec=_aes("dec"), xor=_xor, i2osp=_i2osp, fits=_fits, minbytes=_minbytes, os2ip=_os2ip,
            pt=_pt, pt_parse=_pt_parse, pt_mul=_pt_mul, pt_add=_pt_add, pt_ser=_pt_ser, pt_inf=_pt_inf,
            is_point=_is_point, pt_x=_pt_x, pt_y=_pt_y, pt_from_xy=_pt_from_xy, mulmodn=_mulmodn,
            nfc=_nfc, utf8=_utf8, encodable=_encodable, ishex=_ishex,
            unhex=lambda it, s: M.fromhex(it, s), hexstr=lambda it, b: M.mk_hex(it, b),
            b58enc=lambda it, d, a: L.b58enc(it, d, a), is58=lambda it, s, a: L.is58(it, s, a),
            b58dec=lambda it, s, a: L.b58dec(it, s, a),
            known=_known, wif_prefix=_prefix("wif_prefix"), address_prefix=_prefix("address_prefix"),
            is_text=_is_text, is_bytes=_is_bytes, outcome=_outcome, raised=_raised, rejects=_rejects, same=_same, same_value=deep_eq,
            assume=_assume, draws=_draws, passwords=_passwords, same_nfc=_same_nfc, other_draws=_other_draws, random=_random,
            rmd_rol=_rmd_rol, rmd_f=_rmd_f, rmd_compress=_rmd_compress,
            breverse=lambda it, b: M.getslice(it, b, None, None, -1)).items():
        t[name] = Builtin("prim." + name, (lambda g: lambda it, a, k: g(it, *a, **k))(f))
    t["N"] = N_SECP
    t["ALPHABET"] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
    t["SpecReject"] = SpecReject
    return t
