"""Standard-library building blocks that refactored code may use: itertools, collections, dataclasses, enum, contextlib,
operator.  All values may be symbolic."""
import collections as _collections
import enum as _enum
import operator as _operator

from .sym import *
from .values import *
from . import models as M
from .models import PyIter, raise_py, host


def fn(name, f):
    return Builtin(name, lambda it, a, k: f(it, *a, **k))


# ------------------------------------------------------------------ itertools
def chain(it, *xs):
    def go():
        for x in xs:
            yield from M.iterate(it, x)
    return PyIter(go(), "chain")


def chain_from(it, xs):
    def go():
        for x in M.iterate(it, xs):
            yield from M.iterate(it, x)
    return PyIter(go(), "chain")


def islice(it, xs, *a):
    src = iter(M.iterate(it, xs))
    s = slice(*a)
    if not all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)):
        raise Unsupported("islice with symbolic bounds")

    def go():
        i, nxt, step = 0, s.start or 0, s.step or 1
        while s.stop is None or i < max(s.stop, nxt if s.start else 0):
            if s.stop is not None and i >= s.stop:
                return
            try:
                x = next(src)
            except StopIteration:
                return
            if i == nxt:
                yield x
                nxt += step
            i += 1
    return PyIter(go(), "islice")


def takewhile(it, f, xs):
    src = M.iterate(it, xs)

    def go():
        for x in src:
            if not it.truth(it.call(f, [x], {})):
                return
            yield x
    return PyIter(go(), "takewhile")


def dropwhile(it, f, xs):
    src = iter(M.iterate(it, xs))

    def go():
        for x in src:
            if not it.truth(it.call(f, [x], {})):
                yield x
                break
        yield from src
    return PyIter(go(), "dropwhile")


def filterfalse(it, f, xs):
    src = M.iterate(it, xs)
    return PyIter((x for x in src if not it.truth(x if f is None else it.call(f, [x], {}))), "filterfalse")


def count(it, start=0, step=1):
    def go():
        n = start
        while True:
            yield n
            n = M.binop(it, "Add", n, step)
    return PyIter(go(), "count")


def repeat(it, x, times=None):
    if times is not None and not isinstance(times, int):
        raise Unsupported("repeat a symbolic number of times")

    def go():
        i = 0
        while times is None or i < times:
            yield x
            i += 1
    return PyIter(go(), "repeat")


def cycle(it, xs):
    items = list(M.iterate(it, xs))

    def go():
        while items:
            yield from items
    return PyIter(go(), "cycle")


def accumulate(it, xs, func=None, initial=None):
    src = iter(M.iterate(it, xs))

    def go():
        if initial is None:
            try:
                acc = next(src)
            except StopIteration:
                return
        else:
            acc = initial
        yield acc
        for x in src:
            acc = M.binop(it, "Add", acc, x) if func is None else it.call(func, [acc, x], {})
            yield acc
    return PyIter(go(), "accumulate")


def zip_longest(it, *xs, fillvalue=None):
    ls = [iter(M.iterate(it, x)) for x in xs]

    def go():
        live = set(range(len(ls)))
        while True:
            row = []
            for i, s in enumerate(ls):
                x = fillvalue
                if i in live:
                    try:
                        x = next(s)
                    except StopIteration:
                        live.discard(i)
                        if not live:
                            return
                row.append(x)
            if not live:
                return
            yield tuple(row)
    return PyIter(go(), "zip_longest")


def starmap(it, f, xs):
    src = M.iterate(it, xs)
    return PyIter((it.call(f, list(M.iterate(it, x)), {}) for x in src), "starmap")


def pairwise(it, xs):
    src = iter(M.iterate(it, xs))

    def go():
        first = True
        prev = None
        for x in src:
            if not first:
                yield (prev, x)
            prev, first = x, False
    return PyIter(go(), "pairwise")


def batched(it, xs, n):
    if not isinstance(n, int) or n < 1:
        raise Unsupported("batched")
    src = iter(M.iterate(it, xs))

    def go():
        row = []
        for x in src:
            row.append(x)
            if len(row) == n:
                yield tuple(row)
                row = []
        if row:
            yield tuple(row)
    return PyIter(go(), "batched")


def product(it, *xs, repeat=1):
    import itertools
    ls = [list(M.iterate(it, x)) for x in xs]
    return PyIter(itertools.product(*ls, repeat=repeat), "product")


def compress(it, xs, sel):
    z = M.B_zip(it, [xs, sel], {}).src
    return PyIter((x for x, s in z if it.truth(s)), "compress")


def tee(it, xs, n=2):
    import itertools
    return tuple(PyIter(s) for s in itertools.tee(M.iterate(it, xs), n))


# ------------------------------------------------------------------ named tuples (host classes holding any values)
def nt_class(it, name, fields, defaults=(), methods=None):
    if not isinstance(name, str) or not deep_concrete(fields):
        raise Unsupported("named tuple")
    t = host(_collections.namedtuple, name, list(fields) if not isinstance(fields, str) else fields, defaults=defaults)
    t.py_methods = dict(methods or {})
    return t


def namedtuple(it, typename, field_names, *, rename=False, defaults=None, module=None):
    if rename:
        raise Unsupported("named tuple with renaming")
    return nt_class(it, typename, field_names if isinstance(field_names, str) else list(M.iterate(it, field_names)),
                    tuple(M.iterate(it, defaults)) if defaults is not None else ())


def typing_namedtuple(it, typename, fields=()):
    return nt_class(it, typename, [list(M.iterate(it, f))[0] for f in M.iterate(it, fields)])


def nt_getattr(it, o, name):
    """Attribute of a named tuple, or NotImplemented."""
    t = type(o)
    if name in t._fields or name == "_fields":
        return getattr(o, name)
    v = t.py_methods.get(name)
    if isinstance(v, Wrapped):
        return it.call(v.fn, [o], {}) if v.kind == "property" else it.bind_attr(v, o, t)
    if isinstance(v, PFunc):
        return it.bind_attr(v, o, t)
    if v is not None:
        return v
    if name in ("_replace", "_asdict"):
        return Builtin(name, lambda it2, a, k: host(getattr(o, name), *a, **k))
    return NotImplemented


# ------------------------------------------------------------------ dataclasses
MISSING = object()


class Field:
    def __init__(self, default=MISSING, default_factory=MISSING, init=True):
        self.default, self.factory, self.init = default, default_factory, init


def field(it, *, default=MISSING, default_factory=MISSING, init=True, repr=True, compare=True, **k):
    if k or not compare:
        raise Unsupported("dataclasses.field")
    return Field(default, default_factory, init)


def make_dataclass(it, cls, frozen=False, eq=True, order=False, init=True, repr=True, slots=False, kw_only=False,
                   unsafe_hash=False):
    if not isinstance(cls, PClass) or order or not init:
        raise Unsupported("dataclass")
    fields = {}
    for c in reversed(cls.mro):
        if isinstance(c, PClass):
            for n in c.anns:
                d = c.ns.get(n, MISSING)
                fields[n] = d if isinstance(d, Field) else Field(d)
    for n, f in fields.items():
        if isinstance(cls.ns.get(n), Field):
            del cls.ns[n]
            if f.default is not MISSING:
                cls.ns[n] = f.default

    def init_(it2, a, k):
        o, a = a[0], list(a[1:])
        k = dict(k)
        for n, f in fields.items():
            if f.init and a and not kw_only:
                if n in k:
                    raise_py(TypeError, f"got multiple values for argument '{n}'")
                v = a.pop(0)
            elif f.init and n in k:
                v = k.pop(n)
            elif f.factory is not MISSING:
                v = it2.call(f.factory, [], {})
            elif f.default is not MISSING:
                v = f.default
            else:
                raise_py(TypeError, f"missing required argument: '{n}'")
            o.attrs[n] = v
        if a or k:
            raise_py(TypeError, "unexpected arguments")
        post, _ = cls.lookup("__post_init__")
        if post is not None:
            it2.call(post, [o], {})

    def eq_(it2, a, k):
        x, y = a
        if not isinstance(y, PObj) or x.cls is not y.cls:
            return False
        return M.eq(it2, tuple(x.attrs[n] for n in fields), tuple(y.attrs[n] for n in fields))
    cls.ns["__init__"] = Builtin("__init__", init_)
    if eq and "__eq__" not in cls.ns:
        cls.ns["__eq__"] = Builtin("__eq__", eq_)
    cls.ns.setdefault("__match_args__", tuple(n for n, f in fields.items() if f.init))
    cls.frozen = frozen
    cls.fields = list(fields)
    return cls


def dataclass(it, cls=None, **k):
    if cls is None:
        return fn("dataclass", lambda it2, c: make_dataclass(it2, c, **k))
    return make_dataclass(it, cls, **k)


def _plain(v):
    """A copy as asdict makes it; nested records are left to the real interpreter."""
    if isinstance(v, PObj):
        raise Unsupported("nested record")
    if isinstance(v, (list, tuple)):
        return type(v)(*map(_plain, v)) if hasattr(v, "_fields") else type(v)(map(_plain, v))
    if isinstance(v, dict):
        return {k: _plain(x) for k, x in v.items()}
    if isinstance(v, SByteArray):
        raise Unsupported("copy of a bytearray")
    return v


def astuple(it, o):
    return tuple(_plain(o.attrs[n]) for n in o.cls.fields)


def asdict(it, o):
    return {n: _plain(o.attrs[n]) for n in o.cls.fields}


def replace(it, o, **k):
    return it.call(o.cls, [], {**{n: o.attrs[n] for n in o.cls.fields}, **k})


# ------------------------------------------------------------------ enum: host classes of concrete members
def enum_class(it, name, bases, ns):
    members = {}
    for k, v in ns.items():
        if k.startswith("__") and k in ("__doc__", "__module__", "__qualname__"):
            continue
        if k.startswith("_") or not deep_concrete(v) or M.has_p(v):
            raise Unsupported("enum with methods")
        members[k] = v

    class Auto(_enum.auto):
        pass
    d = type(bases[0]).__prepare__(name, tuple(bases)) if len(bases) == 1 else _enum.EnumMeta.__prepare__(name, tuple(bases))
    for k, v in members.items():
        d[k] = v
    return host(_enum.EnumMeta, name, tuple(bases), d)


def enum_call(it, t, args, kwargs):
    if kwargs or len(args) != 1:
        raise Unsupported("construction of an enum")
    v = args[0]
    if isinstance(v, t):
        return v
    for m in t:
        e = M.eq(it, v, m.value)
        if e is True or e is not False and it.truth(e):
            return m
    raise_py(ValueError, f"not a valid {t.__name__}")


# ------------------------------------------------------------------ contextlib
PY_SRC = '''
class suppress:
    def __init__(self, *exceptions):
        self._exceptions = exceptions
    def __enter__(self):
        return None
    def __exit__(self, t, v, tb):
        return t is not None and isinstance(v, self._exceptions)
class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, t, v, tb):
        return None
class BytesIO:
    def __init__(self, initial_bytes=b""):
        self._v = b"" if initial_bytes is None else b"".join([initial_bytes])
        self._p = 0
        self._closed = False
    def _check(self):
        if self._closed:
            raise ValueError("I/O operation on closed file.")
    def read(self, size=-1):
        self._check()
        if size is None or size < 0:
            size = len(self._v)
        r = self._v[self._p:self._p + size]
        self._p += len(r)
        return r
    def write(self, b):
        self._check()
        b = b"".join([b])
        self._v = self._v[:self._p] + b + self._v[self._p + len(b):]
        self._p += len(b)
        return len(b)
    def getvalue(self):
        self._check()
        return self._v
    def getbuffer(self):
        self._check()
        return self._v
    def tell(self):
        self._check()
        return self._p
    def close(self):
        self._closed = True
    def __enter__(self):
        self._check()
        return self
    def __exit__(self, t, v, tb):
        self._closed = True
'''
_src = {}


def from_source(it, name):
    """A class written in Python, interpreted like the code under verification."""
    import ast
    from .interp import Env
    from .values import PModule
    m = PModule("contracts.contextlib")
    m.ns["__name__"] = m.name
    it.exec_module(m, ast.parse(PY_SRC))
    return m.ns[name]


# ------------------------------------------------------------------ operator
def _bin(op):
    return lambda it, a, b: M.binop(it, op, a, b)


def _cmp(op):
    return lambda it, a, b: M.compare(it, op, a, b)


def concat(it, a, b):
    if a is None or isinstance(a, (int, SInt, SBool, float, dict)):
        raise_py(TypeError, "object can't be concatenated")
    return M.binop(it, "Add", a, b)


def index(it, x):
    if isinstance(x, (bool, SBool)):
        return bool_to_int(x)
    if isinstance(x, (int, SInt)):
        return x
    if x is None or M.is_bytes(x) or isinstance(x, (str, SStr, list, tuple, dict, float)):
        raise_py(TypeError, "not an integer")
    raise Unsupported("operator.index of this value")


def itemgetter(it, *ks):
    if len(ks) == 1:
        return fn("itemgetter", lambda it2, o: M.getitem(it2, o, ks[0]))
    return fn("itemgetter", lambda it2, o: tuple(M.getitem(it2, o, k) for k in ks))


def attrgetter(it, *ks):
    def one(it2, o, k):
        for n in k.split("."):
            o = it2.getattr(o, n)
        return o
    if len(ks) == 1:
        return fn("attrgetter", lambda it2, o: one(it2, o, ks[0]))
    return fn("attrgetter", lambda it2, o: tuple(one(it2, o, k) for k in ks))


def methodcaller(it, name, *a, **k):
    return fn("methodcaller", lambda it2, o: it2.call(it2.getattr(o, name), list(a), dict(k)))


class FromSource:
    def __init__(self, name):
        self.name = name


def build(mod):
    ch = fn("chain", chain)
    ch.attrs = {"from_iterable": fn("from_iterable", chain_from)}
    mod("itertools", chain=ch, **{f.__name__: fn(f.__name__, f) for f in (
        islice, takewhile, dropwhile, filterfalse, count, repeat, cycle, accumulate, zip_longest, starmap, pairwise,
        batched, product, compress, tee)})
    mod("collections", namedtuple=fn("namedtuple", namedtuple))
    mod("dataclasses", dataclass=fn("dataclass", dataclass), field=fn("field", field), astuple=fn("astuple", astuple),
        asdict=fn("asdict", asdict), replace=fn("replace", replace))
    mod("enum", Enum=_enum.Enum, IntEnum=_enum.IntEnum, IntFlag=_enum.IntFlag, Flag=_enum.Flag, StrEnum=_enum.StrEnum,
        unique=fn("unique", lambda it, c: c))
    mod("contextlib", suppress=FromSource("suppress"), nullcontext=FromSource("nullcontext"))
    mod("io", BytesIO=FromSource("BytesIO"))
    ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "xor": "BitXor", "and_": "BitAnd", "or_": "BitOr", "mod": "Mod",
           "floordiv": "FloorDiv", "lshift": "LShift", "rshift": "RShift", "pow": "Pow"}
    cmps = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
    mod("operator", _operator, **{n: fn(n, _bin(o)) for n, o in ops.items()}, **{n: fn(n, _cmp(o)) for n, o in cmps.items()},
        itemgetter=fn("itemgetter", itemgetter), attrgetter=fn("attrgetter", attrgetter),
        methodcaller=fn("methodcaller", methodcaller), getitem=fn("getitem", lambda it, o, k: M.getitem(it, o, k)),
        not_=fn("not_", lambda it, x: M.b_not(M.mkb(it, x))), neg=fn("neg", lambda it, x: M.unop(it, "USub", x)),
        contains=fn("contains", lambda it, c, x: M.contains(it, x, c)),
        concat=fn("concat", concat),
        index=fn("index", index))
