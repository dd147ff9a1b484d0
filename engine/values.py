"""Heap values of the interpreted program."""


class HExc:
    """Instance of a built-in (host) exception class."""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)
        self.cause = None

    def __repr__(self):
        return f"{self.cls.__name__}{self.args}"


class AbsExc(HExc):
    """An exception raised by a contract: an instance of one of several classes, decided when a handler asks."""

    def __init__(self, classes, names):
        super().__init__(None, ())
        self.classes, self.names = list(classes), names

    def __repr__(self):
        return "one of " + ", ".join(self.names)


class PModule:
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.ns = {}
        self.is_pkg = False

    def __repr__(self):
        return f"<module {self.name}>"


class PClass:
    def __init__(self, name, bases, ns, module=None, qual=None):
        self.name, self.bases, self.ns, self.module = name, list(bases), ns, module
        self.qual = qual or name
        self.anns, self.frozen, self.fields = [], False, []
        self.mro = self._mro()

    def _mro(self):
        # C3 is overkill for the code at hand; depth-first, later duplicates kept
        seqs = []
        for b in self.bases:
            seqs.append(list(b.mro) if isinstance(b, PClass) else list(b.__mro__) if isinstance(b, type) else [b])
        seqs.append(list(self.bases))
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise TypeError("inconsistent MRO")
            out.append(c)
            seqs = [[x for x in t if x is not c] for t in seqs]
            seqs = [t for t in seqs if t]
        if object not in out:
            out.append(object)
        return out

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, PClass) and name in c.ns:
                return c.ns[name], c
        return None, None

    def host_base(self):
        for c in self.mro:
            if isinstance(c, type) and c is not object:
                return c
        return None

    def is_exc(self):
        return any(isinstance(c, type) and issubclass(c, BaseException) for c in self.mro)

    def __repr__(self):
        return f"<class {self.qual}>"


class PObj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.ghost = {}

    def __repr__(self):
        return f"<{self.cls.name} object>"


class PFunc:
    def __init__(self, node, module, defaults, kwdefaults, closure, qual, cls=None):
        self.node, self.module, self.defaults, self.kwdefaults = node, module, defaults, kwdefaults
        self.closure, self.qual, self.cls = closure, qual, cls
        self.attrs = {}
        self.memo = False       # decorated with a cache

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __repr__(self):
        return f"<function {self.qual}>"


class Wrapped:
    """classmethod / staticmethod / property in a class namespace."""

    def __init__(self, kind, fn, setter=None):
        self.kind, self.fn, self.setter = kind, fn, setter


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"<bound {self.fn}>"


class HMethod:
    """Method `name` of a built-in or symbolic value."""

    def __init__(self, self_, name):
        self.self_, self.name = self_, name


class Builtin:
    """Engine-implemented callable: fn(interp, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn, self.attrs = name, fn, {}

    def __repr__(self):
        return f"<builtin {self.name}>"


class ModelObj:
    """Instance of a library class; methods are m_<name>(interp, args, kwargs), attributes a_<name>(interp)."""

    def py_getattr(self, interp, name):
        f = getattr(self, "a_" + name, None)
        if f is not None:
            return f(interp)
        f = getattr(self, "m_" + name, None)
        if f is not None:
            return Builtin(f"{type(self).__name__}.{name}", lambda it, a, k: f(it, *a, **k))
        return NotImplemented


class ModelClass:
    """A library class; m_call(interp, args, kwargs) constructs, c_<name> are class-level attributes."""

    def __init__(self, name, call, inst, attrs=None):
        self.name, self.call, self.inst, self.attrs = name, call, inst, attrs or {}

    def __repr__(self):
        return f"<library class {self.name}>"


class Typing:
    """Anything from the typing module."""

    def __init__(self, name):
        self.name = name


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj
