"""Symbolic interpreter for the Python subset in which /repo/bip38 (and the specifications) are written.

The abstract syntax of the real source files is executed as it stands; nothing is extracted or rewritten.
A construct outside the subset raises Unsupported, which leaves the obligation at hand undecided.
"""
import ast
import builtins as _b
import os

import z3

from . import sym, seqs
from .sym import (
    SBool, SInt, SBytes, VBytes, SStr, Opaque, SByteArray, Unsupported, PathAbort, PyRaise, Ctx,
    is_sym, deep_concrete, mk_bool
)
from .values import *

MAX_STEPS = 3_000_000


class Return(Exception):
    def __init__(self, v):
        self.v = v


_scope_cache = {}


def local_names(node):
    """Names bound in the function body (its local variables)."""
    got = _scope_cache.get(id(node))
    if got is not None and got[0] is node:
        return got[1]
    names, glob = set(), set()

    def targets(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                targets(x)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                names.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for sub in ast.walk(c):
                    if isinstance(sub, ast.NamedExpr):
                        targets(sub.target)
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    targets(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign)):
                targets(c.target)
            elif isinstance(c, (ast.For,)):
                targets(c.target)
            elif isinstance(c, ast.NamedExpr):
                targets(c.target)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    names.add((a.asname or a.name).split(".")[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            elif isinstance(c, ast.withitem) and c.optional_vars is not None:
                targets(c.optional_vars)
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                glob.update(c.names)
            elif isinstance(c, ast.Delete):
                for t in c.targets:
                    targets(t)
            walk(c)

    if isinstance(node, ast.Lambda):
        pass
    else:
        class _W(ast.AST):
            _fields = ("body",)
        w = ast.Module(body=node.body, type_ignores=[])
        walk(w)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    names -= glob
    _scope_cache[id(node)] = (node, names)
    return names


_gen_cache = {}


def is_generator(node):
    k = id(node)
    if k not in _gen_cache or _gen_cache[k][0] is not node:
        found = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[k] = (node, found)
    return _gen_cache[k][1]


# class features the interpreter does not implement
SPECIAL_CLASS_METHODS = {"__setattr__", "__getattribute__", "__delattr__", "__init_subclass__", "__set_name__", "__get__",
                         "__set__", "__class_getitem__", "__prepare__", "__instancecheck__", "__subclasscheck__"}


class Env:
    __slots__ = ("vars", "parent", "module", "locals", "globals_decl", "nonlocals", "fn", "yields", "clsns", "comp")

    def __init__(self, module, parent=None, locs=None, fn=None):
        self.vars, self.parent, self.module, self.locals, self.fn = {}, parent, module, locs, fn
        self.globals_decl, self.nonlocals = set(), set()
        self.yields = None
        self.clsns = None
        self.comp = False      # scope of a comprehension


class Program:
    """The modules under verification plus the specification modules."""

    def __init__(self, root="/repo", package="bip38"):
        self.root, self.package = root, package
        self.modules = {}
        self.extra_roots = {}      # module name prefix -> directory (specifications)
        self.asts = {}
        self.contracts = {}        # qualified name -> Contract
        self.sources = {}

    def path_of(self, name):
        for pre, d in [(self.package, self.root)] + list(self.extra_roots.items()):
            if name == pre or name.startswith(pre + "."):
                p = os.path.join(d, *name.split("."))
                if os.path.isdir(p):
                    return os.path.join(p, "__init__.py"), True
                if os.path.isfile(p + ".py"):
                    return p + ".py", False
        return None, False

    def get_ast(self, path):
        if path not in self.asts:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            self.sources[path] = src
            self.asts[path] = ast.parse(src, path)
        return self.asts[path]


class Interp:
    def __init__(self, program, ctx, models):
        self.p, self.ctx, self.models = program, ctx, models
        self.depth = 0
        self.steps = 0
        self.active = set()          # qualified names whose contract replaces the body
        self.spec_depth = 0
        self.hooks = {}
        self.used_contracts = set()
        self.inlined = set()
        self.loop_hook = None
        self.seq_mode = False        # values of unknown length carry their elements (loop proofs)
        self.frame_writes = []
        self.frozen = {}             # id -> (object, description): state that existed before the call
        self.cur = None

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        m = self.p.modules.get(name)
        if m is not None:
            return m
        path, pkg = self.p.path_of(name)
        if path is None:
            mod = self.models.module(name)
            if mod is None:
                raise Unsupported(f"import of {name}")
            return mod
        parent = name.rpartition(".")[0]
        pm = None
        if parent:
            pm = self.import_module(parent)
            m = self.p.modules.get(name)
            if m is not None:
                return m
        m = PModule(name, path)
        m.is_pkg = pkg
        self.p.modules[name] = m
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        m.ns["__doc__"] = None
        try:
            self.exec_module(m, self.p.get_ast(path))
        except BaseException:
            self.p.modules.pop(name, None)
            raise
        if pm is not None:
            pm.ns[name.rpartition(".")[2]] = m
        return m

    def exec_module(self, m, tree):
        env = Env(m)
        env.vars = m.ns
        self.exec_block(tree.body, env)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            r = self.exec_stmt(st, env)
            if r is not None:
                return r
        return None

    def exec_stmt(self, st, env):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported("step budget exhausted")
        self.ctx.cur_line = (env.module.name, st.lineno)
        t = type(st).__name__
        f = getattr(self, "s_" + t, None)
        if f is None:
            raise Unsupported(f"statement {t} at {env.module.name}:{st.lineno}")
        return f(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.eval(st.value, env)
            return None
        if isinstance(st.value, ast.Constant):
            return None
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        return None

    def s_Break(self, st, env):
        return "break"

    def s_Continue(self, st, env):
        return "continue"

    def s_Return(self, st, env):
        return ("ret", None if st.value is None else self.eval(st.value, env))

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            self.assign(t, self.inplace(op, cur, self.eval(st.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.models.getitem(self, o, k)
            self.models.setitem(self, o, k, self.inplace(op, cur, self.eval(st.value, env)))
        else:
            raise Unsupported("augmented assignment target")

    def inplace(self, op, cur, v):
        if op == "Add" and isinstance(cur, (list, SByteArray)):
            self.note_write(cur, "[...]")
        if op == "Add" and isinstance(cur, list):
            cur.extend(self.iter_list(v))
            return cur
        if op == "Add" and isinstance(cur, SByteArray):
            cur.items.extend(self.models.to_byte_items(self, v))
            return cur
        if op == "Add" and isinstance(cur, ModelObj) and hasattr(cur, "m_iadd"):
            return cur.m_iadd(self, v)
        return self.models.binop(self, op, cur, v)

    def s_For(self, st, env):
        it = self.eval(st.iter, env)
        if self.loop_hook is not None:
            r = self.loop_hook(self, st, env, it)
            if r is not NotImplemented:
                return r
        items = self.models.iterate(self, it)
        for x in items:
            self.assign(st.target, x, env)
            r = self.exec_block(st.body, env)
            if r == "break":
                return None
            if r == "continue" or r is None:
                continue
            return r
        return self.exec_block(st.orelse, env)

    def s_While(self, st, env):
        if self.loop_hook is not None:
            r = self.loop_hook(self, st, env, None)
            if r is not NotImplemented:
                return r
        n = 0
        while self.truth(self.eval(st.test, env)):
            n += 1
            if n > 5000 and len(self.ctx.trail) > 400:
                raise Unsupported("unbounded loop without an invariant")
            if len(self.ctx.trail) > 600:
                raise Unsupported("unbounded loop without an invariant")
            r = self.exec_block(st.body, env)
            if r == "break":
                return None
            if r == "continue" or r is None:
                continue
            return r
        return self.exec_block(st.orelse, env)

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            return self.exec_block(st.body, env)
        return self.exec_block(st.orelse, env)

    def s_Assert(self, st, env):
        if "assert" in self.hooks and env.module.name.startswith("contracts."):
            return self.hooks["assert"](self, st, env)
        if not self.truth(self.eval(st.test, env)):
            msg = self.eval(st.msg, env) if st.msg is not None else ""
            raise PyRaise(HExc(AssertionError, (msg,)))

    def s_Raise(self, st, env):
        if st.exc is None:
            e = env_exc(env)
            if e is None:
                raise PyRaise(HExc(RuntimeError, ("No active exception to reraise",)))
            raise PyRaise(e)
        e = self.eval(st.exc, env)
        if isinstance(e, PClass) and e.is_exc():
            e = self.call(e, [], {})
        elif isinstance(e, type) and issubclass(e, BaseException):
            e = HExc(e)
        elif isinstance(e, ModelClass):
            e = self.call(e, [], {})
        if isinstance(e, PObj) and not e.cls.is_exc() or not isinstance(e, (PObj, HExc)):
            raise PyRaise(HExc(TypeError, ("exceptions must derive from BaseException",)))
        if st.cause is not None:
            self.eval(st.cause, env)
        raise PyRaise(e)

    def s_Try(self, st, env):
        try:
            try:
                r = self.exec_block(st.body, env)
            except PyRaise as pr:
                exc = pr.exc
                for h in st.handlers:
                    if h.type is None or self.exc_matches(exc, self.eval(h.type, env)):
                        if h.name:
                            self.store_name(h.name, exc, env)
                        old = env.vars.get("%exc")
                        env.vars["%exc"] = exc
                        try:
                            r = self.exec_block(h.body, env)
                        finally:
                            if old is None:
                                env.vars.pop("%exc", None)
                            else:
                                env.vars["%exc"] = old
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if r is None:
                    r = self.exec_block(st.orelse, env)
        except PyRaise:
            if st.finalbody:
                fr = self.exec_block(st.finalbody, env)
                if fr is not None:
                    return fr
            raise
        if st.finalbody:
            fr = self.exec_block(st.finalbody, env)
            if fr is not None:
                return fr
        return r

    def s_With(self, st, env):
        return self.with_items(st.items, st.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.exec_block(body, env)
        m = self.eval(items[0].context_expr, env)
        ex = self.getattr(m, "__exit__")
        v = self.call(self.getattr(m, "__enter__"), [], {})
        try:
            if items[0].optional_vars is not None:
                self.assign(items[0].optional_vars, v, env)
            r = self.with_items(items[1:], body, env)
        except PyRaise as pr:
            known = not isinstance(pr.exc, AbsExc) or len(pr.exc.classes) == 1
            cls = self.models.type_of(self, pr.exc) if known else Opaque("exception class")
            if self.truth(self.call(ex, [cls, pr.exc, None], {})):
                return None
            raise
        self.call(ex, [None, None, None], {})
        return r

    def exc_matches(self, exc, cls):
        if isinstance(cls, (tuple, list)):
            return any(self.exc_matches(exc, c) for c in cls)
        if isinstance(cls, ModelClass):
            cls = cls.inst
        if isinstance(exc, AbsExc):
            yes = [c for c in exc.classes if class_sub(c, cls)]
            no = [c for c in exc.classes if not class_sub(c, cls)]
            if not yes or not no:
                return bool(yes)
            r = self.ctx.choose(2) == 0
            exc.classes[:] = yes if r else no
            return r
        if isinstance(exc, HExc):
            return isinstance(cls, type) and issubclass(exc.cls, cls)
        return cls in exc.cls.mro or isinstance(cls, type) and any(
            isinstance(c, type) and issubclass(c, cls) for c in exc.cls.mro if c is not object)

    def s_FunctionDef(self, st, env):
        fn = self.make_function(st, env)
        v = fn
        for d in reversed(st.decorator_list):
            v = self.models.decorate(self, self.eval(d, env), v, d)
        self.store_name(st.name, v, env)

    def make_function(self, node, env):
        qual = getattr(node, "name", "<lambda>")
        cls = None
        if env.comp:
            t = env
            while t.comp:
                t = t.parent
            return PFunc(node, env.module, [self.eval(d, env) for d in node.args.defaults],
                         [None if d is None else self.eval(d, env) for d in node.args.kw_defaults], env,
                         f"{t.fn.qual if t.fn is not None else t.clsns or env.module.name}.<locals>.{qual}", None)
        if env.clsns is not None:
            qual = f"{env.clsns}.{qual}"
        elif env.fn is not None:
            qual = f"{env.fn.qual}.<locals>.{qual}"
            return PFunc(node, env.module, [self.eval(d, env) for d in node.args.defaults],
                         [None if d is None else self.eval(d, env) for d in node.args.kw_defaults],
                         env, qual, cls)
        else:
            qual = f"{env.module.name}.{qual}"
        closure = env.parent
        return PFunc(node, env.module, [self.eval(d, env) for d in node.args.defaults],
                     [None if d is None else self.eval(d, env) for d in node.args.kw_defaults],
                     closure, qual, cls)

    def s_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        named = [b for b in bases if isinstance(b, Typing) and b.name == "NamedTuple"]
        for b in bases:
            if isinstance(b, Typing) and b.name not in ("NamedTuple", "Protocol", "Generic", "generic"):
                raise Unsupported(f"subclass of typing.{b.name}")
            if not isinstance(b, (Typing, type, PClass, ModelClass)):
                raise Unsupported("base class")
        bases = [b for b in bases if not isinstance(b, Typing)]
        for k in st.keywords:
            if k.arg != "metaclass" or not isinstance(k.value, (ast.Name, ast.Attribute)) or \
                    (k.value.id if isinstance(k.value, ast.Name) else k.value.attr) != "ABCMeta":
                raise Unsupported("class with a metaclass")
        cenv = Env(env.module, parent=env if env.fn is not None else env.parent)
        cenv.clsns = f"{env.module.name}.{st.name}" if env.clsns is None else f"{env.clsns}.{st.name}"
        cenv.fn = env.fn
        cenv.parent = env
        self.exec_block(st.body, cenv)
        hb = []
        for b in bases:
            if isinstance(b, ModelClass):
                if b.inst is None:
                    raise Unsupported("subclass of a library class")
                hb.append(b.inst)
            else:
                hb.append(b)
        bad = set(cenv.vars) & SPECIAL_CLASS_METHODS
        if bad:
            raise Unsupported(f"class with {sorted(bad)[0]}")
        from . import pylib
        if any(isinstance(b, type) and issubclass(b, pylib._enum.Enum) for b in hb):
            self.store_name(st.name, pylib.enum_class(self, st.name, hb, cenv.vars), env)
            return
        anns = [x.target.id for x in st.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        if named:
            dfl = [cenv.vars[n] for n in anns if n in cenv.vars]
            cls = pylib.nt_class(self, st.name, anns, dfl, {k: v for k, v in cenv.vars.items() if k not in anns})
            if bases or st.decorator_list:
                raise Unsupported("named tuple with bases")
            self.store_name(st.name, cls, env)
            return
        if any(isinstance(b, type) and hasattr(b, "py_methods") for b in hb):
            raise Unsupported("subclass of a named tuple")
        cls = PClass(st.name, hb, cenv.vars, env.module, cenv.clsns)
        cls.anns = anns
        for k, v in list(cenv.vars.items()):
            f = v.fn if isinstance(v, Wrapped) else v
            if isinstance(f, PFunc) and f.cls is None:
                f.cls = cls
        v = cls
        for d in reversed(st.decorator_list):
            v = self.models.decorate(self, self.eval(d, env), v, d)
        self.store_name(st.name, v, env)

    def s_Import(self, st, env):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, env)
            else:
                top = a.name.split(".")[0]
                self.store_name(top, self.import_module(top), env)

    def s_ImportFrom(self, st, env):
        mod = st.module or ""
        if st.level:
            base = env.module.name.split(".")
            if not env.module.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return
        m = self.import_module(mod)
        for a in st.names:
            if a.name == "*":
                for k, v in list(m.ns.items()):
                    if not k.startswith("_"):
                        self.store_name(k, v, env)
                continue
            self.store_name(a.asname or a.name, self.from_import(m, mod, a.name), env)

    def from_import(self, m, mod, name):
        if isinstance(m, PModule):
            if name in m.ns:
                return m.ns[name]
            path, _ = self.p.path_of(mod + "." + name)
            if path:
                return self.import_module(mod + "." + name)
            raise PyRaise(HExc(ImportError, (f"cannot import name {name}",)))
        v = self.getattr(m, name)
        return v

    def s_Global(self, st, env):
        env.globals_decl.update(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, PObj) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise Unsupported("del attribute")
            else:
                raise Unsupported("del target")

    def s_Match(self, st, env):
        v = self.eval(st.subject, env)
        for c in st.cases:
            binds = {}
            if self.match(c.pattern, v, binds, env):
                for k, x in binds.items():
                    self.store_name(k, x, env)
                if c.guard is None or self.truth(self.eval(c.guard, env)):
                    return self.exec_block(c.body, env)
        return None

    def match(self, p, v, binds, env):
        t = type(p).__name__
        if t == "MatchValue":
            return self.truth(self.models.compare(self, "==", v, self.eval(p.value, env)))
        if t == "MatchSingleton":
            return v is p.value
        if t == "MatchAs":
            if p.pattern is not None and not self.match(p.pattern, v, binds, env):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if t == "MatchOr":
            return any(self.match(q, v, binds, env) for q in p.patterns)
        if t == "MatchSequence":
            if not isinstance(v, (tuple, list)):
                if v is None or isinstance(v, (str, bytes, int, bytearray, dict, SInt, SBytes, SStr, SByteArray)):
                    return False
                raise Unsupported("sequence pattern")
            star = [i for i, q in enumerate(p.patterns) if type(q).__name__ == "MatchStar"]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(q, x, binds, env) for q, x in zip(p.patterns, v))
            i, after = star[0], len(p.patterns) - star[0] - 1
            if len(v) < i + after:
                return False
            if not all(self.match(q, x, binds, env) for q, x in zip(p.patterns[:i], v)):
                return False
            if p.patterns[i].name:
                binds[p.patterns[i].name] = list(v[i:len(v) - after])
            return all(self.match(q, x, binds, env) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:]))
        if t == "MatchClass":
            cls = self.eval(p.cls, env)
            if not self.truth(self.models.B_isinstance(self, [v, cls], {})):
                return False
            pats = list(p.patterns)
            if pats:
                real = cls.inst if isinstance(cls, ModelClass) else cls
                if real in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple) and len(pats) == 1:
                    if not self.match(pats[0], v, binds, env):
                        return False
                else:
                    names = self.getattr(cls, "__match_args__")
                    if len(pats) > len(names):
                        raise PyRaise(HExc(TypeError, ("too many positional patterns",)))
                    if not all(self.match(q, self.getattr(v, n), binds, env) for n, q in zip(names, pats)):
                        return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    x = self.getattr(v, n)
                except PyRaise as pr:
                    if self.exc_matches(pr.exc, AttributeError):
                        return False
                    raise
                if not self.match(q, x, binds, env):
                    return False
            return True
        raise Unsupported("match pattern " + t)

    # ------------------------------------------------------------ names
    def load_name(self, name, env):
        e = env
        while e is not None:
            if name in e.globals_decl:
                break
            if name in e.vars:
                return e.vars[name]
            if e.locals is not None and name in e.locals and name not in e.nonlocals:
                raise PyRaise(HExc(UnboundLocalError, (f"local variable '{name}' referenced before assignment",)))
            e = e.parent
            # class scopes are invisible to nested functions
            while e is not None and e.clsns is not None and e is not env:
                e = e.parent
        ns = env.module.ns
        if name in ns:
            return ns[name]
        v = self.models.builtin(name)
        if v is not NotImplemented:
            return v
        raise PyRaise(HExc(NameError, (f"name '{name}' is not defined",)))

    def store_name(self, name, v, env):
        if name in env.globals_decl:
            self.note_write(env.module, "." + name)
            env.module.ns[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
            raise Unsupported("nonlocal")
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.iter_list(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise(HExc(ValueError, ("not enough values to unpack",)))
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, list(vals[i:len(vals) - after]), env)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(x, y, env)
                return
            if len(vals) != len(t.elts):
                raise PyRaise(HExc(ValueError, ("wrong number of values to unpack",)))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.models.setitem(self, self.eval(t.value, env), self.eval(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def iter_list(self, v):
        return list(self.models.iterate(self, v))

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported(f"expression {type(e).__name__} at {env.module.name}:{e.lineno}")
        return f(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.load_name(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        vs = self.elts(e.elts, env)
        if not deep_concrete(vs):
            raise Unsupported("set of symbolic values")
        return set(vs)

    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_list(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, env)
                if not isinstance(m, dict):
                    raise Unsupported("** of a non-dict")
                d.update(m)
            else:
                d[self.models.key(self, self.eval(k, env))] = self.eval(v, env)
        return d

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.models.binop(self, type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            return not self.truth(v)
        return self.models.unop(self, op, v)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t or not is_and and t:
                # a decided symbolic boolean is that boolean
                return t if isinstance(v, SBool) else v
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            res = self.models.compare_op(self, type(op).__name__, left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        t = env
        while t.fn is None and t.clsns is None and t.parent is not None and t.vars is not t.module.ns:
            t = t.parent
        self.assign(e.target, v, t)
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            k = ("slice", *[None if x is None else self.eval(x, env) for x in (sl.lower, sl.upper, sl.step)])
            return self.models.getslice(self, o, k[1], k[2], k[3])
        return self.models.getitem(self, o, self.eval(e.slice, env))

    def e_Slice(self, e, env):
        return slice(*[None if x is None else self.eval(x, env) for x in (e.lower, e.upper, e.step)])

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = self.eval(v.format_spec, env) if v.format_spec is not None else ""
                out.append(self.models.format_value(self, x, spec, v.conversion))
        r = ""
        for x in out:
            r = self.models.str_cat(self, r, x)
        return r

    def e_FormattedValue(self, e, env):
        return self.models.format_value(self, self.eval(e.value, env), "", e.conversion)

    def e_Lambda(self, e, env):
        return self.make_function(e, env)

    def comp(self, gens, env, emit, src=NotImplemented):
        cenv = Env(env.module, parent=env)
        cenv.comp = True
        first = self.models.iterate(self, self.eval(gens[0].iter, env) if src is NotImplemented else src)

        def go(i):
            if i == len(gens):
                yield emit(cenv)
                return
            g = gens[i]
            for x in first if i == 0 else self.models.iterate(self, self.eval(g.iter, cenv)):
                self.assign(g.target, x, cenv)
                if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
                    yield from go(i + 1)
        return go(0)

    def e_ListComp(self, e, env):
        g, src = self.long_comp(e, env)
        if g is not None:
            return g.materialize(self)
        return list(self.comp(e.generators, env, lambda c: self.eval(e.elt, c), src))

    def long_comp(self, e, env):
        """In loop proofs: a comprehension over a sequence of unknown length."""
        if self.loop_hook is None or len(e.generators) != 1:
            return None, NotImplemented
        src = self.eval(e.generators[0].iter, env)
        if isinstance(src, (seqs.SSeq, seqs.SEnum, seqs.SRange, seqs.SMapped)):
            return seqs.SGen(src, e.generators[0], e.elt, env, (e.lineno, e.col_offset)), src
        return None, src

    def e_GeneratorExp(self, e, env):
        g, src = self.long_comp(e, env)
        if g is not None:
            return g
        return self.models.PyIter(self.comp(e.generators, env, lambda c: self.eval(e.elt, c), src), "generator")

    def e_SetComp(self, e, env):
        vs = self.e_ListComp(e, env)
        if not deep_concrete(vs):
            raise Unsupported("set of symbolic values")
        return set(vs)

    def e_DictComp(self, e, env):
        d = {}

        def emit(c):
            k = self.models.key(self, self.eval(e.key, c))
            d[k] = self.eval(e.value, c)
        for _ in self.comp(e.generators, env, emit):
            pass
        return d

    def e_Yield(self, e, env):
        v = None if e.value is None else self.eval(e.value, env)
        t = env
        while t.yields is None:
            t = t.parent
        t.yields.append(v)
        return None

    def e_YieldFrom(self, e, env):
        t = env
        while t.yields is None:
            t = t.parent
        t.yields.extend(self.iter_list(self.eval(e.value, env)))
        return None

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fnenv = env
            while fnenv.fn is None or fnenv.fn.cls is None:
                fnenv = fnenv.parent
            first = fnenv.fn.node.args.args[0].arg
            return SuperProxy(fnenv.fn.cls, fnenv.vars[first])
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "eval", "exec", "vars"):
            raise Unsupported(e.func.id)
        fn = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_list(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                m = self.eval(k.value, env)
                if not isinstance(m, dict):
                    raise Unsupported("** of a non-dict")
                kwargs.update(m)
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        line = self.ctx.cur_line
        r = self.call(fn, args, kwargs)
        self.ctx.cur_line = line
        return r

    # ------------------------------------------------------------ truth
    def truth(self, v):
        return self.models.truth(self, v)

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kwargs):
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self_] + list(args), kwargs)
        if isinstance(fn, PFunc):
            return self.call_function(fn, args, kwargs)
        if isinstance(fn, PClass):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, Wrapped):
            return self.call(fn.fn, args, kwargs)
        if isinstance(fn, PObj):
            f, _ = fn.cls.lookup("__call__")
            if f is not None:
                return self.call(f, [fn] + list(args), kwargs)
        return self.models.call(self, fn, args, kwargs)

    def bind(self, fn, args, kwargs):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        out = {}
        kwargs = dict(kwargs)

        def bad(msg):
            raise PyRaise(HExc(TypeError, (f"{fn.name}() {msg}",)))

        if len(args) > len(pos):
            if not a.vararg:
                bad(f"takes {len(pos)} positional arguments but {len(args)} were given")
            out[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            out[n] = v
        kw = {}
        for k, v in kwargs.items():
            if k in pos[npos:] or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    bad(f"got multiple values for argument '{k}'")
                out[k] = v
            elif a.kwarg:
                kw[k] = v
            else:
                bad(f"got an unexpected keyword argument '{k}'")
        if a.kwarg:
            out[a.kwarg.arg] = kw
        off = len(pos) - len(fn.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                if i >= off:
                    out[n] = fn.defaults[i - off]
                else:
                    bad(f"missing a required argument: '{n}'")
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg not in out:
                nd = a.kw_defaults[a.kwonlyargs.index(x)]
                if nd is None:
                    bad(f"missing a required argument: '{x.arg}'")
                out[x.arg] = d
        return out

    def call_function(self, fn, args, kwargs):
        if fn.qual in self.active:
            c = self.p.contracts[fn.qual]
            r = self.hooks["contract"](self, c, fn, args, kwargs)
            if r is not NotImplemented:
                return r
        bound = self.bind(fn, args, kwargs)
        return self.run_body(fn, bound)

    def run_body(self, fn, bound):
        if self.depth > 150:
            raise PyRaise(HExc(RecursionError, ()))
        if not fn.module.name.startswith("contracts."):
            self.inlined.add(fn.qual)
        node = fn.node
        env = Env(fn.module, parent=fn.closure, locs=local_names(node), fn=fn)
        env.vars.update(bound)
        if fn.memo:
            self.ctx.note_inexact(f"{fn.qual} is memoised")
            self.frame_writes.append(f"cache of {fn.qual}")
        self.depth += 1
        old = self.cur
        self.cur = fn
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if is_generator(node):
                # run at once: what it yields is the same unless it interleaves effects with its consumer, and an
                # exception would come too early
                env.yields = []
                try:
                    self.exec_block(node.body, env)
                except PyRaise:
                    raise Unsupported("generator that raises")
                return self.models.PyIter(list(env.yields), "generator")
            r = self.exec_block(node.body, env)
            if r is None:
                return None
            return r[1]
        finally:
            self.depth -= 1
            self.cur = old

    def instantiate(self, cls, args, kwargs):
        new, owner = cls.lookup("__new__")
        if isinstance(new, (PFunc, Wrapped)):
            raise Unsupported("__new__")
        hb = cls.host_base()
        if hb is not None and not issubclass(hb, BaseException) and hb is not object:
            if hb.__name__ not in ("ABC", "TestCase"):
                raise Unsupported(f"instance of a subclass of {hb.__name__}")
        o = PObj(cls)
        if hb is not None and issubclass(hb, BaseException):
            o.attrs["args"] = tuple(args)
        init, _ = cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif (args or kwargs) and hb is None:
            raise PyRaise(HExc(TypeError, (f"{cls.name}() takes no arguments",)))
        if "init" in self.hooks:
            self.hooks["init"](self, o, args, kwargs)
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, PObj):
            v, owner = o.cls.lookup(name)
            if isinstance(v, Wrapped) and v.kind == "property":
                return self.call(v.fn, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if owner is not None:
                return self.bind_attr(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if o.cls.is_exc() and name in ("args", "with_traceback"):
                return o.attrs.get(name, ())
            ga, _ = o.cls.lookup("__getattr__")
            if ga is not None:
                return self.call(ga, [o, name], {})
            raise PyRaise(HExc(AttributeError, (f"'{o.cls.name}' object has no attribute '{name}'",)))
        if isinstance(o, PClass):
            v, owner = o.lookup(name)
            if owner is not None:
                if isinstance(v, Wrapped):
                    if v.kind == "classmethod":
                        return Bound(v.fn, o)
                    if v.kind == "staticmethod":
                        return v.fn
                    return v
                return v
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__module__":
                return o.module.name
            raise PyRaise(HExc(AttributeError, (f"type object '{o.name}' has no attribute '{name}'",)))
        if isinstance(o, PModule):
            if name in o.ns:
                return o.ns[name]
            path, _ = self.p.path_of(o.name + "." + name)
            if path and o.name + "." + name in self.p.modules:
                return self.p.modules[o.name + "." + name]
            raise PyRaise(HExc(AttributeError, (f"module '{o.name}' has no attribute '{name}'",)))
        if isinstance(o, SuperProxy):
            if isinstance(o.obj, PClass):
                mro, target = o.obj.mro, o.obj
            else:
                mro, target = o.obj.cls.mro, o.obj
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, PClass) and name in c.ns:
                    if isinstance(c.ns[name], Wrapped) and c.ns[name].kind == "property" and target is o.obj:
                        return self.call(c.ns[name].fn, [target], {})
                    return self.bind_attr(c.ns[name], target, target if isinstance(target, PClass) else target.cls)
            if name == "__init__":
                return Builtin("object.__init__", lambda it, a, k: None)
            raise Unsupported(f"super().{name}")
        return self.models.getattr(self, o, name)

    def bind_attr(self, v, o, cls):
        if isinstance(v, PFunc):
            return Bound(v, o) if not isinstance(o, PClass) else v
        if isinstance(v, Wrapped):
            if v.kind == "classmethod":
                return Bound(v.fn, cls)
            if v.kind == "staticmethod":
                return v.fn
        return v

    def note_write(self, o, what=""):
        f = self.frozen.get(id(o))
        if f is not None:
            w = f"{f[1]}{what}"
            if w not in self.frame_writes:
                self.frame_writes.append(w)

    def setattr(self, o, name, v):
        self.note_write(o, "." + name)
        if isinstance(o, PObj):
            w, _ = o.cls.lookup(name)
            if isinstance(w, Wrapped) and w.kind == "property":
                if w.setter is None:
                    raise PyRaise(HExc(AttributeError, (f"can't set attribute '{name}'",)))
                return self.call(w.setter, [o, v], {})
            if any(isinstance(c, PClass) and c.frozen for c in o.cls.mro):
                raise PyRaise(HExc(AttributeError, (f"cannot assign to field '{name}'",)))
            o.attrs[name] = v
        elif isinstance(o, PClass):
            o.ns[name] = v
        elif isinstance(o, PModule):
            o.ns[name] = v
        elif isinstance(o, PFunc):
            o.attrs[name] = v
        else:
            raise Unsupported(f"attribute assignment on {type(o).__name__}")


def class_sub(c, cls):
    """Is c (host or interpreted class) a subclass of cls?"""
    if isinstance(c, PClass):
        return cls in c.mro or isinstance(cls, type) and any(
            isinstance(x, type) and issubclass(x, cls) for x in c.mro if x is not object)
    return isinstance(cls, type) and issubclass(c, cls)


def env_exc(env):
    e = env
    while e is not None:
        if "%exc" in e.vars:
            return e.vars["%exc"]
        e = e.parent
    return None
