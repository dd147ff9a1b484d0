"""Verification of contracts and theorems: one function at a time, callee contracts in place of callee bodies."""
import ast
import os
import sys
import time
import traceback

import z3

from . import sym, interp, models, lib, prims, kinds
from .sym import *
from .values import *
from .interp import Interp, Program
from .prims import SpecReject, Undefined

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROVED, REFUTED, UNDECIDED = "proved", "refuted", "undecided"


class Contract:
    def __init__(self, d):
        d = dict(d)
        self.q = d.pop("q")
        self.spec = d.pop("spec")
        self.method = d.pop("method", None)
        self.proof = d.pop("proof", None)
        self.returns = d.pop("returns", None)      # kind of the object returned: the specification gives its view
        self.params = d


class Obligation:
    def __init__(self, name, status, detail="", inputs=None, inexact=(), line=None):
        self.name, self.status, self.detail = name, status, detail
        self.inputs, self.inexact, self.line = inputs, list(inexact), line


class Result:
    """Outcome of one verification task."""

    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.used = set()
        self.inlined = set()
        self.paths = self.ok_paths = self.rejecting_paths = 0
        self.error = None
        self.wall = self.solver_s = 0.0
        self.queries = 0
        self.frame = []
        self.trusted = set()

    def finish(self):
        if not self.error and not self.ok_paths:
            self.error = "vacuous: no path reaches an obligation about a result"
        return self

    def merge(self, o):
        self.obligations += o.obligations
        self.used |= o.used
        self.inlined |= o.inlined
        self.paths += o.paths
        self.ok_paths += o.ok_paths
        self.rejecting_paths += o.rejecting_paths
        self.error = self.error or o.error
        self.wall += o.wall
        self.solver_s += o.solver_s
        self.queries += o.queries
        self.frame += o.frame
        return self

    @property
    def status(self):
        st = [o.status for o in self.obligations]
        if any(o.status == REFUTED and not o.inexact for o in self.obligations):
            return REFUTED
        if self.error or not st or UNDECIDED in st or REFUTED in st:
            return UNDECIDED
        return PROVED

    def summary(self):
        n = {s: sum(o.status == s for o in self.obligations) for s in (PROVED, REFUTED, UNDECIDED)}
        return f"{self.name}: {self.status} paths={self.paths} obligations={n} t={self.wall:.1f}s" + \
            (f" error={self.error}" if self.error else "")


class Engine:
    def __init__(self, repo="/repo", verif=HERE):
        self.repo = repo
        self.p = Program(root=repo)
        self.p.extra_roots["contracts"] = verif
        sys.path.insert(0, verif)
        from contracts import table
        self.contracts = {}
        for d in table.CONTRACTS:
            c = Contract(d)
            self.contracts[c.q] = c
        self.p.contracts = self.contracts
        self.load_error = None
        ctx = Ctx()
        it = Interp(self.p, ctx, models)
        self.boot = it
        for m in ("bip38", "bip38.bip38", "bip38.wif", "bip38.p2pkh_address", "bip38.secp256k1",
                  "bip38.secp256k1.point", "contracts.spec", "contracts.theorems"):
            it.import_module(m)
        if ctx.trail or ctx.pc and ctx.check() == z3.unsat:
            raise Unsupported("module initialisation depends on the environment")
        it.frame_writes = []
        self.snapshot()

    # ---------------------------------------------------------------- frame
    def snapshot(self):
        """Everything reachable from the modules before a call."""
        self.frozen = {}
        self.saved = []
        seen = set()
        stack = [(m, n) for n, m in self.p.modules.items()]
        while stack:
            o, d = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, PModule):
                if not o.name.startswith("contracts"):
                    self.frozen[id(o)] = (o, d)
                    self.saved.append((o.ns, dict(o.ns)))
                stack += [(v, f"{o.name}.{k}") for k, v in o.ns.items()]
            elif isinstance(o, PClass):
                self.frozen[id(o)] = (o, d)
                self.saved.append((o.ns, dict(o.ns)))
                stack += [(v, f"{o.qual}.{k}") for k, v in o.ns.items()]
            elif isinstance(o, PFunc):
                self.frozen[id(o)] = (o, d)
                self.saved.append((o.attrs, dict(o.attrs)))
                stack += [(v, d + ".default") for v in list(o.defaults) + list(o.kwdefaults)]
                stack += [(v, d + ".attr") for v in o.attrs.values()]
                e = o.closure
                while e is not None and e.vars is not o.module.ns:
                    stack += [(v, d + ".closure." + k) for k, v in e.vars.items()]
                    e = e.parent
            elif isinstance(o, PObj):
                self.frozen[id(o)] = (o, d)
                self.saved.append((o.attrs, dict(o.attrs)))
                stack += [(v, d + "." + k) for k, v in o.attrs.items()]
            elif isinstance(o, dict):
                self.frozen[id(o)] = (o, d)
                self.saved.append((o, dict(o)))
                stack += [(v, f"{d}[{k!r}]") for k, v in o.items()]
            elif isinstance(o, (list, set)):
                self.frozen[id(o)] = (o, d)
                self.saved.append((o, type(o)(o)))
                if isinstance(o, list):
                    stack += [(v, f"{d}[{i}]") for i, v in enumerate(o)]
            elif isinstance(o, tuple):
                stack += [(v, f"{d}[{i}]") for i, v in enumerate(o)]
            elif isinstance(o, SByteArray):
                self.frozen[id(o)] = (o, d)
                self.saved.append((o.items, list(o.items)))
            elif isinstance(o, (Wrapped,)):
                stack += [(o.fn, d)]
            elif isinstance(o, Bound):
                stack += [(o.fn, d), (o.self_, d + ".self")]

    def restore(self):
        for o, c in self.saved:
            if isinstance(o, dict):
                o.clear()
                o.update(c)
            elif isinstance(o, list):
                o[:] = c
            else:
                o.clear()
                o |= c

    def freeze_obj(self, it, o, d):
        """Treat an object created for the call as existing state."""
        stack = [(o, d)]
        while stack:
            o, d = stack.pop()
            if isinstance(o, PObj):
                it.frozen[id(o)] = (o, d)
                stack += [(v, d + "." + k) for k, v in o.attrs.items()]
            elif isinstance(o, dict):
                it.frozen[id(o)] = (o, d)
                stack += [(v, f"{d}[{k!r}]") for k, v in o.items()]
            elif isinstance(o, list):
                it.frozen[id(o)] = (o, d)
                stack += [(v, f"{d}[{i}]") for i, v in enumerate(o)]

    # ---------------------------------------------------------------- interpreter set-up
    def interp(self, ctx, active):
        it = Interp(self.p, ctx, models)
        it.active = {q for q in active}
        it.frozen = dict(self.frozen)
        it.hooks["contract"] = self.at_call
        it.hooks["init"] = self.on_init
        it.inputs = {}
        ctx.interp = it
        return it

    def on_init(self, it, o, args, kwargs):
        """Ghost state: a BIP38 object's constructor arguments; the library object wrapped by a key or a point."""
        if o.cls.qual in kinds.VIEWS:
            if len(args) == 1 and not kwargs:
                o.ghost = {"view": args[0], "attrs": dict(o.attrs)}
            return
        if o.cls.qual != "bip38.bip38.BIP38":
            return
        init, _ = o.cls.lookup("__init__")
        b = it.bind(init, [o] + list(args), kwargs)
        o.ghost = {"coin": b.get("cryptocurrency"), "network": b.get("network")}
        self.freeze_obj(it, o, "object")

    def function(self, q):
        """The function object with this qualified name in the current source."""
        parts = q.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.p.modules.get(".".join(parts[:i]))
            if m is not None:
                v = m.ns.get(parts[i])
                for x in parts[i + 1:]:
                    v = v.lookup(x)[0] if isinstance(v, PClass) else None
                if isinstance(v, Wrapped):
                    v = v.fn
                return v if isinstance(v, PFunc) and v.qual == q else None
        return None

    def owner(self, q):
        """The class a method belongs to."""
        parts = q.split(".")
        m = self.p.modules.get(".".join(parts[:-2]))
        return m.ns.get(parts[-2]) if m is not None else None

    def spec_fn(self, name):
        return self.p.modules["contracts.spec"].ns[name]

    # ---------------------------------------------------------------- contracts at call sites
    def adapt(self, it, c, fn, bound):
        """Arguments of the specification for this call, or None when the contract does not apply."""
        env, vals = {}, []
        if c.method == "self":
            o = next(iter(bound.values()))
            if not isinstance(o, PObj) or not o.ghost:
                return None
            env["coin"] = o.ghost["coin"]
            if not kinds.member(it, "coin", env["coin"], env) or \
                    not kinds.member(it, "network", o.ghost["network"], env):
                return None
            vals = [o.ghost["coin"], o.ghost["network"]]
        elif c.method == "class":
            if next(iter(bound.values())) is not self.owner(c.q):
                return None
        elif c.method:
            o = next(iter(bound.values()))
            if not kinds.member(it, c.method, o, env):
                return None
            vals = [kinds.view(o)]
        elif "cryptocurrency" in c.params:
            env["coin"] = bound.get("cryptocurrency")
        bound = self.spread(c, fn, bound)
        if bound is None:
            return None
        names = list(bound)
        if c.method:
            names = names[1:]
        if set(c.params) - set(names):
            return None
        order = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs]
        if c.params.get("cryptocurrency") and not kinds.member(it, "coin", env["coin"], env):
            return None
        for p, k in c.params.items():
            if not kinds.member(it, k, bound[p], env):
                return None
            vals.append(kinds.value(bound[p]))
        for n in names:
            if n not in c.params:
                d = self.default_of(fn, n)
                if d is NotImplemented or bound[n] is not d and bound[n] != d:
                    return None
        return vals

    def spread(self, c, fn, bound):
        """Optional keywords (named **key in the contract) as parameters of their own, ABSENT when not given."""
        keys = [p for p in c.params if p.startswith("**")]
        if not keys:
            return bound
        kw = fn.node.args.kwarg.arg if fn.node.args.kwarg else None
        given = bound[kw] if kw else {}
        out = {n: v for n, v in bound.items() if n != kw}
        for p in keys:
            n = p[2:]
            if n in out:
                v = out.pop(n)
                d = self.default_of(fn, n)
                out[p] = kinds.ABSENT if v is d or isinstance(v, (str, int)) and v == d else v
            else:
                out[p] = given.get(n, kinds.ABSENT) if kw else kinds.ABSENT
        if set(given) - {p[2:] for p in keys}:
            return None
        return out

    def default_of(self, fn, n):
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if n in pos:
            i = pos.index(n) - (len(pos) - len(fn.defaults))
            return fn.defaults[i] if i >= 0 else NotImplemented
        kw = [x.arg for x in a.kwonlyargs]
        if n in kw:
            return fn.kwdefaults[kw.index(n)]
        if a.vararg and n == a.vararg.arg:
            return ()
        if a.kwarg and n == a.kwarg.arg:
            return {}
        return NotImplemented

    def at_call(self, it, c, fn, args, kwargs):
        if it.frame_writes:
            return NotImplemented        # contracts speak about unmodified state
        bound = it.bind(fn, args, kwargs)
        vals = self.adapt(it, c, fn, bound)
        if vals is None:
            return NotImplemented
        nev = len(it.ctx.events)
        try:
            r = it.call(self.spec_fn(c.spec), vals, {})
        except (Undefined, Unsupported):
            del it.ctx.events[nev:]
            return NotImplemented
        except PyRaise as ex:
            if isinstance(ex.exc, HExc) and ex.exc.cls is SpecReject:
                it.used_contracts.add(c.q)
                raise PyRaise(self.abstract_exc(it, ex.exc.args))
            raise
        if c.returns:
            r = kinds.wrap(it, c.returns, r)
        it.used_contracts.add(c.q)
        return r

    def abstract_exc(self, it, names):
        out = []
        own = self.exclusive(it, names)
        pkg = [v for v in it.import_module("bip38.exceptions").ns.values() if isinstance(v, PClass) and v.is_exc()]
        for n in names:
            base = prims.exc_class(it, n)
            cands = [base] + pkg
            if base is ValueError:
                cands += [UnicodeEncodeError, UnicodeDecodeError]
            for k in cands:
                if interp.class_sub(k, base) and k not in out and not any(interp.class_sub(k, x) for x in own):
                    out.append(k)
        return AbsExc(out, names)

    def exclusive(self, it, names):
        """Error classes with a meaning of their own: a rejection that does not name them is not one of them."""
        return [prims.exc_class(it, n) for n in ("NetworkError", "PassphraseError") if n not in names]

    # ---------------------------------------------------------------- running one task
    def explore(self, res, run, budget, prefixes=None, slice_s=None, max_paths=20000):
        """Runs every path below the given prefixes; with slice_s, stops early and returns the prefixes left."""
        t0 = time.time()
        q0, s0 = STATS.queries, STATS.solver_s
        stack = [list(p) for p in (prefixes or [[]])]
        n = 0
        try:
            while stack:
                if slice_s is not None and n and time.time() - t0 > slice_s:
                    break
                if time.time() - t0 > budget or n > max_paths:
                    raise Unsupported("time budget exhausted")
                n += 1
                ctx = Ctx(stack.pop(), t0 + budget)
                try:
                    r = run(ctx)
                except PathAbort:
                    r = None
                stack.extend(ctx.pending)
                it = getattr(ctx, "interp", None)
                if it is not None:
                    if it.frame_writes:
                        self.restore()
                    res.used |= it.used_contracts
                    res.inlined |= it.inlined
                if r is not None:
                    res.paths += 1
        except Unsupported as ex:
            self.restore()
            res.error = f"unsupported: {ex}"
        except RecursionError:
            self.restore()
            res.error = "recursion limit of the engine"
        except Exception as ex:
            self.restore()
            res.error = "engine: " + "".join(traceback.format_exception_only(type(ex), ex)).strip() + " @ " + \
                " < ".join(f"{f.name}:{f.lineno}" for f in reversed(traceback.extract_tb(ex.__traceback__)[-4:]))
        res.wall += time.time() - t0
        res.queries += STATS.queries - q0
        res.solver_s += STATS.solver_s - s0
        return [] if res.error else stack

    def record(self, res, it, name, cond, detail=""):
        """One obligation: cond (bool or SBool) must hold on this path."""
        ctx = it.ctx
        if isinstance(cond, SBool):
            r = ctx.must(cond.e, ms=8000)
            neg = z3.Not(cond.e)
        elif cond:
            res.obligations.append(Obligation(name, PROVED, line=ctx.cur_line))
            return True
        else:
            c = ctx.check(ms=8000)
            r = "yes" if c == z3.unsat else "no" if c == z3.sat else "unknown"
            neg = None
        if r == "yes":
            if cond is False or cond is None:
                raise PathAbort()          # the path is infeasible: nothing to show
            res.obligations.append(Obligation(name, PROVED, line=ctx.cur_line))
            return True
        inputs = None
        if r == "no":
            try:
                m = ctx.solver.model()
                inputs = {k: kinds.concrete(it, v, m) for k, v in it.inputs.items()}
            except (z3.Z3Exception, Unsupported):
                inputs = None
        res.obligations.append(Obligation(
            name, REFUTED if r == "no" else UNDECIDED, str(detail() if callable(detail) else detail)[:500] + (
                "" if neg is None else " | fails: " + str(cond.e)[:300]), inputs, ctx.inexact, ctx.cur_line))
        return False

    # ---------------------------------------------------------------- function against its contract
    def run_task(self, task, active, prefixes=None, budget=120, slice_s=None, verbose=False):
        """One slice of a task ('contract', q) or ('theorem', name): (result, prefixes left)."""
        kind, name = task
        res = Result(name)
        self.left = []
        if kind == "contract":
            self._contract(res, name, active, budget, verbose, prefixes, slice_s)
        else:
            self._theorem(res, name, active, budget, verbose, prefixes, slice_s)
        return res, self.left

    def verify_contract(self, q, active, budget=120, verbose=False):
        res, _ = self.run_task(("contract", q), active, None, budget, None, verbose)
        return res.finish()

    def verify_theorem(self, q, active, budget=120, verbose=False):
        res, _ = self.run_task(("theorem", q), active, None, budget, None, verbose)
        return res.finish()

    def _contract(self, res, q, active, budget, verbose, prefixes, slice_s):
        c = self.contracts[q]
        fn = self.function(q)
        if fn is None:
            res.error = "function not found in the source"
            return
        if fn.memo:
            res.error = "memoised function"
            return
        if c.proof == "none":
            res.error = "no invariant given for its loops"
            return
        if c.proof:
            from . import proofs
            t0 = time.time()
            q0, s0 = STATS.queries, STATS.solver_s
            try:
                proofs.PROOFS[c.proof](self, c, fn, res, active, budget)
            except Unsupported as ex:
                res.error = f"unsupported: {ex}"
            except Exception as ex:
                res.error = "engine: " + repr(ex) + " @ " + \
                    " < ".join(f"{f.name}:{f.lineno}" for f in reversed(traceback.extract_tb(ex.__traceback__)[-4:]))
            self.restore()
            res.wall = time.time() - t0
            res.queries, res.solver_s = STATS.queries - q0, STATS.solver_s - s0
            return
        act = set(active) - {q}

        def run(ctx):
            it = self.interp(ctx, act)
            bound, vals = self.arguments(it, c, fn)
            want = prims._outcome(it, self.spec_fn(c.spec), *vals)
            spec_events, ctx.events = ctx.events, []
            it.inlined.clear()
            try:
                got = ("ok", it.run_body(fn, bound))
            except PyRaise as ex:
                got = ("exc", ex.exc)
            if verbose:
                print("   path", ctx.trail, want[0], got, flush=True)
            if want[0] == "ok":
                res.ok_paths += 1
            else:
                if not prims._rejects(it, want):
                    raise Unsupported(f"specification failed: {want[1]}")
                res.rejecting_paths += 1
            if not self.record(res, it, f"{q}: outcome", self.kind_ok(it, got, want),
                               lambda: f"got {got}, specified {want}"):
                return True
            if want[0] == "ok":
                same = kinds.viewed_as(it, c.returns, got[1], want[1]) if c.returns else \
                    prims.deep_eq(it, got[1], want[1])
                self.record(res, it, f"{q}: result", same, lambda: f"got {got[1]}, specified {want[1]}")
                self.record(res, it, f"{q}: randomness",
                            [e[:2] for e in ctx.events] == [e[:2] for e in spec_events],
                            f"drawn {[e[:2] for e in ctx.events]}, specified {[e[:2] for e in spec_events]}")
            if it.frame_writes:
                res.obligations.append(Obligation(f"{q}: frame", UNDECIDED, "; ".join(it.frame_writes[:4])))
                res.frame += it.frame_writes
            else:
                res.obligations.append(Obligation(f"{q}: frame", PROVED))
            return True

        def guarded(ctx):
            try:
                return run(ctx)
            except Undefined:
                return None
            except PyRaise as ex:
                raise Unsupported(f"uncaught exception {ex.exc}")

        self.left = self.explore(res, guarded, budget, prefixes, slice_s)

    def kind_ok(self, it, got, want):
        if want[0] == "ok":
            return got[0] == "ok"
        if got[0] != "exc":
            return False
        if any(it.exc_matches(got[1], k) for k in self.exclusive(it, want[1].args)):
            return False
        return any(it.exc_matches(got[1], prims.exc_class(it, n)) for n in want[1].args)

    def arguments(self, it, c, fn):
        env, vals, bound = {}, [], {}
        a = fn.node.args
        order = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if c.method:
            first = order[0]
            cls = self.owner(c.q)
            if c.method == "class":
                bound[first] = cls
            elif c.method != "self":
                o = bound[first] = kinds.make(it, c.method, "self", env)
                self.freeze_obj(it, o, "object")
                vals = [kinds.view(o)]
            else:
                coin = env["coin"] = kinds.make(it, "coin", "coin")
                net = kinds.make(it, "network", "default", env)
                it.inputs["default"] = net
                o = it.call(cls, [coin, net], {})
                bound[first] = o
                vals = [coin, net]
        if "cryptocurrency" in c.params:
            env["coin"] = kinds.make(it, "coin", "coin")
        kw = {}
        for p, k in c.params.items():
            if p.startswith("**"):
                n = p[2:]
                v = kinds.make(it, k, n, env)
                if v is not kinds.ABSENT:
                    if n in order:
                        bound[n] = v
                    else:
                        kw[n] = v
                    it.inputs[n] = v
                vals.append(kinds.value(v))
                continue
            if p not in order:
                raise Unsupported(f"parameter {p} not found")
            v = env["coin"] if k == "coin" else kinds.make(it, k, p, env)
            if isinstance(v, PObj):
                self.freeze_obj(it, v, p)
            bound[p] = v
            it.inputs[p] = v
            vals.append(kinds.value(v))
        for n in order:
            if n not in bound:
                d = self.default_of(fn, n)
                if d is NotImplemented:
                    raise Unsupported(f"new required parameter {n}")
                bound[n] = d
        if a.vararg:
            bound[a.vararg.arg] = ()
        if a.kwarg:
            bound[a.kwarg.arg] = kw
        elif kw:
            raise Unsupported("keyword not accepted")
        return bound, vals

    # ---------------------------------------------------------------- theorems
    def theorem(self, name):
        return self.p.modules["contracts.theorems"].ns[name]

    def theorem_params(self, name):
        fn = self.theorem(name)
        return [(x.arg, x.annotation.value) for x in fn.node.args.args]

    def _theorem(self, res, name, active, budget, verbose, prefixes, slice_s):
        fn = self.theorem(name)
        params = self.theorem_params(name)
        for pre, qs in self.p.modules["contracts.theorems"].ns["INLINE"].items():
            if name.startswith(pre):
                active = set(active) - set(qs)

        def on_assert(it, st, env):
            cond = it.eval(st.test, env)
            if not isinstance(cond, (bool, SBool)):
                cond = it.truth(cond)
            label = f"{name}:{st.lineno} {ast.unparse(st.test)[:120]}"
            ok = self.record(res, it, label, cond,
                             lambda: ast.unparse(st.msg) if st.msg is not None else self.vars_of(env))
            if not ok:
                raise PathAbort()
            if isinstance(cond, SBool):
                it.ctx.add(cond.e)

        def run(ctx):
            it = self.interp(ctx, active)
            it.hooks["assert"] = on_assert
            env, args = {}, []
            for p, k in params:
                v = kinds.make(it, k, p, env)
                if k == "coin":
                    env["coin"] = v
                args.append(v)
                it.inputs[p] = v
            n0 = len(res.obligations)
            try:
                it.call(fn, args, {})
            except PyRaise as ex:
                self.record(res, it, f"{name}: no exception escapes", False, f"escaped: {ex.exc} at {ctx.cur_line}")
            except Undefined:
                return None
            finally:
                if it.frame_writes:
                    res.obligations.append(Obligation(f"{name}: frame", UNDECIDED, "; ".join(it.frame_writes[:4])))
                    res.frame += it.frame_writes
            if verbose:
                print("   path", ctx.trail, [o.status for o in res.obligations[n0:]], flush=True)
            if len(res.obligations) > n0:
                res.ok_paths += 1
            return True

        self.left = self.explore(res, run, budget, prefixes, slice_s)

    def vars_of(self, env):
        out = []
        for k, v in env.vars.items():
            if isinstance(v, tuple) and len(v) == 2 and v[0] in ("ok", "exc"):
                out.append(f"{k}={v}")
        return ", ".join(out)[:400]
