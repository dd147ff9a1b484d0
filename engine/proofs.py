"""Proofs of functions with loops over data of unknown length.

A loop is cut at its head: the variables it changes become arbitrary, the invariants are assumed, one iteration is
executed and the invariants are shown to hold again; after the loop only the invariants and the exit condition are
known.  The invariants are found, not given: for the variables a loop changes, a set of candidates (relations to ghost
functions of the input) is generated from the kinds of the variables, and the candidates that do not hold on entry or
are not preserved are dropped until what remains is inductive (Houdini).  So the proof follows the code when variables
are renamed or loops rearranged.  While loops also need a variant.

A proof that fails is 'undecided', never 'refuted': the remaining invariants may only be too weak.
"""
import ast

import z3

from . import sym, prims, kinds, seqs
from .sym import *
from .values import *
from .seqs import SSeq, SeqS, SEnum, SRange
from .interp import Env
from .models import PyIter

PURE = {"len", "bool", "int", "abs", "min", "max", "ord", "chr"}


class Cand:
    """A candidate invariant: at(i) gives the formula at iteration i, step(i) the definitions for iteration i + 1."""

    def __init__(self, name, at, step=None):
        self.name, self.at, self.step = name, at, step or (lambda i: None)


class LoopProof:
    def __init__(self, engine, c, res, active, budget, alphabets, text):
        self.e, self.c, self.out, self.active, self.budget = engine, c, res, active, budget
        self.alphabets, self.text = alphabets, text
        self.dead = {}         # loop -> names of dropped candidates
        self.havoc = {}        # loop -> variables rebound by the body
        self.mutated = {}      # loop -> variables whose object the body changes
        self.novar = {}        # loop -> variants that failed
        self.extra = None      # further candidates
        self.words = False     # integers that a loop changes are 32-bit words

    # ------------------------------------------------------------ driver
    def prove(self, path):
        """path(it, res) executes one path and records its obligations."""
        from .verify import Result, Obligation, UNDECIDED
        spent = 0.0
        for _ in range(40):
            self.changed = False
            self.obl = []
            self.loops = set()
            self.variants = {}
            res = Result(self.c.q)

            def run(ctx):
                it = self.e.interp(ctx, self.active)
                it.seq_mode = True
                it.loop_hook = self.hook
                it.prover = self
                it.loop_res = res
                return path(it, res)
            left = self.e.explore(res, run, self.budget - spent)
            spent += res.wall
            if res.error or left:
                break
            if not self.changed:
                break
        else:
            res.error = "no inductive invariant found"
        for lp in self.loops:
            if lp in self.variants and not self.variants[lp]:
                res.obligations.append(Obligation(f"{self.c.q}: loop at line {lp[1]} terminates", UNDECIDED))
        for o in res.obligations:
            if o.status == "refuted":
                o.status = UNDECIDED          # the invariants may be too weak
        self.out.merge(res)

    def record(self, it, name, f):
        return self.e.record(it.loop_res, it, name, f)

    # ------------------------------------------------------------ the loop rule
    def hook(self, it, st, env, iterv):
        if env.module.name.startswith("contracts"):
            return NotImplemented
        ctx = it.ctx
        bits = None
        lp = (env.module.name, st.lineno)
        if iterv is None:
            for n in ast.walk(st.test):
                if isinstance(n, (ast.NamedExpr, ast.Await)) or isinstance(n, ast.Call) and not (
                        isinstance(n.func, ast.Name) and n.func.id in PURE):
                    raise Unsupported("loop condition with an effect")
            if not is_sym(it.eval(st.test, env)) and not isinstance(it.eval(st.test, env), SSeq):
                return NotImplemented
            seq, n, start = None, None, 0
        else:
            start = 0
            maps = []
            while isinstance(iterv, (seqs.SGen, seqs.SMapped)):
                g = iterv if isinstance(iterv, seqs.SGen) else iterv.gen
                if g.ifs:
                    return NotImplemented
                if g is iterv:
                    if g.used:
                        raise Unsupported("a generator used twice")
                    g.used = True
                maps.append(g.each)
                iterv = g.iterv
            seq = iterv
            if isinstance(seq, SEnum):
                start, seq = seq.start, seq.seq
            if isinstance(seq, SRange):
                if seq.n.k == "bv" and not seq.n.signed and seq.n.w < 64:
                    bits = seq.n.w
                    n = ext(as_bv(seq.n)[0], False, 64)        # iterations counted by a 64-bit vector
                else:
                    n = as_z(seq.n)
                    n = z3.If(n > 0, n, 0)
                rng = seq
                seq = None
            elif isinstance(seq, (SSeq, seqs.SMapped)):
                n = seq.length()
                if seq.kind in ("list", "bytearray"):
                    raise Unsupported("loop over a mutable sequence")
            else:
                return NotImplemented
        self.loops.add(lp)
        dead = self.dead.setdefault(lp, set())
        havoc = self.havoc.setdefault(lp, set())
        mutated = self.mutated.setdefault(lp, set())
        for k in mutated:
            self.as_sequence(env, k)
        pre = {k: env.vars.get(k) for k in havoc | mutated}
        pre_parts = {k: list(env.vars[k].parts) for k in mutated if isinstance(env.vars.get(k), SSeq)}

        def live(which=None):
            return [c for c in self.candidates(it, env, lp, pre, pre_parts, seq, n) if c.name not in dead]

        # entry
        zero = z3.IntVal(0) if bits is None else bvval(0, 64)
        for c in live():
            if not self.hold(it, c, zero, lp, "on entry"):
                dead.add(c.name)
                self.changed = True
        body = ctx.choose(2) == 0
        # arbitrary iteration
        for k in sorted(havoc | mutated):
            v = env.vars.get(k)
            if k in mutated:
                if not isinstance(v, SSeq):
                    raise Unsupported(f"loop changes {k}")
                v.parts = [z3.Const(ctx.fresh("any_" + k), SeqS)]
                v.base = v.rev_of = None
                if k not in havoc:
                    continue
            env.vars[k] = self.arbitrary(ctx, k, v)
        cs = live()
        if seq is not None or n is not None:
            i = z3.Int(ctx.fresh("i")) if bits is None else z3.BitVec(ctx.fresh("i"), 64)
            if body:
                ctx.add(z3.And(i >= 0, i < n) if bits is None else z3.ULT(i, n))
            else:
                ctx.add(i == n)
        else:
            i = z3.IntVal(0)
        for c in cs:
            ctx.add(c.at(i if body or n is None else n))
        if not body:
            if iterv is None:
                for c in cs:
                    c.step(i)
            if iterv is None and it.truth(it.eval(st.test, env)):
                raise PathAbort()
            if ctx.check() == z3.unsat:
                raise PathAbort()
            return it.exec_block(st.orelse, env)
        if iterv is None and not it.truth(it.eval(st.test, env)):
            raise PathAbort()
        if ctx.check() == z3.unsat:
            raise PathAbort()
        for c in cs:
            c.step(i)
        before_var = self.measures(it, st, env) if iterv is None else None
        before = dict(env.vars)
        snap = self.snapshot(env)
        if iterv is not None:
            if seq is not None:
                x = seq.element(it, i)
                if isinstance(iterv, SEnum):
                    x = (mk_z(i + as_z(start)), x)
            else:
                x = mk_z(i) if bits is None else mk_int(z3.Extract(bits - 1, 0, i))
                x = rng.value(it, x)
            for f in reversed(maps):
                x = f(it, x)
            it.assign(st.target, x, env)
        r = it.exec_block(st.body, env)
        # what did this iteration change?
        self.compare(env, before, snap, havoc, mutated)
        if r == "break":
            return None
        if r is not None and r != "continue":
            return r
        if self.changed and (set(pre) != havoc | mutated):
            raise PathAbort()
        now = {c.name: c for c in self.candidates(it, env, lp, pre, pre_parts, seq, n)}
        for c in cs:
            if c.name not in now or not self.hold(it, now[c.name], i + 1, lp, "preserved"):
                dead.add(c.name)
                self.changed = True
        if iterv is None:
            after = self.measures(it, st, env)
            ok = set()
            for k, m in before_var.items():
                if k in after and ctx.must(z3.And(m > after[k], m >= 0), ms=4000) == "yes":
                    ok.add(k)
            self.variants[lp] = self.variants[lp] & ok if lp in self.variants else ok
            if self.variants[lp]:
                self.record(it, f"{self.c.q}: loop at line {lp[1]} terminates", True)
        raise PathAbort()

    def hold(self, it, c, i, lp, when):
        f = c.at(i)
        if it.ctx.must(f, ms=4000) != "yes":
            return False
        from .verify import Obligation, PROVED
        it.loop_res.obligations.append(Obligation(f"{self.c.q}: loop at line {lp[1]}: {c.name} {when}", PROVED))
        return True

    def arbitrary(self, ctx, k, v):
        if isinstance(v, bool) or isinstance(v, SBool):
            return SBool(z3.Bool(ctx.fresh("any_" + k)))
        if self.words and isinstance(v, tuple) and all(isinstance(x, (int, SInt)) for x in v):
            return tuple(self.arbitrary(ctx, k, x) for x in v)
        if self.words and isinstance(v, list) and all(isinstance(x, (int, SInt)) for x in v):
            return [self.arbitrary(ctx, k, x) for x in v]
        if self.words and (isinstance(v, int) or isinstance(v, SInt) and v.k in ("res", "bv")):
            return SInt("res", z3.BitVec(ctx.fresh("any_" + k), 32))
        if isinstance(v, int) or isinstance(v, SInt) and v.k in ("z", "bv"):
            return SInt("z", z3.Int(ctx.fresh("any_" + k)))
        if isinstance(v, (str, bytes)):
            return SSeq("str" if isinstance(v, str) else "bytes", [z3.Const(ctx.fresh("any_" + k), SeqS)])
        if isinstance(v, SSeq):
            return SSeq(v.kind, [z3.Const(ctx.fresh("any_" + k), SeqS)])
        return Opaque("loop variable " + k, "any")

    def snapshot(self, env):
        """State of the mutable objects visible here."""
        out = []
        seen = set()
        e = env
        stack = []
        while e is not None and e.vars is not env.module.ns:
            stack += list(e.vars.items())
            e = e.parent
        e = env.parent
        while e is not None and e.vars is not env.module.ns:
            out.append((None, e, list(e.vars.items())))        # bindings of the enclosing scopes
            e = e.parent
        while stack:
            k, o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, SSeq):
                out.append((k, o, list(o.parts)))
            elif isinstance(o, (list, tuple, set)):
                if not isinstance(o, tuple):
                    out.append((None, o, list(o)))
                stack += [(None, x) for x in o]
            elif isinstance(o, dict):
                out.append((None, o, list(o.items())))
                stack += [(None, x) for x in o.values()]
            elif isinstance(o, SByteArray):
                out.append((None, o, list(o.items)))
            elif isinstance(o, PObj):
                out.append((None, o, list(o.attrs.items())))
                stack += [(None, x) for x in o.attrs.values()]
            elif isinstance(o, (PyIter, seqs.SGen)):
                out.append((None, o, o.used))
        return out

    def compare(self, env, before, snap, havoc, mutated):
        for k, v in env.vars.items():
            if k == "%exc":
                continue
            if (k not in before or before[k] is not v) and k not in havoc:
                if k in before and type(v) in (int, bool, str, bytes) and type(before[k]) is type(v) and before[k] == v:
                    continue
                havoc.add(k)
                self.changed = True
        for k in before:
            if k not in env.vars:
                raise Unsupported("variable deleted in a loop")
        for k, o, old in snap:
            if isinstance(o, SSeq):
                if len(o.parts) != len(old) or any(x is not y for x, y in zip(o.parts, old)):
                    names = [n for n, v in before.items() if v is o]
                    if not names:
                        raise Unsupported("a loop changes an object that is not a local variable")
                    for n in names:
                        if n not in mutated:
                            mutated.add(n)
                            self.changed = True
            elif isinstance(o, (PyIter, seqs.SGen)):
                if o.used != old:
                    raise Unsupported("a loop advances an iterator")
            elif isinstance(o, Env):
                if len(o.vars) != len(old) or any(k2 not in o.vars or o.vars[k2] is not v for k2, v in old):
                    raise Unsupported("a loop rebinds a variable of an enclosing scope")
            else:
                new = list(o.items()) if isinstance(o, dict) else list(o.items) if isinstance(o, SByteArray) else \
                    list(o.attrs.items()) if isinstance(o, PObj) else list(o)
                same = len(new) == len(old) and all(
                    x is y or isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and
                    all(p is q for p, q in zip(x, y)) for x, y in zip(new, old))
                if not same:
                    names = [n for n, v in before.items() if v is o]
                    if not isinstance(o, list) or len(names) != 1:
                        raise Unsupported("a loop changes a container")
                    if names[0] not in mutated:
                        mutated.add(names[0])
                        self.changed = True

    def as_sequence(self, env, k):
        """A list of characters that a loop changes is turned into a sequence of unknown length."""
        v = env.vars.get(k)
        if type(v) is list:
            def count(o, depth=0):
                if o is v:
                    return 1
                if depth < 4 and isinstance(o, (list, tuple)):
                    return sum(count(x, depth + 1) for x in o)
                if isinstance(o, (dict, PObj)):
                    return sum(count(x, depth + 1) for x in (o.values() if isinstance(o, dict) else o.attrs.values()))
                return 0
            e, n = env, 0
            while e is not None and e.vars is not env.module.ns:
                n += sum(count(x) for x in e.vars.values())
                e = e.parent
            if n != 1:
                raise Unsupported("a loop changes a shared list")
            env.vars[k] = SSeq("list", [seqs.list_item(x) for x in v])

    def measures(self, it, st, env):
        """Candidate variants."""
        out = {}
        for k in self.havoc.get((env.module.name, st.lineno), ()):
            v = env.vars.get(k)
            if isinstance(v, SInt) and v.k == "z":
                out[k] = v.e
        t = st.test
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            t = t.values[0]
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            try:
                a, b = it.eval(t.left, env), it.eval(t.comparators[0], env)
                if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
                    d = z3.simplify(as_z(b) - as_z(a))
                    out["right-left"] = d
                    out["left-right"] = z3.simplify(-d)
            except PyRaise:
                pass
        return out

    # ------------------------------------------------------------ candidates
    def candidates(self, it, env, lp, pre, pre_parts, seq, n):
        g = seqs.ghosts(it)
        out = []
        ints, bools, strs = [], [], []
        for k in sorted(pre):
            v = env.vars.get(k)
            if isinstance(v, (bool, SBool)):
                bools.append((k, v.e if isinstance(v, SBool) else z3.BoolVal(v)))
            elif isinstance(v, int) or isinstance(v, SInt) and v.k in ("z", "bv"):
                ints.append((k, as_z(v)))
            elif isinstance(v, (str, bytes, SSeq)):
                strs.append((k, seqs.seq_parts(v)))
        for k, v in ints:
            out.append(Cand(f"{k} >= 0", lambda i, v=v: v >= 0))
        if seq is not None:
            base = seq.rev_of if seq.rev_of is not None else seq.base
            rev = seq.rev_of is not None
            if base is not None:
                self.seq_candidates(it, g, out, base, rev, ints, bools, pre)
        elif n is None:
            self.digit_candidates(it, g, out, ints, strs, pre, pre_parts)
            for base in self.inputs(it):
                for a in self.alphs():
                    for k, v in ints:
                        out.append(Cand(f"0 <= {k} <= length, LEAD({a}) = {k}",
                                        lambda i, v=v, a=a: z3.And(v >= 0, v <= z3.Length(base), g.lead(a, base, v) == v),
                                        lambda i, v=v, a=a: g.lead_step(a, base, v, z3.Length(base))))
        if self.words:
            out = []
        if self.extra:
            out += self.extra(it, env, lp, pre, seq, n)
        return out

    def alphs(self):
        return list(self.alphabets) if self.text else [None]

    def inputs(self, it):
        return it.seq_inputs

    def seq_candidates(self, it, g, out, base, rev, ints, bools, pre):
        for k, v in ints:
            v0 = pre.get(k)
            if isinstance(v0, (int, SInt)) and not isinstance(v0, bool):
                out.append(Cand(f"{k} = start + i", lambda i, v=v, v0=as_z(v0): v == i + v0))
            for b in (256, 58):
                out.append(Cand(f"{k} = {b}^i", lambda i, v=v, b=b: v == g.power(b, i),
                                lambda i, b=b: (g.power(b, i), g.power(b, i + 1))))
            if rev and not self.text:
                out.append(Cand(f"{k} = TAIL256(i)", lambda i, v=v: v == g.tail(base, i),
                                lambda i: g.tail_step(base, i)))
        if rev:
            return
        n = z3.Length(base)
        for a in self.alphs():
            b = 256 if a is None else 58
            if a is not None:
                out.append(Cand("digits valid so far", lambda i, a=a: g.okpre(a, base, i),
                                lambda i, a=a: g.okpre_step(a, base, i)))
            out.append(Cand("zeros only so far", lambda i, a=a: g.lead(a, base, i) == i,
                            lambda i, a=a: g.lead_step(a, base, i, n)))
            for k, v in ints:
                out.append(Cand(f"{k} = HORNER{b}(i)", lambda i, v=v, a=a, b=b: v == g.horner(b, a, base, i),
                                lambda i, a=a, b=b: g.horner_step(b, a, base, i)))
                out.append(Cand(f"{k} = LEAD(i)", lambda i, v=v, a=a: v == g.lead(a, base, i),
                                lambda i, a=a: g.lead_step(a, base, i, n)))
                out.append(Cand(f"{k} = 0 iff zeros only", lambda i, v=v, a=a: (v == 0) == (g.lead(a, base, i) == i),
                                lambda i, a=a: g.lead_step(a, base, i, n)))
            for k, v in bools:
                out.append(Cand(f"{k} iff zeros only", lambda i, v=v, a=a: v == (g.lead(a, base, i) == i),
                                lambda i, a=a: g.lead_step(a, base, i, n)))
                out.append(Cand(f"not {k} iff zeros only", lambda i, v=v, a=a: z3.Not(v) == (g.lead(a, base, i) == i),
                                lambda i, a=a: g.lead_step(a, base, i, n)))

    def digit_candidates(self, it, g, out, ints, strs, pre, pre_parts):
        for k, v in ints:
            v0 = pre.get(k)
            if isinstance(v0, bool) or not isinstance(v0, (int, SInt)):
                continue
            v0 = as_z(v0)
            for q, parts in strs:
                p0 = pre_parts.get(q)
                if p0 is None:
                    p0 = seqs.seq_parts(pre.get(q))
                if p0 is None:
                    continue
                for b, a in [(58, a) for a in self.alphabets] if not self.text else [(256, None)]:
                    out.append(Cand(
                        f"DIGITS{b}({k}) ++ {q} unchanged", lambda i, v=v, v0=v0, p=parts, p0=p0, a=a, b=b:
                        seqs.join([g.digits(b, a, v)] + p) == seqs.join([g.digits(b, a, v0)] + p0)))
                    out.append(Cand(
                        f"DIGITS{b}({k}) ++ reverse {q} unchanged", lambda i, v=v, v0=v0, p=parts, p0=p0, a=a, b=b:
                        seqs.join([g.digits(b, a, v)] + g.rev(p)) == seqs.join([g.digits(b, a, v0)] + g.rev(p0))))


# ------------------------------------------------------------------ base58
def _call(engine, it, fn, c, given):
    bound = {}
    a = fn.node.args
    order = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for p, v in given.items():
        if p not in order:
            raise Unsupported(f"parameter {p} not found")
        bound[p] = v
    for n in order:
        if n not in bound:
            d = engine.default_of(fn, n)
            if d is NotImplemented:
                raise Unsupported(f"new required parameter {n}")
            bound[n] = d
    if a.vararg:
        bound[a.vararg.arg] = ()
    if a.kwarg:
        bound[a.kwarg.arg] = {}
    try:
        return ("ok", it.run_body(fn, bound))
    except PyRaise as ex:
        return ("exc", ex.exc)


def _frame(engine, it, res, q):
    from .verify import Obligation, PROVED, UNDECIDED
    if it.frame_writes:
        res.obligations.append(Obligation(f"{q}: frame", UNDECIDED, "; ".join(it.frame_writes[:4])))
    else:
        res.obligations.append(Obligation(f"{q}: frame", PROVED))


def candidate(ctx, s, kind, alphabet):
    """An input read off the solver's model of a failed obligation, if there is one."""
    try:
        m = ctx.solver.model()
        n = m.eval(z3.Length(s), model_completion=True).as_long()
        xs = [m.eval(s[j], model_completion=True).as_long() for j in range(n)] if n <= 2000 else None
    except (z3.Z3Exception, AttributeError):
        return None
    if xs is None:
        return None
    if kind == "bytes":
        return {"data": bytes(x % 256 for x in xs), "alphabet": alphabet}
    return {"text": "".join(chr(x % 0x110000) for x in xs), "alphabet": alphabet}


def alphabets():
    return [k.strip("'") for k in kinds.alternatives("alphabet")]


def b58_encode(engine, c, fn, res, active, budget):
    """encode(data, alphabet) = alphabet[0] * LEAD(data) ++ DIGITS58(value(data))."""
    for A in alphabets():
        lp = LoopProof(engine, c, res, set(active) - {c.q}, budget / 2, [A], False)

        def path(it, res):
            s = z3.Const("data", SeqS)
            it.seq_inputs = [s]
            g = seqs.ghosts(it)
            n = z3.Length(s)
            want = [g.rep(ord(A[0]), g.lead(None, s, n)), g.digits(58, A, g.value(s))]
            got = _call(engine, it, fn, c, {"data": SSeq("bytes", [s], s), "alphabet": A})
            res.ok_paths += 1
            if not engine.record(res, it, f"{c.q}: outcome", got[0] == "ok", str(got)):
                return True
            p = seqs.seq_parts(got[1], "str")
            if not engine.record(res, it, f"{c.q}: result",
                                 False if p is None else mk_bool(seqs.join(p) == seqs.join(want)), str(got)):
                res.obligations[-1].inputs = candidate(it.ctx, s, "bytes", A)
            engine.record(res, it, f"{c.q}: randomness", not it.ctx.events)
            _frame(engine, it, res, c.q)
            return True
        lp.prove(path)


def b58_decode(engine, c, fn, res, active, budget):
    """decode(data, alphabet): ValueError unless every character is a digit, else zeros ++ DIGITS256(value58(data))."""
    for A in alphabets():
        lp = LoopProof(engine, c, res, set(active) - {c.q}, budget / 2, [A], True)

        def path(it, res):
            s = z3.Const("data", SeqS)
            it.seq_inputs = [s]
            g = seqs.ghosts(it)
            n = z3.Length(s)
            ok = it.ctx.branch(g.okpre(A, s, n))
            want = [g.rep(0, g.lead(A, s, n)), g.digits(256, None, g.horner(58, A, s, n))]
            got = _call(engine, it, fn, c, {"data": SSeq("str", [s], s), "alphabet": A})
            if ok:
                res.ok_paths += 1
            else:
                res.rejecting_paths += 1
            good = got[0] == "ok" if ok else got[0] == "exc" and it.exc_matches(got[1], ValueError)
            if not engine.record(res, it, f"{c.q}: outcome", good, str(got)):
                res.obligations[-1].inputs = candidate(it.ctx, s, "text", A)
                return True
            if not ok:
                return True
            p = seqs.seq_parts(got[1], "bytes") if not (isinstance(got[1], SSeq) and got[1].kind == "bytearray") else None
            if not engine.record(res, it, f"{c.q}: result",
                                 False if p is None else mk_bool(seqs.join(p) == seqs.join(want)), str(got)):
                res.obligations[-1].inputs = candidate(it.ctx, s, "text", A)
            engine.record(res, it, f"{c.q}: randomness", not it.ctx.events)
            _frame(engine, it, res, c.q)
            return True
        lp.prove(path)


# ------------------------------------------------------------------ RIPEMD-160
def rmd_compress(engine, c, fn, res, active, budget):
    """compress(h0..h4, block): the 80 double steps of the published compression function, modulo 2^32."""
    from . import rmd, models as M
    if not rmd.self_test():
        raise Unsupported("the specification does not reproduce the published test vectors")

    def run(ctx):
        it = engine.interp(ctx, set(active) - {c.q})
        bound, vals = engine.arguments(it, c, fn)
        h = [x.e for x in vals[:5]]
        block = vals[5]
        words = [as_res(M.from_bytes(it, b_slice(block, 4 * j, 4 * j + 4), "little", False)) for j in range(16)]
        want = tuple(mk_res(x) for x in rmd.compress(rmd.Z3Words, h, words))
        it.inlined.clear()
        got = _call(engine, it, fn, c, bound)
        res.ok_paths += 1
        if not engine.record(res, it, f"{c.q}: outcome", got[0] == "ok", str(got)[:200]):
            return True
        ok = isinstance(got[1], (tuple, list)) and len(got[1]) == 5
        engine.record(res, it, f"{c.q}: shape", ok)
        for j in range(5 if ok else 0):
            engine.record(res, it, f"{c.q}: word {j}", prims.deep_eq(it, got[1][j], want[j]))
        engine.record(res, it, f"{c.q}: randomness", not it.ctx.events)
        _frame(engine, it, res, c.q)
        return True
    engine.explore(res, run, budget)


class Message(ModelObj):
    """A byte string of unknown length (64 * blocks + a tail of r bytes), possibly with known bytes appended, that is read
    in 64-byte blocks and a rest."""

    def __init__(self, n, blocks, r, suffix=b"", kind="bytes", of=None):
        self.n, self.blocks, self.r, self.suffix, self.kind = n, blocks, r, suffix, kind
        self.known = of.known if of else []
        self.padding = of.padding if of else []     # of the specification

    @property
    def model_class(self):
        return bytes if self.kind == "bytes" else bytearray

    def copy(self, kind=None, more=b""):
        return Message(self.n, self.blocks, self.r, b_cat(self.suffix, more), kind or self.kind, self)

    def block(self, off, ctx=None):
        off = z3.simplify(off)
        if ctx is None:
            self.known.append(off)
        else:
            for k in self.known:
                if ctx.must(k == off) == "yes":
                    off = k
                    break
        return SBytes(UF("MSG_BLOCK", BVS(64), BVS(512))(off))

    def tail(self):
        t = SBytes(z3.BitVec(f"MSG_TAIL{self.r}", 8 * self.r)) if self.r else b""
        return b_cat(t, self.suffix)

    def m_len(self, it):
        from . import models as M
        return M.binop(it, "Add", self.n, b_len(self.suffix)) if b_len(self.suffix) else self.n

    def m_truth(self, it):
        from . import models as M
        return it.truth(M.compare(it, "!=", self.m_len(it), 0))

    def m_binop(self, it, op, y, reflected):
        from . import models as M
        if op == "Add" and not reflected:
            return self.copy(more=self.known_bytes(it, y))
        raise Unsupported(f"{op} on the message")

    def known_bytes(self, it, y):
        from . import models as M
        if isinstance(y, SSeq):
            raise Unsupported("appending a sequence of unknown length")
        y = M.to_bytes(it, [y], {}) if isinstance(y, (list, tuple, SByteArray, bytearray)) else y
        if not M.is_fixed_bytes(y):
            raise Unsupported("appending this to the message")
        return y

    def m_bytes(self, it, ba):
        return self.copy("bytearray" if ba else "bytes")

    def m_iadd(self, it, y):
        if self.kind == "bytes":
            return self.m_binop(it, "Add", y, False)
        self.suffix = b_cat(self.suffix, self.known_bytes(it, y))
        return self

    def m_extend(self, it, y):
        if self.kind == "bytes":
            raise PyRaise(HExc(AttributeError, ("extend",)))
        self.m_iadd(it, y)

    def m_append(self, it, x):
        self.m_extend(it, [x])

    def getslice(self, it, lo, hi, step):
        from . import models as M
        ctx = it.ctx

        def sure(*cs):
            return all(c is True or isinstance(c, SBool) and ctx.must(c.e) == "yes" for c in cs)

        def cmp(op, x, y):
            return M.compare(it, op, x, y)
        if step not in (None, 1):
            raise Unsupported("stepped slice of the message")
        length = self.m_len(it)
        a = 0 if lo is None else lo
        b = length if hi is None else hi
        if not isinstance(a, (int, SInt)) or not isinstance(b, (int, SInt)):
            raise Unsupported("slice bounds")
        if sure(cmp(">=", a, 0), cmp("==", M.binop(it, "BitAnd", a, 63), 0)):
            e = as_bv(a)[0]
            e = ext(e, False, 64) if e.size() < 64 else z3.Extract(63, 0, e)
            end = z3.Concat(z3.ZeroExt(3, self.blocks), bvval(0, 6))         # of the complete blocks
            whole = sure(cmp("==", b, M.binop(it, "Add", a, 64)))
            if whole and sure(cmp("<=", b, self.n)):
                return self.block(e, ctx)
            rest = sure(cmp(">=", b, length))
            if (whole or rest) and sure(cmp("<=", a, length)):
                if not rest and ctx.branch(z3.ULT(e, end)):
                    return self.block(e, ctx)
                t = self.tail()
                for j in range(b_len(t) // 64 + 1):
                    if ctx.branch(e == end + 64 * j):
                        if not rest and j < len(self.padding):
                            # the blocks of the published padding go on after the complete blocks of the message
                            ctx.axiom(self.block(e, ctx).e == self.padding[j][0])
                        return b_slice(t, 64 * j, None if rest else 64 * j + 64)
        raise Unsupported("slice of the message that is neither a block nor the rest")


def rmd_digest(engine, c, fn, res, active, budget):
    """ripemd160(data) = the published iteration over the padded message, for every length below 2^61."""
    from . import rmd, models as M
    if not rmd.self_test():
        raise Unsupported("the specification does not reproduce the published test vectors")
    lp = LoopProof(engine, c, res, set(active) - {c.q}, budget, [], False)
    lp.words = True

    def fold(i):
        i = z3.simplify(i)
        return [UF(f"RMD_FOLD{j}", BVS(64), BVS(32))(i) for j in range(5)]

    canon = {}

    def state(it, i):
        """fold(i); the ghosts go on over the blocks of the padding."""
        i = z3.simplify(i)
        if z3.is_const(i) or z3.is_bv_value(i) or z3.is_app(i) and i.decl().kind() == z3.Z3_OP_BADD:
            return fold(i)
        k = eid(i)
        if k not in canon:
            canon[k] = i
            for last, j, st in it.message.padding:
                if it.ctx.must(i == j) == "yes":
                    canon[k] = j
                    for _, j2, st2 in it.message.padding:
                        for x, y in zip(fold(j2), st2):
                            it.ctx.axiom(x == y)
                    break
        return fold(canon[k])

    def extra(it, env, lpk, pre, seq, n):
        def step(i):
            for x, y in zip(fold(i + 1), prims.rmd_step(fold(i), it.message.block(64 * i).e)):
                it.ctx.axiom(x == y)
        out = []
        for k in sorted(pre):
            v = env.vars.get(k)
            if isinstance(v, (tuple, list)) and len(v) == 5 and all(isinstance(x, (int, SInt)) for x in v):
                out.append(Cand(f"{k} = state after i blocks", lambda i, v=v: z3.And(
                    [as_res(x) == y for x, y in zip(v, state(it, i))]), step))
            elif isinstance(v, (int, SInt)) and not isinstance(v, bool) and not (isinstance(v, SInt) and v.k == "z"):
                for j in range(5):
                    out.append(Cand(f"{k} = word {j} of the state after i blocks",
                                    lambda i, v=v, j=j: as_res(v) == state(it, i)[j], step))
        return out
    lp.extra = extra

    tried = {}             # residue -> blocks of a candidate input

    def path(it, res):
        ctx = it.ctx
        Q = z3.BitVec("blocks", 55)                            # precondition: fewer than 2^61 bytes
        r = ctx.choose(64)
        n = z3.Concat(Q, bvval(r, 6))
        it.message = Message(mk_int(n), Q, r)
        canon.clear()
        it.seq_inputs = []
        for x, v in zip(fold(bvval(0, 64)), rmd.IV):
            ctx.axiom(x == v)
        tail = SBytes(z3.BitVec(f"MSG_TAIL{r}", 8 * r)) if r else b""
        fin = b_cat(b_cat(tail, b"\x80" + bytes((55 - r) % 64)), _le64(z3.Concat(n, bvval(0, 3))))
        Q64 = z3.ZeroExt(9, Q)
        st = fold(Q64)
        for i in range(0, b_len(fin), 64):
            last = b_e(b_slice(fin, i, i + 64))
            st = prims.rmd_step(st, last)
            it.message.padding.append((last, z3.simplify(Q64 + i // 64 + 1), st))
        want = b""
        for j in range(5):
            w = st[j]
            want = b_cat(want, SBytes(z3.Concat([z3.Extract(8 * k + 7, 8 * k, w) for k in range(4)])))
        got = _call(engine, it, fn, c, {"data": it.message})
        res.ok_paths += 1
        if not engine.record(res, it, f"{c.q}: outcome", got[0] == "ok", str(got)[:300]):
            return True
        same = prims.deep_eq(it, got[1], want)
        if not engine.record(res, it, f"{c.q}: result", same, str(got)[:300]):
            if r not in tried and len(tried) < 3:
                tried[r] = shortest(ctx, Q, same)
            if tried.get(r) is not None:
                res.obligations[-1].inputs = {"data": bytes(64 * tried[r] + r)}
        engine.record(res, it, f"{c.q}: randomness", not ctx.events)
        _frame(engine, it, res, c.q)
        return True
    lp.prove(path)


def shortest(ctx, blocks, same):
    """A small number of blocks for which the obligation fails (a candidate input: the invariants may be too weak)."""
    neg = z3.Not(same.e) if isinstance(same, SBool) else z3.BoolVal(not same)
    for k in [0, 1, 2, 3, 5, 7, 8, 15, 31] + [2 ** j + d for j in range(6, 18) for d in (0, 1)]:
        if ctx.check(neg, blocks == k, ms=1000) == z3.sat:
            return k
    return None


def _le64(e):
    return mk_bytes(z3.Concat([z3.Extract(8 * k + 7, 8 * k, e) for k in range(8)]))


PROOFS = {"b58_encode": b58_encode, "b58_decode": b58_decode, "rmd_compress": rmd_compress, "rmd_digest": rmd_digest}
