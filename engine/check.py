"""One property: obligations from /repo's current source, then the native stage.  python3-vt -B -m engine.check C01 [tier]

Exit 0: held.  Exit 1 and a VIOLATION line: broken.
"""
import json
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
NATIVE = ["/opt/venv/bin/python", "-B", os.path.join(HERE, "engine", "native.py")]
HISTORY = "h16_history"

# A contract in this list that the verifier cannot decide (it is never kept when refuted) stays in use while the bounded
# search of these theorems finds nothing: reported as bounded, never counted as proved.
STANDINS = {
    "bip38.libs.base58.encode": ["c10_plain", "c10_default"],
    "bip38.libs.base58.decode": ["c10_plain", "c10_strict"],
    "bip38.libs.ripemd160.ripemd160": ["c13_bundled"],
}

TRUSTED = [
    "the verification-condition generator /verif/engine (Python semantics of the constructs it accepts; anything else is "
    "undecided)",
    "z3 5.x (SMT back end)",
    "Lean 4 and its own axioms (propext, Quot.sound, Classical.choice), for the lemmas that need induction",
    "assumed contract: hashlib sha256/ripemd160 compute the standard digests (uninterpreted functions of the message)",
    "assumed contract: scrypt.hash / hashlib.scrypt is a function of (password, salt, N, r, p, length) returning that many "
    "bytes",
    "assumed contract: pyaes ECB encrypt/decrypt of one block are mutually inverse functions of (key, block)",
    "assumed contract: ecdsa group operations and point encodings implement the secp256k1 group of prime order N with SEC 1 "
    "encodings",
    "assumed contract: unicodedata.normalize is an idempotent function of the form and text",
    "assumed contract: os.urandom(n) returns n bytes",
    "CPython built-ins (int, bytes, str, list, dict, struct, binascii) as modelled by /verif/engine/models.py and lib.py",
]
ASSUMPTIONS = [
    "currency classes are quantified over as any table of one- or two-byte prefixes (the shape C17's check evaluates on "
    "every row); every declared alphabet is the Bitcoin or the Ripple one",
    "hash collisions are not excluded: equal digests are concluded only from equal messages",
    "machine resources are unbounded (no MemoryError, no recursion limit)",
    "empty strings given as owner_salt, seed or network mean 'not given', as in the code's documented defaults",
    "messages of the bundled RIPEMD-160 are shorter than 2^61 bytes (C13; every other use passes 32 bytes)",
    "the flag bytes BIP-38 leaves undefined for EC-multiplied strings are outside the domain",
]


class Budget:
    def __init__(self, tier, seed):
        th = tier == "thorough"
        self.tier, self.seed = tier, seed
        self.proof_s = 3000 if th else 420           # wall seconds for all obligations
        self.task_cpu = 6000 if th else 900          # processor seconds for one function
        self.smoke_s = 300 if th else 8              # native search behind a finished proof
        self.hunt_s = 900 if th else 60              # native search, fast mode, for what is not proved
        self.real_s = 600 if th else 45              # ... with the real scrypt
        self.pin_s = 600 if th else 100              # making a stand-in failure real


def say(*a):
    print(*a, flush=True)


def native(job, extra=60):
    """One native search; {} when it could not be run."""
    d = tempfile.mkdtemp(prefix="verif_")
    try:
        a, b = os.path.join(d, "job.json"), os.path.join(d, "out.json")
        json.dump(job, open(a, "w"))
        p = subprocess.run(NATIVE + ["search", a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=job["seconds"] + 90 + extra, cwd=d)
        if os.path.exists(b):
            return json.load(open(b))
        return dict(trials={}, skipped=0, failures=[], errors=[p.stdout.decode(errors="replace")[-600:]])
    except subprocess.TimeoutExpired:
        return dict(trials={}, skipped=0, failures=[], errors=["native search timed out"])
    finally:
        subprocess.run(["rm", "-rf", d])


def replay(case, limit=400):
    """Runs a case in a fresh process: its outcome, or None."""
    d = tempfile.mkdtemp(prefix="verif_")
    try:
        a, b = os.path.join(d, "case.json"), os.path.join(d, "out.json")
        json.dump(case, open(a, "w"))
        subprocess.run(NATIVE + ["replay", a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, cwd=d)
        return json.load(open(b)) if os.path.exists(b) else None
    except subprocess.TimeoutExpired:
        return None
    finally:
        subprocess.run(["rm", "-rf", d])


def fails(case, limit=400):
    r = replay(case, limit)
    return r if r and r["status"] == "fail" else None


def confirm(f, budget, log):
    """A failing search trial made into a replay case on the real code with nothing stubbed, or None."""
    call = dict(theorem=f["theorem"], dseed=f["dseed"], rseed=f["rseed"], hint=f.get("hint"))
    explicit = dict(theorem=f["theorem"], args=f["args"], draws=f["draws"])
    for fast in ((False, True) if f["fast"] else (False,)):
        # with fast first tells whether the process history matters
        if fast:
            continue
        for c in (call, explicit):
            r = fails(dict(fast=False, calls=[c]))
            if r:
                final = dict(fast=False, calls=[r["last"]])
                r2 = fails(final)
                if r2:
                    return final, r2
                return dict(fast=False, calls=[c]), r
    alone = fails(dict(fast=f["fast"], calls=[call]))
    if alone and f["fast"]:
        log("the failure depends on derived values; searching with the real scrypt")
        out = native(dict(theorems=[f["theorem"]], seconds=budget.pin_s, seed=budget.seed, fast=False, workers=8,
                          pinned=f["dseed"], pinned_hint=f.get("hint")))
        for g in out["failures"]:
            c = dict(fast=False, calls=[dict(theorem=g["theorem"], args=g["args"], draws=g["draws"])])
            r = fails(c)
            if r:
                return c, r
        return None
    if not alone and f.get("history"):
        log("the failure depends on earlier calls; minimising the history")
        hist = [dict(theorem=h[0], dseed=h[1], rseed=h[2], hint=h[3]) for h in f["history"]]
        end = time.time() + 60

        def bad(hs, fast):
            return fails(dict(fast=fast, shared=f.get("shared", False), calls=hs + [call]), 200)
        keep = None
        k = 1
        while k <= 2 * len(hist) and time.time() < end:
            if bad(hist[-k:], f["fast"]):
                keep = hist[-k:]
                break
            k *= 2
        if keep is None:
            return None
        n = max(1, len(keep) // 2)
        while len(keep) > 1 and time.time() < end:
            for i in range(0, len(keep), n):
                t = keep[:i] + keep[i + n:]
                if bad(t, f["fast"]):
                    keep = t
                    break
            else:
                if n == 1:
                    break
                n = max(1, n // 2)
            n = min(n, max(1, len(keep) // 2)) if keep else 1
        r = bad(keep, False)
        if r:
            return dict(fast=False, shared=f.get("shared", False), calls=keep + [call]), r
    return None


def theorem_names(prop):
    text = open(os.path.join(HERE, "contracts", "theorems.py"), encoding="utf-8").read()
    return re.findall(rf"^def ({prop.lower()}_\w+)\(", text, re.M)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.b = Budget(tier, self.seed)
        self.t0 = time.time()
        self.names = theorem_names(prop)
        self.cov = {}
        self.violation = None
        self.native_log = []
        self.results = {}
        self.active = frozenset()
        self.load_error = None
        self.bounded = []
        self.engine = None
        self.lemmas = {}

    def log(self, m):
        say(f"[{time.time() - self.t0:6.1f}s] {m}")

    # ------------------------------------------------------------ proof
    def prove(self):
        from engine import verify, pool
        sys.setrecursionlimit(20000)
        t = time.time()
        try:
            e = verify.Engine(repo=REPO)
        except Exception as ex:
            self.load_error = f"{type(ex).__name__}: {ex}"
            self.log(f"the source is outside the verifier's subset: {self.load_error}")
            return
        self.engine = e
        self.log(f"source read ({time.time() - t:.1f} s)")
        from engine import lemmas
        run = lemmas.Run()
        p = pool.Pool(e)
        try:
            self.results, self.active, self.standin = pool.verify(
                e, p, [("theorem", n) for n in self.names], self.b.task_cpu, deadline=time.time() + self.b.proof_s,
                log=self.log, standins=set(STANDINS))
        finally:
            p.close()
        used = set().union(*[r.used for r in self.results.values()]) if self.results else set()
        if used & lemmas.USERS:
            self.lemmas = run.result()
            self.log(f"lemmas (Lean): {sum(v is None for v in self.lemmas.values())} of {len(self.lemmas)} proved"
                     + "".join(f"; {k}: {v}" for k, v in self.lemmas.items() if v is not None))
        elif run.p:
            run.p.kill()
            run.p.communicate()

    def status(self, n):
        r = self.results.get(("theorem", n))
        return r.status if r else "undecided"

    # ------------------------------------------------------------ native stage
    def search(self, names, seconds, fast, what, hints=None):
        out = native(dict(theorems=names, seconds=seconds, seed=self.seed, fast=fast, hints=hints or {}, workers=8,
                          enough=4 if not fast else 12, max_found=3))
        self.native_log.append(dict(what=what, theorems=names, seconds=seconds, scrypt="stand-in" if fast else "real",
                                    trials=out["trials"], skipped=out["skipped"], failures=len(out["failures"]),
                                    errors=out["errors"][:3]))
        self.log(f"{what}: {sum(out['trials'].values())} trials, {len(out['failures'])} failures"
                 + (f", errors {out['errors'][:1]}" if out["errors"] else ""))
        return out

    def hunt(self, names, seconds, fast, what, hints=None):
        """Search and confirm; True when a violation was established."""
        out = self.search(names, seconds, fast, what, hints)
        tried = set()
        for f in out["failures"]:
            key = (f["theorem"], f["line"])
            if key in tried or len(tried) > 2:
                continue
            tried.add(key)
            self.log(f"candidate: {f['theorem']}:{f['line']} {f['detail'][:300]}")
            got = confirm(f, self.b, self.log)
            if got:
                case, r = got
                self.report(case, r, f)
                return True
            self.stub_failure = f
            self.stub_rate = len(out["failures"]) / max(1, out["trials"].get(f["theorem"], 0))
        return False

    def report(self, case, r, f):
        obl = [o for n in self.names for o in self.failed(n)]
        case = dict(case, property=self.prop, detail=r["detail"], line=r.get("line"), kind="input",
                    failed_obligations=[self.describe(o) for o in obl][:6],
                    how="/opt/venv/bin/python -B /verif/engine/native.py replay <this file>   (exit status 1: fails)")
        self.violation = (self.write_replay(case), True)
        self.log(f"confirmed on the real code: {r['detail'][:400]}")

    def write_replay(self, case):
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}.json")
        json.dump(case, open(path, "w"), indent=1)
        return path

    def describe(self, o):
        return dict(obligation=o.name, status=o.status, detail=o.detail, inputs=self.plain(o.inputs), inexact=o.inexact,
                    line=o.line)

    def plain(self, v):
        if isinstance(v, dict):
            return {str(k): self.plain(x) for k, x in v.items()}
        if isinstance(v, (bytes, bytearray)):
            if len(v) > 4096 and v.count(v[0]) == len(v):
                return {"repeat": [v[0], len(v)]}
            return {"hex": bytes(v).hex()}
        if isinstance(v, int) and not isinstance(v, bool):
            return {"int": str(v)}
        if isinstance(v, str):
            if any(0xd800 <= ord(c) < 0xe000 for c in v):
                return {"text": [ord(c) for c in v]}
            return v
        if v is None or isinstance(v, bool):
            return v
        return repr(v)

    def failed(self, name, kind="theorem"):
        r = self.results.get((kind, name))
        return [o for o in r.obligations if o.status != "proved"] if r else []

    def hints(self, names):
        """Candidate arguments from the solver's models of failed obligations."""
        models = []
        for (k, n), r in self.results.items():
            for o in r.obligations:
                if o.status != "proved" and o.inputs:
                    models.append((n, o.inputs))
        out = {}
        for n in names:
            params = dict(self.engine.theorem_params(n))
            hs = []
            for src, m in models:
                h = {p: self.plain(v) for p, v in m.items()
                     if p in params and isinstance(v, (str, bytes, int, bool)) and v is not None}
                if h and h not in hs:
                    hs.append(h)
            if hs:
                out[n] = hs[:12]
        return out

    def tables(self):
        d = tempfile.mkdtemp(prefix="verif_")
        try:
            o = os.path.join(d, "o.json")
            p = subprocess.run([NATIVE[0], "-B", os.path.join(HERE, "engine", "tables.py"), o], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, cwd=d, timeout=120)
            if not os.path.exists(o):
                return dict(obligations=1, bad=["the tables cannot be read: " + p.stdout.decode(errors="replace")[-500:]],
                            samples=[], rows=0, classes=0, sources=[])
            return json.load(open(o))
        finally:
            subprocess.run(["rm", "-rf", d])

    # ------------------------------------------------------------ all
    def run(self):
        self.stub_failure = None
        self.standin = frozenset()
        tab = None
        if self.prop == "C17":
            tab = self.tables()
            self.log(f"tables: {tab['obligations']} row obligations, {len(tab['bad'])} fail")
            if tab["bad"]:
                self.violation = (self.write_replay(dict(
                    kind="obligation", property="C17", failed=tab["bad"],
                    how="/opt/venv/bin/python -B /verif/engine/tables.py OUT.json prints the failing rows")), True)
        self.tab = tab
        self.prove()
        open_ = [n for n in self.names if self.status(n) != "proved"]
        refuted = [n for n in open_ if self.status(n) == "refuted"]
        # bounded stand-ins: the contracts kept although undecided
        if self.standin and not self.violation:
            names = sorted({t for q in self.standin for t in STANDINS[q]})
            out = self.search(names, 12 if self.tier == "quick" else 120, True,
                              "bounded stand-in for " + ", ".join(sorted(self.standin)), self.hints(names))
            bad = []
            for f in out["failures"]:
                r = fails(dict(fast=False, calls=[dict(theorem=f["theorem"], args=f["args"], draws=f["draws"])]))
                if r:
                    bad.append(f)
                    if f["theorem"] in self.names:
                        self.log(f"candidate: {f['theorem']}:{f['line']} {f['detail'][:300]}")
                        self.report(dict(fast=False, calls=[r["last"]]), r, f)
                        break
            self.bounded = sorted(self.standin)
            if bad and not self.violation:
                # the contract is false: nothing that rests on it counts
                open_ = [n for n in self.names
                         if n in open_ or self.results[("theorem", n)].used & self.standin or self.standin_below(n)]
                self.standin_broken = True
        if not self.violation:
            if open_:
                hints = self.hints(open_) if self.engine else {}
                ok = self.hunt(open_, self.b.hunt_s, True, "native search (not proved)", hints)
                if not ok and self.prop == "C16":
                    ok = self.hunt([HISTORY], self.b.hunt_s // 2, True, "native histories")
                if not ok:
                    ok = self.hunt(open_, self.b.real_s, False, "native search, real scrypt (not proved)", hints)
            elif self.names:
                self.hunt(self.names, self.b.smoke_s, True, "native conformance run")
                if not self.violation and self.prop == "C16":
                    self.hunt([HISTORY], self.b.smoke_s, True, "native histories")
        if not self.violation and (refuted or (open_ and self.stub_failure and self.stub_rate < 0.5)):
            case = dict(kind="obligation", property=self.prop,
                        failed_obligations=[self.describe(o) for n in (refuted or open_) for o in self.failed(n)][:8],
                        verifier=[r.summary() for r in self.results.values()],
                        stub_case=self.stub_failure and {k: v for k, v in self.stub_failure.items() if k != "history"},
                        note="the verifier refutes these obligations on the current source; no failing input was found")
            self.violation = (self.write_replay(case), False)
        self.open_ = open_
        self.evidence()
        if self.violation:
            path, found = self.violation
            say(f"VIOLATION property={self.prop} replay={path}" + ("" if found else " no-failing-input-found"))
            return 1
        say(f"{self.prop}: held ({self.cov['discharged']}/{self.cov['obligations']} obligations discharged, "
            f"{time.time() - self.t0:.1f} s)")
        return 0

    def standin_below(self, n):
        """Does the proof of theorem n rest on a stand-in, directly or through contracts?"""
        seen, todo = set(), set(self.results[("theorem", n)].used)
        while todo:
            q = todo.pop()
            if q in seen:
                continue
            seen.add(q)
            r = self.results.get(("contract", q))
            if r:
                todo |= r.used
        return bool(seen & set(self.standin))

    def evidence(self):
        obs = [o for r in self.results.values() for o in r.obligations]
        extra = self.tab["obligations"] if self.tab else 0
        total = len(obs) + extra + len(self.lemmas)
        done = sum(o.status == "proved" for o in obs) + sum(v is None for v in self.lemmas.values()) + (extra - len(self.tab["bad"]) if self.tab else 0)
        for r in self.results.values():            # a task that stopped early has obligations it never reached
            if r.error:
                total += 1
        if self.load_error:
            total += len(self.names)
        con = {q: r for (k, q), r in self.results.items() if k == "contract"}
        inl = set().union(*[r.inlined for r in self.results.values()]) if self.results else set()
        assumptions = list(ASSUMPTIONS)
        for q in self.bounded:
            assumptions.append(f"bounded, not proved: the contract of {q} (seeded native search of {STANDINS[q]})")
        for n in self.open_:
            assumptions.append(f"bounded, not proved: theorem {n} (seeded native search)")
        self.cov = dict(
            obligations=total, discharged=done,
            checker_cmd=f"python3-vt -B -m engine.check {self.prop} {self.tier}",
            trusted_base=TRUSTED,
            theorems={n: self.status(n) for n in self.names},
            functions_under_contract={q: r.status if q not in self.bounded else "bounded stand-in"
                                      for q, r in sorted(con.items())},
            functions_executed_inline=sorted(x for x in inl if x.startswith("bip38"))[:200],
            not_discharged=[dict(task=r.name, error=r.error, open=[o.name for o in r.obligations if o.status != "proved"][:5])
                            for r in self.results.values() if r.status != "proved"],
            back_ends={"z3": sum(r.queries for r in self.results.values())},
            solver_s=round(sum(r.solver_s for r in self.results.values()), 1),
            verifier_cpu_s=round(sum(r.wall for r in self.results.values()), 1),
            paths=sum(r.paths for r in self.results.values()),
            native=self.native_log,
            load_error=self.load_error,
        )
        if self.lemmas:
            self.cov["lemmas"] = {k: v or "proved" for k, v in self.lemmas.items()}
            self.cov["back_ends"]["Lean 4"] = len(self.lemmas)
            assumptions += [f"lemma not proved: {k} ({v})" for k, v in self.lemmas.items() if v is not None]
        if self.tab:
            self.cov["tables"] = {k: self.tab[k] for k in ("rows", "classes", "sources", "samples", "obligations")}
            self.cov["tables"]["failing"] = self.tab["bad"][:20]
            self.cov["back_ends"]["ground evaluation (CPython)"] = extra
            self.cov["exhaustive"] = True
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="proof", coverage=self.cov,
                  assumptions=assumptions, wall_s=round(time.time() - self.t0, 1), violations=1 if self.violation else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", f"{self.prop}.json"), "w"), indent=1)


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.dont_write_bytecode = True
    return Check(prop, tier).run()


if __name__ == "__main__":
    sys.exit(main())
