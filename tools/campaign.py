"""Mutation campaign over the package: every mutant's functions go through the verifier.

python3-vt tools/campaign.py OUT.jsonl [module-substring] [function-substring]
A mutant the verifier proves is equivalent, out of the contract's domain, or shows a hole in the verifier.
"""
import ast, json, os, shutil, subprocess, sys, tempfile, time
from multiprocessing import Pool
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
THEOREMS = {
    "p2pkh_address": ["c12_encode", "c12_decode"],
    "secp256k1": ["c14_"],
    "__init__": ["c16_"],
}
CMP = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "Is": "is not", "IsNot": "is",
       "In": "not in", "NotIn": "in"}
BIN = {"Add": "-", "Sub": "+", "Mult": "+", "FloorDiv": "%", "Mod": "//", "BitAnd": "|", "BitOr": "&", "BitXor": "|",
       "LShift": ">>", "RShift": "<<", "Div": "*"}


def mutants(src):
    t = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def off(ln, col):
        return starts[ln - 1] + col

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def emit(fn, n, new, what):
        a, b = span(n)
        out.append(dict(fn=fn, line=n.lineno, a=a, b=b, new=new, what=what, old=raw[a:b].decode()))

    def walk(n, fn, docs):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if fn == "" and isinstance(n, ast.ClassDef) and n.name.startswith("Test"):
                return
            fn = (fn + "." if fn else "") + n.name
            for s in n.body:
                walk(s, fn, docs)
            return
        if isinstance(n, ast.Raise):
            if fn:
                emit(fn, n, "pass", "drop raise")
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)) or isinstance(n, ast.AnnAssign) and n.value is None:
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if not fn:
            return
        if isinstance(n, ast.AnnAssign):
            walk(n.value, fn, docs)
            return
        if isinstance(n, ast.Compare):
            for op, (l, r) in zip(n.ops, zip([n.left] + n.comparators, n.comparators)):
                if len(n.ops) == 1:
                    emit(fn, n, f"({text(l)} {CMP[type(op).__name__]} {text(r)})", "compare")
        if isinstance(n, ast.BinOp):
            if type(n.op).__name__ in BIN:
                emit(fn, n, f"({text(n.left)} {BIN[type(n.op).__name__]} {text(n.right)})", "operator")
            emit(fn, n, f"({text(n.right)} {ast.unparse(ast.BinOp(ast.Name('x'), n.op, ast.Name('y')))[2:-2]} {text(n.left)})",
                 "operands swapped")
        if isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            emit(fn, n, "(" + j.join(text(v) for v in n.values) + ")", "and/or")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            emit(fn, n.test, "True", "condition True")
            emit(fn, n.test, "False", "condition False")
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                emit(fn, n, str(not v), "constant")
            elif isinstance(v, int):
                emit(fn, n, str(v + 1), "constant")
                emit(fn, n, f"({v - 1})", "constant")
            elif v in ("big", "little"):
                emit(fn, n, repr("little" if v == "big" else "big"), "constant")
            elif isinstance(v, str):
                emit(fn, n, repr(v + "x"), "constant")
            elif isinstance(v, bytes) and v:
                emit(fn, n, repr(v[:-1] + bytes([v[-1] ^ 1])), "constant")
            return
        if isinstance(n, ast.Call):
            if len(n.args) == 1 and not n.keywords:
                emit(fn, n, text(n.args[0]), "call dropped")
            if len(n.args) >= 2:
                for i in range(len(n.args) - 1):
                    a, b = span(n)
                    x, y = n.args[i], n.args[i + 1]
                    new = text(n)
                    new = raw[a:span(x)[0]] + text(y).encode() + raw[span(x)[1]:span(y)[0]] + text(x).encode() + \
                        raw[span(y)[1]:b]
                    emit(fn, n, new.decode(), "arguments swapped")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            for part in ("lower", "upper"):
                e = getattr(s, part)
                if e is not None:
                    emit(fn, e, f"({text(e)}) + 1", "slice")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(n, ast.Expr):
            emit(fn, n, "pass", "statement dropped")
        if isinstance(n, ast.Return) and n.value is not None:
            emit(fn, n, "return None", "return None")
        for c in ast.iter_child_nodes(n):
            walk(c, fn, docs)
    for s in t.body:
        walk(s, "", None)
    return out, raw


def task(m):
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="camp")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        raw = open(f"{r}/{m['file']}", "rb").read()
        open(f"{r}/{m['file']}", "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
        p = subprocess.run(["/opt/venv/bin/python", "-B", "-c", "import bip38"], cwd=r, capture_output=True)
        if p.returncode:
            return dict(m, status="import fails", t=0)
        from engine import verify
        e = verify.Engine(repo=r)
        mod = m["file"][:-3].replace("/", ".")
        q = mod + "." + m["fn"]
        res = {}
        if q in e.contracts:
            todo = [("contract", q)]
        elif mod.endswith("libs.base58"):
            todo = [("contract", mod + ".encode"), ("contract", mod + ".check_encode"),
                    ("theorem", "c10_plain"), ("theorem", "c12_alphabet")]
        else:
            pre = THEOREMS["__init__"] if m["fn"].endswith("__init__") and "bip38.bip38" in mod else \
                next((v for k, v in THEOREMS.items() if k in mod), ["c10_"])
            import engine.check as ck
            names = [n for p in ("C10", "C12", "C14", "C16") for n in ck.theorem_names(p)]
            todo = [("theorem", n) for n in names if any(n.startswith(x) for x in pre)]
        for k, n in todo:
            x = e.verify_contract(n, frozenset(e.contracts), budget=400) if k == "contract" else \
                e.verify_theorem(n, frozenset(e.contracts), budget=400)
            res[n] = x.status
            if x.status == "undecided":
                m["why"] = (x.error or "")[:150] or str([o.name for o in x.obligations if o.status != "proved"][:2])[:200]
            if x.status == "refuted":
                break
        st = "refuted" if "refuted" in res.values() else "undecided" if "undecided" in res.values() else "proved"
        if not res:
            st = "nothing checks it"
        if st != "refuted":
            p = subprocess.run("/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider tests bip38/libs/ripemd160.py",
                               shell=True, cwd=r, capture_output=True)
            m["tests"] = "pass" if p.returncode == 0 else "fail"
        return dict(m, status=st, t=round(time.time() - t0, 1))
    except Exception as ex:
        return dict(m, status="engine: " + repr(ex)[:200], t=0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, msub, fsub = sys.argv[1], (sys.argv[2:3] or [""])[0], (sys.argv[3:4] or [""])[0]
    ms = []
    for root, _, fs in os.walk("/repo/bip38"):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(root, f), "/repo")
            if f.endswith(".py") and f not in ("info.py", "cryptocurrencies.py", "const.py") and msub in p:
                got, _ = mutants(open("/repo/" + p).read())
                ms += [dict(g, file=p) for g in got if fsub in g["fn"]]
    done = set()
    if os.path.exists(out):
        done = {(x["file"], x["a"], x["b"], x["new"]) for x in map(json.loads, open(out))}
    ms = [m for m in ms if (m["file"], m["a"], m["b"], m["new"]) not in done]
    print(len(ms), "mutants", flush=True)
    if "-n" in sys.argv:
        return
    with Pool(int(os.environ.get("W", "6")), maxtasksperchild=4) as p, open(out, "a") as o:
        for x in p.imap_unordered(task, ms):
            o.write(json.dumps(x) + "\n")
            o.flush()


main()
