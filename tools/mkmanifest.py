"""Writes MANIFEST.json from the theorems and properties."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(f"{HERE}/contracts/theorems.py").read()
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
NOTE = ("Every obligation of the theorems and of the function contracts under them is discharged from /repo's current source "
        "on every run, for all inputs (no bound): by z3 function by function, loops over data of unbounded length by the loop "
        "rule (invariants inferred and proved inductive, variants for while loops), and the lemmas of Base58 that need "
        "induction by Lean 4. Trusted: the VC generator in /verif/engine, z3, Lean 4, and assumed contracts on hashlib, "
        "scrypt, pyaes, ecdsa, unicodedata, os.urandom and CPython built-ins. A function or theorem the verifier cannot "
        "decide after a change is covered by a seeded native search of the same theorem and reported as bounded in the "
        "evidence; none is on the committed tree.")
EXTRA = {
    "C17": " The table rows themselves are a finite data invariant, evaluated on every row against the documentation tables.",
    "C13": " The standard digests are those of hashlib (assumed). The bundled RIPEMD-160 is proved against the published "
           "definition for every message shorter than 2^61 bytes.",
    "C16": " Purity is a frame condition of every function; native call histories run in addition.",
}
checks = []
for p in props:
    i = p["id"]
    th = re.findall(rf"^def ({i.lower()}_\w+)\(", text, re.M)
    checks.append(dict(
        property=i, quick_cmd=f"python3-vt -B -m engine.check {i} quick",
        thorough_cmd=f"python3-vt -B -m engine.check {i} thorough", evidence_file=f"evidence/{i}.json",
        technique="contract-based deductive verification (own VC generator over the Python AST of /repo; z3, Lean 4 for lemmas)",
        level="proof", level_note=NOTE + EXTRA.get(i, ""), theorems=th))
m = dict(version=1, setup_cmd="mkdir -p evidence && python3-vt -B -c 'import z3'", checks=checks, not_applicable=[],
         notes="Genuine defects repaired in /repo are listed in known_findings.txt; no hooks were needed.")
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
open(f"{HERE}/MANIFEST.json", "a").write("\n")
