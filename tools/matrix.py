"""Run checks against planted bugs, each in a scratch copy of /repo.

python3 tools/matrix.py [-a] [ids...]   (-a: every check, not only the bug's own)
"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allc = "-a" in sys.argv
ids = [a for a in sys.argv[1:] if a != "-a"] or sorted(os.listdir(V + "/seeded"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for i in ids:
    d = f"{V}/seeded/{i}"
    own = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="matrix")
    try:
        r = t + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], check=True)
        for p in (props if allc else [own]):
            t0 = time.time()
            q = subprocess.run(["python3-vt", "-B", "-m", "engine.check", p], cwd=V,
                               env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
            mark = "CAUGHT" if q.returncode == 1 and v else f"MISSED rc={q.returncode}"
            if allc and p != own and q.returncode == 0:
                continue
            nf = " NFI" if any(x.endswith("no-failing-input-found") for x in v) else ""
            print(i, p, mark + nf, "%.0fs" % (time.time() - t0), flush=True)
            if q.returncode not in (0, 1):
                print(q.stdout[-1500:], q.stderr[-1500:], flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)
