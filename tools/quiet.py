"""Run every check on behaviour-preserving edits (tools/refactors.py): python3 tools/quiet.py BATCH [Cxx ...]"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + "/tools/refactors.py").read())
batch = sys.argv[1]
props = sys.argv[2:] or [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
t = tempfile.mkdtemp(prefix="quiet")
try:
    r = t + "/repo"
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    for f, old, new in BATCHES[batch]:
        many = f.startswith("*")
        f = f.lstrip("*")
        s = open(f"{r}/{f}").read()
        if old not in s or not many and s.count(old) != 1:
            print("EDIT DOES NOT APPLY", f, s.count(old), old[:80])
            continue
        s = s.replace(old, new)
        open(f"{r}/{f}", "w").write(s)
    q = subprocess.run("/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider tests bip38/libs/ripemd160.py", shell=True, cwd=r,
                       capture_output=True, text=True)
    print("tests", q.returncode, q.stdout[-300:] if q.returncode else "")
    if props == ["none"]:
        props = []
    for p in props:
        t0 = time.time()
        q = subprocess.run(["python3-vt", "-B", "-m", "engine.check", p], cwd=V,
                           env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
        ev = json.load(open(f"{V}/evidence/{p}.json"))
        und = [o for o in ev.get("undecided", [])] if isinstance(ev.get("undecided"), list) else ""
        print(batch, p, "quiet" if q.returncode == 0 else f"ALARM rc={q.returncode}", "%.0fs" % (time.time() - t0),
              (q.stdout.strip().splitlines() or [""])[-1][:120] if q.returncode == 0 else q.stdout[-700:] + q.stderr[-300:], flush=True)
finally:
    shutil.rmtree(t, ignore_errors=True)
