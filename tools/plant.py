"""Makes /verif/seeded/<id>/ from the list below and confirms each in a scratch copy: patch applies, stable tests pass,
demonstration passes without and fails with the change.   plant.py [id ...]"""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "bip38/bip38.py"
HEAD = "import sys, os\nsys.path.insert(0, os.getcwd())\n"
SH = '#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=HEAD + demo, needs=needs, what=what))


exec(open(os.path.join(HERE, "tools", "bugs.py")).read())


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    want = set(sys.argv[1:])
    tmp = tempfile.mkdtemp(prefix="plant_")
    wt = tmp + "/repo"
    shutil.copytree("/repo", wt, symlinks=True)
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        d = f"{HERE}/seeded/{b['id']}"
        sh("git checkout -q -- . && git clean -fdq", cwd=wt)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        ok = sh(f"sh {d}/demo.sh", cwd=wt, timeout=300)
        bad = []
        if ok.returncode:
            bad.append("demo fails on the unchanged tree: " + ok.stdout[-600:])
        for f, old, new in b["edits"]:
            p = f"{wt}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                bad.append(f"{f}: {s.count(old)} occurrences of {old[:50]!r}")
                continue
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=wt).stdout
        open(d + "/patch.diff", "w").write(diff)
        no = sh(f"sh {d}/demo.sh", cwd=wt, timeout=300)
        if no.returncode == 0:
            bad.append("demo passes with the change")
        t = sh("/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider tests bip38/libs/ripemd160.py", cwd=wt, timeout=300)
        if t.returncode:
            bad.append("tests: " + t.stdout[-500:])
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)
        print(b["id"], b["prop"], "OK" if not bad else "BAD " + "; ".join(bad), "|", no.stdout.strip()[-120:], flush=True)
    shutil.rmtree(tmp)


main()
