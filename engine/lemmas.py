"""The induction lemmas of lemmas/Base58.lean, checked by Lean on every run that uses them."""
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, "lemmas", "Base58.lean")
ALLOWED = {"propext", "Quot.sound", "Classical.choice"}
USERS = {"bip38.libs.base58.encode", "bip38.libs.base58.decode", "bip38.libs.base58.check_encode",
         "bip38.libs.base58.check_decode"}


def names():
    return re.findall(r"^#print axioms (\S+)", open(FILE, encoding="utf-8").read(), re.M)


def alphabets_agree():
    """The alphabets of the Lean file are those of the specification."""
    from contracts import kindconst
    text = open(FILE, encoding="utf-8").read()
    return sorted(re.findall(r'"(\w{58})"\.toList', text)) == sorted(kindconst.ALPHABETS)


class Run:
    def __init__(self):
        self.p = None
        try:
            self.p = subprocess.Popen(["lean", FILE], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/",
                                      text=True)
        except OSError as e:
            self.why = str(e)

    def result(self, timeout=240):
        """{lemma: reason or None (proved)}"""
        if self.p is None:
            return {n: "lean cannot be run: " + self.why for n in names()}
        try:
            out, _ = self.p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.communicate()
            return {n: "lean: time limit" for n in names()}
        res = {}
        for n in names():
            m = re.search(rf"'{re.escape(n)}' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", out)
            if m is None:
                res[n] = "not proved: " + out[:300]
            else:
                used = {x.strip() for x in (m.group(2) or "").split(",") if x.strip()}
                res[n] = None if used <= ALLOWED else f"rests on {sorted(used - ALLOWED)}"
        if not alphabets_agree():
            res["alphabets"] = "the alphabets of the lemmas are not those of the specification"
        return res
