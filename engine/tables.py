"""C17's data invariants: every row of the currency tables against the documentation tables of the working tree.

Run by /opt/venv/bin/python: tables.py OUT.json.  The module is imported, so the tables are what the code sees.
"""
import html
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def rows(text):
    """{(currency, network): (wif prefix, address prefix)} of the first table with a WIF prefix column, or None."""
    for t in re.findall(r"<table.*?</table>", text, re.S):
        if "WIF Prefix" not in t:
            continue
        out, name = {}, None
        for row in re.findall(r"<tr[^>]*>(.*?)</tr>", t, re.S):
            c = [html.unescape(re.sub(r"<[^>]+>", "", x)).strip() for x in re.findall(r"<td[^>]*>(.*?)</td>", row, re.S)]
            if len(c) == 4:
                name = c.pop(0)
            if len(c) != 3 or name is None:
                continue
            try:
                v = (int(c[1], 16), int(c[2], 16))
            except ValueError:
                continue
            if (name, c[0]) in out:
                return None
            out[name, c[0]] = v
        return out or None
    return None


def documented():
    """The documentation tables of the tree; the copy kept with the checks when the tree has none."""
    found = {}
    for rel in ("README.md", "docs/cryptocurrencies.rst"):
        try:
            r = rows(open(os.path.join(REPO, rel), encoding="utf-8").read())
        except OSError:
            r = None
        if r:
            found[rel] = r
    if not found:
        d = json.load(open(os.path.join(HERE, "contracts", "currencies.json")))
        found["contracts/currencies.json"] = {(a, b): (w, p) for a, b, w, p in d}
    return found


def main():
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    bad, n, samples = [], 0, []

    def need(ok, what):
        nonlocal n
        n += 1
        if not ok:
            bad.append(what)
    import bip38.cryptocurrencies as cc
    from bip38 import BIP38
    doc = documented()
    classes = {k: c for k, c in vars(cc).items() if isinstance(c, type) and issubclass(c, cc.ICryptocurrency)
               and c is not cc.ICryptocurrency}
    code = {}
    for k, c in classes.items():
        nets = getattr(c, "NETWORKS", None)
        need(isinstance(nets, dict) and len(nets) > 0, f"{k}: no networks declared")
        for net in list(nets or ()):
            v = nets[net]
            w, a = v.get("wif_prefix"), v.get("address_prefix")
            ok = all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x <= 0xFFFF for x in (w, a))
            need(ok, f"{k} {net}: prefixes {w!r}, {a!r} are not one- or two-byte integers")
            code[k, net] = (w, a)
            try:
                BIP38(cryptocurrency=c, network=net)
                made = None
            except Exception as e:
                made = f"{type(e).__name__}: {e}"
            need(made is None, f"{k} {net}: cannot be selected: {made}")
        alpha = getattr(c, "ALPHABET", None)
        if alpha is not None:
            need(isinstance(alpha, str) and sorted(alpha) == sorted(B58),
                 f"{k}: alphabet {alpha!r} is not a permutation of the Base58 characters")
    for src, d in doc.items():
        for key in sorted(set(code) | set(d)):
            got, want = code.get(key), d.get(key)
            need(got == want, f"{key[0]} {key[1]}: (WIF prefix, address prefix) is {got}, documented in {src}: {want}")
    for key in list(code)[:3]:
        samples.append([*key, *code[key]])
    json.dump(dict(obligations=n, bad=bad, samples=samples, rows=len(code), classes=len(classes), sources=list(doc)),
              open(sys.argv[1], "w"))
    for b in bad:
        print(b)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
