#!/usr/bin/env python3
"""One-off: compare the snapshot in /verif/oracle with independent UCD copies (Perl 5.38: Unicode 15.0,
Python unicodedata: 15.0). Characters newer than 10.0 are skipped; remaining differences are printed and
have to be explained by documented changes between 10.0 and 15.0."""
import sys, subprocess, unicodedata, bisect, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/../lib")
from cmap import *
txt = subprocess.run(["perl", os.path.dirname(os.path.abspath(__file__)) + "/perl_dump.pl"], stdout=subprocess.PIPE, text=True).stdout
age = None
P = {}
for l in txt.splitlines():
    f = l.split("\t")
    if f[1] == "B":
        inv = [int(x) for x in f[2].split(",")] + [0x110000]
        m = [False] * 0x110000
        for i in range(0, len(inv) - 1, 2):
            m[inv[i]:inv[i + 1]] = [True] * (inv[i + 1] - inv[i])
        P[f[0]] = m
    else:
        inv = [int(x) for x in f[2].split(",")] + [0x110000]
        vals = f[3].split(",")
        m = [None] * 0x110000
        for i, v in enumerate(vals):
            m[inv[i]:inv[i + 1]] = [v] * (inv[i + 1] - inv[i])
        P[f[0]] = m
def agev(v):
    return tuple(int(x) for x in v.lstrip("V").replace("_", ".").split(".")) if v[-1:].isdigit() else None
print(sorted(set(P["age"])))
ages = [agev(v) for v in P["age"]]
old = [a is not None and a <= (10, 0) for a in ages]
ABBR = {}
def cmpm(name, got, want, only_old=True, norm=lambda x: x):
    bad = [c for c in range(0x110000) if got[c] is not _SURX and not (0xD800 <= c <= 0xDFFF) and (old[c] or not only_old) and norm(got[c]) != want[c]]
    print(f"{name}: {len(bad)} differences", [f"{c:04X}:{got[c]}/{want[c]}" for c in bad[:40]])
_SURX = object()
for n in sorted(P):
    if n == "numeric_type":
        m = oracle("numeric"); cmpm("numeric(vs nt!=None)", m, [v != "None" for v in P[n]])
    elif n == "age":
        m = oracle("age")
        bad = [c for c in range(0x110000) if not 0xD800 <= c <= 0xDFFF and (tuple(m[c][1][:2]) if isinstance(m[c], list) else None) != (ages[c] if ages[c] and ages[c] <= (10, 0) else None)]
        print("age:", len(bad), [hex(c) for c in bad[:10]])
    elif n == "block":
        m = oracle("block")
        bad = [c for c in range(0x110000) if not 0xD800 <= c <= 0xDFFF and isinstance(m[c], list) and m[c][1][1].replace(" ", "_").replace('_','').lower() != P[n][c].replace('-','').replace('_','').replace(' ','').lower()]
        print("block:", len(bad), [(hex(c), m[c][1], P[n][c]) for c in bad[:10]])
        # blocks absent in 10.0 hold no character of 10.0
        bad = [c for c in range(0x110000) if not 0xD800 <= c <= 0xDFFF and not isinstance(m[c], list) and old[c]]
        print("block none but old:", len(bad), [hex(c) for c in bad[:10]])
    elif n in ("category", "bidi_class", "gcb", "wb", "sb", "decomposition_type"):
        m = oracle(n)
        def key(v):
            if isinstance(v, list): v = v[1]
            return str(v).replace("_", "").replace("-", "").lower()
        bad = [c for c in range(0x110000) if old[c] and not 0xD800 <= c <= 0xDFFF and key(m[c]) != P[n][c].replace("_", "").replace("-", "").lower()]
        pairs = {}
        for c in bad: pairs.setdefault((key(m[c]), P[n][c]), []).append(c)
        print(n, len(bad)); 
        for k, v in pairs.items(): print("   ", k, len(v), [f"{c:04X}" for c in v[:8]])
    elif n == "ccc":
        cmpm(n, oracle(n), [int(x) if x.isdigit() else x for x in P[n]])
        bad = [c for c in range(0x110000) if old[c] and not 0xD800 <= c <= 0xDFFF and oracle_ccc[c] != unicodedata.combining(chr(c))] if 0 else []
    else:
        try: m = oracle(n)
        except FileNotFoundError: continue
        cmpm(n, m, P[n])
cc = oracle("ccc"); print("ccc vs python", sum(1 for c in range(0x110000) if old[c] and not 0xD800 <= c <= 0xDFFF and cc[c] != unicodedata.combining(chr(c))))
# python: decompositions, names
cd, kd = oracle("canonical_decomposition"), oracle("compatibility_decomposition")
bad = []
for c in range(0x110000):
    if 0xD800 <= c <= 0xDFFF: continue
    d = unicodedata.decomposition(chr(c)) if old[c] else ""
    can = ["Some", [int(x, 16) for x in d.split()]] if d and d[0] != "<" else "None"
    com = ["Some", [int(x, 16) for x in d.split()[1:]]] if d and d[0] == "<" else "None"
    if cd[c] != can or kd[c] != com: bad.append((hex(c), cd[c], can, kd[c], com))
print("decomposition:", len(bad), bad[:10])
