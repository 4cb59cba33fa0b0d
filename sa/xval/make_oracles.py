"""Development helper (not run by a check): name oracle from Python's unicodedata, composition exclusions
from Perl, alias table from the base tree (compared with unicodedata.lookup)."""
import sys, json, gzip, subprocess, unicodedata as U
sys.path.insert(0, '/verif/sa/lib')
import p_data as P, cmap
from core import *
age = cmap.oracle("age")
rules = [(0x3400, 0x4DB5, "CJK UNIFIED IDEOGRAPH-"), (0x4E00, 0x9FEA, "CJK UNIFIED IDEOGRAPH-"), (0x20000, 0x2A6D6, "CJK UNIFIED IDEOGRAPH-"),
         (0x2A700, 0x2B734, "CJK UNIFIED IDEOGRAPH-"), (0x2B740, 0x2B81D, "CJK UNIFIED IDEOGRAPH-"), (0x2B820, 0x2CEA1, "CJK UNIFIED IDEOGRAPH-"),
         (0x2CEB0, 0x2EBE0, "CJK UNIFIED IDEOGRAPH-"), (0x17000, 0x187EC, "TANGUT IDEOGRAPH-"), (0x1B170, 0x1B2FB, "NUSHU CHARACTER-"),
         (0xF900, 0xFA6D, "CJK COMPATIBILITY IDEOGRAPH-"), (0xFA70, 0xFAD9, "CJK COMPATIBILITY IDEOGRAPH-"), (0x2F800, 0x2FA1D, "CJK COMPATIBILITY IDEOGRAPH-")]
json.dump(rules, open("/verif/oracle/name_rules.json", "w"))
rest = {}
for c in range(MAXCP + 1):
    if 0xD800 <= c <= 0xDFFF or age[c] == "None": continue
    try: n = U.name(chr(c))
    except ValueError: continue
    if any(a <= c <= b for a, b, _ in rules) or 0xAC00 <= c < 0xAC00 + 11172:
        continue
    rest[c] = n
with gzip.GzipFile("/verif/oracle/names.txt.gz", "wb", mtime=0) as f:
    for c, n in sorted(rest.items()): f.write(f"{c:04X};{n}\n".encode())
m = P.names()
d = [c for c in range(MAXCP + 1) if m[c] is not None and m[c] != U.name(chr(c), None) and not 0x1B170 <= c <= 0x1B2FB and not 0x17000 <= c <= 0x187EC]
print("rule names differing from unicodedata:", d[:10])
p = subprocess.run(["perl", "-MUnicode::UCD=prop_invlist", "-e", 'my @l=prop_invlist("Comp_Ex"); print join(",",@l)'], stdout=subprocess.PIPE, text=True).stdout
l = [int(x) for x in p.split(",")]
with open("/verif/oracle/comp_ex.txt", "w") as f:
    for a, b in zip(l[::2], l[1::2]): f.write(f"{a:04X}..{b-1:04X}\n")
r = query(["chars::name_aliases"])["chars::name_aliases"]
out = []
for o in r["outcomes"]:
    if o["ret"] == "None": continue
    for t in P.variants(o, 1):
        for a, b in o["in"][0]:
            for c in range(a, b + 1):
                out.append((c, t, o["ret"][1]))
                for n in o["ret"][1]:
                    try:
                        if U.lookup(n) != chr(c): print("alias differs", hex(c), n)
                    except KeyError: print("unknown alias", hex(c), t, n)
json.dump(sorted(out), open("/verif/oracle/name_aliases.json", "w"))
print(len(out))
