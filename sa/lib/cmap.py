"""Char-keyed query results: partition checks, snapshots, comparison."""
import json, os
from core import *

SURR = (0xD800, 0xDFFF)
DOMAIN = [(0, 0xD7FF), (0xE000, 0x10FFFF)]


def outcome_kind(o):
    return "ret" if "ret" in o else "panic" if "panic" in o else "unsup"


def ev(v, env, fresh=None):
    """evaluate a result value for concrete root symbols"""
    if isinstance(v, dict):
        if "lin" in v:
            return v["c"] + sum(k * env[s] for s, k in v["lin"])
        if "variant" in v:
            return {"variant": ev(v["variant"], env)}
        if "fun" in v:
            return evx(v["e"], env[v["fun"]])
        raise Inconclusive(f"unresolved value {v}")
    if isinstance(v, list):
        return [ev(x, env) for x in v]
    return v


def evx(e, x):
    if e == "S":
        return x
    if isinstance(e, int):
        return e
    if e[0] == "wrap":
        _, bits, signed, a = e
        r = evx(a, x) & ((1 << bits) - 1)
        return r - (1 << bits) if signed and r >> (bits - 1) else r
    if e[0] == "Tab":
        return dict(map(tuple, e[1]))[evx(e[2], x)]
    a, b = evx(e[1], x), evx(e[2], x)
    return {
        "Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b,
        "Div": lambda: abs(a) // abs(b) * (1 if a * b >= 0 else -1), "Rem": lambda: (abs(a) % abs(b)) * (1 if a >= 0 else -1),
        "And": lambda: a & b, "Or": lambda: a | b, "Xor": lambda: a ^ b, "Shl": lambda: a << b, "Shr": lambda: a >> b,
    }[e[0]]()


def symbolic(v):
    if isinstance(v, dict):
        return True
    if isinstance(v, list):
        return any(symbolic(x) for x in v)
    return False


def check_root(r):
    if "error" in r:
        raise Inconclusive(f"{r['root']}: {r['error']}")
    for o in r["outcomes"]:
        if "unsup" in o:
            raise Inconclusive(f"{r['root']}: not analysable: {o['unsup']}")


def partition(r):
    """root with one char argument -> sorted list of (lo, hi, value); covers every scalar value once"""
    check_root(r)
    out = []
    for o in r["outcomes"]:
        if o["cons"]:
            raise Inconclusive(f"{r['root']}: relational constraint on a one-argument root")
        v = ("panic: " + o["panic"]) if "panic" in o else o["ret"]
        for lo, hi in o["in"][0]:
            out.append((lo, hi, v))
    out.sort(key=lambda t: t[0])
    want = iter(DOMAIN)
    pos, end = next(want)
    for lo, hi, _ in out:
        if lo != pos:
            raise Inconclusive(f"{r['root']}: the analysis does not cover U+{pos:04X} exactly once")
        while hi > end:
            raise Inconclusive(f"{r['root']}: partition leaves the scalar values")
        pos = hi + 1
        if pos > end:
            pos, end = next(want, (None, None))
    if pos is not None:
        raise Inconclusive(f"{r['root']}: the analysis does not cover U+{pos:04X}")
    return out


def to_map(part):
    """list indexed by code point (None for surrogates wrapped as a sentinel)"""
    m = [_SUR] * (MAXCP + 1)
    for lo, hi, v in part:
        if symbolic(v):
            for c in range(lo, hi + 1):
                m[c] = ev(v, {0: c})
        else:
            m[lo : hi + 1] = [v] * (hi - lo + 1)
    return m


class _S:
    def __repr__(self):
        return "<surrogate>"


_SUR = _S()


def ranges_of(m):
    """runs of equal values, surrogates skipped"""
    out = []
    for a, b in DOMAIN:
        s = a
        for c in range(a + 1, b + 2):
            if c > b or m[c] != m[s]:
                out.append((s, c - 1, m[s]))
                s = c
    return out


def save(path, m):
    with open(path, "w") as f:
        for a, b, v in ranges_of(m):
            f.write(f"{a:04X}..{b:04X};{json.dumps(v, ensure_ascii=True)}\n")


def load(path):
    m = [_SUR] * (MAXCP + 1)
    for l in open(path):
        r, v = l.rstrip("\n").split(";", 1)
        a, b = r.split("..")
        a, b = int(a, 16), int(b, 16)
        m[a : b + 1] = [json.loads(v)] * (b - a + 1)
    return m


def diff(got, want, limit=12):
    """list of (lo, hi, got, want)"""
    out = []
    for a, b in DOMAIN:
        c = a
        while c <= b:
            if got[c] != want[c]:
                s = c
                while c + 1 <= b and got[c + 1] == got[s] and want[c + 1] == want[s]:
                    c += 1
                out.append((s, c, got[s], want[s]))
                if len(out) >= limit:
                    return out
            c += 1
    return out


def oracle(name):
    return load(f"{VERIF}/oracle/{name}.txt")


def rng(a, b):
    return f"U+{a:04X}" if a == b else f"U+{a:04X}..U+{b:04X}"
