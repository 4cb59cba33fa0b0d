"""Check framework: obligations, witnesses, known findings, evidence."""
import itertools, json, os, random, sys, time
from core import *
import cmap

CHECKS = {}
KNOWN = f"{VERIF}/known_findings.json"


def check(pid, **meta):
    def deco(f):
        CHECKS[pid] = (f, meta)
        return f
    return deco


LEFT = 1 << 32  # a character that was read backwards, from the position the text is split at


def shown(t):
    u = lambda l: " ".join("U+%04X" % (x & 0x1FFFFF) for x in l)
    left, right = [x for x in t if x & LEFT][::-1], [x for x in t if not x & LEFT]
    return f"{u(left)} | {u(right)}" if left else u(right) or "(empty)"


def nearby(texts, limit=6000):
    """short texts that differ from the given ones in up to two places"""
    chars = sorted({x & 0x1FFFFF for t in texts for x in t})[:26]
    seen, level = {}, [t for t in texts if len(t) <= 7][:40]
    for _ in range(2):
        nxt = []
        for t in level:
            for i in range(len(t) + 1):
                side = (t[i] if i < len(t) else t[-1] if t else 0) & LEFT
                new = [t[:i] + (c | side,) + t[i:] for c in chars]
                if i < len(t):
                    new += [t[:i] + t[i + 1:]] + [t[:i] + (c | side,) + t[i + 1:] for c in chars]
                for n in new:
                    if n not in seen and len(n) <= 8:
                        seen[n] = len(seen)
                        nxt.append(n)
            if len(seen) >= limit:
                break
        level = nxt[:: max(1, len(nxt) // 200)]
    return sorted(seen, key=lambda t: seen[t])[:limit]


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = 0
        self.ok = 0
        self.viol = []      # (key, text, detail)
        self.samples = []
        self.roots = {}
        self.fns = set()
        self.inconclusive = []
        self.extra = {}
        self.trusted = []

    # ---- obligations
    def good(self, n=1):
        self.obl += n
        self.ok += n

    def bad(self, key, text, detail=None):
        self.obl += 1
        self.viol.append((key, text, detail))

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def unsure(self, text):
        self.obl += 1
        self.inconclusive.append(text)

    # ---- analyser
    def query(self, roots, **kw):
        r = query(roots, **kw)
        for q in roots:
            if not q.endswith("*") and q not in r:
                raise Inconclusive(f"no such query root {q}")
        for k, v in r.items():
            self.roots[k] = {"ms": v.get("ms"), "steps": v.get("steps"), "paths": len(v.get("outcomes", []))}
            self.fns.update(v.get("fns", []))
        return r

    def site(self, r):
        """the first analysed function of /repo, for the report"""
        f = [x for x in r.get("fns", []) if "/repo/" in x or REPO in x]
        return f[:6]

    def table(self, root, want, r=None, name=None, value=None, **kw):
        """every scalar value: the analysed result equals the expected map"""
        r = r or self.query([root], **kw)[root]
        part = cmap.partition(r)
        got = cmap.to_map(part)
        if value:
            got = [value(c, v) if v is not cmap._SUR else v for c, v in enumerate(got)]
        if isinstance(want, str):
            want = cmap.oracle(want)
        d = cmap.diff(got, want)
        n = len(part)
        self.good(n)
        self.extra.setdefault("partitions", {})[root] = n
        self.extra["code_points_per_table"] = 0x110000 - 0x800
        for a, b, g, w in d:
            self.bad(f"{name or root}:U+{a:04X}", f"{name or root}({cmap.rng(a, b)}) gives {g}, expected {w}",
                     {"root": root, "first": a, "last": b, "got": g, "expected": w, "through": self.site(r)})
        if not d and part:
            a, b, v = part[len(part) // 2]
            self.sample({"root": root, "range": cmap.rng(a, b), "value": v if not cmap.symbolic(v) else "computed from the code point"})
        return got

    def true_roots(self, roots, maypanic=(), show=None, **kw):
        """every path of every root returns `true`"""
        res = self.query(roots, **kw)
        for q in sorted(res):
            self.true_root(q, res[q], maypanic=q in maypanic or q.endswith("_maypanic"))
        return res

    def true_root(self, q, r, maypanic=False):
        if "error" in r:
            self.unsure(f"{q}: {r['error']}")
            return
        if not r["outcomes"]:
            self.unsure(f"{q}: no outcome")
        for o in r["outcomes"]:
            if "unsup" in o:
                self.unsure(f"{q}: not analysable: {o['unsup']}")
            elif "panic" in o and maypanic and not o["panic"].startswith("UB"):
                self.good()
            elif o.get("ret") is True:
                self.good()
            else:
                what = f"panics: {o['panic']}" if "panic" in o else "violates its specification"
                w = witness(o)
                if w is None:
                    # no integer point satisfies the path condition: the path is spurious
                    if w is None and exhausted(o):
                        self.good()
                        continue
                    self.unsure(f"{q}: {what} on {o['in']} {o['cons']}, but no concrete input was derived")
                    continue
                args = cmap.ev(o["args"], w)
                self.bad(q, f"{q}{fmt_args(args)} {what}", {"root": q, "args": args, "box": o["in"], "cons": o["cons"], "panic": o.get("panic"), "through": self.site(r)})
        if r["outcomes"]:
            self.sample({"root": q, "paths": len(r["outcomes"]), "steps": r["steps"], "first_path": {"in": [x[:3] for x in r["outcomes"][0]["in"]]}})

    def confirm(self, q, texts):
        """the texts among these on which the analysis, restricted to the one text, gives a wrong outcome"""
        found = []
        if texts:
            for o in restricted(q, texts):
                if o.get("ret") is False or "panic" in o:
                    found.append(([int(x) for x in o["args"][0].split(",") if x], o))
        return sorted(found, key=lambda x: (len(x[0]), x[0]))

    def text_roots(self, roots, budget=300_000_000):
        """every text: every outcome is `true`. A wrong outcome counts as a violation when its path is
        feasible: the analysis restricted to the text of that path gives it, too."""
        res = self.query(roots, budget=budget, jobs=min(len(roots), 6))
        for q in sorted(res):
            r = res[q]
            if "error" in r:
                self.unsure(f"{q}: {r['error']}")
                continue
            outs = r["outcomes"]
            if not outs:
                self.unsure(f"{q}: no outcome")
            bad = [o for o in outs if o.get("ret") is not True]
            self.good(len(outs) - len(bad))
            self.extra.setdefault("abstract_texts", {})[q] = len(outs)
            if not bad:
                self.sample({"root": q, "outcomes": len(outs), "steps": r["steps"]})
                continue
            cand = {tuple(o.get("text", [])) for o in bad}
            cand = sorted((t for t in cand if len(t) < 60), key=lambda t: (len(t), t))[:120]
            found = self.confirm(q, cand)
            if not found:
                found = self.confirm(q, nearby(cand))
            for t, o in found[:8]:
                what = f"panics: {o['panic']}" if "panic" in o else "violates its specification"
                self.bad(q, f"{q} {what} on the text {shown(t)}", {"root": q, "text": t, "panic": o.get("panic"), "through": self.site(r)})
            if not found:
                o = bad[0]
                self.unsure(f"{q}: {len(bad)} undecided outcomes: {o.get('unsup') or o.get('panic') or o.get('ret')} {o.get('text', [])[:40]}")
        return res

    # ---- finish
    def finish(self, level="proof", rule=""):
        known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else []
        listed = {(k["property"], k["key"]): k for k in known if k.get("status") == "known"}
        # a finding that lists its failing inputs covers exactly those
        for k in list(listed.values()):
            if "inputs" in k:
                del listed[(k["property"], k["key"])]
                listed.update({(k["property"], k["key"] + " " + i): k for i in k["inputs"]})
        new, old = [], {}
        for key, text, detail in self.viol:
            k = listed.get((self.pid, key))
            if k:
                old.setdefault(k["key"], (k, []))[1].append(text)
            else:
                new.append((key, text, detail))
        for key, (k, texts) in old.items():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        fns = sorted(f.replace(REPO + "/", "") for f in self.fns if REPO in f)
        cov = {
            "explanation": rule,
            "obligations": self.obl,
            "discharged": self.ok,
            "checker_cmd": f"python3 sa/check.py {self.pid}",
            "trusted_base": TRUSTED + self.trusted,
            "roots": self.roots,
            "functions_analysed": len(fns),
            "functions": fns[:60],
            "samples": self.samples,
            "known_findings": [k["what"] for k, _ in old.values()],
            **self.extra,
        }
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": level,
            "coverage": cov,
            "wall_s": round(time.time() - self.t0, 2),
        }
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        if new:
            cov["violations"] = [t for _, t, _ in new][:40]
        json.dump(ev, open(f"{VERIF}/evidence/{self.pid}.json", "w"), indent=1, default=str)
        if new:
            rp = f"evidence/{self.pid}.violation.json"
            json.dump([{"key": k, "what": t, "detail": d} for k, t, d in new], open(f"{VERIF}/{rp}", "w"), indent=1, default=str)
            for k, t, _ in new[:10]:
                print("  " + t)
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.inconclusive:
            for t in self.inconclusive[:10]:
                print("INCONCLUSIVE: " + t[:1500])
            return 2
        print(f"{self.pid}: {self.ok}/{self.obl} obligations discharged, {len(self.roots)} roots, {len(fns)} functions, {time.time() - self.t0:.1f} s")
        return 0


TRUSTED = [
    "rustc (MIR of the current tree), rustc_public",
    "sa/driver: the abstract interpreter and its models of core intrinsics, binary_search_by, char::from_u32",
]


def fmt_args(a):
    s = json.dumps(a)
    return f"({s[1:-1]})" if len(s) < 400 else "(…)"


# ------------------------------------------------------------------ witnesses
def bounds(cons, dom):
    """interval propagation; None when infeasible"""
    dom = {k: list(v) for k, v in dom.items()}
    for _ in range(60):
        ch = False
        for terms, lo, hi in cons:
            for i, (s, k) in enumerate(terms):
                rlo = rhi = 0
                for j, (s2, k2) in enumerate(terms):
                    if i != j:
                        a, b = dom[s2][0][0] * k2, dom[s2][-1][1] * k2
                        rlo += min(a, b)
                        rhi += max(a, b)
                x, y = lo - rhi, hi - rlo
                if k > 0:
                    x, y = -(-x // k), y // k
                else:
                    x, y = -((y) // -k), (-x) // -k
                new = [(max(p, x), min(q, y)) for p, q in dom[s] if max(p, x) <= min(q, y)]
                if not new:
                    return None
                if new != [tuple(t) for t in dom[s]]:
                    dom[s] = new
                    ch = True
        if not ch:
            break
    return dom


def witness(o, budget=4000):
    dom = {i: [tuple(t) for t in b] for i, b in enumerate(o["in"])}
    for k, (a, b) in o["fresh"].items():
        if a <= b:
            dom[int(k)] = [(a, b)]
    cons = [(t, lo, hi) for t, lo, hi in o["cons"]]
    if any(not v for v in dom.values()):
        return None
    left = [budget]

    def go(dom):
        left[0] -= 1
        if left[0] < 0:
            return None
        dom = bounds(cons, dom)
        if dom is None:
            return None
        free = [s for s in dom if dom[s][0][0] != dom[s][-1][1]]
        if not free:
            return {s: dom[s][0][0] for s in dom}
        s = min(free, key=lambda s: (sum(q - p + 1 for p, q in dom[s])))
        cand = []
        for p, q in dom[s][:4] + dom[s][-2:]:
            cand += [p, q, (p + q) // 2]
        seen = set()
        for c in cand:
            if c in seen:
                continue
            seen.add(c)
            r = go({**dom, s: [(c, c)]})
            if r:
                return r
        return None

    return go(dom)


def exhausted(o):
    dom = {i: [tuple(t) for t in b] for i, b in enumerate(o["in"])}
    for k, (a, b) in o["fresh"].items():
        if a <= b:
            dom[int(k)] = [(a, b)]
    if any(not v for v in dom.values()):
        return True
    return bounds([(t, lo, hi) for t, lo, hi in o["cons"]], dom) is None
