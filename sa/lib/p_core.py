"""Character ranges, iterators, parallel iterators."""
from props import *


@check("C21")
def c21(ctx):
    """constructors, membership, length, comparison, equality, conversions of ranges, for all bounds"""
    ctx.true_roots(["ranges::" + n for n in "len contains_closed contains_open_right contains_open_left contains_open contains_bound macro_closed macro_half macro_all planes cmp cmp_empty_maypanic eq conv".split()])


@check("C22")
def c22(ctx):
    """one step of iteration from either end, from every state; exact lengths"""
    ctx.true_roots(["ranges::" + n for n in "iter_len next next_back ends".split()])


@check("C23")
def c23(ctx):
    """the k-th item of the parallel iterator is the k-th character, for all ranges and positions"""
    ctx.true_roots(["ranges::par_len", "ranges::par_nth"])


# ---------------------------------------------------------------- names of properties and values
def word_witness(w):
    """a string that takes the path: what is known of it is what it was compared with"""
    if w["is"]:
        return w["is"][0]
    if w["like"]:
        base = w["like"][0]
        idx = [i for i, c in enumerate(base) if c.isalpha() and c.isascii()]
        for bits in range(min(1 << len(idx), 4096)):
            t = "".join(c.upper() if i in idx and bits >> idx.index(i) & 1 else c.lower() for i, c in enumerate(base))
            if t not in w["not"]:
                return t
        return None
    return "?"


def word_root(ctx, q, r):
    """every string: each path is a set of strings given by comparisons with literals"""
    if "error" in r or not r["outcomes"]:
        ctx.unsure(f"{q}: {r.get('error', 'no outcome')}")
        return
    for o in r["outcomes"]:
        if "unsup" in o:
            ctx.unsure(f"{q}: not analysable: {o['unsup']}")
        elif o.get("ret") is True:
            ctx.good()
        else:
            t = word_witness(o["word"]) if "word" in o else "?"
            if t is None:
                ctx.good()
                continue
            ctx.bad(f"{q}:{t}", f"{q}: parsing {t!r} " + (f"panics: {o['panic']}" if "panic" in o else "does not give the value with that name"), {"root": q, "word": o.get("word"), "through": ctx.site(r)})
    ctx.sample({"root": q, "paths": len(r["outcomes"]), "path": r["outcomes"][-1].get("word", {}).get("like")})


ENUMS = {"gc": "gc", "bc": "bc", "dt": "dt", "gcb": "GCB", "wb": "WB", "sb": "SB"}
BINS = {"alpha": "Alpha", "wspace": "WSpace", "lower": "Lower", "upper": "Upper", "cased": "Cased", "ci": "CI", "cwl": "CWL", "cwu": "CWU", "cwt": "CWT", "cwcf": "CWCF", "cwcm": "CWCM",
        "xids": "XIDS", "xidc": "XIDC", "ids": "IDS", "idc": "IDC", "pat_syn": "Pat_Syn", "pat_ws": "Pat_WS", "bidi_c": "Bidi_C", "bidi_m": "Bidi_M"}
# no (or later) short names in the UCD of version 10
LONGONLY = {"alnum": "Alphanumeric", "control": "Control", "numeric": "Numeric", "emoji": "Emoji", "ecomp": "Emoji_Component", "emod": "Emoji_Modifier", "ebase": "Emoji_Modifier_Base", "epres": "Emoji_Presentation"}


@check("C19")
def c19(ctx):
    """names of every property and value; parsing of every string; Display of every value, code point, version and class"""
    import json
    from p_data import char_text, render
    o = json.load(open(f"{VERIF}/oracle/value_names.json"))
    allp = list(ENUMS) + list(BINS) + list(LONGONLY)
    roots = ["names::" + n for n in allp] + ["names::" + n + "_parse" for n in allp] + ["names::" + n + "_all" for n in ENUMS]
    roots += ["names::" + n for n in ("others", "notation", "version", "ccc_text")]
    res = ctx.query(roots, jobs=8)

    def const(q):
        r = res[q]
        if "error" in r or any("unsup" in x for x in r["outcomes"]):
            ctx.unsure(f"{q}: {r.get('error') or [x for x in r['outcomes'] if 'unsup' in x][0]['unsup']}")
            return None
        if len(r["outcomes"]) != 1 or "panic" in r["outcomes"][0]:
            ctx.bad(q, f"{q} panics", {"through": ctx.site(r)})
            return None
        return r["outcomes"][0]["ret"]

    def prop(q, got, want):
        if list(got[:2]) == list(want) and got[2]:
            ctx.good()
        else:
            ctx.bad(f"{q}:prop", f"{q}: the property is called {got}, expected {list(want)} and a human name", {"through": ctx.site(res[q])})

    for n, p in ENUMS.items():
        q = "names::" + n
        ctx.true_root(q + "_all", res[q + "_all"])
        word_root(ctx, q + "_parse", res[q + "_parse"])
        v = const(q)
        if v is None:
            continue
        prop(q, v[0], (p, o["props"][p]))
        vals = v[1][: v[2]]
        want = o["values"][p]
        for a, l, ok in vals:
            if want.get(a) == l and ok:
                ctx.good()
            else:
                ctx.bad(f"{q}:{l}", f"{q}: the value {l} has the short name {a}" + ("" if ok else "; Display does not write its human name") + f"; the UCD has {[x for x in want.items() if x[1] == l or x[0] == a]}", {"through": ctx.site(res[q])})
        if len(vals) != len(want) or len({x[0] for x in vals}) != len(vals):
            ctx.bad(f"{q}:values", f"{q}: {len(vals)} values, the UCD has {len(want)}")
        else:
            ctx.good()
    for n in list(BINS) + list(LONGONLY):
        q = "names::" + n
        word_root(ctx, q + "_parse", res[q + "_parse"])
        v = const(q)
        if v is None:
            continue
        if n in BINS:
            prop(q, v[0], (BINS[n], o["props"][BINS[n]]))
        else:
            prop(q, [LONGONLY[n]] + v[0][1:], (LONGONLY[n], LONGONLY[n]))
        if v[1]:
            ctx.good()
        else:
            ctx.bad(f"{q}:yes/no", f"{q}: names or Display of Yes and No are wrong", {"through": ctx.site(res[q])})
    v = const("names::others")
    if v:
        prop("names::others", v[0], ("age", "Age"))
        prop("names::others", v[1], ("ccc", o["props"]["ccc"]))

    # texts of numbers
    got = char_text(res["names::notation"])
    bad = [c for c, x in enumerate(got) if x is not cmap._SUR and x != [True, f"U+{c:04X}"]]
    if bad:
        ctx.bad(f"notation:U+{bad[0]:04X}", f"unicode_notation(U+{bad[0]:04X}) writes {got[bad[0]]}", {"through": ctx.site(res["names::notation"])})
    else:
        ctx.good(len(res["names::notation"]["outcomes"]))

    for q, fmt in (("names::version", "{}.{}.{}"), ("names::ccc_text", "{}")):
        r = res[q]
        if "error" in r:
            ctx.unsure(f"{q}: {r['error']}")
            continue
        n = fmt.count("{}")
        for x in r["outcomes"]:
            if "unsup" in x:
                ctx.unsure(f"{q}: not analysable: {x['unsup']}")
                continue
            env = {k: x["in"][k][0][0] for k in range(n)}
            ev = x.get("events", [])
            if "panic" in x or render(ev, env) != fmt.format(*env.values()):
                ctx.bad(q, f"{q}: {list(env.values())} is written as {render(ev, env)!r}", {"through": ctx.site(r)})
                continue
            # the text is made of literal pieces and of the arguments themselves, in this order
            flat = "".join(e[1] if e[0] == "s" else "{}" if e[0] == "d" and not e[2] >> 27 & 1 and isinstance(e[1], dict) and e[1]["c"] == 0 else "?" for e in ev)
            ks = [e[1]["lin"] for e in ev if e[0] == "d" and isinstance(e[1], dict)]
            if flat == fmt and ks == [[[k, 1]] for k in range(n)]:
                ctx.good()
            elif all(sum(b - a + 1 for a, b in x["in"][k]) == 1 for k in range(n)):
                ctx.good()
            else:
                pts = [v for a, b in x["in"][0] for v in range(a, b + 1)] if n == 1 else None
                bad = pts and [v for v in pts if render(ev, {0: v}) != str(v)]
                if bad:
                    ctx.bad(q, f"{q}: {bad[0]} is written as {render(ev, {0: bad[0]})!r}", {"through": ctx.site(r)})
                elif pts:
                    ctx.good()
                else:
                    ctx.unsure(f"{q}: pieces of text in a form that is not understood")


@check("C24")
def c24(ctx):
    """every level number, every amount: construction, inquiries, changes, order, conversion, text, deserialization"""
    from p_data import render
    rs = ["levels::" + n for n in "new inquiries raise raise_explicit lower next_levels constants order from_number_maypanic from_valid load_newtype load_seq".split()]
    res = ctx.query(rs + ["levels::text"], jobs=2)
    for q in rs:
        ctx.true_root(q, res[q], maypanic=q.endswith("_maypanic"))
    r = res["levels::text"]
    if "error" in r or any("unsup" in o for o in r["outcomes"]):
        ctx.unsure("levels::text: not analysable")
        return
    for o in r["outcomes"]:
        for v in [v for a, b in o["in"][0] for v in range(a, b + 1)]:
            t = render(o.get("events", []), {0: v})
            if "panic" in o or t != (str(v) if v <= 126 else ""):
                ctx.bad("levels::text", f"the level {v} is written as {t!r}", {"through": ctx.site(r)})
                break
        else:
            ctx.good()
