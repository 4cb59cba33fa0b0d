"""Character data: every public per-character lookup, decided for all 1 112 064 scalar values (and all
pairs for composition) by abstract interpretation of the lookup code over the compiled tables."""
import gzip, json
from props import *
from cmap import SURR, DOMAIN

BOOL = {}


def tables(ctx, names, consist=()):
    """`names`: boolean/enum tables with an oracle of the same name; `consist`: roots that must be true"""
    roots = list(names) + list(consist)
    res = ctx.query(["chars::" + n for n in roots])
    for n in names:
        ctx.table(n, n, r=res["chars::" + n])
    for n in consist:
        ctx.true_root(n, res["chars::" + n])
    return res


def props_with_type(ctx, names):
    return tables(ctx, names, [n + "_t" for n in names])


@check("C01")
def c01(ctx):
    """is_noncharacter / is_private_use equal the Unicode definition on every scalar value"""
    tables(ctx, ["is_noncharacter", "is_private_use"])


@check("C02")
def c02(ctx):
    """General_Category of every scalar value equals UCD 10.0; every group predicate equals UAX #44 table 12 on every value"""
    tables(ctx, ["category"])
    ctx.true_roots(["ucd::gc_" + n for n in "cased_letter letter mark number punctuation symbol separator other default".split()])


@check("C03")
def c03(ctx):
    """Age of every scalar value equals UCD 10.0; every ordering operation agrees with age"""
    tables(ctx, ["age"], ["age_t"])
    ctx.true_roots(["ucd::" + n for n in "age_cmp age_ord age_max_min age_eq version_cmp version_std".split()])


@check("C04")
def c04(ctx):
    """Block of every scalar value; the block iterator yields every block once, in order"""
    tables(ctx, ["block"], ["block_t"])
    r = ctx.query(["ucd::block_iter_q"])["ucd::block_iter_q"]
    cmap.check_root(r)
    o = r["outcomes"]
    want = []
    for a, b, v in cmap.ranges_of(cmap.oracle("block")):
        if v != "None" and (not want or want[-1] != v[1]):
            want.append(v[1])
    # the surrogate blocks have no scalar value, so the table cannot show them
    if len(o) != 1 or "panic" in o[0]:
        ctx.bad("block_iter", "BlockIter panics or is not deterministic")
        return
    got = [x[1] for x in o[0]["ret"][0][: o[0]["ret"][1]]]
    ctx.extra["blocks_iterated"] = len(got)
    scal = [g for g in got if not (SURR[0] <= g[0][0] and g[0][1] <= SURR[1])]
    for i, w in enumerate(want):
        if i < len(scal) and scal[i] == w:
            ctx.good()
        else:
            ctx.bad(f"block_iter:{i}", f"BlockIter yields {scal[i] if i < len(scal) else 'nothing'} as block {i}, expected {w}")
            break
    if len(scal) != len(want):
        ctx.bad("block_iter:len", f"BlockIter yields {len(scal)} blocks of scalar values, expected {len(want)}")
    else:
        ctx.good()


@check("C05")
def c05(ctx):
    """Alphabetic, White_Space, Alphanumeric, Control, Numeric on every scalar value"""
    props_with_type(ctx, ["alphabetic", "white_space", "alphanumeric", "control", "numeric"])


@check("C06")
def c06(ctx):
    """the nine case properties on every scalar value"""
    props_with_type(ctx, ["lowercase", "uppercase", "cased", "case_ignorable", "cwl", "cwu", "cwt", "cwcf", "cwcm"])


@check("C07")
def c07(ctx):
    """the six UAX #31 properties on every scalar value"""
    props_with_type(ctx, ["xid_start", "xid_continue", "id_start", "id_continue", "pattern_syntax", "pattern_white_space"])


@check("C08")
def c08(ctx):
    """Bidi_Class, Bidi_Control, Bidi_Mirrored on every scalar value; class groups and per-char helpers"""
    tables(ctx, ["bidi_class"])
    props_with_type(ctx, ["bidi_control", "bidi_mirrored"])
    ctx.true_roots(["ucd::bidi_category", "ucd::bidi_ltr_rtl", "ucd::bidi_char_methods"])


@check("C09")
def c09(ctx):
    """the five emoji properties on every scalar value"""
    props_with_type(ctx, ["emoji", "emoji_component", "emoji_modifier", "emoji_modifier_base", "emoji_presentation"])


@check("C10")
def c10(ctx):
    """Grapheme_Cluster_Break, Word_Break, Sentence_Break on every scalar value"""
    tables(ctx, ["gcb", "wb", "sb"])


@check("C11")
def c11(ctx):
    """Canonical_Combining_Class and combining-mark predicate on every scalar value; class helpers on every value"""
    tables(ctx, ["ccc", "is_combining_mark"])
    ctx.true_roots(["ucd::" + n for n in "ccc_pred ccc_ord ccc_traits ccc_consts".split()])


def full_decomposition(single, c, out):
    if 0xAC00 <= c < 0xAC00 + 11172:
        s = c - 0xAC00
        out += [0x1100 + s // 588, 0x1161 + s % 588 // 28] + ([0x11A7 + s % 28] if s % 28 else [])
        return
    for m in single:
        if m[c] != "None":
            for x in m[c][1]:
                full_decomposition(single, x, out)
            return
    out.append(c)


@check("C12")
def c12(ctx):
    """Decomposition_Type, single mappings and full canonical/compatibility decompositions of every scalar value"""
    tables(ctx, ["decomposition_type", "canonical_decomposition", "compatibility_decomposition"])
    can, com = cmap.oracle("canonical_decomposition"), cmap.oracle("compatibility_decomposition")
    res = ctx.query(["ucd::full_canonical_q", "ucd::full_compatible_q"], jobs=2)
    for n, single in (("full_canonical_q", [can]), ("full_compatible_q", [com, can])):
        want = [cmap._SUR] * (MAXCP + 1)
        for a, b in DOMAIN:
            for c in range(a, b + 1):
                o = []
                full_decomposition(single, c, o)
                want[c] = o
        ctx.table(n, want, r=res["ucd::" + n], value=lambda c, v: v[1][: v[0]] if isinstance(v, list) else v)


@check("C13")
def c13(ctx):
    """Hangul composition of all pairs, decomposition of all syllables, round trip"""
    tables(ctx, ["is_syllable"])
    ctx.true_roots(["ucd::hangul_compose", "ucd::hangul_is_syllable", "ucd::hangul_roundtrip", "ucd::hangul_any_maypanic"])


def comp_ex():
    out = set()
    for l in open(f"{VERIF}/oracle/comp_ex.txt"):
        a, b = l.split("..")
        out.update(range(int(a, 16), int(b, 16) + 1))
    return out


def primary_composites():
    can, ex = cmap.oracle("canonical_decomposition"), comp_ex()
    want = {}
    for c in range(MAXCP + 1):
        v = can[c]
        if v is not cmap._SUR and v != "None" and len(v[1]) == 2 and c not in ex:
            want[tuple(v[1])] = c
    for l in range(19):
        for v in range(21):
            lv = 0xAC00 + (l * 21 + v) * 28
            want[(0x1100 + l, 0x1161 + v)] = lv
            for t in range(1, 28):
                want[(lv, 0x11A7 + t)] = lv + t
    return want


def has(sets, x):
    return any(a <= x <= b for a, b in sets)


def holds(cons, env):
    return all(lo <= sum(k * env[s] for s, k in t) <= hi for t, lo, hi in cons)


@check("C14")
def c14(ctx):
    """canonical composition of every pair of scalar values: exactly the primary composites"""
    r = ctx.query(["chars::compose"])["chars::compose"]
    cmap.check_root(r)
    pair_table(ctx, "compose", r, primary_composites())


def pair_table(ctx, name, r, want):
    N = (MAXCP + 1 - 0x800)
    seen, total, exact = {}, 0, True
    by_a = {}
    for (a, b), c in want.items():
        by_a.setdefault(a, []).append((b, c))
    for o in r["outcomes"]:
        A, B = o["in"]
        na, nb = sum(y - x + 1 for x, y in A), sum(y - x + 1 for x, y in B)
        total += na * nb
        if o["cons"]:
            exact = False
            if any(s > 1 for t, _, _ in o["cons"] for s, _ in t):
                raise Inconclusive(f"{name}: auxiliary symbols in a path condition")
        if "panic" in o:
            w = witness(o)
            ctx.bad(f"{name}:panic", f"{name} panics: {o['panic']} for {w}")
            continue
        if o["ret"] == "None":
            hit = None
            for a in (by_a if na > len(by_a) else [x for p, q in A for x in range(p, q + 1)]):
                if a in by_a and has(A, a):
                    for b, c in by_a[a]:
                        if has(B, b) and holds(o["cons"], {0: a, 1: b}):
                            hit = (a, b, c)
                            break
                if hit:
                    break
            if hit:
                ctx.bad(f"{name}:U+{hit[0]:04X},U+{hit[1]:04X}", f"{name}(U+{hit[0]:04X}, U+{hit[1]:04X}) gives None, expected U+{hit[2]:04X}")
            else:
                ctx.good()
            continue
        if na * nb > 3_000_000:
            w = witness(o)
            ctx.bad(f"{name}:box", f"{name} composes {na * nb} pairs, e.g. {w}")
            continue
        for p, q in A:
            for a in range(p, q + 1):
                for p2, q2 in B:
                    for b in range(p2, q2 + 1):
                        env = {0: a, 1: b}
                        if not holds(o["cons"], env):
                            continue
                        v = cmap.ev(o["ret"], env)[1]
                        if want.get((a, b)) == v:
                            seen[(a, b)] = v
                        else:
                            e = want.get((a, b))
                            ctx.bad(f"{name}:U+{a:04X},U+{b:04X}", f"{name}(U+{a:04X}, U+{b:04X}) gives U+{v:04X}, expected {'U+%04X' % e if e is not None else None}")
                            if len(ctx.viol) > 30:
                                return
    if exact and total != N * N and not any(k.startswith(name) for k, _, _ in ctx.viol):
        raise Inconclusive(f"{name}: the paths do not partition the pairs of scalar values")
    ctx.good(len(seen))
    ctx.extra["pairs_with_a_composite"] = len(seen)
    ctx.extra["pairs_decided"] = N * N
    miss = [k for k in want if k not in seen]
    if miss and not ctx.viol:
        a, b = miss[0]
        ctx.bad(f"{name}:U+{a:04X},U+{b:04X}", f"{name}(U+{a:04X}, U+{b:04X}) does not give U+{want[miss[0]]:04X}")


# ---------------------------------------------------------------- text
def render(events, env):
    out = []
    for e in events:
        if e[0] == "s":
            out.append(e[1])
        elif e[0] == "c":
            out.append(chr(cmap.ev(e[1], env)))
        else:
            n, fl, w = cmap.ev(e[1], env), e[2], e[3]
            t = {"d": "%d", "X": "%X", "x": "%x"}[e[0]] % n
            if fl >> 23 & 1 and e[0] != "d":
                raise Inconclusive("alternate form of a symbolic number")
            if fl >> 27 & 1 and len(t) < w:
                if fl >> 24 & 1:
                    t = t.rjust(w, "0")
                else:
                    t = [t.ljust(w), t.rjust(w), t.center(w), t.rjust(w)][fl >> 29 & 3]
            out.append(t)
    return "".join(out)


def char_text(r):
    """char-keyed root that writes text -> list indexed by code point of (result, text)"""
    cmap.check_root(r)
    parts = {}
    for o in r["outcomes"]:
        if o["cons"]:
            raise Inconclusive("relational constraint on a one-argument root")
        for a, b in o["in"][0]:
            parts[(a, b)] = o
    m = [cmap._SUR] * (MAXCP + 1)
    pos = 0
    for (a, b), o in sorted(parts.items(), key=lambda t: t[0]):
        if a != (0xE000 if pos == 0xD800 else pos):
            raise Inconclusive(f"{r['root']}: the analysis does not cover U+{pos:04X}")
        pos = b + 1
        sym = any(len(e) > 1 and isinstance(e[1], dict) for e in o.get("events", []))
        ret = ("panic: " + o["panic"]) if "panic" in o else o["ret"]
        t = None if sym else render(o.get("events", []), {})
        for c in range(a, b + 1):
            if SURR[0] <= c <= SURR[1]:
                raise Inconclusive("surrogate in a char partition")
            m[c] = [cmap.ev(ret, {0: c}), render(o["events"], {0: c}) if sym else t]
    if pos != MAXCP + 1:
        raise Inconclusive(f"{r['root']}: the analysis does not cover U+{pos:04X}")
    return m


JL = "G GG N D DD R M B BB S SS _ J JJ C K T P H".replace("_", "\0").split(" ")
JV = "A AE YA YAE EO E YEO YE O WA WAE OE YO U WEO WE WI YU EU YI I".split(" ")
JT = "\0 G GG GS N NJ NH D L LG LM LB LS LT LP LH M B BS S SS NG J C K T P H".split(" ")


def names():
    m = [None] * (MAXCP + 1)
    for a, b, p in json.load(open(f"{VERIF}/oracle/name_rules.json")):
        for c in range(a, b + 1):
            m[c] = f"{p}{c:04X}"
    for s in range(11172):
        m[0xAC00 + s] = "HANGUL SYLLABLE " + (JL[s // 588] + JV[s % 588 // 28] + JT[s % 28]).replace("\0", "")
    for l in gzip.open(f"{VERIF}/oracle/names.txt.gz", "rt"):
        c, n = l.rstrip("\n").split(";")
        m[int(c, 16)] = n
    return m


@check("C15")
def c15(ctx):
    """the name written for every scalar value, and its length"""
    res = ctx.query(["text::name", "text::name_len"], jobs=2)
    want = names()
    got = char_text(res["text::name"])
    w = [cmap._SUR if g is cmap._SUR else [want[c] is not None, want[c] or ""] for c, g in enumerate(got)]
    text_diff(ctx, "name", got, w, res["text::name"])
    ctx.table("name_len", ["None" if x is None else ["Some", len(x)] for x in want], r=res["text::name_len"])
    ctx.extra["named_characters"] = sum(x is not None for x in want)


def text_diff(ctx, name, got, want, r):
    ctx.good(len(r["outcomes"]))
    for a, b, g, w in cmap.diff(got, want):
        ctx.bad(f"{name}:U+{a:04X}", f"{name}({cmap.rng(a, b)}) writes {g}, expected {w}", {"through": ctx.site(r)})


@check("C16")
def c16(ctx):
    """the alias types of every scalar value, and the aliases of every type"""
    tables(ctx, ["name_alias_types"])
    r = ctx.query(["chars::name_aliases"])["chars::name_aliases"]
    cmap.check_root(r)
    want = json.load(open(f"{VERIF}/oracle/name_aliases.json"))
    keys = {}
    for c, t, v in want:
        keys[(c, t)] = v
    if not keys:
        raise Inconclusive("empty oracle")
    types = sorted({t for _, t in keys})
    seen = {}
    for o in r["outcomes"]:
        if o["cons"]:
            raise Inconclusive("relational constraint")
        T = variants(o, 1)
        n = sum(b - a + 1 for a, b in o["in"][0])
        ret = ("panic: " + o["panic"]) if "panic" in o else o["ret"]
        bad = None
        for t in T:
            hits = [(c, v) for (c, t2), v in keys.items() if t2 == t and has(o["in"][0], c)]
            if ret == "None":
                if hits:
                    bad = (hits[0][0], t, ret, hits[0][1])
            else:
                for p, q in o["in"][0]:
                    for c in range(p, min(q, p + 5000) + 1):
                        e = keys.get((c, t))
                        if e is None or ret != ["Some", e]:
                            bad = (c, t, ret, e)
                        else:
                            seen[(c, t)] = 1
        if bad:
            ctx.bad(f"name_aliases:U+{bad[0]:04X}:{bad[1]}", f"aliases of U+{bad[0]:04X} of type {bad[1]} are {bad[2]}, expected {bad[3]}")
        else:
            ctx.good()
    for k in keys:
        if k not in seen and not ctx.viol:
            ctx.bad(f"name_aliases:U+{k[0]:04X}:{k[1]}", f"aliases of U+{k[0]:04X} of type {k[1]} are missing")
    ctx.extra["aliased_pairs"] = len(seen)


NAT = ["NameCorrections", "ControlCodeNames", "AlternateNames", "Figments", "NameAbbreviations"]


def variants(o, i):
    """variant names in the box of enum argument i"""
    a = o["args"][i]
    v = a["variant"] if isinstance(a, dict) and "variant" in a else a
    if isinstance(v, str):
        return [v]
    out = []
    for s, k in v["lin"]:
        for p, q in o["in"][s]:
            out += [NAT[x] for x in range(p, q + 1)]
    return out


@check("C17")
def c17(ctx):
    """the UTS #46 mapping of every scalar value"""
    tables(ctx, ["idna_mapping"])


@check("C18")
def c18(ctx):
    """every published version constant"""
    ctx.true_roots(["ucd::versions"])
