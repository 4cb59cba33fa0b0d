"""Properties of all texts (strings of any length)."""
import itertools
from props import *


@check("C26")
def c26(ctx):
    """word boundaries of every text, read forwards, against the UAX #29 rules as an automaton"""
    ctx.text_roots(["words::forward"])


G2 = ("extended", "legacy")


@check("C27")
def c27(ctx):
    """grapheme clusters of every text, against the UAX #29 rules as an automaton"""
    ctx.text_roots([f"graphemes::{x}{y}" for x in G2 for y in ("", "_indices")])


@check("C28")
def c28(ctx):
    """GraphemeCursor: queries at any position of any text, with any chunking of the text, after any move"""
    ctx.text_roots([f"graphemes::{f}_{x}" for x in G2 for f in ("anywhere", "pieces", "before", "after", "moved", "moved_before", "split_before", "back")])


@check("C29")
def c29(ctx):
    """word boundaries read backwards, with offsets, and both ways at once"""
    ctx.text_roots([f"words::{x}" for x in ("backward", "backward_indices", "forward_indices", "mixed", "filtered")])


@check("C30")
def c30(ctx):
    """grapheme clusters read backwards, with offsets, and both ways at once"""
    ctx.text_roots([f"graphemes::{f}_{x}" for x in G2 for f in ("last", "mixed")] + [f"graphemes::last_{x}_indices" for x in G2])


@check("C32")
def c32(ctx):
    """UTS #46 processing of short names, with the mapping, normalization and Punycode as uninterpreted functions"""
    roots = ["bidi_5", "ace_0b", "ascii_2b", "ascii_2a", "long_name", "ace_0a", "bidi_1", "bidi_2", "bidi_3", "bidi_4", "unicode_1", "ascii_1", "unicode_2a", "unicode_2b", "unicode_2n", "ascii_2n",
             "unicode_3", "ascii_3", "ace_0w", "ace_1", "ace_2", "ace_3", "ace_4", "dots", "long_label"]
    ctx.true_roots([f"idna::{r}" for r in roots], budget=400_000_000, jobs=8)


@check("C31")
def c31(ctx):
    """normalization of short texts, with the normalization data as uninterpreted functions"""
    f4 = ("nfd", "nfc", "nfkd", "nfkc")
    roots = [f"normal::{f}_{n}" for f in f4 for n in (2, 3, 4)] + ["normal::nfd_6_long", "normal::nfd_5_wide", "normal::nfc_5_wide"]
    roots += [f"normal::{k}_{f}" for k in ("display", "string") for f in f4]
    ctx.true_roots(sorted(roots, key=lambda r: -int("_wide" in r or "_long" in r)), budget=400_000_000, jobs=8)


ABBR = dict(ArabicLetter="AL", ArabicNumber="AN", ParagraphSeparator="B", BoundaryNeutral="BN", CommonSeparator="CS", EuropeanNumber="EN",
            EuropeanSeparator="ES", EuropeanTerminator="ET", FirstStrongIsolate="FSI", LeftToRight="L", LeftToRightEmbedding="LRE",
            LeftToRightIsolate="LRI", LeftToRightOverride="LRO", NonspacingMark="NSM", OtherNeutral="ON", PopDirectionalFormat="PDF",
            PopDirectionalIsolate="PDI", RightToLeft="R", RightToLeftEmbedding="RLE", RightToLeftIsolate="RLI", RightToLeftOverride="RLO",
            SegmentSeparator="S", WhiteSpace="WS")


def class_roots(ctx, roots, **kw):
    """every path of every root returns `true`; a path is a set of sequences of Bidi classes (a product, but for its constraints)"""
    res = ctx.query(roots, **kw)
    for q in sorted(res):
        r = res[q]
        bad = []
        if "error" in r:
            ctx.unsure(f"{q}: {r['error']}")
            continue
        if not r["outcomes"]:
            ctx.unsure(f"{q}: no outcome")
        for o in r["outcomes"]:
            if "unsup" in o:
                ctx.unsure(f"{q}: not analysable: {o['unsup']}")
            elif o.get("ret") is True:
                ctx.good()
            else:
                bad.append(o)
        for o in bad:
            cl = o.get("classes", [])
            names = [ABBR[n] for n in o.get("class_names", [])]
            what = f"panics: {o['panic']}" if "panic" in o else "violates its specification"
            seqs = []
            for combo in itertools.islice(itertools.product(*[c for _, c in cl]), 3000):
                v = {y: i for (y, _), i in zip(cl, combo)}
                if all(lo <= sum(k * v[s] for s, k in t) <= hi for t, lo, hi in o["cons"] if all(s in v for s, _ in t)):
                    seqs.append(" ".join(names[i] for i in combo))
            if not seqs:
                ctx.unsure(f"{q}: {what}, on no sequence of classes that was found")
            for s in seqs:
                ctx.bad(f"{q} {s}", f"{q}: characters of the classes {s}: {what}", {"root": q, "classes": s, "panic": o.get("panic"), "through": ctx.site(r)})
        ctx.extra.setdefault("paths", {})[q] = len(r["outcomes"])
        ctx.sample({"root": q, "paths": len(r["outcomes"]), "steps": r["steps"]})


@check("C33")
def c33(ctx):
    """visual runs and reordered text of every line of short texts, for all classes and levels"""
    roots = ["classes_4", "lines_3", "classes_4w", "whole_3", "levels_5", "levels_4", "levels_top", "lines_2", "whole_2", "empty"]
    ctx.true_roots([f"bidi::{r}" for r in roots], budget=900_000_000, jobs=8)


@check("C34")
def c34(ctx):
    """paragraphs, their levels and the resolved isolates of short texts, for all classes"""
    class_roots(ctx, [f"bidi::para_{r}" for r in ("3", "b", "d", "5", "4")], budget=900_000_000, jobs=8)


@check("C35")
def c35(ctx):
    """embedding levels of short texts, for all classes, against rules X1 to I2 (without N0)"""
    roots = ["explicit_5", "explicit_4", "explicit_5t", "explicit_4t", "explicit_4r", "explicit_3", "weak_3", "weak_3b", "weak_3l", "weak_3r", "weak_3t", "weak_4", "weak_4b",
             "weak_4l", "weak_4r", "sizes_2"]
    class_roots(ctx, [f"bidi::{r}" for r in roots], budget=900_000_000, jobs=8)
