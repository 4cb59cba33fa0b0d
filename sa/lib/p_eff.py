"""Effects, unsafe operations, sharing: rules over the type-checked program and its MIR."""
import re
import cmap
from props import check, exhausted, fmt_args, witness
from core import *

# the library crates of the repository that a user links
CRATES = """unic unic_bidi unic_char unic_char_basics unic_char_property unic_char_range unic_common unic_emoji unic_emoji_char
unic_idna unic_idna_mapping unic_idna_punycode unic_normal unic_segment unic_ucd unic_ucd_age unic_ucd_bidi unic_ucd_block
unic_ucd_case unic_ucd_category unic_ucd_common unic_ucd_hangul unic_ucd_ident unic_ucd_name unic_ucd_name_aliases
unic_ucd_normal unic_ucd_segment unic_ucd_version""".split()

# parts of std whose functions read or change something other than their arguments
AMBIENT = re.compile(
    r"std::(env|fs|io|net|process|thread|time|os|sys|backtrace|random|alloc)::"
    r"|RandomState|DefaultHasher|std::hash::random"
    r"|std::sync::(Mutex|RwLock|mpsc|mpmc|Condvar|Barrier|Once\b|poison|nonpoison|OnceLock::<[^:]*>::set)"
    r"|HashMap::<.*>::(iter|keys|values|drain|retain|into_keys|into_values|iter_mut|values_mut|extract_if)\b"
    r"|HashSet::<.*>::(iter|drain|retain|union|intersection|difference|symmetric_difference)\b"
    r"|<&?.*Hash(Map|Set)<.*> as std::iter::IntoIterator>")
# functions that make the address of a value observable
ADDRESS = re.compile(r"std::ptr::(eq|addr_eq|hash|fn_addr_eq)\b|::ptr_eq\b|expose_provenance|<impl \*(const|mut) T>::(addr|expose|guaranteed)|as std::fmt::Pointer>|std::fmt::Pointer::fmt|std::any::TypeId")
# write-once holders: what they hold is computed by code that is itself under these rules
ONCE = re.compile(r"^(std::sync::)?(LazyLock|OnceLock)<|lazy_static::lazy::Lazy<")
# the two segmentation iterators subtract the addresses of slices of one text: C29 and C30 prove
# the offsets, with the address of the text unknown
ADDR_OK = ("unic_segment",)


def crate_of(path):
    """crate that defines a printed path (`unic::unic_bidi::..` is unic_bidi)"""
    m = re.findall(r"\bunic(?:_[a-z]+)*\b(?=::)", path)
    return m[0] if m and m[0] != "unic" else (m[1] if len(m) > 1 else (m[0] if m else "?"))


def src_crate(at):
    m = re.match(r"unic/(.*?)/?src/", at)
    return "unic_" + m.group(1).replace("/", "_") if m and m.group(1) else "unic"


def scan(ctx):
    rows = effects()
    got = {r["crate"]: r["fns"] for r in rows if "crate" in r}
    for c in CRATES:
        if c not in got:
            raise Inconclusive(f"crate {c} was not read")
    for r in rows:
        if r.get("op") == "no body":
            ctx.unsure(f"{r['fn']} has no MIR to read")
    ctx.extra["crates"] = got
    ctx.extra["functions_read"] = sum(got.values())
    ctx.roots = {c: {"functions": n} for c, n in got.items()}
    return rows


@check("C36")
def c36(ctx):
    """no static that can change, no thread-local, no interior mutability in any type, no call into a part of
    std that reads or changes ambient state, no observable address, no foreign code, no assembly, in any function of any library crate"""
    rows = scan(ctx)
    for r in rows:
        if "static" in r:
            if r["mut"] or r["tls"] or (not r["freeze"] and not ONCE.search(r["ty"])):
                ctx.bad(f"static {r['static']}", f"{r['static']} ({r['at']}) is state shared between calls: "
                        f"{'static mut' if r['mut'] else 'thread-local' if r['tls'] else 'interior mutability'} of type {r['ty']}", r)
            else:
                ctx.good()
        elif "type" in r:
            if r["cells"]:
                ctx.bad(f"type {r['type']}", f"{r['type']} ({r['at']}) holds interior-mutable state: {', '.join(r['cells'])}", r)
            else:
                ctx.good()
        elif "op" in r and r["op"] not in ("no body", "raw pointer dereference", "union field"):
            if r["op"].startswith("address") and src_crate(r["at"]) in ADDR_OK:
                ctx.good()
            else:
                ctx.bad(f"{r['op']} {r['fn']}", f"{r['fn']} ({r['at']}): {r['op']}", r)
        elif "call" in r:
            c = r["call"]
            why = ("foreign function" if r["foreign"] else "reads or changes ambient state" if AMBIENT.search(c)
                   else "observes an address" if ADDRESS.search(c) else None)
            by = [(f, w) for f, w in r["by"] if not (why == "observes an address" and src_crate(w) in ADDR_OK)]
            if why and by:
                for f, w in by:
                    ctx.bad(f"call {c} {f}", f"{f} ({w}) calls {c}, which {why}" if why != "foreign function" else f"{f} ({w}) calls the foreign function {c}", {"callee": c, "caller": f, "at": w})
            else:
                ctx.good(len(r["by"]))
    ctx.extra["call_edges"] = sum(len(r["by"]) for r in rows if "call" in r)
    ctx.sample({"std functions called": sorted({r["call"] for r in rows if "call" in r and r["krate"] == "std"})})


# unsafe operations whose preconditions another analysis discharges: (crate, callee) -> where
PROVED = {
    ("unic_ucd_hangul", "std::char::from_u32_unchecked"): "C13 (every syllable and every pair of Jamo)",
    ("unic_char_range", "std::char::from_u32_unchecked"): "C22, C23 (every range, every index)",
    ("unic_char_range", "unic_char_range::step::forward"): "C22",
    ("unic_char_range", "unic_char_range::step::backward"): "C22",
    ("unic_idna_punycode", "std::string::String::from_utf8_unchecked"): "C37 (safety::puny_bytes, puny_ascii: the bytes are made one by one from single characters)",
}
PRIVATE = ["unic_char_range::CharIter::low", "unic_char_range::CharIter::high"]


# queries that reach every unsafe call with every argument its safe callers can have
UB_ROOTS = ["ucd::hangul_compose", "ucd::hangul_any_maypanic", "ranges::*"]


def ub_roots(ctx, roots):
    """no path reaches an unsafe operation with its precondition broken (what the functions return is another property's)"""
    res = ctx.query(roots)
    for q in sorted(res):
        r = res[q]
        if "error" in r or not r["outcomes"]:
            ctx.unsure(f"{q}: {r.get('error', 'no outcome')}")
            continue
        for o in r["outcomes"]:
            if o.get("panic", "").startswith("UB"):
                w = witness(o)
                if w is None and exhausted(o):
                    ctx.good()
                elif w is None:
                    ctx.unsure(f"{q}: {o['panic']}, but no concrete input was derived")
                else:
                    args = cmap.ev(o["args"], w)
                    ctx.bad(q, f"{q}{fmt_args(args)}: {o['panic']}", {"root": q, "args": args, "through": ctx.site(r)})
            elif "unsup" in o:
                ctx.unsure(f"{q}: not analysable: {o['unsup']}")
            else:
                ctx.good()


@check("C37")
def c37(ctx):
    """every unsafe call, raw pointer dereference, union access and unsafe impl of the library crates is one whose
    precondition is proved, for every input, by the abstract interpretation"""
    rows = scan(ctx)
    for r in rows:
        if "unsafe_impl" in r:
            if r["unsafe_impl"].endswith("clone::TrivialClone") or (r["unsafe_impl"].endswith("TrustedLen") and "CharIter" in r["of"]):
                ctx.good()
            else:
                ctx.bad(f"impl {r['unsafe_impl']} {r['of']}", f"unsafe impl {r['unsafe_impl']} for {r['of']} ({r['at']})", r)
        elif "op" in r and r["op"] in ("raw pointer dereference", "union field", "inline assembly", "foreign function"):
            ctx.bad(f"{r['op']} {r['fn']}", f"{r['fn']} ({r['at']}): {r['op']}", r)
        elif "static" in r:
            if r["mut"]:
                ctx.bad(f"static {r['static']}", f"{r['static']} ({r['at']}) is a static mut", r)
            else:
                ctx.good()
        elif "call" in r and (r["unsafe"] or r["foreign"]):
            c = r["call"].removeprefix("unsafe ")
            for f, w in r["by"]:
                k = (src_crate(w), c)
                if k in PROVED:
                    ctx.good()
                    ctx.sample({"unsafe call": c, "in": f, "at": w, "precondition": PROVED[k]})
                else:
                    ctx.bad(f"unsafe {c} {f}", f"{f} ({w}) makes the unsafe call {c}: no analysis shows its precondition", {"callee": c, "caller": f, "at": w})
        elif "field" in r and any(r["field"].endswith(x) for x in PRIVATE):
            if r["vis"]:
                ctx.bad(f"field {r['field']}", f"the field {r['field']} ({r['at']}), which unsafe code relies on, is public", r)
            else:
                ctx.good()
    ub_roots(ctx, UB_ROOTS)
    ctx.true_roots(["safety::puny_bytes", "safety::puny_ascii"])


@check("C38")
def c38(ctx):
    """every type of every library crate is made of parts that can be sent to and shared between threads (type
    parameters aside), and the number in a bidi Level is private"""
    rows = scan(ctx)
    n = 0
    for r in rows:
        if "type" in r:
            n += 1
            if r["unsync"]:
                ctx.bad(f"type {r['type']}", f"{r['type']} ({r['at']}) cannot be shared between threads: it holds {', '.join(r['unsync'])}", r)
            else:
                ctx.good()
        elif "field" in r and re.search(r"\bLevel::0$", r["field"]):
            if r["vis"]:
                ctx.bad("Level::0", f"the number of a Level ({r['at']}) is public: levels above 126 can be made", r)
            else:
                ctx.good()
    ctx.extra["types"] = n
