#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description (development helper)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
AI = "abstract interpretation of compiler MIR (interval sets + linear relations, path-partitioned), compared with a complete oracle"
AIS = "abstract interpretation of compiler MIR: a specification function is proved to return true on every path"
NOTE = ("Exact over the whole stated input space: the analyser covers every input with a finite partition and refuses (exit 2) when it "
        "cannot follow the code. Trusts rustc's MIR, the analyser and its models of a few core functions (DESIGN.md), and the oracle files.")


def p(id, title, statement, over, why, files, mech, technique=AI, level="proof", note=NOTE, na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, technique=technique, level=level, note=note, na=na, observe=list(observe)))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_src.py")).read())

with open(f"{V}/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"][0], "text": x["over"][1]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                        **({"observe_at": x["observe"]} if x["observe"] else {}), "hook_needed": None},
        }) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "python3 sa/check.py --setup",
    "checks": [{
        "property": x["id"], "quick_cmd": f"python3 sa/check.py {x['id']}", "thorough_cmd": f"python3 sa/check.py {x['id']}",
        "evidence_file": f"evidence/{x['id']}.json", "technique": x["technique"], "level": x["level"], "level_note": x["note"],
    } for x in P if not x["na"]],
    "not_applicable": [{"property": x["id"], "reason": x["na"]} for x in P if x["na"]],
    "notes": "No hooks: the analyser reads the MIR of the unmodified crates. See DESIGN.md.",
}, open(f"{V}/MANIFEST.json", "w"), indent=1)
if os.environ.get("SCHEMA", "1") == "1":
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(f"{V}/properties.jsonl"):
            jsonschema.validate(json.loads(l), s)
        jsonschema.validate(json.load(open(f"{V}/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    except ImportError:
        pass
