#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from props import *
import p_data, p_core, p_text, p_eff  # noqa: F401  (register the checks)


def main():
    pid = sys.argv[1]
    if pid == "--list":
        print("\n".join(sorted(CHECKS)))
        return 0
    if pid == "--setup":
        driver()
        driver("effects", "unic-effects")
        for h in HARNESSES:
            harness_args(h)
        return 0
    f, meta = CHECKS[pid]
    ctx = Ctx(pid, os.environ.get("VERIF_TIER") or "quick")
    try:
        rule = f(ctx)
    except Inconclusive as e:
        print(f"INCONCLUSIVE: {str(e)[:4000]}")
        ctx.inconclusive.append(str(e)[:2000])
        return ctx.finish(level=meta.get("level", "proof"))
    return ctx.finish(level=meta.get("level", "proof"), rule=rule or f.__doc__ or "")


HARNESSES = ["harness"]
if __name__ == "__main__":
    sys.exit(main())
