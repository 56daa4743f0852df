#!/usr/bin/env python3
"""python3 check.py <property> quick|thorough

Exit 0: the property held on everything explored.
Exit 1 + "VIOLATION property=<id> replay=<path>": it is broken.
Anything else: the check itself failed."""
import importlib
import json
import os
import re
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
for d in ("harness", "tools", "props"):
    sys.path.insert(0, os.path.join(ROOT, d))
import common


def findings(prop):
    """listed, unrepaired findings: {key: description}"""
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(prop)
    ctx = common.Ctx(prop, tier, seed)
    ctx.findings = findings(prop)
    rc = 0
    try:
        mod.run(ctx)
    except Exception:
        if not ctx.violations:
            traceback.print_exc()
            print("ERROR property=%s: the check could not decide" % prop)
            return 2
    seen = set()
    for k in ctx.known:
        if k not in seen:
            seen.add(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, ctx.findings.get(k, k)))
    for path, sig, first in ctx.violations[:10]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (",".join(sig)[:200], first.get("detail", "")[:300]))
        rc = 1
    cov = ctx.evidence(getattr(mod, "RULE", ""))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
               "assumptions": getattr(mod, "ASSUMES", []), "wall_s": round(time.time() - ctx.t0, 2),
               "violations": len(ctx.violations)},
              open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("property=%s tier=%s seed=%d %s wall=%.1fs" % (
        prop, tier, seed, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)}), time.time() - ctx.t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
