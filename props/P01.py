"""Coupling vector contract."""
from _world import *
FEATS = [dict(minbodies=1, maxbodies=3, maxrods=3, minpoints=3, needcoupled=True,
              bodykinds=["free", "coupled", "coupled", "cpldpin"], rodkinds=["free", "coupled", "cpldpin", "body", "pinned"]),
         dict(maxbodies=0, minrods=2, maxrods=3, rodkinds=["coupled", "cpldpin", "free"], minpoints=3, maxpoints=6),
         dict(minbodies=2, maxbodies=3, maxrods=2, bodykinds=["coupled", "cpldpin", "fixed"], needcoupled=False),
         dict(maxbodies=2, maxrods=2, maxpoints=7, pointkinds=["coupled", "coupled", "free", "fixed"]),
         # nothing coupled after the rods, nor after the bodies
         dict(maxbodies=1, minrods=1, maxrods=2, rodkinds=["cpldpin", "cpldpin", "coupled"], pointkinds=["fixed", "free"], needcoupled=False),
         dict(minbodies=1, maxbodies=2, maxrods=0, bodykinds=["coupled", "cpldpin"], pointkinds=["fixed", "free"], needcoupled=False)]


def known(scs, byt, traces):
    return {t: k for t, k in ((t, known1(rs, traces[t - 1])) for t, rs in byt.items()) if k}


def known1(rs, trace):
    m = trace[0]
    pins = sum(b["k"] == "cpldpin" for b in m["bodies"])
    w = {"coupled": 6, "cpldpin": 3}
    want = sum(w.get(b["k"], 0) for b in m["bodies"] + m["rods"]) + sum(3 for p in m["points"] if p["k"] == "coupled")
    got = [e["ndof"] for e in trace if e.get("op") == "create"]
    if pins and all(r["check"] == "Couple.ndof" for r in rs) and got == [want + 3 * pins]:
        return "ndof-cpldpin-body"


def pad(ops):
    """room after the force vector, which must stay untouched"""
    for o in ops:
        if o["op"] == "step":
            o["nf"] = len(o["x"]) + 7
    return ops


def run(ctx):
    n = 450 if ctx.quick() else 4000
    scs = [worlds.world_scenario(ctx, "w%d" % i, sd, FEATS[i % len(FEATS)]) for i, sd in enumerate(seeds(ctx, n))]
    for s in scs:
        pad(s.ops)
    ctx.conform("WorldTrace", scs, ["Couple", "Attach"], relevant("Ok", "Shape", "Couple", "Attach.coupled*", "Attach.pinnedbody"),
                known=known)
