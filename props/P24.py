"""Simulations which diverge are reported."""
from _world import *
import gen
from common import Scenario
from worlds import s, sv

RULE = ("systems integrated with time steps far beyond their stability limit until some node is "
        "at no place; a case is one API call, checked against Lost.tla")
FEATS = [dict(maxbodies=0, maxrods=0, maxlines=3), dict(maxbodies=1, minrods=1, maxrods=2, maxlines=3), dict(minbodies=1, maxbodies=2, maxrods=1),
         dict(maxbodies=0, minrods=1, maxrods=2, rodkinds=["free", "pinned"], maxlines=2),
         dict(minbodies=1, maxbodies=3, maxrods=1, maxlines=1)]


def scenario(ctx, name, seed, feat):
    r = random.Random(seed)
    w = gen.World(r, **feat)
    w.scheme = r.choice(["Euler", "Heun", "RK2", "RK4", "AB2", "AB3", "AB4"])
    how = r.choice(["dt", "dt", "dt", "calm"])
    if r.random() < 0.5:
        # bodies, rods and points by themselves: no line tells on them
        keep = [l for l in w.lines if all(l[e]["k"] == "p" and w.points[l[e]["i"] - 1]["k"] in ("fixed", "coupled") for e in "AB")]
        w.lines = keep
        how = "alone"
        w.dtm = gen.sig(r.choice([0.5, 5.0, 50.0]), 3)
    if how == "dt":
        w.dtm = gen.sig(w.dtm * r.choice([3, 30, 300]), 3)
    x = w.x0()
    z = [0.0] * len(x)
    ops = [{"op": "create", "h": "a", "file": w.write(ctx.dir("in/" + name))},
           {"op": "init", "h": "a", "noic": True, "x": sv(x), "xd": sv(z), "where": True, "slim": True}]
    for i in range(14 if how != "alone" else 30):
        dt = w.dtm * (1 if i < 10 else 20) * r.choice([1, 1, 1, 2, 5])
        ops.append({"op": "step", "h": "a", "x": sv(x), "xd": sv(z), "t": "0.0", "dt": s(dt), "where": True, "slim": True})
    ops.append({"op": "close", "h": "a"})
    return Scenario(name, ops, [{"op": "head"}])


def run(ctx):
    ctx.model_check("Lost")
    n = 800 if ctx.quick() else 3000
    scs = [scenario(ctx, "n%d" % i, sd, FEATS[i % len(FEATS)]) for i, sd in enumerate(seeds(ctx, n))]
    tr, _ = ctx.conform("LostTrace", scs, [], relevant("Lost"), tag="lost")
    ctx.cov.setdefault("more", {})["lost"] = sum(any(e.get("err") == "nan" for e in t) for t in tr)
