"""Sea bed: contact, friction, bathymetry and depth queries."""
from _world import *
FEATS = [dict(maxbodies=0, maxrods=0, bed=1.0, friction=0.9, maxseg=8), dict(maxbodies=0, maxrods=0, bed=1.0, bathy=1.0, friction=0.8),
         dict(maxbodies=1, maxrods=2, bed=1.0, bathy=1.0, friction=0.8), dict(maxbodies=0, maxrods=1, bed=0.8, friction=0.0)]


def run(ctx):
    n = 100 if ctx.quick() else 4000
    scs = []
    for i, sd in enumerate(seeds(ctx, n)):
        sc = worlds.world_scenario(ctx, "w%d" % i, sd, FEATS[i % len(FEATS)], nsteps=5, substeps=(5, 25))
        r = random.Random(sd)
        q = [[repr(r.uniform(-90, 90)), repr(r.uniform(-90, 90))] for _ in range(12)]
        b = sc.head[0]["bathy"]
        if b:
            q += [[r.choice(b["x"]), r.choice(b["y"])] for _ in range(6)]
            q += [[r.choice(b["x"]), repr(r.uniform(-90, 90))] for _ in range(3)]
        sc.ops.insert(-1, {"op": "depth", "h": "a", "pts": q})
        scs.append(sc)
    ctx.conform("WorldTrace", scs, ["Line", "Rod", "Bed"],
                relevant("Ok", "Shape", "Line.seabed", "Line.net", "Bed", "Rod.force"))
