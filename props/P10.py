"""Load transfer: ends -> points/rods -> bodies -> caller."""
from _world import *
FEATS = [dict(maxbodies=0, maxrods=0, minpoints=3, minlines=3), dict(minbodies=1, maxbodies=2, minpoints=3, minlines=3),
         dict(minbodies=1, bodykinds=["coupled", "cpldpin", "free"], minrods=1, rodkinds=["body", "bodypin", "free"], minlines=3),
         dict(minrods=1, maxrods=2, rodkinds=["coupled", "cpldpin", "free", "pinned"], minlines=3),
         dict(maxbodies=1, maxrods=1, minlines=4, maxlines=6, minpoints=3)]


def run(ctx):
    n = 500 if ctx.quick() else 4000
    worlds_batch(ctx, n, FEATS, "w", ["Point", "Rod", "Body", "Couple"],
                 ["Ok", "Shape", "Point", "Body.force", "Body.moment", "Rod.force", "Rod.moment", "Couple.order"])
