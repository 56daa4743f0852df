"""Rigid objects: loads and mass of points, rods and bodies."""
from _world import *
FEATS = [dict(maxbodies=0, minrods=1, maxrods=3, surface=0.6), dict(minbodies=1, maxbodies=3, maxrods=0, cdan=[1, 2, 3, 6]),
         dict(minbodies=1, maxbodies=2, minrods=1, maxrods=3, rodkinds=["body", "bodypin", "free"], cdan=[1, 2, 3, 6]),
         dict(maxbodies=0, minrods=1, maxrods=2, surface=1.0, maxlines=2), dict(maxbodies=0, minrods=1, bed=1.0, maxlines=2),
         dict(minbodies=1, bodykinds=["free", "cpldpin"], surface=0.5, cdan=[3, 6])]


def run(ctx):
    n = 500 if ctx.quick() else 4000
    worlds_batch(ctx, n, FEATS, "w", ["Point", "Rod", "Body"], ["Ok", "Shape", "Rod", "Body", "Point"], nsteps=3)
