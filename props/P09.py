"""Attachments: everything stays where it is attached."""
from _world import *
FEATS = [dict(), dict(minbodies=1, maxbodies=3, maxrods=3), dict(minrods=1, maxrods=3, EI=0.8),
         dict(minbodies=1, bodykinds=["free", "cpldpin"], maxrods=2, rodkinds=["body", "bodypin", "free"]),
         dict(minbodies=1, bodykinds=["fixed", "coupled"], maxrods=2, rodkinds=["body", "bodypin", "pinned"])]


def run(ctx):
    n = 600 if ctx.quick() else 5000
    worlds_batch(ctx, n, FEATS, "w", ["Attach"], ["Ok", "Shape", "Attach"], nsteps=4)
