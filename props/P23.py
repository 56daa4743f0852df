"""Bending and nonlinear tables."""
from _world import *
FEATS = [dict(maxbodies=0, maxrods=0, EI=1.0, EItab=0.0, minseg=2, maxseg=8), dict(maxbodies=0, minrods=1, maxrods=2, EI=1.0, EItab=0.0, minlines=2),
         dict(maxbodies=0, maxrods=1, EItab=1.0, minseg=2), dict(maxbodies=0, maxrods=0, EAtab=1.0, maxlines=3),
         dict(maxbodies=0, maxrods=0, EAtab=1.0, EItab=0.7, minseg=2)]


def run(ctx):
    n = 150 if ctx.quick() else 4000
    worlds_batch(ctx, n, FEATS, "w", ["Line"], ["Ok", "Shape", "Line.bending", "Line.curvature", "Line.tension", "Line.net"])
