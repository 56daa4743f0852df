from _world import *
FEATS = [dict(maxbodies=0, maxrods=0, EI=0.0, EItab=0.0), dict(maxbodies=0, maxrods=0, surface=0.9, EI=0.0),
         dict(maxbodies=1, maxrods=1, EI=0.0, EItab=0.0), dict(maxbodies=0, maxrods=0, bed=1.0, maxseg=9),
         dict(maxbodies=0, maxrods=2, light=1.0, surface=0.6)]


def run(ctx):
    n = 200 if ctx.quick() else 900
    worlds_batch(ctx, n, FEATS, "w", ["Line"], ["Ok", "Shape", "Line.tension", "Line.weight", "Line.drag",
                 "Line.froudekrylov", "Line.mass", "Line.net", "Line.fairten", "Line.maxten", "Line.fast", "Line.ul"])
