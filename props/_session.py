"""Shared by the properties decided with module Session."""
import random
import zlib

import sessions
from _world import relevant, LEVEL

RULE = ("behaviours of Session.tla drawn by TLC (-simulate) and replayed on the real library with random mooring "
        "systems; a case is one API call; every history reached is repeated straight in another process; a "
        "behaviour counts once even if TLC draws it again")
ASSUMES = ["what the getters, the force vector and the returned time show is all a user can observe",
           "bit equality of IEEE doubles (the sign of zero apart)",
           "TLC, the ctypes driver and the operating system are trusted"]

FEATS = [dict(), dict(maxbodies=2, maxrods=2, minpoints=2), dict(maxbodies=0, maxrods=0), dict(minrods=1, maxrods=2, maxbodies=1),
         dict(bathy=1.0), dict(minbodies=1, maxbodies=2, maxrods=1)]
SCH = ["AB2", "Euler", "AB3", "RK4", "AB4", "Heun", "lab2", "RK2", "lab3", "LEuler", "lab4", "BEuler3", "Midpoint3", "Anderson4",
       "ACA3", "Wilson3", "WILSON5", "anderson2", "AB3"]


def behave(ctx, n, cfg, tag, rel, asan=False, **kw):
    sd = zlib.crc32(("%s/%d/%s/%s" % (ctx.prop, ctx.seed, ctx.tier, tag)).encode())
    r = random.Random(sd)
    bs = sessions.behaviours(ctx, n, sd % 100000 + 1, tag=tag, cfg=cfg)
    scs = []
    for i, b in enumerate(bs):
        sc = sessions.scenario(ctx, "%s%d" % (tag, i), b, r.randrange(1 << 30), feat=FEATS[i % len(FEATS)],
                               scheme=SCH[i % len(SCH)], **kw)
        sc.asan = asan
        scs.append(sc)
    return ctx.conform("SessionTrace", scs, [], relevant(*rel), tag=tag)
