"""Shared by the properties decided on random worlds with module WorldTrace."""
import random
import zlib

import worlds

RULE = ("random mooring systems (lines, points, rods, bodies, tables, sea bed and surface crossing) "
        "driven by random motions; a case is one recorded API call with its observation; each scenario is a "
        "different system, so all of them count as non-trivial")
ASSUMES = ["the observation getters report the same quantities the solver used",
           "double precision rounding stays below the stated tolerances (probe of 1e-12 s)",
           "TLC, the FP module override (Java doubles) and the ctypes driver are trusted"]
LEVEL = "model_checking"


def relevant(*prefixes):
    return lambda c: any(c == p or c.startswith(p + ".") or (p.endswith("*") and c.startswith(p[:-1])) for p in prefixes)


def seeds(ctx, n, salt=""):
    r = random.Random(zlib.crc32(("%s/%d/%s/%s" % (ctx.prop, ctx.seed, ctx.tier, salt)).encode()))
    return [r.randrange(1 << 30) for _ in range(n)]


def worlds_batch(ctx, n, feats, tag, checks, rel, **kw):
    """n worlds cycling through the feature sets"""
    scs = []
    for i, sd in enumerate(seeds(ctx, n, tag)):
        f = feats[i % len(feats)]
        scs.append(worlds.world_scenario(ctx, "%s%d" % (tag, i), sd, f, **kw))
    return ctx.conform("WorldTrace", scs, checks, relevant(*rel), tag=tag)
