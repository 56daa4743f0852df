"""The motion is what the equations of motion and the time scheme give."""
import math
from _world import *
import gen
from common import Scenario, check_traces

s = lambda v: repr(float(v))
sv = lambda v: [s(x) for x in v]
RK = ["free", "free", "coupled", "cpldpin", "pinned", "fixed", "body"]
FEATS = [dict(maxbodies=0, maxrods=0, maxlines=3, maxseg=5), dict(maxbodies=1, minbodies=1, maxrods=1, rodkinds=RK, maxlines=3, maxseg=4),
         dict(maxbodies=0, minrods=1, maxrods=2, rodkinds=RK, maxlines=2, maxseg=4, EI=0.6),
         dict(minbodies=1, maxbodies=2, maxrods=0, bodykinds=["free", "free", "cpldpin", "coupled"], maxlines=3, maxseg=3)]
SCHEMES = ["Euler", "RK2", "RK4", "AB2", "AB3", "AB4", "Heun", "BEuler4", "Midpoint3", "ACA3"]


def split(scheme):
    """name and number of iterations"""
    for k in ("BEuler", "Midpoint", "ACA"):
        if scheme.startswith(k):
            return {"sc": k, "it": int(scheme[len(k):])}
    return {"sc": scheme, "it": 0}


def pow2(v):
    return 2.0 ** math.floor(math.log2(v))


def scenario(ctx, name, seed, feat, scheme, ncalls=5):
    r = random.Random(seed)
    w = gen.World(r, **feat)
    w.scheme = scheme
    # exact binary fractions: no rest is left after the time steps of a call
    w.dtm = pow2(min(0.04, (0.3 if scheme in ("Euler", "AB4", "AB3") else 0.5) / w.omega))
    path = w.write(ctx.dir("in/" + name))
    x = w.x0()
    xd = [0.0] * len(x)
    ops = [{"op": "create", "h": "a", "file": path},
           {"op": "init", "h": "a", "noic": True, "x": sv(x), "xd": sv(xd), "obs": "x"}]
    t = 0.0
    for i in range(ncalls):
        dt = w.dtm * r.choice([1, 1, 1, 2, 3, 0.5, 1.5])
        if scheme != "Heun" or i == 0:
            xd = w.nextmove(x, dt, 1.0)
            xd = [float(int(v * 1024)) / 1024 for v in xd]
        ops.append({"op": "step", "h": "a", "x": sv(x), "xd": sv(xd), "t": s(t), "dt": s(dt), "obs": "x"})
        t += dt
        x = [a + b * dt for a, b in zip(x, xd)]
    ops.append({"op": "close", "h": "a"})
    return Scenario(name, ops, [w.header(dtm=s(w.dtm), cfl="", **split(scheme))])


def known(ctx):
    """listed finding: AB3 and AB4 take the latest of the former rates in place of the older ones"""
    def f(scs, byt, traces):
        ts = [t for t in sorted(byt) if traces[t - 1][0]["sc"] in ("AB3", "AB4")]
        if not ts:
            return {}
        alt = [[dict(traces[t - 1][0], sc=traces[t - 1][0]["sc"] + "last")] + traces[t - 1][1:] for t in ts]
        rej, _ = check_traces("SimTrace", alt, ctx.dir("tlc-known"), ["Sim"])
        bad = {r["trace"] for r in rej}
        return {t: "ab-older-derivatives" for i, t in enumerate(ts) if i + 1 not in bad}
    return f


def run(ctx):
    n = 300 if ctx.quick() else 4000
    scs = []
    for i, sd in enumerate(seeds(ctx, n)):
        scs.append(scenario(ctx, "m%d" % i, sd, FEATS[(i // len(SCHEMES)) % len(FEATS)], SCHEMES[i % len(SCHEMES)]))
    ctx.conform("SimTrace", scs, ["Sim"], relevant("Ok", "Sim"), known=known(ctx))
