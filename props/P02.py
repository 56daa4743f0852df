"""Time advances by what is asked, in steps no longer than the model time step."""
import importlib
from _world import *
import gen
from common import Scenario

P12 = importlib.import_module("P12")
s, sv, split = P12.s, P12.sv, P12.split
ANY = ["Euler", "LEuler", "Heun", "RK2", "RK4", "AB2", "AB3", "AB4", "lab2", "lab3", "lab4", "BEuler3", "Midpoint3",
       "Anderson4", "ACA3", "Wilson3"]
FEATS = [dict(maxbodies=0, maxrods=0, maxlines=3, maxseg=4), dict(maxbodies=1, maxrods=1, rodkinds=P12.RK, maxlines=2, maxseg=3),
         dict(maxbodies=0, maxrods=0, minlines=2, maxlines=4, maxseg=7)]


def other(sc):
    """local schemes and the like: only their time is predicted"""
    d = split(sc)
    return d if d["sc"] in ("Euler", "Heun", "RK2", "RK4", "AB2", "AB3", "AB4", "BEuler", "Midpoint", "ACA") else {"sc": "other", "it": 0}


def period(w):
    """shortest natural period, only to choose sensible numbers"""
    import math
    return min(2 * math.pi * l["_len"] / l["n"] * math.sqrt(l["t"]["w"] / (l["t"]["EAc"][1][1] / l["t"]["EAc"][1][0] if l["t"]["EAc"] else l["t"]["EA"])) for l in w.lines)


def script(ctx, name, seed, feat, sim, ncalls=7):
    r = random.Random(seed)
    w = gen.World(r, **feat)
    stable = 0.25 / w.omega
    per = period(w)
    how = r.choice(["dt", "cfl", "both", "both", "none"] if not sim else ["dt", "cfl", "both", "both"])
    dtm, cfl = "", ""
    a, b = gen.sig(stable * r.uniform(0.5, 1), 3), gen.sig(stable * r.uniform(0.5, 1) / per, 3)
    opts = []
    if how in ("dt", "both"):
        dtm = a
    if how in ("cfl", "both"):
        cfl = b
    if how == "both" and r.random() < 0.7:
        # one of them far from deciding
        if r.random() < 0.5:
            dtm = gen.sig(a * 50, 3)
        else:
            cfl = gen.sig(b * 50, 3)
    if cfl != "":
        opts.append(("CFL", cfl))
    sc = r.choice(["Euler", "RK2", "RK4"]) if sim else r.choice(ANY)
    w.scheme = sc
    w.dtm = dtm if dtm != "" else None
    w.extra = opts
    o0 = w.options
    w.options = lambda: [p for p in o0() if p[1] is not None]
    if r.random() < 0.5:
        w.extra = []
        o1 = o0
        w.options = lambda: opts + [p for p in o1() if p[1] is not None]
    path = w.write(ctx.dir("in/" + name))
    x = w.x0()
    xd = [0.0] * len(x)
    ops = [{"op": "create", "h": "a", "file": path},
           {"op": "init", "h": "a", "noic": True, "x": sv(x), "xd": sv(xd), "obs": "x"}]
    if how == "none":
        ops.append({"op": "setdt", "h": "a", "v": s(stable * 0.4), "obs": "x"})
    t = 0.0
    cur = stable * 0.6
    for i in range(ncalls):
        k = r.random()
        if k < 0.15:
            v = gen.sig(stable * r.uniform(0.3, 1), 3)
            ops.append({"op": "setdt", "h": "a", "v": s(v), "obs": "x"})
        elif k < 0.3:
            v = gen.sig(stable * r.uniform(0.3, 1) / per, 3)
            ops.append({"op": "setcfl", "h": "a", "v": s(v), "obs": "x"})
        elif k < 0.5:
            ns = r.choice(["Euler", "RK2", "RK4"]) if sim else r.choice(ANY)
            ops.append({"op": "setscheme", "h": "a", "v": ns, "obs": "x", "still": True, **other(ns)})
        elif k < 0.65:
            ops.append({"op": "obs", "h": "a", "obs": "x"})
            ops.append({"op": "step", "h": "a", "x": sv([v + r.uniform(-1, 1) for v in x]), "xd": sv([r.uniform(-1, 1) for _ in x]),
                        "t": s(t), "dt": r.choice(["0.0", "0.0", "-0.5", s(-cur)]), "obs": "x", "still": True})
        dt = cur * r.choice([r.uniform(0.05, 0.9), 1.0, r.uniform(1, 5), r.uniform(1, 5), 3, r.uniform(0.2, 8)])
        dt = gen.sig(dt, r.choice([2, 3, 15]))
        xd = w.nextmove(x, dt, 1.0)
        ops.append({"op": "step", "h": "a", "x": sv(x), "xd": sv(xd), "t": s(t), "dt": s(dt), "obs": "x"})
        t += dt
        x = [p + q * dt for p, q in zip(x, xd)]
    ops.append({"op": "close", "h": "a"})
    w.dtm = 0.0
    return Scenario(name, ops, [w.header(dtm=s(dtm) if dtm != "" else "", cfl=s(cfl) if cfl != "" else "", **other(sc))])


def run(ctx):
    n = 180 if ctx.quick() else 700
    sd = seeds(ctx, 2 * n)
    rel = relevant("Ok", "Sim", "Time", "Dt")
    ctx.conform("SimTrace", [script(ctx, "s%d" % i, sd[i], FEATS[i % len(FEATS)], True) for i in range(n)],
                ["Sim", "Time", "Dt"], rel, tag="sim")
    ctx.conform("SimTrace", [script(ctx, "t%d" % i, sd[n + i], FEATS[i % len(FEATS)], False, 10) for i in range(n)],
                ["Time", "Dt"], rel, tag="time")
