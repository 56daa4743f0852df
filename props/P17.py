"""Run time control of the lines: length, payout, stiffness, internal pressure."""
import importlib
from _world import *
import gen
import worlds
from common import Scenario

P12 = importlib.import_module("P12")
s, sv = P12.s, P12.sv
FEATS = [dict(maxbodies=0, maxrods=0, maxlines=3, maxseg=6), dict(maxbodies=1, maxrods=1, rodkinds=P12.RK, maxlines=4, maxseg=4),
         dict(maxbodies=0, maxrods=1, rodkinds=P12.RK, maxlines=3, maxseg=6, EI=0.6), dict(maxbodies=0, maxrods=0, maxlines=3, maxseg=5, EAtab=0.7)]


def setters(w, r, soft=1.0):
    """a few changes of random lines, kept mild so the simulation stays stable"""
    ops = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        i = r.randrange(len(w.lines))
        l = w.lines[i]
        k = r.choice(["setul", "setulv", "setulv", "setea", "setpb", "setpin", "setulv0"])
        if k == "setul":
            v = s(gen.sig(l["_len"] * r.uniform(0.95, 1.05), r.choice([3, 12])))
        elif k == "setulv":
            v = s(gen.sig(r.uniform(-0.6, 0.6), 3))
        elif k == "setulv0":
            k, v = "setulv", "0.0"
        elif k == "setea":
            v = s(gen.sig(l["t"]["EA"] * r.uniform(0.4, 1.0), 3))
        elif k == "setpb":
            v = r.choice([1, 1, 0])
        else:
            v = [s(gen.sig(r.uniform(-1, 1) * 2e4 * soft, 3)) for _ in range(l["n"] + 1)]
        ops.append({"op": k, "h": "a", "line": i + 1, "v": v, "obs": "full"})
    return ops


def loads(ctx, name, seed, feat):
    r = random.Random(seed)
    w = gen.World(r, **feat)
    w.scheme = r.choice(["Euler", "Heun", "RK2", "RK4", "AB2", "AB3", "AB4"])
    path = w.write(ctx.dir("in/" + name))
    return Scenario(name, worlds.drive_script(w, path, r, nsteps=5, before_step=lambda i, t: setters(w, r)), [w.header()])


def motion(ctx, name, seed, feat):
    r = random.Random(seed)
    w = gen.World(r, **feat)
    w.scheme = r.choice(["Euler", "RK2", "RK4", "AB2", "BEuler4", "Midpoint3"])
    w.dtm = P12.pow2(min(0.04, 0.3 / w.omega))
    path = w.write(ctx.dir("in/" + name))
    x, xd, t = w.x0(), None, 0.0
    ops = [{"op": "create", "h": "a", "file": path},
           {"op": "init", "h": "a", "noic": True, "x": sv(x), "xd": sv([0.0] * len(x)), "obs": "full"}]
    for i in range(5):
        ops += setters(w, r, 0.1)
        dt = w.dtm * r.choice([1, 2, 3, 0.5, 1.5])
        xd = [float(int(v * 1024)) / 1024 for v in w.nextmove(x, dt, 1.0)]
        ops.append({"op": "step", "h": "a", "x": sv(x), "xd": sv(xd), "t": s(t), "dt": s(dt), "obs": "full"})
        t += dt
        x = [a + b * dt for a, b in zip(x, xd)]
    ops.append({"op": "close", "h": "a"})
    return Scenario(name, ops, [w.header(dtm=s(w.dtm), cfl="", **P12.split(w.scheme))])


def run(ctx):
    n = 100 if ctx.quick() else 900
    sd = seeds(ctx, n, "loads")
    ctx.conform("WorldTrace", [loads(ctx, "l%d" % i, v, FEATS[i % len(FEATS)]) for i, v in enumerate(sd)],
                ["Line", "Ctl", "Point"], relevant("Ok", "Line.ul", "Line.tension", "Line.weight", "Line.drag", "Line.mass",
                                                   "Line.net", "Line.bending", "Line.fairten", "Line.maxten", "Line.fast", "Ctl", "Point"), tag="loads")
    sd = seeds(ctx, n, "motion")
    ctx.conform("SimTrace", [motion(ctx, "m%d" % i, v, FEATS[i % 3]) for i, v in enumerate(sd)],
                ["Sim"], relevant("Ok", "Sim"), tag="motion")
