"""Where simulations begin: initial profiles and relaxation of the initial conditions."""
import copy
from _world import *
import catenary
import gen
import worlds
from common import Scenario
from worlds import s, sv

FEATS = [dict(maxbodies=0, maxrods=0, maxlines=4, maxseg=8, EItab=0, ulscale=0.2, light=0.3, bed=0.6),
         dict(maxbodies=0, maxrods=2, maxlines=4, maxseg=6, ulscale=0.2),
         dict(minbodies=1, maxbodies=2, maxrods=1, maxlines=4, maxseg=6),
         dict(maxbodies=0, maxrods=0, maxlines=3, maxseg=8, bathy=1.0, bed=0.5)]


def witness(tr):
    """forces of the catenaries, from the ends observed, for the specification to check"""
    m = tr[0]
    f = float
    for e in tr[1:]:
        if e.get("op") != "init" or "o" not in e:
            continue
        e["wit"] = []
        for L, q in zip(m["lines"], e["o"]["line"]):
            a, b = [f(v) for v in q["r"][0]], [f(v) for v in q["r"][-1]]
            t = L["t"]
            W = f(m["env"]["g"]) * (f(t["w"]) - f(m["env"]["rho"]) * 3.141592653589793 / 4 * f(t["d"]) ** 2)
            EA = f(t["EAc"][-1][1]) / f(t["EAc"][-1][0]) if t["EAc"] else f(t["EA"])
            import math
            XF, ZF = math.hypot(b[0] - a[0], b[1] - a[1]), abs(b[2] - a[2])
            ul = f(L["ul"]) if f(L["ul"]) > 0 else -f(L["ul"]) * math.dist(a, b)
            lie = False
            for p in (a, b):
                z = bed(m, p[0], p[1])
                lie = lie or p[2] <= z * (1 - 1e-5)
            w = catenary.solve(XF, ZF, ul, W, EA, lie and W > 0) if XF > 0 and W else None
            e["wit"].append([s(v) for v in w] if w else [])
    return tr


def bed(m, x, y):
    if not m["bathy"]:
        return -float(m["env"]["wd"])
    B = m["bathy"]

    def loc(t, v):
        t = [float(q) for q in t]
        v = min(max(v, t[0]), t[-1])
        i = max(j for j in range(len(t)) if t[j] <= v)
        i = min(i, len(t) - 2)
        return i, (v - t[i]) / (t[i + 1] - t[i])
    (i, p), (j, q) = loc(B["x"], x), loc(B["y"], y)
    z = lambda a, b: float(B["z"][b][a])
    return (z(i, j) * (1 - p) + z(i + 1, j) * p) * (1 - q) + (z(i, j + 1) * (1 - p) + z(i + 1, j + 1) * p) * q


def head(w, **kw):
    ic = dict(kind="none", refuse=False, sample="0.0", tmax="0.0", th="0.0")
    ic.update(kw)
    return w.header(ic=ic)


def profile(ctx, name, seed, feat):
    r = random.Random(seed)
    w = gen.World(r, **feat)
    x = w.x0()
    ops = [{"op": "create", "h": "a", "file": w.write(ctx.dir("in/" + name))},
           {"op": "init", "h": "a", "noic": True, "x": sv(x), "xd": sv([0.0] * len(x)), "obs": "x"},
           {"op": "step", "h": "a", "x": sv(x), "xd": sv([0.0] * len(x)), "t": "0.0", "dt": s(w.dtm)},
           {"op": "close", "h": "a"}]
    return Scenario(name, ops, [head(w)], post=witness)


def scaled(w, f):
    """the same system with its drag multiplied"""
    v = copy.deepcopy(w)
    for t in v.lts:
        t["Cd"] *= f
        t["CdAx"] *= f
    for t in v.rts:
        for k in ("Cd", "CdEnd"):
            t[k] *= f
    for p in v.points:
        p["_row"]["CdA"] = p["_row"]["CdA"] * f
    for b in v.bodies:
        b["_row"]["CdA"] = "|".join(repr(float(c) * f) for c in b["_row"]["CdA"].split("|"))
    return v


def relax(ctx, name, seed, feat, static):
    r = random.Random(seed)
    w = gen.World(r, **feat)
    w.scheme = r.choice(["Euler", "Heun", "RK2", "RK4"])
    n = r.randint(14, 40)
    sample = gen.sig(w.dtm * r.choice([1, 2, 3, 2.5]), 3)
    th = r.choice([1e-6, 0.002, 0.02, 0.1, 0.3])
    tmax = 0.0 if r.random() < 0.1 else sample * (n - 0.5)
    fac = r.choice([1.0, 2.0, 5.0, 8.0])
    o = [("dtIC", repr(sample * 10)), ("TmaxIC", repr(tmax)), ("CdScaleIC", repr(fac)), ("threshIC", repr(th)),
         ("ICgenDynamic", 0 if static else 1)]
    o0 = w.options
    w.options = lambda: [q for q in o0() if q[0] != "TmaxIC"] + o
    v = scaled(w, fac)
    v.options = lambda: gen.World.options(v)
    x = w.x0()
    z = sv([0.0] * len(x))
    x = sv(x)
    d = ctx.dir("in/" + name)
    ops = []
    if not static:
        ops += [{"op": "create", "h": "r", "file": v.write(d, "ref.txt")},
                {"op": "init", "h": "r", "noic": True, "x": x, "xd": z, "obs": "x"}]
        for i in range(n):
            ops.append({"op": "step", "h": "r", "x": x, "xd": z, "t": s(i * sample), "dt": repr(sample * 10 / 10), "obs": "full"})
        ops.append({"op": "close", "h": "r"})
    ops += [{"op": "create", "h": "a", "file": w.write(d)},
            {"op": "init", "h": "a", "noic": False, "x": x, "xd": z, "obs": "x"},
            {"op": "step", "h": "a", "x": x, "xd": z, "t": "0.0", "dt": s(w.dtm)},
            {"op": "close", "h": "a"}]
    return Scenario(name, ops, [head(w, kind="static" if static else "dynamic", sample=s(sample), tmax=s(tmax), th=s(th))])


def static(ctx, name, seed):
    """lines between points which do not move: the stationary solution is nearer to equilibrium than the profile"""
    r = random.Random(seed)
    while True:
        w = gen.World(r, maxbodies=0, maxrods=0, EItab=0, minseg=3, maxseg=6, maxlines=3, light=0)
        if all(w.points[l[e]["i"] - 1]["k"] != "free" for l in w.lines for e in "AB"):
            break
    o0 = w.options
    d = ctx.dir("in/" + name)
    x = w.x0()
    z = sv([0.0] * len(x))
    x = sv(x)
    ops = []
    dtic = 0.5
    for h in "na":
        w.options = lambda: [q for q in o0() if q[0] != "TmaxIC"] + \
            [("TmaxIC", 0.0 if h == "n" else dtic * 10), ("dtIC", dtic), ("threshIC", 1e-3)]
        ops += [{"op": "create", "h": h, "file": w.write(d, h + ".txt")},
                {"op": "init", "h": h, "noic": h == "n", "x": x, "xd": z, "obs": "x"},
                {"op": "step", "h": h, "x": x, "xd": z, "t": "0.0", "dt": "1e-12", "obs": "full"}]
    return Scenario(name, ops, [head(w, kind="static")])


def sunk(ctx, name, seed):
    """a line which begins under the sea bed is refused"""
    r = random.Random(seed)
    w = gen.World(r, maxbodies=0, maxrods=0, minlines=2, maxlines=4, bathy=1.0)
    ends = sorted({l["A"]["i"] for l in w.lines if w.points[l["A"]["i"] - 1]["k"] == "fixed"})
    bad = False
    if ends and r.random() < 0.8:
        p = w.points[r.choice(ends) - 1]
        p["r0"][2] = -1.06 * w.wd - r.uniform(0.1, 3)
        bad = True
    x = w.x0()
    ops = [{"op": "create", "h": "b", "file": w.write(ctx.dir("in/" + name))},
           {"op": "init", "h": "b", "noic": True, "x": sv(x), "xd": sv([0.0] * len(x))}]
    return Scenario(name, ops, [head(w, refuse=bad)])


def laws(ctx, name, seed, feat):
    """after the relaxation everything has its own properties again"""
    r = random.Random(seed)
    w = gen.World(r, **dict(feat, ulscale=0.0))
    w.scheme = r.choice(["Euler", "Heun", "RK2", "RK4", "AB3"])
    dtic = gen.sig(w.dtm * 20, 3)
    w.extra = [("dtIC", dtic), ("CdScaleIC", r.choice([0.5, 2.0, 5.0])), ("threshIC", 1e-4),
               ("ICgenDynamic", r.choice([0, 1, 1]))]
    o0 = w.options
    w.options = lambda: [q if q[0] != "TmaxIC" else ("TmaxIC", dtic * r.uniform(1, 2)) for q in o0()]
    path = w.write(ctx.dir("in/" + name))
    return Scenario(name, worlds.drive_script(w, path, r, nsteps=2, noic=False), [w.header()])


def run(ctx):
    n = 240 if ctx.quick() else 2400
    sd = seeds(ctx, 6 * n)
    rel = relevant("Start")
    ctx.conform("StartTrace", [profile(ctx, "p%d" % i, sd[i], FEATS[i % len(FEATS)]) for i in range(n)], [], rel, tag="profile")
    k = n // 3
    ctx.conform("StartTrace", [relax(ctx, "d%d" % i, sd[n + i], FEATS[i % len(FEATS)], False) for i in range(k)] +
                [relax(ctx, "s%d" % i, sd[2 * n + i], FEATS[i % len(FEATS)], True) for i in range(k // 2)] +
                [static(ctx, "e%d" % i, sd[3 * n + i]) for i in range(k // 2)] +
                [sunk(ctx, "u%d" % i, sd[4 * n + i]) for i in range(k // 4)], [], rel, tag="relax")
    ctx.conform("WorldTrace", [laws(ctx, "l%d" % i, sd[5 * n + i], FEATS[i % len(FEATS)]) for i in range(k // 2)],
                ["Attach", "Line", "Point", "Rod", "Body"], relevant("Attach", "Line", "Point", "Rod", "Body"), tag="laws")
