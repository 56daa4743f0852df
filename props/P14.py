"""Waves and currents: water kinematics anywhere, and the loads they cause."""
from _world import *
import gen
import sea
from common import Scenario

s, sv = sea.s, sea.sv
MODES = [("sum", "none"), ("fft", "none"), ("elev", "none"), ("none", "steady"), ("none", "dyn"), ("none", "4d"),
         ("sum", "steady"), ("sum", "dyn"), ("sum", "4d"), ("fft", "steady"), ("fft", "dyn"), ("fft", "4d"),
         ("elev", "steady"), ("elev", "dyn")]
FEATS = [dict(maxbodies=0, maxrods=0, surface=0.6), dict(maxbodies=1, maxrods=1, maxlines=3, maxseg=4),
         dict(maxbodies=0, minrods=1, maxrods=2, maxlines=2, surface=0.8, maxseg=4), dict(minbodies=1, maxbodies=2, maxrods=0, maxlines=3),
         dict(maxbodies=0, maxrods=1, maxlines=2, maxseg=5, bathy=1.0, surface=0.4)]


def scenario(ctx, name, seed, feat, mode, nsteps=3):
    r = random.Random(seed)
    w = gen.World(r, **feat)
    w.scheme = r.choice(["Euler", "Heun", "RK2", "RK4", "AB2"])
    S = sea.sea(w, r, mode[0], mode[1], unify=r.random() < 0.6)
    path = w.write(ctx.dir("in/" + name))
    x = w.x0()
    zero = [0.0] * len(x)
    ops = [{"op": "create", "h": "a", "file": path, "cd": r.random() < 0.15},
           {"op": "init", "h": "a", "noic": True, "x": sv(x), "xd": sv(zero)}]
    t = 0.0

    def step(xd, dt, **kw):
        nonlocal t, x
        ops.append({"op": "step", "h": "a", "x": sv(x), "xd": sv(xd), "t": s(t), "dt": s(dt), **kw})
        t += dt
        x = [a + b * dt for a, b in zip(x, xd)]
    for i in range(nsteps):
        # up to beyond the period of the grids
        dt = gen.sig(r.choice([w.dtm * r.uniform(1, 20), r.uniform(0.2, 3.0), r.uniform(0.2, 0.6) * w.seaperiod]), 5)
        n = dt / w.dtm
        if n > 20000:
            dt = gen.sig(20000 * w.dtm, 5)
        xd = w.nextmove(x, dt, 1.0 if dt < 0.5 else 0.2 / dt)
        step(xd, dt)
        ops.append({"op": "kin", "h": "a", "pts": sea.places(w, r, 6)})
        step(xd, 1e-12, obs="full", wk=True, probe=True)
    for _ in range(3):
        ops.append({"op": "wavenumber", "h": "a", "omega": s(gen.sig(r.uniform(0.05, 4), 4)), "g": s(w.env["g"]),
                    "depth": s(gen.sig(10 ** r.uniform(0.5, 3.3), 4))})
    ops.append({"op": "close", "h": "a"})
    return Scenario(name, ops, [w.header(wk="obs", sea=S)])


def run(ctx):
    n = 70 if ctx.quick() else 1100
    scs = []
    for i, sd in enumerate(seeds(ctx, n)):
        scs.append(scenario(ctx, "w%d" % i, sd, FEATS[(i // len(MODES)) % len(FEATS)], MODES[i % len(MODES)]))
    ctx.conform("WorldTrace", scs, ["Water", "Line", "Point", "Rod", "Body"],
                relevant("Ok", "Water", "Line.weight", "Line.drag", "Line.froudekrylov", "Line.mass", "Line.net", "Rod", "Body", "Point"))
