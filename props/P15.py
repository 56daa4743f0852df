"""Water kinematics imposed by the caller at the nodes."""
from _world import *
import gen
import sea
from common import Scenario

s, sv = sea.s, sea.sv
CUR = ["none", "none", "none", "steady", "dyn", "4d"]
FEATS = [dict(maxbodies=0, maxrods=0), dict(minbodies=1, maxbodies=2, maxrods=1, maxlines=3),
         dict(maxbodies=1, minrods=1, maxrods=2, maxlines=3, surface=0.4), dict(minbodies=1, maxbodies=2, maxrods=2, maxlines=3, surface=0.7)]


def scenario(ctx, name, seed, feat, cur, nsteps=4):
    r = random.Random(seed)
    w = gen.World(r, **feat)
    w.scheme = r.choice(["Euler", "Heun", "RK2", "RK4", "AB2", "AB4"])
    S = sea.sea(w, r, "ext", cur)
    path = w.write(ctx.dir("in/" + name))
    hd = w.header(wk="obs", sea=S)
    n = sum(q["n"] + 1 for q in hd["lines"]) + sum(q["n"] + 1 for q in hd["rods"]) + len(hd["points"]) + len(hd["bodies"]) + 1
    x = w.x0()
    zero = [0.0] * len(x)
    ops = [{"op": "create", "h": "a", "file": path},
           {"op": "init", "h": "a", "noic": True, "x": sv(x), "xd": sv(zero)},
           {"op": "extinit", "h": "a"}, {"op": "extn", "h": "a"}]
    t, xd = 0.0, zero

    def step(xd, dt, **kw):
        nonlocal t, x
        ops.append({"op": "step", "h": "a", "x": sv(x), "xd": sv(xd), "t": s(t), "dt": s(dt), **kw})
        t += dt
        x = [a + b * dt for a, b in zip(x, xd)]
    for i in range(nsteps):
        if i or r.random() < 0.6:
            v = lambda p, a: [sv([gen.sig(r.uniform(-a, a), 4) if r.random() < 0.9 else 0.0 for _ in range(3)])
                              if r.random() < p else sv([0, 0, 0]) for _ in range(n)]
            p = r.choice([1.0, 1.0, 0.5, 0.1])
            if i == 0 or r.random() < 0.75:
                ops.append({"op": "extset", "h": "a", "U": v(p, r.choice([0.2, 1.0, 3.0])), "A": v(p, r.choice([0.1, 1.0, 4.0])), "t": s(t)})
        if r.random() < 0.7:
            dt = gen.sig(w.dtm * r.uniform(1, 12), 5)
            xd = w.nextmove(x, dt, 1.0)
            step(xd, dt)
        if r.random() < 0.7:
            ops.append({"op": "extcoord", "h": "a", "obs": "full"})
        step(xd, 1e-12, obs="full", wk=True, probe=True)
    ops.append({"op": "close", "h": "a"})
    return Scenario(name, ops, [hd])


def run(ctx):
    n = 150 if ctx.quick() else 1500
    scs = []
    for i, sd in enumerate(seeds(ctx, n)):
        scs.append(scenario(ctx, "w%d" % i, sd, FEATS[i % len(FEATS)], CUR[(i // len(FEATS)) % len(CUR)]))
    ctx.conform("WorldTrace", scs, ["Ext", "Water", "Line", "Point", "Rod", "Body"],
                relevant("Ok", "Ext", "Water", "Line.drag", "Line.froudekrylov", "Line.net", "Rod", "Body", "Point"))
