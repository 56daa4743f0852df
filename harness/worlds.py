"""Scripts driving random worlds; used by the numeric properties."""
import math
import os
import random

import gen
from common import Scenario

s = lambda v: repr(float(v))
sv = lambda v: [s(x) for x in v]
PROBE = 1e-12


def drive_script(w, path, rng, nsteps=3, obs="full", probe_every=1, amp=1.0, init_obs=True, wk=False,
                 probe_acc=True, before_step=None, substeps=(3, 12), noic=True):
    """create, init, then steps each followed by a probe"""
    x = w.x0()
    xd = [0.0] * len(x)
    ops = [{"op": "create", "h": "a", "file": path}]
    ini = {"op": "init", "h": "a", "noic": noic, "x": sv(x), "xd": sv(xd)}
    if init_obs:
        ini["obs"] = "full"
    ops.append(ini)
    t = 0.0
    isr = w.isrot()
    for i in range(nsteps):
        if before_step:
            ops += before_step(i, t)
        dt = gen.sig(w.dtm * rng.randint(*substeps) * rng.choice([1.0, 0.83]), 3)
        xd = w.nextmove(x, dt, amp)
        ops.append({"op": "step", "h": "a", "x": sv(x), "xd": sv(xd), "t": s(t), "dt": s(dt), "obs": obs})
        t += dt
        x = [a + b * dt for a, b in zip(x, xd)]
        if i % probe_every == probe_every - 1:
            if probe_acc:
                acc = [rng.uniform(-0.05, 0.05) if r else rng.uniform(-1, 1) for r in isr]
                xd = [a + b * PROBE for a, b in zip(xd, acc)]
            op = {"op": "step", "h": "a", "x": sv(x), "xd": sv(xd), "t": s(t), "dt": s(PROBE), "obs": "full",
                  "probe": True}
            if wk:
                op["wk"] = True
            ops.append(op)
            t += PROBE
            x = [a + b * PROBE for a, b in zip(x, xd)]
    ops.append({"op": "close", "h": "a"})
    return ops


def world_scenario(ctx, name, seed, feat, scheme=None, **kw):
    rng = random.Random(seed)
    w = gen.World(rng, **feat)
    w.scheme = scheme or rng.choice(["Euler", "Heun", "RK2", "RK4", "AB2", "AB3", "AB4"])
    d = ctx.dir("in/" + name)
    path = w.write(d)
    return Scenario(name, drive_script(w, path, rng, **kw), [w.header()])
