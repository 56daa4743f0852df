"""Files that say the same describe the same system."""
from _world import *
import os

import files
import forms
import gen
import sea
from common import Scenario

RULE = ("pairs of input files saying the same in different words (section titles, letter case, attachment and end words, numbers, short "
        "and long vectors of bodies, option names, order, defaults left out, type names and order, blanks, line ends, channel names), "
        "each loaded, initialised and stepped side by side; a case is one recorded API call; all pairs differ")
s = lambda v: repr(float(v))
sv = lambda v: [s(x) for x in v]
FEATS = [dict(maxbodies=0, maxrods=0, maxlines=3, maxseg=4), dict(minbodies=1, maxbodies=2, maxrods=0, maxlines=3, maxseg=3, cdan=[1, 2, 3, 6]),
         dict(minrods=1, maxrods=2, maxbodies=1, maxlines=2, maxseg=3), dict(minbodies=1, maxbodies=2, minrods=1, maxrods=2, maxlines=3, maxseg=3, cdan=[1, 2, 3, 6])]
SCHEMES = ["RK2", "RK2", "RK2", "Euler", "Heun", "RK4", "AB2", "AB3", "AB4", "BEuler3", "Midpoint3", "ACA3"]
FULL = 40
SEAS = [("fft", "none"), ("none", "steady"), ("elev", "steady"), ("sum", "none"), ("none", "dyn"), ("fft", "steady")]


def scenario(ctx, name, seed, k):
    r = random.Random(seed)
    kind = k % 10
    w = gen.World(r, **dict(FEATS[k % len(FEATS)], **(dict(bathy=1.0) if kind == 7 else dict(bed=1.0, minlines=2) if kind in (1, 4) else {})))
    for _ in range(50):
        # a relaxation has to come to an end
        if kind != 9 or w.dtm >= (3e-3 if k % FULL == 9 else 5e-4):
            break
        w = gen.World(r, **FEATS[k % len(FEATS)])
    w.scheme = r.choice(SCHEMES)
    e = w.env
    if kind in (1, 4):
        # friction with some of its values left as they are
        e["fc"] = r.choice([0.3, 0.8])
        e["fd"], e["fs"] = r.choice([(200.0, 1.0), (200.0, 1.4), (e["fd"], 1.0)])
        w.dtm = min(w.dtm, 0.002)
    if kind != 9 and r.random() < 0.5:
        # stiffer bottoms want smaller steps
        w.dtm = gen.sig(w.dtm * min(1, (e["kb"] / 3e6) ** 0.5, e["cb"] / 3e5), 2)
        e["kb"], e["cb"] = 3e6, 3e5
    if kind in (5, 6):
        sea.sea(w, r, *r.choice(SEAS))
    f = files.base(w, r)
    o = files.sec(f, "options")
    if kind == 8:
        o["rows"] = [x for x in o["rows"] if x[1] != "dtM"]
        if r.random() < 0.4:
            o["rows"].append(["0.2", "CFL"])
    if kind == 9:
        # either a given time or the usual one, which some never use up
        T = "120.0" if k % FULL == 9 else "2.0"
        o["rows"] = [x for x in o["rows"] if x[1] != "TmaxIC"] + [[T, "TmaxIC"]]
        for x in (["1.0", "dtIC"], ["0.25", "dtIC"], ["0.001", "threshIC"], ["0.05", "threshIC"], ["5.0", "CdScaleIC"], ["2.0", "CdScaleIC"],
                  ["1", "ICgenDynamic"]):
            if r.random() < 0.4 and x[1] not in [y[1] for y in o["rows"]]:
                o["rows"].append(x)
    if kind == 3:
        # the depth is that of the deepest point
        o["rows"] = [x if x[1] != "WtrDpth" else ["0.0", "WtrDpth"] for x in o["rows"]]
    for x in (["0", "WriteUnits"], ["0.03125", "dtOut"], [r.choice(["0.0003", "0.001", "0.003", "0.2"] if kind != 9 else ["0.2"]), "CFL"]):
        if r.random() < 0.25 and x[1] not in [y[1] for y in o["rows"]]:
            o["rows"].append(x)
    chans = forms.channels(r, f, r.randint(1, 8))
    head, paths = {}, {}
    for h in "ab":
        g = forms.variant(r, f, chans, same=h == "a" and r.random() < 0.5)
        d = ctx.dir("in/%s-%s" % (name, h))
        for n, t in w.files.items():
            open(os.path.join(d, n), "w").write(t)
        fl = [{"n": n, "c": "%s:%08x" % (n, zlib.crc32(t.encode()))} for n, t in sorted(w.files.items())]
        if w.bathy:
            p = os.path.join(d, "bed.txt")
            oo = files.sec(g, "options")
            oo["rows"] = [x for x in oo["rows"] if x[1] != "SeafloorFile"] + [[p, "SeafloorFile"]]
            r.shuffle(oo["rows"])
            fl.append({"n": p, "c": "bed"})
        paths[h] = os.path.join(d, r.choice(["m.txt", "lines.dat", "a.b.txt"]))
        head[h] = dict(forms.write(r, g, paths[h], plain=h == "a" and r.random() < 0.5), files=fl)
    x = w.x0()
    ops = [{"op": "create", "h": h, "file": paths[h]} for h in "ab"]
    both = lambda **kw: [dict(kw, h=h) for h in "ab"]
    ops += both(op="init", noic=kind != 9, x=sv(x), xd=sv([0.0] * len(x)), obs="full")
    t = 0.0
    for i in range(3):
        dt = gen.sig(w.dtm * r.randint(3, 9), 3) if kind != 8 else 0.02
        xd = w.nextmove(x, dt, 0.7)
        ops += both(op="step", x=sv(x), xd=sv(xd), t=s(t), dt=s(dt), obs="full")
        t += dt
        x = [a + b * dt for a, b in zip(x, xd)]
    ops += both(op="close")
    ops += [{"op": "readout", "h": h, "file": paths[h].rsplit(".", 1)[0] + ".out"} for h in "ab"]
    return Scenario(name, ops, [{"op": "forms", "a": head["a"], "b": head["b"], "sure": kind != 3}], timeout=120)


def run(ctx):
    n = 400 if ctx.quick() else 6000
    scs = [scenario(ctx, "f%d" % i, sd, i) for i, sd in enumerate(seeds(ctx, n))]
    ctx.conform("FormTrace", scs, [], relevant("Form", "Meaning"))
