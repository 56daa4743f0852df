"""Input files: accepted or refused, never a crash; what is loaded is what is written."""
from _world import *
import copy
import os

import files
import sea
import gen
from common import Scenario

RULE = ("input files with every single fault of fixed lists (rows cut at every word, attachment words, ends, types, segment "
        "counts, output channels, options, missing sections, files ending anywhere) and random combinations of faults, "
        "run under address and undefined behaviour sanitizers; a case is one recorded API call; every file is different")
FEATS = [dict(maxbodies=2, maxrods=2, maxlines=3, maxseg=3), dict(maxbodies=0, maxrods=0, maxlines=3),
         dict(minbodies=1, maxbodies=2, minrods=1, maxrods=2, maxlines=2)]
Z = ["0.0"] * 60


def scenario(ctx, name, w, f, sound, good, side=None):
    d = ctx.dir("in/" + name)
    for n, t in w.files.items():
        open(os.path.join(d, n), "w").write(t)
    p = os.path.join(d, "m.txt")
    open(p, "w").write(files.text(f))
    x = [repr(float(v)) for v in w.x0()] + Z
    gp, gx = good
    ops = [{"op": "create", "h": "a", "file": p}, {"op": "describe", "h": "a"},
           {"op": "init", "h": "a", "noic": True, "x": x, "xd": Z},
           {"op": "readout", "h": "a", "needs": 1, "file": os.path.join(d, "m.out")},
           {"op": "step", "h": "a", "needs": 1, "x": x, "xd": Z, "t": "0.0", "dt": "0.001"},
           {"op": "close", "h": "a"},
           {"op": "create", "h": "b", "file": gp}, {"op": "init", "h": "b", "noic": True, "x": gx, "xd": Z},
           {"op": "step", "h": "b", "x": gx, "xd": Z, "t": "0.0", "dt": "0.001"}, {"op": "close", "h": "b"}]
    head = {"op": "file", "secs": [{k: s[k] for k in ("s", "lab", "rows")} for s in f["secs"]], "closed": f["closed"],
            "aux": sorted(w.files), "sound": sound,
            "side": side or {"name": "none", "x": []}}
    return Scenario(name, ops, [head], asan=True, timeout=60)


SIDES = [("curve", None, dict(EAtab=1.0)), ("bed", None, dict(bathy=1.0)), ("steady", ("none", "steady"), {}), ("dyn", ("none", "dyn"), {}),
         ("4d", ("none", "4d"), {}), ("grid", ("fft", "none"), {}), ("freq", ("sum", "none"), {}), ("freq", ("fft", "none"), {}),
         ("elev", ("elev", "none"), {})]
FILE = {"curve": "ea0.txt", "bed": "bed.txt", "steady": "current_profile.txt", "dyn": "current_profile_dynamic.txt",
        "4d": "current_profile_4d.txt", "grid": "water_grid.txt", "freq": "wave_frequencies.txt", "elev": "wave_elevation.txt"}


def sides(ctx, good, per):
    """spoilt tables, sea beds, currents and waves"""
    for k, (name, mode, feat) in enumerate(SIDES):
        r = random.Random(seeds(ctx, 20, "side")[k])
        w = gen.World(r, maxbodies=0, maxrods=0, maxlines=2, maxseg=3, **feat)
        if mode:
            sea.sea(w, r, *mode)
        fn = FILE[name]
        txt = w.files[fn]
        # every fault of the heading, and some of the data
        vs = list(files.side_faults(txt, range(9 if name == "grid" else 7)))
        vs = vs if len(vs) < 3 * per else r.sample(vs, 3 * per)
        more = list(files.side_faults(txt, range(7, 10 ** 6)))
        vs += more if len(more) < per else r.sample(more, per)
        for i, L in enumerate([txt.split("\n")] + vs):
            w.files[fn] = "\n".join(L)
            d = ctx.dir("in/f%d-%d" % (k, i))
            ex = w.extra
            if name == "bed":
                w.extra = [e for e in w.extra if e[0] != "SeafloorFile"] + [("SeafloorFile", os.path.join(d, "bed.txt"))]
            f = files.base(w, random.Random(1))
            w.extra = ex
            side = {"name": name, "x": files.side_lines(L, name == "curve")}
            sc = scenario(ctx, "f%d-%d" % (k, i), w, f, i == 0, good, side)
            if name == "bed":
                sc.head[0]["aux"] = sc.head[0]["aux"] + [os.path.join(d, "bed.txt")]
            if mode and mode[1] != "none":
                # the currents are judged by their own file
                sc.head[0]["secs"] = [dict(s, rows=[x for x in s["rows"] if x[-1] != "Currents"]) for s in sc.head[0]["secs"]]
            if mode and mode[0] != "none":
                sc.head[0]["secs"] = [dict(s, rows=[x for x in s["rows"] if x[-1] != "WaveKin"]) for s in sc.head[0]["secs"]]
            yield sc


def run(ctx):
    sd = seeds(ctx, 4000)
    good_w = gen.World(random.Random(5), maxbodies=0, maxrods=0, maxlines=2, EItab=0, EAtab=0)
    good = (good_w.write(ctx.dir("in/good"), "good.txt"), [repr(float(v)) for v in good_w.x0()] + Z)
    scs = []
    # one file with everything in it, every single fault
    r = random.Random(7)
    for j in range(1 if ctx.quick() else 3):
        w = gen.World(random.Random([11, 12, 13][j]), minbodies=2, maxbodies=2, minrods=2, maxrods=2, minlines=2, maxlines=2, maxseg=3,
                      minpoints=3, maxpoints=3, EItab=0, EAtab=0)
        f = files.base(w, r)
        if not files.sec(f, "outputs"):
            f["secs"].append({"k": "outputs", "s": "OUTPUTS", "lab": 0, "rows": []})
        allf = list(files.each(f))
        for i, (n, g) in enumerate(allf):
            scs.append(scenario(ctx, "s%d-%d-%s" % (j, i, n), w, g, n == "sound", good))
        ctx.cov.setdefault("more", {})["single_faults"] = len(allf)
    for i in range(250 if ctx.quick() else 3000):
        r = random.Random(sd[i])
        w = gen.World(r, **FEATS[i % 3])
        f = files.base(w, r)
        n = r.choice([0, 1, 1, 2, 2, 3])
        names = [files.spoil(f, r) for _ in range(n)]
        scs.append(scenario(ctx, "r%d" % i, w, f, not any(names), good))
    scs += sides(ctx, good, 30 if ctx.quick() else 400)
    ctx.conform("FileTrace", scs, [], relevant("File", "Model"))
