"""Where the messages of a system go."""
from _world import *
import os

import files
import gen
from common import Scenario

RULE = ("sessions with one to three systems of their own whose log settings are changed in any order between messages and steps; a case is one call with the "
        "terminal streams caught, or one look at the files")
s = lambda v: repr(float(v))
WORDS = ["50% done", "100 %s %d %n", "a  b", "tab\tin it", "{}", "it's", "", "x" * 300, "last\nline", "z"]


def scenario(ctx, name, seed, k):
    r = random.Random(seed)
    ops, live, paths, n = [], {}, [], 0
    d = ctx.dir("log/" + name)
    new = 0

    def start():
        nonlocal new
        new += 1
        h = "h%d" % new
        w = gen.World(r, maxbodies=r.choice([0, 1]), maxrods=r.choice([0, 1]), maxlines=2, maxseg=3, bodykinds=["free", "coupled", "fixed"])
        f = files.base(w, r)
        o = files.sec(f, "options")
        wl = r.choice(["no", "no", "-1", "0", "1", "2", "3", "5"])
        o["rows"] = [x for x in o["rows"] if x[1] != "writeLog"]
        if wl != "no":
            o["rows"].insert(r.randint(0, len(o["rows"])), [wl, "writeLog"])
        dd = ctx.dir("in/%s-%d" % (name, new))
        stem = r.choice(["lines", "moor", "a.b"])
        for q, t in w.files.items():
            open(os.path.join(dd, q), "w").write(t)
        p = os.path.join(dd, stem + ".txt")
        open(p, "w").write(files.text(f))
        own = os.path.join(dd, stem + ".log")
        ops.append({"op": "lcreate", "h": h, "file": p, "w": wl, "own": own, "own_path": own})
        paths.append(own)
        live[h] = {"w": w, "x": w.x0(), "t": 0.0, "init": False, "own": own, "file": own if wl not in ("no", "-1", "0") else ""}

    start()
    for _ in range(r.randint(12, 40)):
        if not live or (len(live) < 3 and r.random() < 0.06):
            if new > 4:
                break
            start()
        h = r.choice(sorted(live))
        S = live[h]
        q = r.random()
        if q < 0.45:
            n += 1
            ops.append({"op": "llog", "h": h, "v": r.choice([0, 1, 2, 3, 3, 2, 1, 4]), "msg": "[m%d|%s]" % (n, r.choice(WORDS))})
        elif q < 0.58:
            ops.append({"op": "lverb", "h": h, "v": r.choice([0, 1, 2, 3, 4096, 4096])})
        elif q < 0.70:
            ops.append({"op": "llevel", "h": h, "v": r.choice([0, 1, 2, 3, 4096])})
        elif q < 0.78:
            if r.random() < 0.2:
                ops.append({"op": "lfile", "h": h, "path": os.path.join(d, "nowhere", "x.log"), "good": False})
                S["file"] = ""
            else:
                free = [p for p in [os.path.join(d, "%d.log" % i) for i in range(4)] + [S["own"]] if all(o["file"] != p for g, o in live.items() if g != h)]
                p = r.choice(free)
                ops.append({"op": "lfile", "h": h, "path": p, "good": True})
                S["file"] = p
                if p not in paths:
                    paths.append(p)
        elif q < 0.90:
            if not S["init"]:
                ops.append({"op": "linit", "h": h, "x": [s(v) for v in S["x"]]})
                S["init"] = True
            else:
                dt = S["w"].dtm * 2
                ops.append({"op": "lstep", "h": h, "x": [s(v) for v in S["x"]], "t": s(S["t"]), "dt": s(dt)})
                S["t"] += dt
        elif q < 0.93:
            if S["init"]:
                ops.append({"op": "lsave", "h": h, "file": os.path.join(d, h + ".bin")})
        elif q < 0.95:
            ops.append({"op": "lclose", "h": h})
            live.pop(h)
        else:
            ops.append({"op": "llook", "paths": list(paths)})
    for h in sorted(live):
        ops.append({"op": "lclose", "h": h})
    ops.append({"op": "llook", "paths": list(paths)})
    return Scenario(name, ops, timeout=60)


def run(ctx):
    ctx.model_check("Log")
    n = 400 if ctx.quick() else 4000
    scs = [scenario(ctx, "g%d" % i, sd, i) for i, sd in enumerate(seeds(ctx, n))]
    ctx.conform("LogTrace", scs, [], relevant("Log"))
