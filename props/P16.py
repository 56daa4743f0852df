"""Output files: names, units, rows and values."""
from _world import *
import gen
import sea
import worlds
from common import Scenario

s, sv = sea.s, sea.sv
Q = {"line": ["PX", "PY", "PZ", "VX", "VY", "VZ", "FX", "FY", "FZ", "T", "TA", "TB"],
     "point": ["PX", "PY", "PZ", "VX", "VY", "VZ", "AX", "AY", "AZ", "FX", "FY", "FZ", "T"],
     "rod": ["PX", "PY", "PZ", "RX", "RY", "VX", "VY", "VZ", "RVX", "RVY", "AX", "AY", "AZ", "RAX", "RAY", "FX", "FY", "FZ",
             "MX", "MY", "MZ", "TA", "TB", "SUB"],
     "node": ["PX", "PY", "PZ", "VX", "VY", "VZ", "FX", "FY", "FZ"],
     "body": ["PX", "PY", "PZ", "RX", "RY", "RZ", "VX", "VY", "VZ", "RVX", "RVY", "RVZ", "AX", "AY", "AZ", "RAX", "RAY", "RAZ",
              "FX", "FY", "FZ", "MX", "MY", "MZ", "T"]}
FEATS = [dict(maxbodies=2, maxrods=2, maxlines=3, maxseg=4), dict(maxbodies=0, maxrods=0, minlines=2, surface=0.5),
         dict(minrods=1, maxrods=2, maxbodies=1, maxlines=3, surface=0.8, maxseg=4),
         dict(minbodies=1, maxbodies=2, maxrods=1, maxlines=3, maxseg=4)]


def channel(w, r):
    c = r.choice([k for k, n in (("line", w.lines), ("point", w.points), ("rod", w.rods), ("body", w.bodies)) if n] +
                 ["line"] * bool(w.lines))
    i = r.randrange(len({"line": w.lines, "point": w.points, "rod": w.rods, "body": w.bodies}[c])) + 1
    node, mid = -1, ""
    n = w.lines[i - 1]["n"] if c == "line" else w.rods[i - 1]["n"] if c == "rod" else 0
    if c == "line" and r.random() < 0.12:
        a = r.random() < 0.5
        name = ("ANCHTEN%d" if a else "FAIRTEN%d") % i
        return {"c": c, "i": i, "node": 0 if a else n, "q": "T", "name": name}
    q = r.choice(Q[c])
    if c == "line":
        node = 0
        if q not in ("TA", "TB") and r.random() < 0.85:
            node, mid = r.choice([(0, "NA"), (n, "NB")] + [(k, "N%d" % k) for k in range(n + 1)])
    elif c == "rod" and r.random() < 0.4:
        q = r.choice(Q["node"])
        node, mid = r.choice([(0, "NA"), (n, "NB")] + [(k, "N%d" % k) for k in range(n + 1)])
    pre = {"line": ["L", "LINE"], "point": ["P", "POINT"], "rod": ["R", "ROD"], "body": ["B", "BODY"]}[c]
    suf = {"T": ["T", "TEN"], "TA": ["TA", "TENA"], "TB": ["TB", "TENB"]}.get(q, [q])
    name = r.choice(pre) + str(i) + mid + r.choice(suf)
    name = r.choice([name, name, name.lower(), name.capitalize()])
    return {"c": c, "i": i, "node": node, "q": q, "name": name}


def scenario(ctx, name, seed, feat, nsteps=5):
    r = random.Random(seed)
    w = gen.World(r, **feat)
    w.scheme = r.choice(["Euler", "Heun", "RK2", "RK4", "AB2"])
    cur = r.random() < 0.4
    kw = {}
    if cur:
        kw = {"sea": sea.sea(w, r, "none", "steady"), "wk": "obs"}
    else:
        kw = {"wk": "still"}
    files = [{"c": "main", "i": 0, "flags": []}]
    for i, l in enumerate(w.lines):
        fl = r.sample("pvUDtcsdKb", r.choice([0, 1, 2, 4, 10]))
        if not set(fl) & set("pvUDtcsd"):
            fl = []
        l["_row"]["out"] = "".join(fl) or "-"
        if fl:
            files.append({"c": "line", "i": i + 1, "flags": fl})
    for i, l in enumerate(w.rods):
        fl = r.sample("pv", r.choice([0, 1, 2]))
        l["_row"]["out"] = "".join(fl) or "-"
        if fl:
            files.append({"c": "rod", "i": i + 1, "flags": fl})
    files += [{"c": "body", "i": i + 1, "flags": []} for i in range(len(w.bodies))]
    gate = r.random() < 0.5
    step = gen.sig(max(w.dtm * r.randint(2, 8), 0.002), 2)
    dtout = gen.sig(r.choice([step, 2 * step, 3 * step, step * r.uniform(0.3, 3.5)]), 3) if gate else 0.0
    units = r.random() < 0.7
    w.extra = list(w.extra) + [("dtOut", dtout), ("WriteUnits", r.choice([1, 2]) if units else 0)]
    chans = [channel(w, r) for _ in range(r.randint(1, 40))]
    rows, k = [], 0
    while k < len(chans):
        n = r.choice([1, 1, 2, 5])
        rows.append(" ".join(c["name"] for c in chans[k:k + n]))
        k += n
    d = ctx.dir("in/" + name)
    path = w.write(d, outputs=rows)
    x = w.x0()
    xd = [0.0] * len(x)
    ops = [{"op": "create", "h": "a", "file": path},
           {"op": "init", "h": "a", "noic": True, "x": sv(x), "xd": sv(xd), "obs": "full"}]
    t = 0.0
    for i in range(nsteps * (2 if gate else 1)):
        dt = step if r.random() < 0.5 else gen.sig(step * r.uniform(0.3, 2.5), 3)
        dt = max(dt, 0.002)
        xd = w.nextmove(x, dt, 1.0)
        ops.append({"op": "step", "h": "a", "x": sv(x), "xd": sv(xd), "t": s(t), "dt": s(dt), "obs": "full"})
        t += dt
        x = [a + b * dt for a, b in zip(x, xd)]
        if not gate:
            ops.append({"op": "step", "h": "a", "x": sv(x), "xd": sv(xd), "t": s(t), "dt": s(1e-12), "obs": "full",
                        "probe": True, "wk": cur})
        if r.random() < 0.1:
            ops.append({"op": "step", "h": "a", "x": sv(x), "xd": sv(xd), "t": s(t), "dt": s(0.0)})
    ops.append({"op": "close", "h": "a"})
    for f in files:
        suf = "" if f["c"] == "main" else "_%s%d" % (f["c"].capitalize(), f["i"])
        ops.append({"op": "readout", "file": "%s/world%s.out" % (d, suf), "what": f})
    return Scenario(name, ops, [w.header(out={"dtout": s(dtout), "units": units, "chans": chans, "files": files}, **kw)])


def run(ctx):
    n = 64 if ctx.quick() else 900
    scs = [scenario(ctx, "o%d" % i, sd, FEATS[i % len(FEATS)]) for i, sd in enumerate(seeds(ctx, n))]
    ctx.conform("WorldTrace", scs, ["Out"], relevant("Ok", "Shape", "Out"))
