"""The Python module answers and acts as the C API."""
from _world import *
import os
import sys

import files
import gen
import sea
from common import ROOT, Scenario
sys.path.insert(0, os.path.join(ROOT, "tools"))
import build_lib

RULE = ("sessions held through the Python module and, call by call, through the C API on a second instance of the same system; a case is "
        "one call on both sides; every session has another system and other calls")
ASSUMES = ASSUMES + ["the C API repeats itself (property P03), which is how the two instances can be compared"]
s = lambda v: repr(float(v))
sv = lambda v: [s(x) for x in v]
FEATS = [dict(maxbodies=0, maxrods=0, maxlines=3, maxseg=4), dict(minbodies=1, maxbodies=2, maxrods=0, maxlines=3, maxseg=3),
         dict(minrods=1, maxrods=2, maxbodies=1, maxlines=2, maxseg=3), dict(minbodies=1, maxbodies=2, minrods=1, maxrods=2, maxlines=3, maxseg=3),
         dict(minrods=1, maxrods=1, maxbodies=0, maxlines=2, maxseg=3, bathy=1.0)]
SEAS = [("none", "none"), ("fft", "none"), ("none", "steady"), ("elev", "steady"), ("sum", "none"), ("none", "none")]
CONSTS = sorted("LEVEL_NONE LEVEL_ERR LEVEL_WRN LEVEL_MSG LEVEL_DBG ERRCODE_SUCCESS ERRCODE_INVALID_INPUT_FILE ERRCODE_INVALID_OUTPUT_FILE "
                "ERRCODE_INVALID_INPUT ERRCODE_NAN_ERROR ERRCODE_MEM_ERROR ERRCODE_INVALID_VALUE ERRCODE_NON_IMPLEMENTED ERRCODE_UNHANDLED_ERROR "
                "BODY_TYPE_COUPLED BODY_TYPE_FREE BODY_TYPE_FIXED POINT_TYPE_COUPLED POINT_TYPE_FREE POINT_TYPE_FIXED ROD_TYPE_COUPLED "
                "ROD_TYPE_CPLDPIN ROD_TYPE_FREE ROD_TYPE_PINNED ROD_TYPE_FIXED ENDPOINT_A ENDPOINT_B ENDPOINT_BOTTOM ENDPOINT_TOP".split())
BODY = ["ID", "Type", "State", "Pos", "Angle", "Vel", "AngVel", "Force", "M"]
POINT = ["ID", "Type", "Pos", "Vel", "Force", "M", "NAttached"]
NODE = ["Pos", "Vel", "Force", "Ten", "BendStiff", "Weight", "Drag", "FroudeKrilov", "SeabedForce", "Curv", "M"]


class Session:
    def __init__(self, r, w, nums, d):
        self.r, self.w, self.nums, self.d, self.ops, self.msgs, self.n = r, w, nums, d, [], [], 0

    def call(self, f, o, *a, look=False, shape="", onlypy=False):
        self.ops.append({"op": "call", "f": f, "o": o, "a": list(a), "look": look, "onlypy": onlypy, "shape": shape})

    def getters(self, share):
        """any of the questions that can be asked"""
        r = self.r
        S = ["system", 0]
        for f in ("NCoupledDOF", "GetNumberBodies", "GetNumberRods", "GetNumberPoints", "GetNumberLines", "GetWaves", "GetSeafloor"):
            if r.random() < share:
                self.call(f, S)
        nb, nr, np_, nl = self.nums
        for k, n in (("Body", nb), ("Rod", nr), ("Point", np_), ("Line", nl)):
            if r.random() < share / 2:
                self.call("Get" + k, S, {"i": r.choice([0, n + 1, n + 7, 1, n])})
        for i in range(1, nb + 1):
            for q in BODY:
                if r.random() < share:
                    self.call("GetBody" + q, ["body", i])
            if r.random() < share / 6:
                self.call(r.choice(["SaveBodyVTK", "UseBodyVTK"]), ["body", i], {"s": os.path.join(self.d, "b.vtp")})
        for i in range(1, nr + 1):
            n = self.w.rods[i - 1]["n"]
            for q in ("ID", "Type", "Force", "M", "N"):
                if r.random() < share:
                    self.call("GetRod" + q, ["rod", i])
            for q in ("Pos", "Vel"):
                if r.random() < share:
                    self.call("GetRodNode" + q, ["rod", i], {"i": r.choice([0, n, r.randint(0, n), n + 1])})
            if r.random() < share / 6:
                self.call("SaveRodVTK", ["rod", i], {"s": os.path.join(self.d, "r.vtp")})
        for i in range(1, np_ + 1):
            for q in POINT:
                if r.random() < share:
                    self.call("GetPoint" + q, ["point", i])
            if r.random() < share:
                self.call("GetPointAttached", ["point", i], {"i": r.choice([0, 0, 1, 2, 9])})
            if r.random() < share / 6:
                self.call("SavePointVTK", ["point", i], {"s": os.path.join(self.d, "p.vtp")})
        for i in range(1, nl + 1):
            n = self.w.lines[i - 1]["n"]
            for q in ("GetLineID", "GetLineN", "GetLineUnstretchedLength", "GetLineConstantEA", "IsLineConstantEA", "IsLinePressBend",
                      "GetLineFairTen", "GetLineMaxTen"):
                if r.random() < share:
                    self.call(q, ["line", i])
            for q in NODE:
                if r.random() < share:
                    self.call("GetLineNode" + q, ["line", i], {"i": r.choice([0, n, r.randint(0, n), r.randint(0, n), n + 1])})
            if r.random() < share / 6:
                self.call("SaveLineVTK", ["line", i], {"s": os.path.join(self.d, "l.vtp")})
        if nl and r.random() < share:
            self.call("GetFASTtens", S, {"i": r.choice([nl, nl, 1])})
        if r.random() < share / 6:
            self.call("SaveVTK", S, {"s": os.path.join(self.d, "s.vtm")})
        X = lambda: s(gen.sig(r.uniform(-60, 60), 4))
        if self.w.bathy:
            for _ in range(2):
                self.call("GetDepthAt", ["seafloor", 0], X(), X())
            self.call("GetAverageDepth", ["seafloor", 0])
            self.call("GetMinDepth", ["seafloor", 0])
        for _ in range(2):
            if r.random() < share:
                a = [X(), X(), s(-abs(float(X())))]
                if self.w.bathy and r.random() < 0.6:
                    self.ops.append({"op": "call", "f": "GetSeafloor", "o": S, "a": [], "look": False, "onlypy": False, "shape": ""})
                    self.call("GetDepthAt", ["seafloor", 0], X(), X())
                    a.append("0.0")
                self.call("GetWavesKin", ["waves", 0], *a)

    def setters(self):
        r = self.r
        for i in range(1, self.nums[3] + 1):
            n = self.w.lines[i - 1]["n"]
            L = self.w.lines[i - 1]["ul"]
            o = ["line", i]
            if r.random() < 0.4:
                self.call("SetLinePressBend", o, {"b": r.random() < 0.6}, look=True)
                self.call("IsLinePressBend", o)
            if r.random() < 0.3:
                self.call("SetLinePressInt", o, sv([gen.sig(r.uniform(0, 1e5), 3) for _ in range(n + 1)]), look=True)
            if r.random() < 0.15:
                k = r.choice([n, n + 2])
                self.call("SetLinePressInt", o, sv([1.0] * k), look=True, onlypy=True, shape="short" if k == n else "long")
            if r.random() < 0.3:
                self.call("SetLineConstantEA", o, s(gen.sig(10 ** r.uniform(6, 7), 3)), look=True)
            if r.random() < 0.2:
                self.call("SetLineUnstretchedLengthVel", o, s(r.choice([0.0, 0.05, -0.02])), look=True)
            if r.random() < 0.2:
                self.call("SetLineUnstretchedLength", o, s(gen.sig(L * r.uniform(0.98, 1.05), 5)), look=True)

    def logging(self):
        r = self.r
        S = ["system", 0]
        for _ in range(r.randint(1, 3)):
            self.n += 1
            m = "[m%d|of the session]" % self.n
            self.msgs.append(m)
            if r.random() < 0.5:
                self.call("SetLogLevel", S, {"i": r.choice([0, 1, 2, 3, 4096])})
            if r.random() < 0.4:
                self.call("SetVerbosity", S, {"i": r.choice([0, 1, 2, 3, 4096])})
            self.call("Log", S, {"i": r.choice([0, 1, 2, 3, 3])}, {"s": m})


def scenario(ctx, name, seed, k, ext, pkg, lang=None):
    r = random.Random(seed)
    w = gen.World(r, **dict(FEATS[k % len(FEATS)], bodykinds=["free", "free", "coupled", "fixed"]))
    w.scheme = r.choice(["RK2", "RK2", "Euler", "RK4", "AB2"])
    waves = SEAS[k % len(SEAS)]
    outer = k % 8 == 5
    if waves != ("none", "none") and not outer:
        sea.sea(w, r, *waves)
    default = k % 23 == 3 and not lang
    f = files.base(w, r)
    o = files.sec(f, "options")
    if outer:
        o["rows"] = [x for x in o["rows"] if x[1] != "WaveKin"] + [["1", "WaveKin"]]
    if k % 4 in (1, 2):
        o["rows"] = [x for x in o["rows"] if x[1] not in ("TmaxIC", "dtIC")] + [
            [repr(gen.sig(8 * w.dtm, 3)), "TmaxIC"], [repr(gen.sig(4 * w.dtm, 3)), "dtIC"]]
    paths = {}
    for h in "pc":
        d = ctx.dir("in/%s-%s" % (name, h))
        if default and h == "p":
            d = ctx.dir("run/%s/0/Mooring" % name)
        for n, t in w.files.items():
            open(os.path.join(d, n), "w").write(t)
        if w.bathy:
            oo = files.sec(f, "options")
            oo["rows"] = [x for x in oo["rows"] if x[1] != "SeafloorFile"] + [[os.path.join(d, "bed.txt"), "SeafloorFile"]]
        paths[h] = os.path.join(d, "lines.txt")
        g = dict(f)
        if k % 29 == 7:   # nothing to be made of this
            g = dict(f, secs=[x for x in f["secs"] if x["k"] != "linetypes"])
        open(paths[h], "w").write(files.text(g))
    d = ctx.dir("log/" + name)
    nums = [len(w.bodies), len(w.rods), len(w.points), len(w.lines)]
    S = Session(r, w, nums, d)
    Y = ["system", 0]
    ops = S.ops
    ops.append({"op": "pyload", "ext": ext, "pkg": pkg, "consts": CONSTS})
    ops.append({"op": "pycreate", "c": paths["c"], "p": "" if default else paths["p"]})
    lf = {h: os.path.join(d, h + ".log") for h in "pc"}
    S.call("SetVerbosity", Y, {"i": 4096})
    S.call("SetLogLevel", Y, {"i": r.choice([0, 1, 2, 3])})
    S.call("SetLogFile", Y, {"s": lf["p"]}, {"s": lf["c"]})
    if r.random() < 0.1:
        S.call("SetLogFile", Y, *[{"s": os.path.join(d, "nowhere", h + ".log")} for h in "pc"])
        if r.random() < 0.5:
            S.call("SetLogFile", Y, {"s": lf["p"]}, {"s": lf["c"]})
    S.logging()
    x = w.x0()
    z = [0.0] * len(x)
    bad = lambda v: (v + [0.0], "long") if r.random() < 0.5 or not v else (v[:-1], "short")
    for f_ in ("Init", "Init_NoIC"):
        if r.random() < 0.2:
            y, sh = bad(x)
            S.call(f_, Y, *r.choice([(sv(y), sv(z)), (sv(x), sv(y))]), onlypy=True, shape=sh)
    S.ops = ops = [dict(q, look=False) if q.get("onlypy") else q for q in S.ops]
    ic = k % 5 == 4
    S.call("Init" if ic else "Init_NoIC", Y, sv(x), sv(z), look=True)
    if outer:
        S.call("ExternalWaveKinInit", Y)
        S.call("ExternalWaveKinGetN", Y)
        S.call("GetWaveKinCoordinates", Y)
    elif r.random() < 0.3:
        S.call(r.choice(["ExternalWaveKinInit", "ExternalWaveKinGetN"]), Y)
    nn = sum(l["n"] + 1 for l in w.lines) + sum(q["n"] + 1 for q in w.rods) + len(w.points) + len(w.bodies)
    t = 0.0
    for i in range(r.randint(2, 4)):
        S.getters(r.choice([0.2, 0.5, 0.9]))
        S.setters()
        dt = gen.sig(w.dtm * r.randint(1, 6), 3)
        xd = w.nextmove(x, dt, 0.7)
        if outer:
            U = [sv([gen.sig(r.uniform(-1, 1), 3) for _ in range(3)]) for _ in range(nn + 1)]
            A = [sv([gen.sig(r.uniform(-1, 1), 3) for _ in range(3)]) for _ in range(nn + 1)]
            if r.random() < 0.4:
                k_ = r.choice([-1, 1])
                cut = (lambda v: v[:-1]) if k_ < 0 else (lambda v: v + [sv([0.0] * 3)])
                S.call("SetWaveKin", Y, cut(U), cut(A), s(t), look=True, onlypy=True, shape="short" if k_ < 0 else "long")
            S.call("SetWaveKin", Y, U, A, s(t), look=True)
        if r.random() < 0.3:
            y, sh = bad(x)
            S.call("Step", Y, *r.choice([(sv(y), sv(xd)), (sv(x), sv(y))]), s(t), s(dt), look=True, onlypy=True, shape=sh)
        if x and r.random() < 0.15:
            y = sv(x)
            y[r.randrange(len(y))] = {"bad": 1}
            S.call("Step", Y, y, sv(xd), s(t), s(dt), look=True, onlypy=True, shape="type")
        S.call("Step", Y, sv(x), sv(xd), s(t), s(dt), look=True)
        t += dt
        x = [a + b * dt for a, b in zip(x, xd)]
        if r.random() < 0.3:
            S.logging()
        q = r.random()
        if q < 0.25:
            S.call("Serialize", Y)
            S.call("Step", Y, sv(x), sv(xd), s(t), s(dt), look=True)
            S.call("Deserialize", Y, look=True)
        elif q < 0.45:
            S.call("Save", Y, {"s": os.path.join(d, "p.bin")}, {"s": os.path.join(d, "c.bin")})
            S.call("Step", Y, sv(x), sv(xd), s(t), s(dt), look=True)
            S.call("Load", Y, {"s": os.path.join(d, "p.bin")}, {"s": os.path.join(d, "c.bin")}, look=True)
        elif q < 0.5:
            S.call("Load", Y, {"s": os.path.join(d, "nowhere.bin")}, {"s": os.path.join(d, "nowhere.bin")}, look=True)
    if x and r.random() < 0.25:   # the end of a system which is torn apart
        big = gen.sig(10 ** r.uniform(150, 307), 2)
        for _ in range(3):
            S.call("Step", Y, sv([big] * len(x)), sv([big] * len(x)), s(t), s(w.dtm * 2), look=True)
            t += w.dtm * 2
    S.getters(0.9)
    S.call("Close", Y)
    S.ops.append({"op": "pylogs", "p": lf["p"], "c": lf["c"], "msgs": S.msgs})
    return Scenario(name, lang(S.ops) if lang else S.ops, timeout=120)


def run(ctx):
    n = 360 if ctx.quick() else 3000
    ext = build_lib.pyext(ctx.lib())
    pkg = os.path.join(build_lib.REPO, "wrappers", "python")
    scs = [scenario(ctx, "y%d" % i, sd, i, ext, pkg) for i, sd in enumerate(seeds(ctx, n))]
    ctx.conform("WrapTrace", scs, [], relevant("Py"))
