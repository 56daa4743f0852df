"""Behaviours of Session.tla replayed on the real code."""
import json
import os
import random
import re

import common
import gen
from common import Scenario
from worlds import s, sv

SCHEMES = ["Euler", "Heun", "RK2", "RK4", "AB2", "AB3", "AB4", "LEuler", "BEuler3", "Midpoint3", "Anderson4",
           "ACA3", "Wilson3"]


# every entry point, by the shape of its arguments, for calls without an object
NULLS = [(f, g) for g, fs in {
    "u": "NCoupledDOF ExternalWaveKinInit ExternalWaveKinGetN GetNumberBodies GetNumberRods GetNumberPoints GetNumberLines "
         "GetLineN GetLineNumberNodes GetRodN GetRodNumberNodes GetPointNAttached",
    "i": "GetLineID IsLineConstantEA IsLinePressBend GetRodID GetRodType GetPointID GetPointType GetBodyID GetBodyType",
    "d": "GetDt GetCFL GetLineUnstretchedLength GetLineConstantEA GetLineFairTen GetLineMaxTen GetAverageDepth GetMinDepth",
    "v": "ExternalWaveKinGetCoordinates SetLinePressInt GetRodForce GetRodM GetPointPos GetPointVel GetPointForce GetPointM "
         "GetBodyPos GetBodyAngle GetBodyVel GetBodyAngVel GetBodyForce GetBodyM Deserialize",
    "nv": "GetLineNodePos GetLineNodeVel GetLineNodeForce GetLineNodeTen GetLineNodeBendStiff GetLineNodeWeight "
          "GetLineNodeDrag GetLineNodeFroudeKrilov GetLineNodeSeabedForce GetLineNodeM GetRodNodePos GetRodNodeVel",
    "nd": "GetLineNodeCurv",
    "D": "SetDt SetCFL SetLineUnstretchedLength SetLineUnstretchedLengthVel SetLineConstantEA",
    "I": "SetVerbosity SetLogLevel SetLinePressBend",
    "s": "SetLogFile SetTimeScheme Save Load SaveVTK SaveLineVTK SaveRodVTK",
    "Is": "Log", "vv": "Init Init_NoIC GetBodyState", "vvD": "ExternalWaveKinSet", "step": "Step", "0": "Close",
    "xyd": "GetDepthAt", "kin": "GetWavesKin", "att": "GetPointAttached", "ts": "GetTimeScheme", "ser": "Serialize",
    "fast": "GetFASTtens", "h": "GetWaves GetSeafloor", "hn": "GetBody GetRod GetPoint GetLine"}.items()
    for f in fs.split()]


def behaviours(ctx, num, seed, tag="gen", cfg="SessionGen.cfg", module="SessionGen"):
    out, _ = common.run_tlc(module, cfg, ctx.dir("tlc-" + tag), workers=1, timeout=200,
                            extra=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(seed)])
    b, seen = [], set()
    for m in re.finditer(r'<<"BEH", "(.*?)">>', out, re.S):
        e = json.loads(json.loads('"' + m.group(1).replace("\n", "") + '"'))
        k = json.dumps(e["ops"][:-1])      # TLC offers every successor of the last state
        if k not in seen:
            seen.add(k)
            b.append(e)
    if len(b) < num // 2:
        raise common.CheckError("TLC generated %d of %d behaviours" % (len(b), num))
    return b


def counts(w):
    """whatever is stored for each object, these make the size of a snapshot"""
    out = []
    for l in (w.lines, w.rods, w.points, w.bodies):
        out += [len(l), sum(o.get("n", 0) for o in l), sum(o.get("k") == "free" for o in l),
                sum(o.get("k") in ("free", "pinned", "cpldpin", "bodypin") for o in l)]
    return out


def distinct(a, b):
    """of different sizes for sure: one is at least as big in everything"""
    d = [x - y for x, y in zip(counts(a), counts(b))]
    return any(d) and (min(d) >= 0 or max(d) <= 0)


class Concrete:
    """labels -> API calls, the same for every instance of a world"""

    def __init__(self, ctx, name, seed, feat=None, scheme=None, sets=("ul", "ulv", "ea", "pb", "pin"), extra=(), mode=None):
        self.rng = rng = random.Random(seed)
        self.W = {}
        self.sets = sets
        sch = scheme or rng.choice(SCHEMES)
        for k in ("w1", "w2"):
            for j in range(5000):
                w = gen.World(random.Random(seed * 2 + (k == "w2") + j * 7919), **(feat or {}))
                if k == "w1" or distinct(w, self.W["w1"][0]):
                    break
            w.scheme = sch
            w.extra = list(extra)
            self.W[k] = (w, w.write(ctx.dir("in/" + name + "/" + k)))
        self.dir = ctx.dir("in/" + name)
        self.lab = {}
        self.ext = mode == "ext"

    def step(self, w, lab):
        key = (w, lab)
        if key not in self.lab:
            W = self.W[w][0]
            r = random.Random("%s/%s/%d" % (w, lab, len(W.lines)))
            dt = gen.sig(W.dtm * r.uniform(1.2, 7), 5)
            isr = W.isrot()
            xd = [r.uniform(-1, 1) * (0.02 if q else 0.3) for q in isr]
            x = [a + r.uniform(-1, 1) * (1e-4 if q else 1e-3) for a, q in zip(W.x0(), isr)]
            if r.random() < 0.15 and xd:
                xd[r.randrange(len(xd))] = 3e-310          # a subnormal number is a number
            self.lab[key] = (x, xd, dt)
        return self.lab[key]

    def setop(self, w, lab):
        key = (w, "set", lab)
        if key not in self.lab:
            W = self.W[w][0]
            r = random.Random("%s/%s/%d/%s" % (w, lab, len(W.lines), W.dtm))
            i = r.randrange(len(W.lines))
            L = W.lines[i]
            k = r.choice(self.sets)
            if L["t"]["EAc"] and k == "ea":
                k = "ul"
            o = {"ul": {"op": "setul", "v": s(gen.sig(L["_len"] * r.uniform(0.99, 1.02), 6))},
                 "ulv": {"op": "setulv", "v": s(gen.sig(r.uniform(-0.5, 0.5), 4))},
                 "ea": {"op": "setea", "v": s(gen.sig(L["t"]["EA"] * r.uniform(0.6, 1.0), 5))},
                 "pb": {"op": "setpb", "v": 1},
                 "pin": {"op": "setpin", "v": sv([gen.sig(r.uniform(0, 1e5), 4) for _ in range(L["n"] + 1)])}}[k]
            self.lab[key] = dict(o, line=i + 1)
        return self.lab[key]

    def nop(self, h, w):
        W = self.W[w][0]
        r = self.rng
        x, xd, _ = self.step(w, r.choice(["s1", "s2", "s3"]))
        if r.random() < 0.5:           # nobody has to give meaningful motions for no time
            x, xd = [a + r.uniform(-1, 1) for a in x], [r.uniform(-1, 1) for _ in xd]
        pts = [[s(r.uniform(-50, 50)), s(r.uniform(-50, 50)), s(r.uniform(-20, 0))] for _ in range(2)]
        zero = {"op": "step", "x": sv(x), "xd": sv(xd), "t": "0.0", "dt": r.choice(["0.0", "-0.5", "-0.0"])}
        return dict(r.choice([zero, zero, zero, zero,
            {"op": "obs"}, {"op": "verbosity", "v": r.choice([0, 1, 2])}, {"op": "kin", "pts": pts},
            {"op": "log", "v": 1, "msg": "hello"}, {"op": "attq"}, {"op": "setdtsame"}, {"op": "fasttens", "lines": len(W.lines)},
            {"op": "size", "file": self.W[w][1]}]), h=h)

    def misuse(self, h, w):
        W = self.W[w][0]
        r = self.rng
        x, xd, _ = self.step(w, "s1")
        c = [{"op": "getent", "kind": k, "n": n} for k, n in
             (("Line", 0), ("Line", len(W.lines) + 1), ("Point", 0), ("Point", len(W.points) + 1), ("Body", len(W.bodies) + 1),
              ("Body", 0), ("Rod", len(W.rods) + 1), ("Rod", 0))]
        c += [{"op": "nodequery", "line": 1, "node": W.lines[0]["n"] + 1}, {"op": "nodequery", "line": 1, "node": 1000},
              {"op": "setscheme", "v": "NoSuchScheme"}, {"op": "load", "file": os.path.join(self.dir, "nothere")},
              {"op": "load", "file": self.W[w][1]}, {"op": "save", "file": os.path.join(self.dir, "no", "such", "dir")},
              {"op": "attquery", "point": 1, "i": 99}, {"op": "attquery", "point": 1, "i": 4000000000},
              {"op": "fasttens", "lines": len(W.lines) + 1}, {"op": "nodequery", "line": 1, "node": 4294967295}]
        for i, R in enumerate(W.rods):
            c += [{"op": "rodquery", "rod": i + 1, "node": R["n"] + 1}, {"op": "rodquery", "rod": i + 1, "node": 4294967295}]
        f, g = NULLS[r.randrange(len(NULLS))]
        f2, g2 = NULLS[r.randrange(len(NULLS))]
        c += [{"op": "null", "fn": "MoorDyn_" + f, "sig": g}, {"op": "null", "fn": "MoorDyn_" + f2, "sig": g2}] * 5
        if W.ncoupled():
            c += [{"op": "nullarg", "fn": k} for k in ("step_x", "step_xd")]
        return dict(r.choice(c), h=h)

    def damage(self, p):
        r = self.rng
        # the header is "MoorDyn", two version bytes and the count of 8 byte words
        kinds = [lambda: ["trunc", r.choice([0, 3, 8, 16, 17, 25, 100])], lambda: ["trunc", -r.choice([1, 7, 8, 16, 24])],
                 lambda: ["add", [0] * r.choice([1, 7, 8, 16, 800])], lambda: ["add", [r.randrange(256) for _ in range(8)]],
                 lambda: ["xor", r.randrange(7), r.choice([1, 32, 128])], lambda: r.choice([["set", 7, 0], ["set", 7, 1], ["set", 8, 2], ["set", 8, 0]]),
                 lambda: ["xor", 9, r.choice([1, 3, 255])], lambda: ["xor", r.randrange(9, 13), r.choice([1, 2, 4, 128])],
                 lambda: ["xor", 16, r.choice([255, 128, 32])], lambda: ["xor", r.randrange(13, 17), r.choice([1, 16])],
                 lambda: ["set", 0, 0]]
        Concrete.ndamage = getattr(Concrete, "ndamage", -1) + 1
        e = kinds[Concrete.ndamage % len(kinds)]()
        return {"op": "copy", "src": p, "dst": p, "edits": [e]}

    def parts(self, beh, refs=True, every=True):
        parts, cur = [], []
        w = {}
        P = lambda f: os.path.join(self.dir, f + ".snap")
        for a in beh["ops"]:
            o = a["o"]
            h = a.get("h")
            if o == "reboot":
                parts.append(cur)
                cur = []
                w = {}
                continue
            if o == "create":
                op = {"op": "create", "file": self.W[a["w"]][1], "h": h}
                w[h] = a["w"]
            elif o == "init":
                x = self.W[w[h]][0].x0()
                op = {"op": "init", "h": h, "noic": True, "x": sv(x), "xd": sv([0.0] * len(x))}
            elif o == "step":
                x, xd, dt = self.step(w[h], a["lab"])
                op = {"op": "step", "h": h, "x": sv(x), "xd": sv(xd), "t": "0.0", "dt": s(dt)}
            elif o == "set":
                op = dict(self.setop(w[h], a["lab"]), h=h)
            elif o in ("save", "load"):
                op = {"op": o, "h": h, "file": P(a["f"])}
            elif o in ("serialize", "deserialize"):
                op = {"op": o, "h": h, "buf": a["f"]}
            elif o == "damage":
                op = self.damage(P(a["f"]))
            elif o == "obs":
                op = {"op": "obs", "h": h}
            elif o == "nop":
                op = self.nop(h, w[h])
            elif o == "misuse":
                op = self.misuse(h, w[h])
            elif o == "close":
                op = {"op": "close", "h": h}
            op["abs"] = a
            op["slim"] = True
            if h and o not in ("create", "close") and every:
                op["dg"] = True
            cur.append(op)
        parts.append(cur)
        if refs:
            # the same histories again, straight, on instances of their own and in another process
            cur = []
            for j, (wn, hist) in enumerate(sorted(map(tuple2, beh["ends"]))):
                h = "r%d" % j
                cur.append({"op": "create", "file": self.W[wn][1], "h": h,
                            "abs": {"o": "create", "h": h, "w": wn, "good": True}})
                for q, lab in enumerate(hist):
                    if q == 0:
                        x = self.W[wn][0].x0()
                        op = {"op": "init", "h": h, "noic": True, "x": sv(x), "xd": sv([0.0] * len(x)),
                              "abs": {"o": "init", "h": h, "lab": lab, "good": True}}
                    elif lab.startswith("s"):
                        x, xd, dt = self.step(wn, lab)
                        op = {"op": "step", "h": h, "x": sv(x), "xd": sv(xd), "t": "0.0", "dt": s(dt),
                              "abs": {"o": "step", "h": h, "lab": lab, "n": 1}}
                    else:
                        op = dict(self.setop(wn, lab), h=h, abs={"o": "set", "h": h, "lab": lab})
                    if q % 2 == 0 or q >= len(hist) - 2:
                        op["dg"] = True
                    op["slim"] = True
                    cur.append(op)
                cur.append({"op": "close", "h": h, "abs": {"o": "close", "h": h}})
            parts.append(cur)
        return parts


def tuple2(e):
    return (e[0], tuple(e[1]))


def scenario(ctx, name, beh, seed, **kw):
    c = Concrete(ctx, name, seed, **kw)
    return Scenario(name, None, [{"op": "session"}], parts=c.parts(beh))
