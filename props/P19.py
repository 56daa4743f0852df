"""The old interface: one instance, without handles."""
import json
import os
import random
import zlib

import common
import gen
import sea
import sessions
from _world import relevant
from _session import FEATS, SCH
from common import Scenario
from worlds import s, sv

LEVEL = "model_checking"
RULE = ("behaviours of Legacy.tla drawn by TLC (-simulate) and replayed on the real library through MoorDyn.h; every history reached "
        "is repeated through the handles of MoorDyn2.h in another process; a case is one API call")
ASSUMES = ["bit equality of IEEE doubles (the sign of zero apart)", "TLC, the ctypes driver and the operating system are trusted"]


class Concrete(sessions.Concrete):
    def __init__(self, ctx, name, seed, feat, scheme, ext, relax):
        r = random.Random(seed)
        self.dir = ctx.dir("in/" + name)
        self.W, self.lab, self.ext, self.copy = {}, {}, ext, {}
        for k in ("w1", "w2"):
            w = gen.World(random.Random(seed * 2 + (k == "w2")), **feat)
            w.scheme = scheme
            if relax:
                o0 = w.options
                w.extra = [("dtIC", gen.sig(5 * w.dtm, 3)), ("threshIC", 0.01), ("ICgenDynamic", r.choice([0, 1]))]
                w.options = lambda o0=o0, w=w: [q if q[0] != "TmaxIC" else ("TmaxIC", gen.sig(8 * w.dtm, 3)) for q in o0()]
            n = 0
            if ext:
                sea.sea(w, random.Random(seed + 1), "ext", "none")
                hd = w.header()
                n = sum(q["n"] + 1 for q in hd["lines"]) + sum(q["n"] + 1 for q in hd["rods"]) + len(hd["points"]) + len(hd["bodies"]) + 1
            self.W[k] = (w, n)
        self.bad = []
        txt = open(self.file("w1", "b")).read().splitlines()
        for j, (e, keep) in enumerate((("nothere.txt", None), ("cut.txt", 0.4), ("odd.txt", 1))):
            p = os.path.join(self.dir, e)
            if keep == 1:                      # read well, refused by Init
                t = list(txt)
                i = max(q for q, l in enumerate(t) if l.split()[1:2] in (["WaveKin"], ["dtM"]))
                t.insert(i + 1, "99 WaveKin")
                open(p, "w").write("\n".join(t) + "\n")
            elif keep:
                i = next(q for q, l in enumerate(txt) if "LINES" in l)
                open(p, "w").write("\n".join(txt[:i + 3] + ["1 nosuchtype 1 2 10 4 -"] + txt[i + 4:]) + "\n")
            self.bad.append(p)

    def file(self, w, who):
        """each its own copy: they all write output files"""
        k = (w, who)
        if k not in self.copy:
            d = os.path.join(self.dir, "%s-%s" % (w, who))
            os.makedirs(d, exist_ok=True)
            self.copy[k] = self.W[w][0].write(d)
        return self.copy[k]

    def wave(self, w, lab):
        n = self.W[w][1]
        r = random.Random("%s/%s/%d" % (w, lab, n))
        v = lambda a: [sv([gen.sig(r.uniform(-a, a), 4) for _ in range(3)]) for _ in range(n)]
        return {"U": v(0.5), "A": v(0.5), "t": "0.0"}

    def look(self, w):
        W = self.W[w][0]
        return {"points": len(W.points), "nodes": [l["n"] for l in W.lines], "ext": self.W[w][1]}

    def parts(self, beh):
        r, cur, w, hists, n1 = random.Random(1), [], {}, [], 0
        hist = {}

        def one(op, a, **kw):
            cur.append(dict(op, abs=a, h=a["h"], **kw))
        for a in beh["ops"]:
            o, h = a["o"], a["h"]
            if o in ("v1init", "create"):
                wn = a["w"]
            else:
                wn = w.get(h, "w1")
            W = self.W[wn][0]
            x0 = W.x0()
            z = sv([0.0] * len(x0))
            if o == "v1init":
                n1 += 1
                f = self.file(wn, "v1%d" % n1) if a["good"] else self.bad[n1 % len(self.bad)]
                one({"op": "v1init", "file": f, "x": sv(x0), "xd": z}, a)
                if a["good"]:
                    w[h] = wn
                    hist[h] = (wn, ["init"])
                    if self.ext:
                        one({"op": "v1ext"}, {"o": "v1wave", "h": h})
            elif o == "v1step":
                x, xd, dt = self.step(wn, a["lab"])
                if self.ext and h in hist:
                    one(dict(self.wave(wn, a["lab"]), op="v1wave"), {"o": "v1wave", "h": h})
                one({"op": "v1step", "x": sv(x), "xd": sv(xd), "nf": len(x), "t": "0.0", "dt": s(dt)}, a)
                if h in hist:
                    hist[h][1].append(a["lab"])
            elif o == "v1close":
                one({"op": "v1close"}, a)
                hists.append(hist.pop(h, None))
                w.pop(h, None)
            elif o == "v1obs":
                one(dict(self.look(wn), op="v1obs"), a)
            elif o == "create":
                one({"op": "create", "file": self.file(wn, h)}, a)
                w[h] = wn
            elif o == "init":
                one({"op": "init", "x": sv(x0), "xd": z}, a)
                if self.ext:
                    cur.append({"op": "v2ext", "h": h})
            elif o == "step":
                x, xd, dt = self.step(wn, a["lab"])
                if self.ext:
                    cur.append(dict(self.wave(wn, a["lab"]), op="v1wave", v2=True, h=h))
                one({"op": "v2step", "x": sv(x), "xd": sv(xd), "nf": len(x), "t": "0.0", "dt": s(dt)}, a)
            elif o == "obs":
                one(dict(self.look(wn), op="v2obs"), a)
            elif o == "close":
                one({"op": "close"}, a)
                w.pop(h, None)
            if o == "v1init" and a["good"]:
                hists.append(hist[h])
            if o in ("v1init", "v1step") and (o != "v1init" or a["good"]) and h in hist:
                one(dict(self.look(w[h]), op="v1obs"), {"o": "v1obs", "h": h})
                hists.append((hist[h][0], list(hist[h][1])))
        first, cur = cur, []
        # the longest histories again, through handles
        hs = {(q[0], tuple(q[1])) for q in hists if q}
        hs = [q for q in hs if not any(p != q and p[0] == q[0] and p[1][:len(q[1])] == q[1] for p in hs)]
        for j, (wn, hist) in enumerate(sorted(hs)):
            h = "r%d" % j
            one({"op": "create", "file": self.file(wn, h)}, {"o": "create", "h": h, "w": wn, "good": True})
            for lab in hist:
                if lab == "init":
                    x = self.W[wn][0].x0()
                    one({"op": "init", "x": sv(x), "xd": sv([0.0] * len(x))}, {"o": "init", "h": h, "lab": "init", "good": True})
                    if self.ext:
                        one({"op": "v2ext"}, {"o": "obs", "h": h})
                else:
                    x, xd, dt = self.step(wn, lab)
                    if self.ext:
                        cur.append(dict(self.wave(wn, lab), op="v1wave", v2=True, h=h))
                    one({"op": "v2step", "x": sv(x), "xd": sv(xd), "nf": len(x), "t": "0.0", "dt": s(dt)}, {"o": "step", "h": h, "lab": lab, "n": 1})
                one(dict(self.look(wn), op="v2obs"), {"o": "obs", "h": h})
            one({"op": "close"}, {"o": "close", "h": h})
        return [first, cur]


def run(ctx):
    ctx.model_check("Legacy")
    n = 400 if ctx.quick() else 600
    sd = zlib.crc32(("%s/%d/%s" % (ctx.prop, ctx.seed, ctx.tier)).encode())
    r = random.Random(sd)
    bs = sessions.behaviours(ctx, n, sd % 100000 + 1, cfg="LegacyGen.cfg", module="LegacyGen")
    r.shuffle(bs)
    scs = []
    for i, b in enumerate(bs[:n]):
        name = "b%d" % i
        c = Concrete(ctx, name, r.randrange(1 << 30), FEATS[i % len(FEATS)], SCH[i % len(SCH)], i % 4 == 1, i % 4 == 2)
        scs.append(Scenario(name, None, [{"op": "session"}], parts=c.parts(b)))
        scs[-1].asan = i % 10 == 0
    ctx.conform("LegacyTrace", scs, [], relevant("Legacy"), tag="legacy")
