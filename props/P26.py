"""Input files generated in Python say what the objects say."""
from _world import *
import os
import re
import sys

import files
import gen
from common import ROOT, Scenario
sys.path.insert(0, os.path.join(ROOT, "tools"))
import build_lib

RULE = ("scripts which put systems together with the classes of moordyn.Generator, in any order, changing fields and attachments as they "
        "go, reading fields back and creating the system once or more; a case is one call")
ASSUMES = ASSUMES + ["what a written file means is decided by property P07"]
s = lambda v: repr(float(v))
FEATS = [dict(maxbodies=0, maxrods=0, maxlines=3, maxseg=4), dict(minbodies=1, maxbodies=2, maxrods=0, maxlines=3, maxseg=3, cdan=[1, 2, 3, 6]),
         dict(minrods=1, maxrods=2, maxbodies=1, maxlines=2, maxseg=3), dict(minbodies=1, maxbodies=2, minrods=1, maxrods=2, maxlines=3, maxseg=3, cdan=[1, 2, 3, 6])]
# fields in the order in which the classes take them, and a way of making up values
NUM, LST3, BAR3, BAR6 = "num", "list", "bar3", "bar6"
KIND = {"LineMaterial": [("name", None)] + [(x, NUM) for x in "d w ea ba ei cdn can cdt cat".split()],
        "RodMaterial": [("name", None)] + [(x, NUM) for x in "d w cdn can cdt cat".split()],
        "Body": [("type", None), ("p", LST3), ("r", LST3), ("mass", NUM), ("cog", BAR3), ("I", BAR3), ("cda", BAR6), ("vol", NUM), ("ca", BAR3)],
        "Rod": [("material", None), ("point", None), ("p0", LST3), ("p1", LST3), ("n", "int")],
        "Point": [("type", None), ("p", LST3), ("mass", NUM), ("vol", NUM), ("cda", NUM), ("ca", NUM)],
        "Line": [("material", None), ("point0", None), ("point1", None), ("l", NUM), ("n", "int")],
        "Option": [("name", None), ("value", None)]}


class Script:
    def __init__(self, r, d):
        self.r, self.d, self.ops, self.n, self.have = r, d, [], 0, {}

    def do(self, **kw):
        self.ops.append(dict(kw, op="gen", dir=self.d))

    def new(self, k, *a):
        self.n += 1
        o = "o%d" % self.n
        self.do(c="new", o=o, k=k, a=list(a))
        self.have[o] = k
        return o

    def set(self, o, f, v):
        # a list may also be changed in place
        k = dict(KIND.get(self.have[o], [])).get(f)
        c = "values" if k in (LST3, BAR3, BAR6) and "l" in v and self.r.random() < 0.4 else "set"
        self.do(c=c, o=o, f=f, v=v)

    def other(self, k):
        """some value, not the one wanted in the end"""
        r = self.r
        x = lambda: s(gen.sig(r.uniform(0.1, 50) * 10 ** r.randint(-1, 5), r.choice([1, 3, 6])))
        if k == NUM:
            return {"n": x()}
        if k == "int":
            return {"i": r.randint(1, 5)}
        if k == LST3:
            return {"l": [x() for _ in range(3)]}
        if k == BAR3:
            return {"n": x()} if r.random() < 0.4 else {"l": [x() for _ in range(3)]}
        return {"n": x()} if r.random() < 0.3 else {"l": [x() for _ in range(r.choice([1, 2, 3, 6]))]}

    def build(self, k, want):
        """an object which ends up as wanted; the changes left to be made"""
        r, a, todo = self.r, [], []
        for (f, kind), v in zip(KIND[k], want):
            if kind and r.random() < 0.3:
                a.append(self.other(kind))
                todo.append((f, v))
            else:
                a.append(v)
        o = self.new(k, *a)
        return o, todo


def bar(x):
    v = x.split("|")
    return {"n": v[0]} if len(v) == 1 else {"l": v}


def scenario(ctx, name, seed, k, ext, pkg):
    r = random.Random(seed)
    w = gen.World(r, **dict(FEATS[k % len(FEATS)], bodykinds=["free", "free", "coupled", "fixed"]))
    for _ in range(30):
        if not any(t[x + "c"] for t in w.lts for x in ("EA", "BA", "EI")):
            break
        w = gen.World(r, **dict(FEATS[k % len(FEATS)], bodykinds=["free", "free", "coupled", "fixed"]))
    f = files.base(w, r)
    rows = {q["k"]: [x for x in q["rows"]] for q in f["secs"]}
    S = Script(r, ctx.dir("gen/" + name))
    N = lambda x: {"n": x}
    todo = []
    made = {}

    def make(k_, want):
        o, td = S.build(k_, want)
        todo.extend((o, x, v) for x, v in td)
        return o

    def settle(share=1.0):
        """carry out (some of) the changes"""
        r.shuffle(todo)
        for _ in range(int(len(todo) * share)):
            S.set(*todo.pop())

    mats = {}
    for sec, k_ in (("linetypes", "LineMaterial"), ("rodtypes", "RodMaterial")):
        for x in rows.get(sec, []):
            o = make(k_, [{"s": x[0]}] + [N(y) for y in x[1:]])
            mats[k_, x[0]] = o
            made.setdefault(k_, []).append(o)
            if r.random() < 0.3:
                todo.append((o, "name", {"s": x[0] + "_%d" % r.randint(1, 9)}))
    bodies = []
    for x in rows.get("bodies", []):
        bp = S.new("BodyPoint")
        kind = x[1].lower()
        ch = {"fixed": [[], ["fixed"]], "free": [["-fixed"], ["coupled", "-coupled"]], "coupled": [["coupled"], ["-fixed", "coupled"]]}[kind]
        c = list(r.choice(ch))
        if r.random() < 0.3:
            c = r.choice([["coupled"], ["fixed"], ["-fixed"], ["coupled", "fixed"]]) + {"fixed": ["fixed"], "free": ["-fixed", "-coupled"], "coupled": ["coupled"]}[kind]
        cmds = [(bp, y.strip("-"), {"b": y[0] != "-"}) for y in c]
        early = r.random() < 0.5
        if early:
            for y in cmds:
                S.set(*y)
        R = {"l": [s(gen.sig(r.uniform(-3, 3), 4)) for _ in range(3)]}
        o = make("Body", [{"o": bp}, {"l": x[2:5]}, R, N(x[8]), bar(x[9]), bar(x[10]), bar(x[12]), N(x[11]), bar(x[13])])
        if not early:
            for y in cmds:
                S.set(*y)
        bodies.append(o)
        made.setdefault("Body", []).append(o)
    rods, points = [], []
    # a part is added as soon as it is there, or later
    adds = {q: list(v) for q, v in made.items()}

    def add(k_, upto=None):
        while adds.get(k_) and (upto is None or len(adds[k_]) > upto):
            o = adds[k_].pop(0)
            S.do(c="add", o=o, k=k_)
            if k_ not in ("LineMaterial", "RodMaterial", "Option") and r.random() < 0.3:
                S.do(c="number", o=o)
    late = r.random() < 0.5
    if not late:
        for q in list(adds):
            add(q)
    for x in rows.get("rods", []):
        rp = S.new("RodPoint")
        a = x[2].lower()
        c = []
        if r.random() < 0.3:
            c += r.choice([["coupled"], ["pinned"], ["-fixed"], ["coupled", "pinned"]])
        cmds = []
        m = re.match(r"body(\d+)", a)
        if m:
            cmds = [(rp, y.strip("-"), {"b": y[0] != "-"}) for y in c] + [(rp, "pinned", {"b": "pin" in a}), (rp, "body", {"o": bodies[int(m.group(1)) - 1]})]
        else:
            if r.random() < 0.3 and bodies:
                cmds = [(rp, r.choice(["fixed", "pinned", "coupled"]), {"b": r.random() < 0.5}) for _ in range(2)] + \
                    [(rp, "body", {"o": r.choice(bodies)}), (rp, "body", {"none": True})]
                if a == "fixed":
                    c = ["-pinned"]
            c += [] if c == ["-pinned"] else {"fixed": ["fixed", "-pinned"], "free": ["-fixed", "-coupled"], "coupled": ["coupled", "-pinned"],
                  "pinned": ["fixed", "pinned"], "cpldpin": ["pinned", "coupled"]}[a]
            cmds += [(rp, y.strip("-"), {"b": y[0] != "-"}) for y in c]
        early = r.random() < 0.5
        if early:
            for y in cmds:
                S.set(*y)
        o = make("Rod", [{"o": mats["RodMaterial", x[1]]}, {"o": rp}, {"l": x[3:6]}, {"l": x[6:9]}, {"i": int(x[9])}])
        if not early:
            for y in cmds:
                S.set(*y)
        rods.append(o)
        made.setdefault("Rod", []).append(o)
    for x in rows.get("points", []):
        m = re.match(r"body(\d+)", x[1].lower())
        o = make("Point", [{"o": bodies[int(m.group(1)) - 1]} if m else {"s": x[1].upper()}, {"l": x[2:5]}] + [N(y) for y in x[5:9]])
        if r.random() < 0.1 and not m:
            v = {"s": x[1].upper()}
            S.set(o, "type", {"s": "FREE"})
            todo.append((o, "type", v))
        points.append(o)
        made.setdefault("Point", []).append(o)
    for q in ("Rod", "Point"):
        adds[q] = list(made.get(q, []))
        if not late:
            add(q)
    for x in rows.get("lines", []):
        ends = []
        for y in x[2:4]:
            m = re.match(r"r(?:od)?(\d+)([ab])", y.lower())
            ob = rods[int(m.group(1)) - 1] if m else points[int(re.sub(r"\D", "", y)) - 1]
            e = m.group(2).upper() if m else "A"
            if r.random() < 0.5 and e == "A":
                lp = S.new("LinePoint", {"o": ob})
            elif r.random() < 0.5:
                lp = S.new("LinePoint", {"o": ob}, {"s": e})
            else:
                lp = S.new("LinePoint", {"o": r.choice(points + rods)}, {"s": "AB"[e == "A"]})
                todo.extend([(lp, "obj", {"o": ob}), (lp, "end_point", {"s": e})])
            ends.append(lp)
        o = make("Line", [{"o": mats["LineMaterial", x[1]]}, {"o": ends[0]}, {"o": ends[1]}, N(x[4]), {"i": int(x[5])}])
        if r.random() < 0.15:
            S.set(o, "point0", {"o": ends[1]})
            todo.append((o, "point0", {"o": ends[0]}))
        if r.random() < 0.15:
            S.set(o, "material", {"o": r.choice([v for (kk, _), v in mats.items() if kk == "LineMaterial"])})
            todo.append((o, "material", {"o": mats["LineMaterial", x[1]]}))
        made.setdefault("Line", []).append(o)
    for x in rows["options"]:
        if x[1] == "SeafloorFile":
            continue
        try:
            v = r.choice([{"n": s(x[0])}, {"s": x[0]}]) if x[1] not in ("WaveKin", "Currents", "writeLog", "WriteUnits") else {"i": int(float(x[0]))}
        except ValueError:
            v = {"s": x[0]}
        o = S.new("Option", {"s": x[1]}, v)
        if r.random() < 0.15:
            S.set(o, "name", {"s": "dtOut"})
            todo.append((o, "name", {"s": x[1]}))
        if r.random() < 0.15 and "i" not in v:
            S.set(o, "value", {"n": "0.123"})
            todo.append((o, "value", v))
        made.setdefault("Option", []).append(o)
    for q in ("Line", "Option"):
        adds[q] = list(made.get(q, []))
    settle(r.choice([0.0, 0.5, 1.0]))
    ks = list(adds)
    r.shuffle(ks)
    for q in ks:
        add(q)
    if late:
        settle()
    # reading back
    for _ in range(r.randint(2, 10)):
        o = r.choice([q for q, v in S.have.items() if v == "RodPoint"] if r.random() < 0.3 and rods else list(S.have))
        fl = {"BodyPoint": ["fixed", "coupled"], "RodPoint": ["fixed", "pinned", "coupled", "body"], "LinePoint": ["obj", "end_point"]}
        S.do(c="get", o=o, f=r.choice(fl.get(S.have[o]) or [q for q, _ in KIND[S.have[o]]]))
    settle()
    S.do(c="create")
    if r.random() < 0.4:
        for _ in range(r.randint(1, 4)):
            k_ = r.choice([q for q in ("Body", "Point", "Line", "LineMaterial", "RodMaterial", "Rod") if made.get(q)])
            o = r.choice(made[k_])
            q, kind = r.choice([y for y in KIND[k_] if y[1]] + ([("name", None)] if "Mat" in k_ else []))
            if kind == "int":
                continue
            S.set(o, q, S.other(kind) if kind else {"s": "renamed%d" % S.n})
            S.n += 1
        S.do(c="create")
    return Scenario(name, [{"op": "pyload", "ext": ext, "pkg": pkg, "consts": []}] + S.ops, timeout=60)


def run(ctx):
    n = 400 if ctx.quick() else 5000
    ext = build_lib.pyext(ctx.lib())
    pkg = os.path.join(build_lib.REPO, "wrappers", "python")
    scs = [scenario(ctx, "g%d" % i, sd, i, ext, pkg) for i, sd in enumerate(seeds(ctx, n))]
    ctx.conform("GenTrace", scs, [], relevant("Gen"))
