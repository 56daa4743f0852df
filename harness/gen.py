"""Random mooring systems ("worlds") and their driving scripts.

A world is described twice from the same numbers: as a MoorDyn input file
(model.input_file) and as the header record read by the specification."""
import math
import os
import random

import model as M


def sig(v, n=4):
    return float("%.*g" % (n, v))


def rot(e):
    """intrinsic x-y-z"""
    cx, sx, cy, sy, cz, sz = (f(v) for v in e for f in (math.cos, math.sin))
    X = [[1, 0, 0], [0, cx, -sx], [0, sx, cx]]
    Y = [[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]]
    Z = [[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]]
    mm = lambda a, b: [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return mm(mm(X, Y), Z)


def mv(m, v):
    return [sum(m[i][k] * v[k] for k in range(3)) for i in range(3)]


class World:
    """m: dict for model.input_file; h: header for the specification"""

    def __init__(self, rng, **feat):
        self.rng = rng
        self.feat = feat
        self.files = {}
        self.build()

    # ------------------------------------------------------------ pieces
    def f(self, k, d):
        return self.feat.get(k, d)

    def p(self, k, d):
        """draw a feature with probability feat[k] (default d)"""
        return self.rng.random() < self.feat.get(k, d)

    def u(self, a, b, n=4):
        return sig(self.rng.uniform(a, b), n)

    def lu(self, a, b, n=3):
        return sig(math.exp(self.rng.uniform(math.log(a), math.log(b))), n)

    def ltype(self, k):
        r = self.rng
        t = {"name": "lt%d" % k, "d": self.u(0.04, 0.4), "w": self.u(20, 400),
             "EA": self.lu(1e5, 5e7), "BA": r.choice([-0.8, -0.3, -0.5, 0.0, self.lu(1e2, 1e4)]),
             "EI": 0.0, "Cd": r.choice([0.0, self.u(0.5, 2)]), "Ca": r.choice([0.0, 1.0, self.u(0.2, 1.5)]),
             "CdAx": r.choice([0.0, self.u(0.05, 0.6)]), "CaAx": r.choice([0.0, self.u(0.05, 0.8)])}
        if self.p("light", 0.2):
            t["w"] = self.u(1, 20)
        t["EAc"], t["BAc"], t["EIc"] = [], [], []
        if self.p("EI", 0.35):
            t["EI"] = self.lu(1e2, 1e5)
        row = dict(t)
        if self.p("EAtab", 0.2):
            # stress-strain like table, force over strain, from zero
            EA = t["EA"]
            xs = [0.0, self.u(0.01, 0.03), self.u(0.05, 0.1), self.u(0.2, 0.4)]
            ks = [self.u(0.3, 1), self.u(0.5, 1.5), self.u(0.3, 1.2)]
            ys = [0.0]
            for i in range(3):
                ys.append(sig(ys[-1] + ks[i] * EA * (xs[i + 1] - xs[i])))
            t["EAc"] = [list(z) for z in zip(xs, ys)]
            row["EA"] = self.table("ea%d.txt" % k, t["EAc"])
            if t["BA"] == 0.0:
                t["BA"] = row["BA"] = -0.5
        if self.p("EItab", 0.12):
            EI = self.lu(1e2, 1e5)
            xs = [0.0, self.u(0.01, 0.1), self.u(0.3, 1.0), self.u(2, 5)]
            ys = [0.0]
            for i in range(3):
                ys.append(sig(ys[-1] + self.u(0.4, 1.2) * EI * (xs[i + 1] - xs[i])))
            t["EIc"] = [list(z) for z in zip(xs, ys)]
            t["EImax"] = EI * 1.2
            row["EI"] = self.table("ei%d.txt" % k, t["EIc"])
        if self.p("BAtab", 0.0):
            BA = self.lu(1e3, 1e4)
            xs = [0.0, self.u(0.001, 0.01), self.u(0.02, 0.1), self.u(0.2, 1.0)]
            ys = [0.0]
            for i in range(3):
                ys.append(sig(ys[-1] + self.u(0.4, 1.2) * BA * (xs[i + 1] - xs[i])))
            t["BAc"] = [list(z) for z in zip(xs, ys)]
            row["BA"] = self.table("ba%d.txt" % k, t["BAc"])
        return t, row

    def table(self, name, tab):
        self.files[name] = "# header\n# x y\n# (-) (-)\n" + "\n".join("%r %r" % (x, y) for x, y in tab)
        return name

    def bathymetry(self, wd):
        """a table of bed heights smaller than the region moored; exact in single precision"""
        r = self.rng
        q = lambda v: round(v * 4) / 4
        tick = lambda n: sorted(r.sample([q(-45 + 5.25 * i) for i in range(18)], n))
        xs, ys = tick(r.randint(2, 5)), tick(r.randint(2, 5))
        zs = [[q(r.uniform(-1.05 * wd, -0.8 * wd)) for _ in xs] for _ in ys]
        rows = ["%r %r %r" % (x, y, zs[j][i]) for i, x in enumerate(xs) for j, y in enumerate(ys)]
        r.shuffle(rows)
        self.files["bed.txt"] = "\n".join(["%d %d" % (len(xs), len(ys)), " ".join(map(repr, xs)),
                                           " ".join(map(repr, ys))] + rows) + "\n"
        return {"x": xs, "y": ys, "z": zs}

    def rtype(self, k):
        return {"name": "rt%d" % k, "d": self.u(0.2, 1.5), "w": self.u(100, 2000),
                "Cd": self.u(0.3, 1.5), "Ca": self.u(0.3, 1.2),
                "CdEnd": self.u(0.2, 1.2), "CaEnd": self.u(0.2, 1.2)}

    # ------------------------------------------------------------- world
    def build(self):
        r = self.rng
        self.wd = wd = self.f("depth", None) or self.u(25, 120, 3)
        env = {"g": r.choice([9.80665, 9.81]), "rho": r.choice([1025.0, 1000.0]), "wd": wd,
               "kb": self.lu(1e5, 3e6), "cb": self.lu(1e4, 3e5),
               "fc": 0.0, "fd": 200.0, "fs": 1.0}
        if self.p("friction", 0.4):
            env.update(fc=self.u(0.2, 1.0), fd=r.choice([self.u(20, 300), self.lu(300, 3e4)]), fs=self.u(1, 1.6))
        self.env = env
        self.lts, rows = [], []
        for k in range(r.randint(1, 2)):
            t, row = self.ltype(k)
            self.lts.append(t)
            rows.append(row)
        self.rts = [self.rtype(0)] if self.f("maxrods", 2) else []
        bodies, rods, points, lines = [], [], [], []
        self.bathy = []
        if self.p("bathy", 0.0):
            self.bathy = self.bathymetry(wd)
        free_top = self.p("surface", 0.3)      # something sticks out of the water
        bed = self.p("bed", 0.35)              # something lies on the sea bed

        def place():
            z = r.uniform(-0.75 * wd, -0.15 * wd)
            if free_top and r.random() < 0.5:
                z = r.uniform(-0.02 * wd, 0.05 * wd)
            return [self.u(-40, 40), self.u(-40, 40), sig(z)]

        # bodies
        for k in range(r.randint(self.f("minbodies", 0), self.f("maxbodies", 2))):
            kind = r.choice(self.f("bodykinds", ["free", "free", "coupled", "cpldpin", "fixed"]))
            pos = place()
            ang = [self.u(-40, 40, 3) for _ in range(3)] if kind in ("free", "fixed") else [0.0] * 3
            mass = self.lu(3e3, 3e4)
            vol = sig(mass / 1025.0 * r.uniform(0.5, 1.3))
            cg = r.choice([[0.0, 0.0, self.u(-2, 0)], [self.u(-1, 1), self.u(-1, 1), self.u(-2, 0)]])
            I = r.choice([[sig(mass * r.uniform(4, 10))] * 3, [sig(mass * r.uniform(4, 10)) for _ in range(3)]])
            nc = r.choice(self.f("cdan", [1, 2]))
            c = [self.u(0, 20) for _ in range(6)]
            CdA = {1: [c[0]] * 6, 2: [c[0]] * 3 + [c[3]] * 3, 3: c[:3] * 2, 6: c}[nc]
            cds = "|".join(repr(x) for x in c[:nc]) if nc != 2 else "%r|%r" % (c[0], c[3])
            a = [self.u(0, 1.5) for _ in range(3)]
            if r.random() < 0.5:
                a = [a[0]] * 3
                cas = repr(a[0])
            else:
                cas = "|".join(map(repr, a))
            bodies.append({"k": kind, "r0": pos + ang, "mass": mass, "vol": vol, "cg": cg, "I": I,
                           "CdA": CdA, "Ca": a + [0.0] * 3,
                           "_row": {"att": {"free": "Free", "coupled": "Coupled", "cpldpin": "CpldPin",
                                            "fixed": "Fixed"}[kind], "r": pos + ang, "mass": mass, "vol": vol,
                                    "cg": repr(cg[2]) if cg[:2] == [0.0, 0.0] else "|".join(map(repr, cg)),
                                    "I": repr(I[0]) if I[0] == I[1] == I[2] else "|".join(map(repr, I)),
                                    "CdA": cds, "Ca": cas}})
        anchors = []   # (kind, index, end, world position, fixed?) where lines can be attached

        def body_world(b, rel):
            R = rot([math.radians(x) for x in b["r0"][3:]])
            return [b["r0"][i] + mv(R, rel)[i] for i in range(3)]

        # rods
        nrods = r.randint(self.f("minrods", 0), self.f("maxrods", 2))
        for k in range(nrods):
            kinds = list(self.f("rodkinds", ["free", "free", "coupled", "cpldpin", "pinned", "fixed", "body", "bodypin"]))
            kind = r.choice(kinds)
            if kind in ("body", "bodypin") and not bodies:
                kind = "free"
            ln = self.u(2, 12)
            th, ph = r.uniform(0, math.pi), r.uniform(-math.pi, math.pi)
            if r.random() < 0.1:
                th = 0.0
            if r.random() < 0.1:
                th = math.pi / 2
            d = [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]
            b = 0
            if kind in ("body", "bodypin"):
                b = r.randrange(len(bodies)) + 1
                if kind == "bodypin" and any(bodies[b - 1]["r0"][3:]):
                    kind = "body"
                A = [self.u(-3, 3) for _ in range(3)]
            elif kind in ("fixed", "pinned"):
                A = [self.u(-40, 40), self.u(-40, 40), sig(-0.6 * wd)]
            else:
                A = place()
            B = [sig(A[i] + ln * d[i], 6) for i in range(3)]
            att = {"free": "Free", "coupled": "Coupled", "cpldpin": "CpldPin", "pinned": "Pinned",
                   "fixed": "Fixed", "body": "Body%d" % b, "bodypin": "Body%dPinned" % b}[kind]
            n = r.randint(1, 4)
            rods.append({"k": kind, "b": b, "a0": A, "b0": B, "n": n, "t": self.rts[0],
                         "_row": {"type": self.rts[0]["name"], "att": att, "a": A, "b": B, "n": n}})
            wa = body_world(bodies[b - 1], A) if b else A
            wb = body_world(bodies[b - 1], B) if b else B
            fx = kind in ("fixed",) or (b and bodies[b - 1]["k"] == "fixed" and kind == "body")
            anchors.append(("r", k + 1, 0, wa, fx))
            anchors.append(("r", k + 1, 1, wb, fx))
        # points
        npts = r.randint(self.f("minpoints", 2), self.f("maxpoints", 5))
        for k in range(npts):
            kinds = list(self.f("pointkinds", ["fixed", "fixed", "coupled", "coupled", "free", "free"]))
            if bodies:
                kinds += ["body", "body"]
            kind = r.choice(kinds)
            if k == 0:
                kind = "fixed" if not self.f("nofixed", False) else "coupled"
            if k == 1 and self.f("needcoupled", True):
                kind = "coupled"
            b = 0
            if kind == "body":
                b = r.randrange(len(bodies)) + 1
                pos = [self.u(-4, 4) for _ in range(3)]
                w = body_world(bodies[b - 1], pos)
            elif kind == "fixed":
                z = -wd if r.random() < 0.5 else r.uniform(-wd, -0.3 * wd)
                w = pos = [self.u(-60, 60), self.u(-60, 60), sig(z)]
                if self.bathy:
                    w[2] = max(w[2], sig(max(max(r) for r in self.bathy["z"]) + 0.5))
            else:
                w = pos = place()
            row = {"att": {"fixed": "Fixed", "coupled": "Coupled", "free": "Free", "body": "Body%d" % b}[kind],
                   "r": pos, "mass": 0.0, "vol": 0.0, "CdA": 0.0, "Ca": 0.0}
            if r.random() < 0.7:
                row.update(mass=self.u(0, 2000), vol=self.u(0, 2), CdA=self.u(0, 3), Ca=self.u(0, 1.5))
            points.append({"k": kind, "b": b, "r0": pos, "mass": row["mass"], "vol": row["vol"],
                           "CdA": row["CdA"], "Ca": row["Ca"], "_row": row})
            anchors.append(("p", k + 1, 0, w, kind == "fixed" or (b and bodies[b - 1]["k"] == "fixed")))
        # lines: every non fixed anchor of a free object gets at least one if possible;
        # a line whose end is under the sea bed is refused
        top = max(max(z) for z in self.bathy["z"]) if self.bathy else -wd
        anchors = [a for a in anchors if a[3][2] >= top]
        nl = r.randint(self.f("minlines", 1), self.f("maxlines", 4))
        used = []
        free_pts = [a for a in anchors if a[0] == "p" and points[a[1] - 1]["k"] == "free"]
        todo = [a for a in free_pts]
        while len(lines) < nl or todo:
            A = todo.pop() if todo else r.choice(anchors)
            o = [a for a in anchors if (a[0], a[1]) != (A[0], A[1]) and
                 math.dist(a[3], A[3]) > 5.0 and not (a[4] and A[4])]
            if not o:
                if todo or len(lines) >= nl:
                    break
                others = [1 for x in anchors for y in anchors if (x[0], x[1]) != (y[0], y[1])
                          and math.dist(x[3], y[3]) > 5 and not (x[4] and y[4])]
                if not others:
                    break
                continue
            B = r.choice(o)
            todo = [a for a in todo if a is not B]
            t = r.choice(self.lts)
            D = math.dist(A[3], B[3])
            L = sig(D * r.choice([r.uniform(0.97, 1.0), r.uniform(1.0, 1.05), r.uniform(1.05, 1.3)]))
            if bed and r.random() < 0.5:
                L = sig(D * r.uniform(1.2, 1.5))
            n = r.randint(self.f("minseg", 1), self.f("maxseg", 6))
            if r.random() < 0.5:
                A, B = B, A
            Lin = L
            if self.p("ulscale", 0.0):
                Lin = sig(-L / D)
            lines.append({"t": t, "n": n, "ul": Lin, "A": {"k": A[0], "i": A[1], "e": A[2]},
                          "B": {"k": B[0], "i": B[1], "e": B[2]}, "_len": L,
                          "_row": {"type": t["name"], "A": self.att(A), "B": self.att(B), "L": Lin, "n": n}})
        self.bodies, self.rods, self.points, self.lines = bodies, rods, points, lines
        # explicit time step which is comfortably stable
        om = 2.0
        for l in lines:
            t, s = l["t"], l["_len"] / l["n"]
            EA = max([t["EA"]] + [1.6 * t["EA"]] * bool(t["EAc"]))
            w = t["w"]
            m = w * s
            om = max(om, 2 / s * math.sqrt(EA / w))
            EI = max(t["EI"], t.get("EImax", 0))
            om = max(om, 4.0 / s ** 2 * math.sqrt(EI / w) * 2)
            om = max(om, math.sqrt(env["kb"] * t["d"] / w), env["cb"] * t["d"] / w,
                     env["fd"] * env["fc"] / m)
            k = EA / s + EI * 16 / s ** 3
            if t["BA"] > 0:
                om = max(om, 4 * t["BA"] / (s * s * w))
            if t["BAc"]:
                om = max(om, 4 * 1.2 * t["BAc"][1][1] / t["BAc"][1][0] / (s * s * w))
            for e in (l["A"], l["B"]):
                if e["k"] == "p":
                    pt = points[e["i"] - 1]
                    if pt["b"]:
                        b = bodies[pt["b"] - 1]
                        om = max(om, math.sqrt(k * 48 / min(b["I"])), math.sqrt(k / b["mass"]))
                else:
                    rd = rods[e["i"] - 1]
                    ln = math.dist(rd["a0"], rd["b0"])
                    om = max(om, 3 * math.sqrt(k / (rd["t"]["w"] * ln)))
                    if rd["b"]:
                        b = bodies[rd["b"] - 1]
                        om = max(om, math.sqrt(k * 200 / min(b["I"])), math.sqrt(k / b["mass"]))
        for rd in rods:
            om = max(om, 2 * math.sqrt(env["kb"] * rd["t"]["d"] / rd["t"]["w"]),
                     2 * env["cb"] * rd["t"]["d"] / rd["t"]["w"])
        self.omega = om
        self.dtm = sig(min(0.02, 0.12 / om), 2)

    def att(self, a):
        return str(a[1]) if a[0] == "p" else "R%d%s" % (a[1], "AB"[a[2]])

    # ------------------------------------------------------------ outputs
    def options(self):
        e = self.env
        o = [("dtM", self.dtm), ("g", e["g"]), ("WtrDnsty", e["rho"]), ("WtrDpth", e["wd"]),
             ("kBot", e["kb"]), ("cBot", e["cb"]), ("FrictionCoefficient", e["fc"]),
             ("FricDamp", e["fd"]), ("StatDynFricScale", e["fs"]), ("TmaxIC", 0.0),
             ("writeLog", 0), ("tScheme", self.scheme)]
        return o + list(self.extra)

    scheme = "RK2"
    extra = ()

    def write(self, folder, name="world.txt", outputs=None, **kw):
        os.makedirs(folder, exist_ok=True)
        self.extra = list(self.extra)
        self.extra = [e for e in self.extra if e[0] != "SeafloorFile"]
        if self.bathy:
            self.extra.append(("SeafloorFile", os.path.join(folder, "bed.txt")))
        m = {"linetypes": [], "rodtypes": self.rts if self.rods else [],
             "bodies": [b["_row"] for b in self.bodies], "rods": [b["_row"] for b in self.rods],
             "points": [b["_row"] for b in self.points], "lines": [b["_row"] for b in self.lines],
             "options": self.options(), "outputs": outputs}
        for t in self.lts:
            row = dict(t)
            for k, c in (("EA", "EAc"), ("BA", "BAc"), ("EI", "EIc")):
                if t[c]:
                    row[k] = "%s%s.txt" % (k.lower(), t["name"][2:])
            m["linetypes"].append(row)
        m.update(kw)
        for n, txt in self.files.items():
            open(os.path.join(folder, n), "w").write(txt)
        p = os.path.join(folder, name)
        open(p, "w").write(M.input_file(m))
        return p

    def ncoupled(self):
        return sum({"coupled": 6, "cpldpin": 3}.get(b["k"], 0) for b in self.bodies + self.rods) + \
            sum(3 for p in self.points if p["k"] == "coupled")

    def x0(self):
        x = []
        for b in self.bodies:
            if b["k"] == "coupled":
                x += b["r0"][:3] + [0.0] * 3
            elif b["k"] == "cpldpin":
                x += b["r0"][:3]
        for b in self.rods:
            if b["k"] == "coupled":
                x += b["a0"] + [0.0] * 3
            elif b["k"] == "cpldpin":
                x += b["a0"]
        for p in self.points:
            if p["k"] == "coupled":
                x += p["r0"]
        return x

    def isrot(self):
        s = []
        for b in self.bodies + self.rods:
            if b["k"] == "coupled":
                s += [False] * 3 + [True] * 3
            elif b["k"] == "cpldpin":
                s += [False] * 3
        return s + [False] * (3 * sum(p["k"] == "coupled" for p in self.points))

    def header(self, **kw):
        s = lambda v: repr(float(v))
        sv = lambda v: [s(x) for x in v]
        tab = lambda c: [[s(x), s(y)] for x, y in c]

        def lt(t):
            return dict([(k, s(t[k])) for k in ("d", "w", "EA", "BA", "EI", "Cd", "Ca", "CdAx", "CaAx")] +
                        [(k, tab(t[k])) for k in ("EAc", "BAc", "EIc")])

        def rt(t):
            return dict((k, s(t[k])) for k in ("d", "w", "Cd", "Ca", "CdEnd", "CaEnd"))
        h = {"op": "model", "env": {k: s(v) for k, v in self.env.items()},
             "lines": [{"t": lt(l["t"]), "n": l["n"], "ul": s(l["ul"]), "A": l["A"], "B": l["B"]} for l in self.lines],
             "points": [{"k": p["k"], "b": p["b"], "r0": sv(p["r0"]), "mass": s(p["mass"]), "vol": s(p["vol"]),
                         "CdA": s(p["CdA"]), "Ca": s(p["Ca"])} for p in self.points],
             "rods": [{"k": p["k"], "b": p["b"], "a0": sv(p["a0"]), "b0": sv(p["b0"]), "n": p["n"],
                       "t": rt(p["t"])} for p in self.rods],
             "bodies": [{"k": p["k"], "r0": sv(p["r0"]), "mass": s(p["mass"]), "vol": s(p["vol"]),
                         "cg": sv(p["cg"]), "I": sv(p["I"]), "CdA": sv(p["CdA"]), "Ca": sv(p["Ca"])}
                        for p in self.bodies],
             "dtm": s(self.dtm), "scheme": self.scheme, "wk": "still", "bathy": []}
        if self.bathy:
            h["bathy"] = {"x": sv(self.bathy["x"]), "y": sv(self.bathy["y"]), "z": [sv(z) for z in self.bathy["z"]]}
        h.update(kw)
        return h

    # ------------------------------------------------------------ motions
    def nextmove(self, x, dt, amp=1.0):
        """a velocity for the next step and the position after it"""
        v = []
        for q in self.isrot():
            v.append(self.u(-0.08, 0.08) * amp if q else self.u(-1, 1) * amp)
        return v
