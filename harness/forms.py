"""One system written in several ways: input files with the same meaning."""
import copy
import os

import files


def num(r, x):
    """another way of writing a number; the same double"""
    try:
        v = float(x)
    except ValueError:
        return x
    c = ["%r" % v, "%.17g" % v, "%.16e" % v, ("%.16e" % v).upper(), "%.18f" % v if 1e-3 < abs(v) < 1e3 else "%r" % v]
    if v == int(v) and abs(v) < 1e7:
        c += ["%d" % int(v), "%d." % int(v), "%d.000" % int(v)]
        if v >= 0:
            c += ["+%d" % int(v), "0%d" % int(v)]
    c = [t for t in c if float(t) == v]
    return r.choice(c)


def case(r, x):
    return r.choice([x, x.upper(), x.lower(), "".join(r.choice([c.upper(), c.lower()]) for c in x)])


FIX, CPL, PIN = ["Anchor", "Fixed", "Fix"], ["Vessel", "Ves", "Coupled", "Cpld"], ["Pinned", "Pin"]
CPIN = ["VesselPinned", "VesPin", "CpldPin", "CoupledPinned"]
ATT = {"bodies": {"Free": ["Free"], "Fixed": FIX, "Coupled": CPL, "CpldPin": CPIN},
       "points": {"Free": ["Point", "Connect", "Con", "Free"], "Fixed": FIX, "Coupled": CPL + ["Fairlead"]},
       "rods": {"Free": ["Point", "Con", "Free"], "Fixed": FIX, "Coupled": CPL, "CpldPin": CPIN, "Pinned": PIN}}


def att(r, k, x):
    if x in ATT[k]:
        return case(r, r.choice(ATT[k][x]))
    if x.startswith("Body") and x.endswith("Pinned"):
        return case(r, x[:-6] + r.choice(PIN))
    return case(r, x)


def end(r, x):
    if x.isdigit():
        return case(r, r.choice(["", "", "C", "Con", "P", "Point"]) + x)
    return case(r, r.choice(["R", "Rod"]) + x[1:])


def bars(r, x, how):
    """how: cg | same | six"""
    v = x.split("|")
    if how == "cg":
        if len(v) == 1 and r.random() < 0.6:
            v = ["0", "0", v[0]]
        elif len(v) == 3 and float(v[0]) == 0 == float(v[1]) and r.random() < 0.6:
            v = v[2:]
    elif how == "same":
        if len(v) == 1 and r.random() < 0.6:
            v = v * 3
        elif len(v) == 3 and len(set(v)) == 1 and r.random() < 0.6:
            v = v[:1]
    else:
        f = {1: v * 6, 2: v[:1] * 3 + v[1:] * 3, 3: v * 2, 6: v}[len(v)]
        c = [f]
        if f[:3] == f[3:]:
            c.append(f[:3])
        if len(set(f[:3])) == 1 == len(set(f[3:])):
            c.append([f[0], f[3]])
        if len(set(f)) == 1:
            c.append(f[:1])
        v = r.choice(c)
    return "|".join(num(r, t) for t in v)


NAMES = {"dtM": ["dtM", "DT"], "CFL": ["CFL", "cfl"], "g": ["g", "gravity"], "WtrDnsty": ["Rho", "rho", "WtrDnsty"],
         "kBot": ["kBot", "kbot", "kb"], "cBot": ["cBot", "cbot", "cb"], "dtIC": ["dtIC", "ICdt"], "TmaxIC": ["TmaxIC", "ICTmax"],
         "CdScaleIC": ["CdScaleIC", "ICDfac"], "threshIC": ["threshIC", "ICthresh"]}
DEFAULT = {"g": 9.80665, "WtrDnsty": 1025.0, "WtrDpth": 0.0, "kBot": 3e6, "cBot": 3e5, "dtIC": 1.0, "TmaxIC": 120.0, "CdScaleIC": 5.0,
           "threshIC": 0.001, "ICgenDynamic": 0, "WaveKin": 0, "dtWave": 0.25, "Currents": 0, "UnifyCurrentGrid": 1, "WriteUnits": 1,
           "FrictionCoefficient": 0.0, "FricDamp": 200.0, "StatDynFricScale": 1.0, "dtOut": 0.0, "tScheme": "RK2"}
INTS = ("WaveKin", "Currents", "UnifyCurrentGrid", "WriteUnits", "writeLog", "ICgenDynamic")
REMARK = [[], [], ["time", "step", "(s)"], ["-", "remark"], ["#", "1", "2"]]


def is_default(k, v):
    if k not in DEFAULT:
        return False
    return v.upper() == "RK2" if k == "tScheme" else float(v) == float(DEFAULT[k])


def options(r, rows):
    """rows: [value, name] with the names used by gen"""
    out, seen = [], {n for _, n in rows}
    for v, k in rows:
        if is_default(k, v) and r.random() < 0.5:
            continue
        if k == "writeLog":
            v = r.choice(["0", "1", "2"])
        elif k == "tScheme":
            v = case(r, v)
        elif k in INTS or k == "SeafloorFile":
            pass
        else:
            v = num(r, v)
        out.append([v, r.choice(NAMES.get(k, [k]))] + r.choice(REMARK))
    for k, v in DEFAULT.items():
        # what is left out may as well be written
        if k not in seen and r.random() < 0.4:
            out.append([str(v) if k in INTS or k == "tScheme" else num(r, repr(float(v))), r.choice(NAMES.get(k, [k]))])
    if "dtM" not in seen and "CFL" not in seen and r.random() < 0.5:
        out.append([num(r, "0.5"), r.choice(NAMES["CFL"])])
    r.shuffle(out)
    return out


LONG = {"L": "Line", "P": "Point", "R": "Rod", "B": "Body"}


def channels(r, f, n):
    """n random channels, as (object, id, node or None, quantity, segments)"""
    c = {k: len((files.sec(f, s) or {"rows": []})["rows"]) for k, s in (("L", "lines"), ("P", "points"), ("R", "rods"), ("B", "bodies"))}
    out = []
    for _ in range(n):
        o = r.choice([k for k in c if c[k]])
        i = r.randint(1, c[o])
        X = lambda q: q + r.choice("XYZ")
        if o == "L":
            seg = int(files.sec(f, "lines")["rows"][i - 1][5])
            q = r.choice([X("P"), X("V"), X("F"), "TEN", "TENA", "TENB"])
            nd = None if q in ("TENA", "TENB") else r.randint(0, seg)
        elif o == "R":
            seg = int(files.sec(f, "rods")["rows"][i - 1][9])
            q = r.choice([X("P"), X("V"), X("F"), "SUB", "TENA", "TENB", "RX", "RY", X("A")])
            nd = None if q in ("TENA", "TENB", "SUB", "RX", "RY") or q[0] == "A" or r.random() < 0.3 else r.randint(0, seg)
        else:
            seg, nd = 0, None
            q = r.choice([X("P"), X("V"), X("A"), X("F"), "TEN"] + ([X("R"), X("RV"), X("M")] if o == "B" else []))
        out.append((o, i, nd, q, seg))
    return out


def channel(r, c):
    o, i, nd, q, seg = c
    if o == "L" and q in ("TENA", "TENB") and r.random() < 0.4:
        return case(r, {"TENA": "AnchTen", "TENB": "FairTen"}[q] + str(i))
    w = r.choice([o, LONG[o]]) + str(i)
    if nd is not None and not (o == "L" and nd == 0 and r.random() < 0.4):
        k = ["N%d" % nd]
        if nd == 0:
            k.append("NA")
        if nd == seg:
            k.append("NB")
        w += r.choice(k)
    return case(r, w + {"TEN": r.choice(["TEN", "T"]), "TENA": r.choice(["TENA", "TA"]), "TENB": r.choice(["TENB", "TB"])}.get(q, q))


def variant(r, f, chans, same=False):
    """a copy of the file in another form"""
    g = copy.deepcopy(f)
    g["secs"] = [s for s in g["secs"] if s["k"] != "outputs"]
    g["secs"].append({"k": "outputs", "s": "OUTPUTS", "lab": 0, "rows": []})
    for s in g["secs"]:
        k = s["k"]
        if same:
            if k == "outputs":
                s["rows"] = [[channel(r, c)] for c in chans]
            continue
        s["s"] = r.choice(files.HEADS[k])
        for row in s["rows"]:
            if k in ("linetypes", "rodtypes"):
                row[1:] = [num(r, x) for x in row[1:]]
            elif k == "points":
                row[1] = att(r, k, row[1])
                row[2:] = [num(r, x) for x in row[2:]]
            elif k == "bodies":
                row[1] = att(r, k, row[1])
                row[2:9] = [num(r, x) for x in row[2:9]]
                row[9], row[10], row[12], row[13] = (bars(r, row[9], "cg"), bars(r, row[10], "same"), bars(r, row[12], "six"),
                                                     bars(r, row[13], "same"))
                row[11] = num(r, row[11])
            elif k == "rods":
                row[2] = att(r, k, row[2])
                row[3:9] = [num(r, x) for x in row[3:9]]
            elif k == "lines":
                row[2], row[3] = end(r, row[2]), end(r, row[3])
                row[4] = num(r, row[4])
        if k in ("linetypes", "rodtypes"):
            r.shuffle(s["rows"])
            if r.random() < 0.3:
                extra = list(s["rows"][0])
                extra[0] = "unused"
                s["rows"].insert(r.randrange(len(s["rows"]) + 1), extra)
            names = {row[0]: "type" + row[0] if r.random() < 0.5 else row[0] for row in s["rows"]}
            for row in s["rows"]:
                row[0] = names[row[0]]
            for t in g["secs"]:
                if t["k"] == {"linetypes": "lines", "rodtypes": "rods"}[k]:
                    for row in t["rows"]:
                        row[1] = names[row[1]]
        elif k == "options":
            s["rows"] = options(r, s["rows"])
        elif k == "outputs":
            ws = [channel(r, c) for c in chans]
            while ws:
                n = r.randint(1, 3)
                s["rows"].append(ws[:n])
                ws = ws[n:]
    return g


def write(r, f, path, plain=False):
    """the text of a file; -> the record read by module Forms"""
    pad = lambda: "" if plain else " " * r.choice([0, 0, 1, 3])
    gap = lambda: " " if plain else " " * r.choice([1, 1, 2, 7])
    L, secs = ["generated"], []
    if not plain:
        L += r.choice([[], ["notes on this file", ""], ["one", "two", "three"]])
    for s in f["secs"]:
        h = "---- %s ----" % s["s"] if plain else "%s%s%s%s%s" % ("-" * r.randint(3, 30), r.choice(["", " "]), case(r, s["s"]),
                                                               r.choice(["", " "]), "-" * r.choice([0, 3, 30]))
        L.append(h)
        L += files.LABELS[:s["lab"]] if plain else [r.choice(["ID  Name (m)", "", "x"]) for _ in range(s["lab"])]
        L += [pad() + gap().join(x) + pad() for x in s["rows"]]
        secs.append({"s": h, "lab": s["lab"], "rows": s["rows"]})
    if not plain and f["secs"][-1]["k"] == "outputs" and r.random() < 0.3:
        L.append("END")
    L.append("--------------- need this line ------------------")
    eol = "\n" if plain else r.choice(["\n", "\n", "\r\n"])
    with open(path, "w", newline="") as o:
        o.write(eol.join(L) + r.choice([eol, ""]))
    return {"secs": secs, "closed": True, "aux": [], "files": []}
