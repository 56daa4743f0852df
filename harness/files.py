"""Input files as structured records, and ways of spoiling them.

A file is a list of sections {"s": heading, "lab": label lines, "rows": [[word, ...], ...]} in the order
in which they are written; "closed" tells whether a last heading follows."""
import copy
import random

import gen

KEYS = {"linetypes": "LINE TYPES", "rodtypes": "ROD TYPES", "bodies": "BODIES", "rods": "RODS",
        "points": "POINTS", "lines": "LINES", "options": "OPTIONS", "outputs": "OUTPUTS"}
HEADS = {"linetypes": ["LINE TYPES", "LINE DICTIONARY"], "rodtypes": ["ROD TYPES", "ROD DICTIONARY"],
         "bodies": ["BODIES", "BODY LIST", "BODY PROPERTIES"], "rods": ["RODS", "ROD LIST", "ROD PROPERTIES"],
         "points": ["POINTS", "POINT LIST", "POINT PROPERTIES", "CONNECTION PROPERTIES", "NODE PROPERTIES"],
         "lines": ["LINES", "LINE LIST", "LINE PROPERTIES"], "options": ["OPTIONS"], "outputs": ["OUTPUTS", "OUTPUT"]}


def num(v):
    return repr(float(v))


def base(w, r):
    """the sections of a world"""
    tab = lambda t, k: "%s%s.txt" % (k.lower(), t["name"][2:]) if t[k + "c"] else num(t[k])
    S = {"linetypes": [[t["name"], num(t["d"]), num(t["w"]), tab(t, "EA"), tab(t, "BA"), tab(t, "EI")] +
                       [num(t[k]) for k in ("Cd", "Ca", "CdAx", "CaAx")] for t in w.lts],
         "rodtypes": [[t["name"]] + [num(t[k]) for k in ("d", "w", "Cd", "Ca", "CdEnd", "CaEnd")] for t in w.rts],
         "bodies": [[str(i + 1), b["_row"]["att"]] + [num(x) for x in b["_row"]["r"]] +
                    [num(b["mass"]), b["_row"]["cg"], b["_row"]["I"], num(b["vol"]), b["_row"]["CdA"], b["_row"]["Ca"]]
                    for i, b in enumerate(w.bodies)],
         "rods": [[str(i + 1), b["_row"]["type"], b["_row"]["att"]] + [num(x) for x in b["a0"] + b["b0"]] + [str(b["n"]), "-"]
                  for i, b in enumerate(w.rods)],
         "points": [[str(i + 1), p["_row"]["att"]] + [num(x) for x in p["r0"]] +
                    [num(p[k]) for k in ("mass", "vol", "CdA", "Ca")] for i, p in enumerate(w.points)],
         "lines": [[str(i + 1), l["_row"]["type"], str(l["_row"]["A"]), str(l["_row"]["B"]), num(l["ul"]), str(l["n"]), "-"]
                   for i, l in enumerate(w.lines)],
         "options": [[num(v) if isinstance(v, float) else str(v), k] for k, v in w.options()],
         "outputs": []}
    secs = []
    for k in ("linetypes", "rodtypes", "bodies", "rods", "points", "lines", "options", "outputs"):
        if S[k] or k == "options" or (k == "outputs" and r.random() < 0.6):
            secs.append({"k": k, "s": r.choice(HEADS[k]), "lab": 0 if k in ("options", "outputs") else 2, "rows": S[k]})
    return {"secs": secs, "closed": True}


LABELS = ["Name Values", "(-) (-)"]


def text(f):
    L = ["generated"]
    for s in f["secs"]:
        L.append("---- %s ----" % s["s"])
        L += LABELS[:s["lab"]]
        L += [" ".join(x) for x in s["rows"]]
    if f["closed"]:
        L.append("--------------- need this line ------------------")
    # after the rows of a table a last empty line would be one row more
    nl = f.get("nl") and f["secs"] and f["secs"][-1]["k"] in ("options", "outputs")
    return "\n".join(L) + ("\n" if f["closed"] or nl else "")


def sec(f, k):
    return next((s for s in f["secs"] if s["k"] == k), None)


WORDS = ["Fixed", "FIX", "Anchor", "Coupled", "CPLD", "Vessel", "ves", "Free", "CON", "Connect", "Point", "Fairlead", "Body1", "Body2",
         "Body0", "Body", "Body9", "body1pinned", "Body1Pin", "Pinned", "pin", "CpldPin", "VesPin", "VESSELPINNED", "Turret", "foo", "7",
         "Rod1", "Fixed3", "-"]
ENDS = ["0", "1", "2", "9", "99999", "R1A", "R1B", "Rod1a", "R1", "R9A", "R0B", "rod1C", "P1", "Con2", "Point1", "C9", "Body1", "X1", "A", "-1",
        "1A", "L1"]
CHANS = ["LINE1PX", "L1N0PX", "L1N1T", "L1N99PX", "LINE99PX", "L0PX", "FAIRTEN1", "FAIRTEN99", "FAIRTEN0", "FAIRTEN", "ANCHTEN1",
         "ANCHTEN99", "POINT1PX", "P1FX", "P99PX", "P0T", "PX", "ROD1PX", "R1N0PX", "R1N99PX", "R9PX", "R1NBPZ", "R9NBPX", "L9NBPX", "B1PX",
         "B9PX", "B0RX", "foo", "L1foo", "L1", "1", "-", "L1NAT", "L1N", "R1N", "ROD1SUB", "P1TA", "L1N1", "R1NA", "B1", "L1N1FX", "R0NAFX"]
OPTS = [["foo", "bar"], ["x", "dtM"], ["0.01"], ["dtM"], ["1", "WaveKin"], ["99", "WaveKin"], ["x", "WaveKin"], ["x", "Currents"], ["77", "Currents"],
        ["x", "dtWave"], ["Foo", "tScheme"], ["", ""], ["2", "UnifyCurrentGrid"], ["nofile.txt", "SeafloorFile"], ["1", "Currents"], ["3", "WaveKin"],
        ["1", "2", "3", "4"], ["-3", "WriteUnits"], ["99999999999", "WaveKin"], ["0", "dtM"], ["-0.1", "dtM"], ["-4", "WaveKin"], ["x", "writeLog"]]


def spoil(f, r):
    """one change; -> its name"""
    ks = [s for s in f["secs"] if s["rows"]]
    if not ks:
        return None
    s = r.choice(ks)
    row = r.choice(s["rows"])
    c = r.choice(["cut", "word", "drop", "dup", "blank", "delsec", "att", "end", "chan", "opt", "trunc", "type", "nseg", "vec",
                  "extra", "order", "nonum", "empty", "att", "end", "chan", "type", "nseg"])
    if c == "cut":
        del row[r.randrange(len(row) + 1):]
    elif c == "word":
        if not row:
            return None
        row[r.randrange(len(row))] = r.choice(["x", "nan", "", "1e999", "-1", "0", "inf"])
    elif c == "drop":
        s["rows"].remove(row)
    elif c == "dup":
        s["rows"].append(list(row))
    elif c == "blank":
        s["rows"].insert(r.randrange(len(s["rows"]) + 1), [])
    elif c == "delsec":
        f["secs"].remove(r.choice(f["secs"]))
    elif c == "att":
        t = sec(f, r.choice(["points", "rods", "bodies"]))
        if not t or not t["rows"]:
            return None
        x = r.choice(t["rows"])
        if len(x) < 3:
            return None
        x[2 if t["k"] == "rods" else 1] = r.choice(WORDS)
    elif c == "end":
        t = sec(f, "lines")
        if not t or not t["rows"]:
            return None
        x = r.choice(t["rows"])
        if len(x) < 4:
            return None
        x[r.choice([2, 3])] = r.choice(ENDS)
    elif c == "chan":
        t = sec(f, "outputs")
        if not t:
            return None
        t["rows"].append([r.choice(CHANS) for _ in range(r.randint(1, 3))])
    elif c == "opt":
        t = sec(f, "options")
        if not t:
            return None
        t["rows"].insert(r.randrange(len(t["rows"]) + 1), list(r.choice(OPTS)))
    elif c == "trunc":
        # the file ends somewhere inside a section
        k = r.randrange(len(f["secs"]))
        t = f["secs"][k]
        del f["secs"][k + 1:]
        f["closed"] = False
        f["nl"] = t["k"] in ("options", "outputs") and r.random() < 0.5
        m = r.choice(["label", "rows", "all"])
        if m == "label":
            t["lab"] = r.randrange(t["lab"] + 1)
            t["rows"] = []
        elif m == "rows" and t["rows"]:
            del t["rows"][r.randrange(len(t["rows"])):]
    elif c == "type":
        t = sec(f, r.choice(["lines", "rods"]))
        if not t or not t["rows"]:
            return None
        x = r.choice(t["rows"])
        if len(x) < 2:
            return None
        x[1] = r.choice(["lt0", "lt1", "rt0", "LT0", "zz"])
    elif c == "nseg":
        t = sec(f, r.choice(["lines", "rods"]))
        if not t or not t["rows"]:
            return None
        x = r.choice(t["rows"])
        k = 5 if t["k"] == "lines" else 9
        if len(x) <= k:
            return None
        x[k] = r.choice(["0", "-1", "1", "2", "-5", "x", "1.9"])
    elif c == "vec":
        t = sec(f, "bodies")
        if not t or not t["rows"]:
            return None
        x = r.choice(t["rows"])
        if len(x) < 14:
            return None
        x[r.choice([9, 10, 12, 13])] = "|".join("1.5" for _ in range(r.randint(1, 7)))
    elif c == "extra":
        row.append("9.9")
    elif c == "order":
        r.shuffle(f["secs"])
    elif c == "nonum":
        row[:1] = [r.choice(["0", "77", "x", "-3"])]
    elif c == "empty":
        s["rows"][:] = []
    return c


def each(f):
    """every single fault of the lists above, applied to copies of a file"""
    def new():
        return copy.deepcopy(f)
    yield "sound", new()
    for k, s in enumerate(f["secs"]):
        for j, row in enumerate(s["rows"]):
            for c in range(len(row) + 1):
                g = new()
                del g["secs"][k]["rows"][j][c:]
                yield "cut", g
        for j in range(len(s["rows"]) + 1):
            g = new()
            g["secs"][k]["rows"].insert(j, [])
            yield "blank", g
        g = new()
        del g["secs"][k]
        yield "delsec", g
        for lab in range(s["lab"] + 1):
            g = new()
            del g["secs"][k + 1:]
            g["closed"] = False
            g["secs"][k]["lab"] = lab
            g["secs"][k]["rows"] = []
            yield "trunc", g
        for j in range(1, len(s["rows"]) + 1):
            g = new()
            del g["secs"][k + 1:]
            g["closed"] = False
            del g["secs"][k]["rows"][j:]
            yield "trunc", g

    def put(kind, col, words):
        s = sec(f, kind)
        for j in range(len(s["rows"]) if s else 0):
            for x in words:
                g = new()
                sec(g, kind)["rows"][j][col] = x
                yield kind, g
    bars = ["|".join(["1.5"] * n) for n in range(1, 8)]
    for a in ((("points", 1, WORDS), ("rods", 2, WORDS), ("bodies", 1, WORDS), ("lines", 2, ENDS), ("lines", 3, ENDS),
               ("lines", 1, ["lt0", "lt1", "rt0", "LT0"]), ("rods", 1, ["lt0", "rt0", "RT0", "rt1"]),
               ("lines", 5, ["0", "-1", "1", "x", "2.7"]), ("rods", 9, ["0", "-1", "1", "x", "2.7"]),
               ("bodies", 9, bars), ("bodies", 10, bars), ("bodies", 12, bars), ("bodies", 13, bars),
               ("linetypes", 3, ["nofile.txt", "x"]), ("linetypes", 4, ["nofile.txt"]), ("linetypes", 5, ["nofile.txt"]))):
        yield from put(*a)
    if sec(f, "outputs"):
        for x in CHANS:
            g = new()
            sec(g, "outputs")["rows"].append(["L1N0PX", x, "P1PX"])
            yield "chan", g
    for x in OPTS:
        g = new()
        sec(g, "options")["rows"].append(list(x))
        yield "opt", g


def side_faults(txt, rows=None):
    """single faults of a file beside the input file, in the given rows"""
    L = txt.split("\n")
    for i in range(len(L)) if rows is None else [i for i in rows if i < len(L)]:
        yield L[:i]
        yield L[:i] + L[i + 1:]
        yield L[:i] + [""] + L[i:]
        ws = L[i].split(" ")
        for j in range(len(ws)):
            yield L[:i] + [" ".join(ws[:j] + ws[j + 1:])] + L[i + 1:]
            if i < 40:
                for x in ("x", "0", "-1"):
                    yield L[:i] + [" ".join(ws[:j] + [x] + ws[j + 1:])] + L[i + 1:]
            yield L[:i] + [" ".join(ws[:j])] + L[i + 1:]
        yield L[:i] + [L[i] + " 7"] + L[i + 1:]
        yield L[:i] + [L[i], L[i]] + L[i + 1:]
        if i + 1 < len(L):
            yield L[:i] + [L[i + 1], L[i]] + L[i + 2:]


def side_lines(L, trailing):
    """as a reader of lines sees them; "trailing": is an empty last line a line?"""
    if not L:
        return [[]] if trailing else []
    if L[-1] == "" and not trailing:
        L = L[:-1]
    return [[w for w in l.split(" ") if w] for l in L]
