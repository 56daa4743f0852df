"""Random seas: the files next to the input file and what they say, for module Water."""
import math

s = lambda v: repr(float(v))
sv = lambda v: [s(x) for x in v]


def q8(v, n=8):
    """exact in single precision"""
    return round(v * n) / n


def axis(r, lo, hi, n):
    """(type, values, coordinates)"""
    if n == 1:
        return "0", "0.0", [0.0]
    k = r.choice(["list", "lattice"])
    if k == "lattice":
        d = (hi - lo) / (n - 1)
        xs = [lo] + [lo + i * d for i in range(1, n - 1)] + [hi]
        return "2", "%r %r %d" % (lo, hi, n), xs
    xs = sorted({lo, hi} | {q8(r.uniform(lo, hi)) for _ in range(n - 2)})
    return "1", " ".join(map(repr, xs)), xs


def sea(w, r, wave="none", cur="none", unify=True):
    """adds the files and options of a random sea to world w; returns its record"""
    h = w.wd
    S = {"wave": wave, "comp": [], "et": [], "ez": [], "dtw": "0.25", "gx": [], "gy": [], "gz": [],
         "cur": cur, "cx": ["0.0"], "cy": ["0.0"], "cz": ["0.0"], "ct": ["0.0"], "cv": [], "unify": unify}
    ex = [("WaveKin", {"none": 0, "ext": 1, "fft": 2, "elev": 3, "sum": 7}[wave]),
          ("Currents", {"none": 0, "steady": 1, "dyn": 2, "4d": 5}[cur])]
    period = 60.0
    if wave in ("sum", "fft"):
        if wave == "sum":
            ws = [0.0] + sorted(r.choice([r.uniform(0.3, 2.4), r.uniform(0.05, 0.5)]) for _ in range(r.randint(1, 5)))
            ws = [float("%.3g" % x) for x in ws]
            if len(ws) > 2 and r.random() < 0.4:
                ws[2] = ws[1]                       # same frequency, other direction
        else:
            dw = r.choice([0.125, 0.25, 0.0625])
            steps = [1] + [r.choice([1, 1, 2, 3]) for _ in range(r.randint(2, 6))]
            r.shuffle(steps)
            if 1 not in steps:
                steps[0] = 1
            ws = [0.0]
            for k in steps:
                ws.append(ws[-1] + k * dw)
            period = 2 * math.pi / dw
        b0 = r.choice([0.0, r.uniform(-3, 3)])
        cs = []
        dirs = r.random() < 0.5
        for i, x in enumerate(ws):
            re, im = [float("%.3g" % r.uniform(-0.6, 0.6)) for _ in range(2)]
            if i == 0 or (wave == "fft" and i == len(ws) - 1):
                re = im = 0.0
            if r.random() < 0.2:
                im = 0.0
            b = float("%.3g" % (b0 if r.random() < 0.5 else r.uniform(-3, 3))) if dirs else 0.0
            cs.append((x, re, im, b))
        w.files["wave_frequencies.txt"] = "\n".join(
            " ".join(map(repr, c if dirs else c[:3])) for c in cs) + "\n"
        S["comp"] = [dict(zip(("w", "re", "im", "b"), map(s, c))) for c in cs]
    if wave == "elev":
        dtw = r.choice([0.25, 0.5, 0.75])
        n = r.choice([x for x in range(14, 40) if abs(dtw * (x // 2) - round(dtw * (x // 2))) > 0.1])
        step = dtw / r.choice([1, 2])
        T = dtw * (n - 1)
        ts, t = [], 0.0
        while t < T - 1e-9:
            ts.append(t)
            t += step
        ts.append(T)
        am = [(r.uniform(0.1, 0.5), r.uniform(0.2, 2.5), r.uniform(0, 6)) for _ in range(3)]
        zs = [float("%.4g" % (0.1 + sum(a * math.cos(o * t + p) for a, o, p in am))) for t in ts]
        w.files["wave_elevation.txt"] = "\n".join("%r %r" % z for z in zip(ts, zs)) + "\n"
        S.update(et=sv(ts), ez=sv(zs), dtw=s(dtw))
        ex.append(("dtWave", dtw))
        period = dtw * (n - n % 2)
    if wave in ("fft", "elev"):
        rows = ["--- grid", "text", "text"]
        for k, lo, hi, n in (("gx", -64.0, 56.0, r.choice([1, 2, 3, 4])), ("gy", -40.0, 48.0, r.choice([1, 2, 3])),
                             ("gz", -q8(h * 0.9), 0.0, r.choice([2, 3, 5]))):
            t, txt, xs = axis(r, lo, hi, n)
            rows += [t, txt]
            S[k] = sv(xs)
        w.files["water_grid.txt"] = "\n".join(rows) + "\n"
        if not unify or r.random() < 0.3:
            ex.append(("UnifyCurrentGrid", 1 if unify else 0))
    if cur != "none":
        nz = r.randint(2, 5) if cur != "4d" else r.randint(1, 3)
        zs = sorted({q8(r.uniform(-h, 0)) for _ in range(nz)} | ({0.0} if r.random() < 0.5 else set()))
        if len(zs) < 2 and cur == "steady":
            zs = [-h, 0.0]
        xs, ys, ts = [0.0], [0.0], [0.0]
        if cur in ("dyn", "4d"):
            d = r.choice([0.5, 1.0, 0.25])
            for _ in range(r.choice([0, 1, 2, 4])):
                ts.append(ts[-1] + d * r.choice([1, 1, 2]))
            if len(ts) > 1 and min(b - a for a, b in zip(ts, ts[1:])) != d:
                ts.append(ts[-1] + d)
        if cur == "4d":
            xs = sorted({q8(r.uniform(-50, 50)) for _ in range(r.randint(1, 3))})
            ys = sorted({q8(r.uniform(-50, 50)) for _ in range(r.randint(1, 3))})
        v = lambda: float("%.3g" % r.uniform(-1.2, 1.2))
        full = r.choice([1, 2, 3])
        cv = [[[[[v(), v() if full > 1 or cur == "4d" else 0.0, v() * 0.2 if full > 2 or cur == "4d" else 0.0]
                 for _ in ts] for _ in zs] for _ in ys] for _ in xs]
        if cur == "steady":
            w.files["current_profile.txt"] = "---\ntext\ntext\n" + "\n".join(
                " ".join(map(repr, [z] + cv[0][0][i][0][:full])) for i, z in enumerate(zs)) + "\n"
        elif cur == "dyn":
            rows = ["---", "text", "", "", " ".join(map(repr, zs)), ""]
            for j, t in enumerate(ts):
                rows.append(" ".join(map(repr, [t] + [cv[0][0][i][j][c] for c in range(full) for i in range(len(zs))])))
            w.files["current_profile_dynamic.txt"] = "\n".join(rows) + "\n"
        else:
            num = lambda x: r.choice(["%r", "%g"]) % x if r.random() < 0.3 else "%r" % x
            rows = ["%d %d %d %d" % (len(xs), len(ys), len(zs), len(ts))]
            rows += [" ".join(map(repr, a)) for a in (xs, ys, zs, ts)]
            data = ["%s %s %s %s %r %r %r" % (num(x), num(y), num(z), num(t), *cv[a][b][c][d])
                    for a, x in enumerate(xs) for b, y in enumerate(ys) for c, z in enumerate(zs) for d, t in enumerate(ts)]
            r.shuffle(data)
            w.files["current_profile_4d.txt"] = "\n".join(rows + data) + "\n"
        S.update(cx=sv(xs), cy=sv(ys), cz=sv(zs), ct=sv(ts), cv=[[[[sv(e) for e in d] for d in c] for c in b] for b in cv])
        period = min(period, 20.0)
    w.extra = list(w.extra) + ex
    w.seaperiod = period
    return S


def places(w, r, n):
    return [sv([r.uniform(-70, 70), r.uniform(-60, 60),
                r.choice([r.uniform(-w.wd, 0), r.uniform(-3, 3), r.uniform(-0.2 * w.wd, 0.02 * w.wd)])]) for _ in range(n)]
