"""Executes one script of API operations against libmoordyn and records one
event per operation.  Protocol: a JSON list of operations in argv[2]; the
events are written to argv[3] as one JSON object per line, *after* the call
returned.  Before every call a {"begin": i} line is flushed, so that the parent
knows which call killed the process if one does.  Doubles are written as
strings (repr), which the TLA+ side reads with module FP."""
import ctypes as C
import hashlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from md import MD, fs, vs, D, P
from fside import FSide
from logside import LogSide
from pyside import PySide

ERRNAME = {0: "ok", -1: "input_file", -2: "output_file", -3: "invalid_input",
           -4: "nan", -5: "mem", -6: "invalid_value", -7: "non_implemented",
           -255: "unhandled"}


def dig(v):
    """digest of an observation; the sign of zero is not observable"""
    return hashlib.sha1(json.dumps(v).replace('"-0.0"', '"0.0"').encode()).hexdigest()[:20]


class Worker(PySide, FSide, LogSide):
    def __init__(self, libpath, out):
        self.md = MD(libpath)
        self.L = self.md.lib
        self.out = out
        self.h = {}          # handle name -> pointer (or None)
        self.ok = {}         # handle name -> did Init succeed?
        self.bufs = {}       # serialised states
        self.keep = []

    # ---------------- observation
    def obs(self, h, full):
        md, L = self.md, self.L
        o = {}
        o["dt"] = fs(md.d("MoorDyn_GetDt", h)[1])
        o["cfl"] = fs(md.d("MoorDyn_GetCFL", h)[1])
        o["scheme"] = self.scheme(h)
        nb, nr = md.u("MoorDyn_GetNumberBodies", h)[1], md.u("MoorDyn_GetNumberRods", h)[1]
        np_, nl = md.u("MoorDyn_GetNumberPoints", h)[1], md.u("MoorDyn_GetNumberLines", h)[1]
        o["body"], o["rod"], o["point"], o["line"] = [], [], [], []
        for k in range(1, nb + 1):
            b = L.MoorDyn_GetBody(h, k)
            r, rd = (D * 6)(), (D * 6)()
            L.MoorDyn_GetBodyState(b, r, rd)
            e = {"id": md.i("MoorDyn_GetBodyID", b)[1], "type": md.i("MoorDyn_GetBodyType", b)[1],
                 "r": vs(r), "rd": vs(rd)}
            if full:
                e["f"] = vs(md.v("MoorDyn_GetBodyForce", b, 6)[1])
                e["m"] = vs(md.v("MoorDyn_GetBodyM", b, 36)[1])
                e["pos"] = vs(md.v("MoorDyn_GetBodyPos", b, 3)[1])
                e["ang"] = vs(md.v("MoorDyn_GetBodyAngle", b, 3)[1])
                e["vel"] = vs(md.v("MoorDyn_GetBodyVel", b, 3)[1])
                e["avel"] = vs(md.v("MoorDyn_GetBodyAngVel", b, 3)[1])
            o["body"].append(e)
        for k in range(1, nr + 1):
            b = L.MoorDyn_GetRod(h, k)
            n = md.u("MoorDyn_GetRodN", b)[1]
            e = {"id": md.i("MoorDyn_GetRodID", b)[1], "type": md.i("MoorDyn_GetRodType", b)[1],
                 "n": n, "nn": md.u("MoorDyn_GetRodNumberNodes", b)[1],
                 "r": [vs(md.v("MoorDyn_GetRodNodePos", b, 3, i)[1]) for i in range(n + 1)]}
            if hasattr(L, "MoorDyn_GetRodNodeVel"):
                e["rd"] = [vs(md.v("MoorDyn_GetRodNodeVel", b, 3, i)[1]) for i in range(n + 1)]
            if full:
                e["f"] = vs(md.v("MoorDyn_GetRodForce", b, 6)[1])
                e["m"] = vs(md.v("MoorDyn_GetRodM", b, 36)[1])
            o["rod"].append(e)
        lptr = {}
        for k in range(1, nl + 1):
            lptr[L.MoorDyn_GetLine(h, k)] = k
        for k in range(1, np_ + 1):
            b = L.MoorDyn_GetPoint(h, k)
            e = {"id": md.i("MoorDyn_GetPointID", b)[1], "type": md.i("MoorDyn_GetPointType", b)[1],
                 "r": vs(md.v("MoorDyn_GetPointPos", b, 3)[1]),
                 "rd": vs(md.v("MoorDyn_GetPointVel", b, 3)[1])}
            n = md.u("MoorDyn_GetPointNAttached", b)[1]
            att = []
            for i in range(n):
                l, end = C.c_void_p(), C.c_int(-1)
                L.MoorDyn_GetPointAttached(b, i, C.byref(l), C.byref(end))
                att.append({"line": lptr.get(l.value, 0), "end": end.value})
            e["att"] = att
            if full:
                e["f"] = vs(md.v("MoorDyn_GetPointForce", b, 3)[1])
                e["m"] = vs(md.v("MoorDyn_GetPointM", b, 9)[1])
            o["point"].append(e)
        fast = [(C.c_float * max(1, len(lptr)))() for _ in range(4)]
        if full:
            L.MoorDyn_GetFASTtens(h, C.byref(C.c_int(len(lptr))), *fast)
        for l, k in lptr.items():
            n = md.u("MoorDyn_GetLineN", l)[1]

            def col(fn, w=3):
                return [vs(md.v(fn, l, w, i)[1]) for i in range(n + 1)]
            e = {"id": md.i("MoorDyn_GetLineID", l)[1], "n": n,
                 "nn": md.u("MoorDyn_GetLineNumberNodes", l)[1],
                 "ul": fs(md.d("MoorDyn_GetLineUnstretchedLength", l)[1]),
                 "r": col("MoorDyn_GetLineNodePos"), "rd": col("MoorDyn_GetLineNodeVel")}
            if full:
                e["f"] = col("MoorDyn_GetLineNodeForce")
                e["ten"] = col("MoorDyn_GetLineNodeTen")
                e["bs"] = col("MoorDyn_GetLineNodeBendStiff")
                e["w"] = col("MoorDyn_GetLineNodeWeight")
                e["drag"] = col("MoorDyn_GetLineNodeDrag")
                e["fk"] = col("MoorDyn_GetLineNodeFroudeKrilov")
                e["b"] = col("MoorDyn_GetLineNodeSeabedForce")
                e["m"] = col("MoorDyn_GetLineNodeM", 9)
                cv = []
                for i in range(n + 1):
                    x = D(float("nan"))
                    L.MoorDyn_GetLineNodeCurv(l, i, C.byref(x))
                    cv.append(fs(x.value))
                e["curv"] = cv
                e["ft"] = fs(md.d("MoorDyn_GetLineFairTen", l)[1])
                e["mt"] = fs(md.d("MoorDyn_GetLineMaxTen", l)[1])
                e["fast"] = [fs(x[k - 1]) for x in fast]
                e["cea"] = md.i("MoorDyn_IsLineConstantEA", l)[1]
                e["ea"] = fs(md.d("MoorDyn_GetLineConstantEA", l)[1])
                e["pb"] = md.i("MoorDyn_IsLinePressBend", l)[1]
            o["line"].append(e)
        return o

    def scheme(self, h):
        n = C.c_size_t(0)
        if self.L.MoorDyn_GetTimeScheme(h, None, C.byref(n)) != 0:
            return ""
        b = C.create_string_buffer(n.value + 1)
        self.L.MoorDyn_GetTimeScheme(h, b, C.byref(n))
        return b.value.decode()

    # ---------------- operations
    def run(self, op):
        if op.get("needs") and not self.ok.get(op["h"]):
            return {"op": "skipped", "h": op["h"]}
        f = getattr(self, "op_" + op["op"])
        ev = dict((k, v) for k, v in op.items())
        ev.update(f(op) or {})
        if "ret" in ev:
            ev["err"] = ERRNAME.get(ev["ret"], str(ev["ret"]))
        if op.get("dg") and self.h.get(op.get("h")):
            ev["dg"] = dig(self.obs(self.h[op["h"]], True))
            if op.get("dg") == "full":
                ev["o"] = self.obs(self.h[op["h"]], True)
            if "f" in ev:
                ev["fdg"] = dig(ev["f"])
            if op["op"] == "step" and float(op["dt"]) > 0:
                ev["tdg"] = dig(ev["tout"])
            if op["op"] in ("depth", "kin"):
                ev["qdg"] = dig([ev.get("depths"), ev.get("kin")])
                ev["qk"] = "query:" + dig(op["pts"])
        if op.get("where"):
            ev["where"] = self.nodes(self.h[op["h"]])
        if op.get("slim"):
            for k in ("x", "xd", "f", "depths", "kin", "pts"):
                ev.pop(k, None)
        if op.get("obs") and self.h.get(op.get("h")):
            ev["o"] = o = self.obs(self.h[op["h"]], op["obs"] == "full")
            if op.get("wk"):
                kin = lambda pts: self.op_kin({"h": op["h"], "pts": pts})["kin"]
                o["wk"] = {"line": [kin(q["r"]) for q in o["line"]], "rod": [kin(q["r"]) for q in o["rod"]],
                           "point": [kin([q["r"]]) for q in o["point"]], "body": [kin([q["r"][:3]]) for q in o["body"]]}
        return ev

    def H(self, op):
        return self.h.get(op.get("h"))

    def op_create(self, op):
        if op.get("cd"):  # the file is given by its name alone, from its own directory
            os.chdir(os.path.dirname(op["file"]))
            op = dict(op, file=os.path.basename(op["file"]))
        p = self.L.MoorDyn_Create(op["file"].encode() if op["file"] is not None else None)
        self.h[op["h"]] = p
        d = {"made": bool(p)}
        if p:
            md = self.md
            d["ndof"] = md.u("MoorDyn_NCoupledDOF", p)[1]
            d["counts"] = [md.u("MoorDyn_GetNumber" + k, p)[1]
                           for k in ("Bodies", "Rods", "Points", "Lines")]
        return d

    def _xv(self, op, k):
        v = op.get(k)
        if v is None:
            return None
        return (D * len(v))(*[float(t) for t in v])

    def op_init(self, op):
        fn = self.L.MoorDyn_Init_NoIC if op.get("noic") else self.L.MoorDyn_Init
        r = fn(self.H(op), self._xv(op, "x"), self._xv(op, "xd"))
        self.ok[op["h"]] = r == 0
        return {"ret": r}

    def op_step(self, op):
        n = op.get("nf")
        h = self.H(op)
        if n is None:
            n = self.md.u("MoorDyn_NCoupledDOF", h)[1] if h else 0
        f = (D * n)(*([float("nan")] * n))
        t, dt = D(float(op["t"])), D(float(op["dt"]))
        e = self.L.MoorDyn_Step(h, self._xv(op, "x"), self._xv(op, "xd"),
                                None if op.get("nof") else f, C.byref(t), C.byref(dt))
        return {"ret": e, "tout": fs(t.value), "dtout": fs(dt.value), "f": vs(f)}

    def op_attq(self, op):
        return {}

    def op_setdtsame(self, op):
        """set the model time step to its own value"""
        h = self.H(op)
        return {"ret": self.L.MoorDyn_SetDt(h, self.md.d("MoorDyn_GetDt", h)[1])}

    def op_close(self, op):
        h = self.h.pop(op["h"], None)
        return {"ret": self.L.MoorDyn_Close(h)}

    def op_obs(self, op):
        return {}

    def op_save(self, op):
        return {"ret": self.L.MoorDyn_Save(self.H(op), op["file"].encode())}

    def op_load(self, op):
        return {"ret": self.L.MoorDyn_Load(self.H(op), op["file"].encode())}

    def op_serialize(self, op):
        n = C.c_size_t(0)
        e = self.L.MoorDyn_Serialize(self.H(op), C.byref(n), None)
        if e:
            return {"ret": e, "size": n.value}
        buf = (C.c_uint8 * n.value)()
        e = self.L.MoorDyn_Serialize(self.H(op), None, C.cast(buf, C.c_void_p))
        self.bufs[op["buf"]] = bytes(buf)
        return {"ret": e, "size": n.value}

    def op_deserialize(self, op):
        b = self.bufs[op["buf"]]
        a = (C.c_uint8 * len(b)).from_buffer_copy(b)
        return {"ret": self.L.MoorDyn_Deserialize(self.H(op), C.cast(a, C.c_void_p))}

    def op_setdt(self, op):
        return {"ret": self.L.MoorDyn_SetDt(self.H(op), float(op["v"]))}

    def op_setcfl(self, op):
        return {"ret": self.L.MoorDyn_SetCFL(self.H(op), float(op["v"]))}

    def op_setscheme(self, op):
        return {"ret": self.L.MoorDyn_SetTimeScheme(self.H(op), op["v"].encode())}

    def line(self, op):
        return self.L.MoorDyn_GetLine(self.H(op), op["line"])

    def op_setul(self, op):
        return {"ret": self.L.MoorDyn_SetLineUnstretchedLength(self.line(op), float(op["v"]))}

    def op_setulv(self, op):
        return {"ret": self.L.MoorDyn_SetLineUnstretchedLengthVel(self.line(op), float(op["v"]))}

    def op_setea(self, op):
        return {"ret": self.L.MoorDyn_SetLineConstantEA(self.line(op), float(op["v"]))}

    def op_setpb(self, op):
        return {"ret": self.L.MoorDyn_SetLinePressBend(self.line(op), int(op["v"]))}

    def op_setpin(self, op):
        a = (D * len(op["v"]))(*[float(t) for t in op["v"]])
        return {"ret": self.L.MoorDyn_SetLinePressInt(self.line(op), a)}

    def op_verbosity(self, op):
        return {"ret": self.L.MoorDyn_SetVerbosity(self.H(op), int(op["v"]))}

    def op_loglevel(self, op):
        return {"ret": self.L.MoorDyn_SetLogLevel(self.H(op), int(op["v"]))}

    def op_logfile(self, op):
        return {"ret": self.L.MoorDyn_SetLogFile(self.H(op), op["file"].encode())}

    def op_log(self, op):
        return {"ret": self.L.MoorDyn_Log(self.H(op), int(op["v"]), op["msg"].encode())}

    def op_depth(self, op):
        s = self.L.MoorDyn_GetSeafloor(self.H(op))
        out = []
        ret = 0
        for x, y in op["pts"]:
            d = D(float("nan"))
            ret = self.L.MoorDyn_GetDepthAt(s, float(x), float(y), C.byref(d)) or ret
            out.append(fs(d.value))
        a, m = D(float("nan")), D(float("nan"))
        self.L.MoorDyn_GetAverageDepth(s, C.byref(a))
        self.L.MoorDyn_GetMinDepth(s, C.byref(m))
        return {"ret": ret, "depths": out, "avg": fs(a.value), "min": fs(m.value), "has": bool(s)}

    def op_kin(self, op):
        w = self.L.MoorDyn_GetWaves(self.H(op))
        s = self.L.MoorDyn_GetSeafloor(self.H(op))
        out = []
        ret = 0
        for x, y, z in op["pts"]:
            U, Ud = (D * 3)(), (D * 3)()
            zeta, pd = D(float("nan")), D(float("nan"))
            ret = self.L.MoorDyn_GetWavesKin(w, float(x), float(y), float(z), U, Ud,
                                             C.byref(zeta), C.byref(pd), s) or ret
            out.append({"U": vs(U), "Ud": vs(Ud), "zeta": fs(zeta.value), "pdyn": fs(pd.value)})
        return {"ret": ret, "kin": out}

    def op_wavenumber(self, op):
        return {"k": fs(self.L.WaveNumber(float(op["omega"]), float(op["g"]), float(op["depth"])))}

    def op_extinit(self, op):
        e, n = self.md.u("MoorDyn_ExternalWaveKinInit", self.H(op))
        return {"ret": e, "n": n}

    def op_extn(self, op):
        e, n = self.md.u("MoorDyn_ExternalWaveKinGetN", self.H(op))
        return {"ret": e, "n": n}

    def op_extcoord(self, op):
        n = op.get("n", self.md.u("MoorDyn_ExternalWaveKinGetN", self.H(op))[1])
        a = (D * (3 * n))(*([float("nan")] * (3 * n)))
        e = self.L.MoorDyn_ExternalWaveKinGetCoordinates(self.H(op), a)
        a = vs(a)
        return {"ret": e, "pts": [a[3 * i:3 * i + 3] for i in range(n)]}

    def op_extset(self, op):
        U = [float(t) for p in op["U"] for t in p]
        A = [float(t) for p in op["A"] for t in p]
        return {"ret": self.L.MoorDyn_ExternalWaveKinSet(
            self.H(op), self.md.arr(U), self.md.arr(A), float(op["t"]))}

    def op_getent(self, op):
        """entity look-up by number; validity of the answer only"""
        p = getattr(self.L, "MoorDyn_Get" + op["kind"])(self.H(op), op["n"] & 0xffffffff)
        return {"found": bool(p)}

    def op_nodequery(self, op):
        """per node getters with any index"""
        l = self.L.MoorDyn_GetLine(self.H(op), op["line"])
        rets = []
        for fn, w in (("Pos", 3), ("Vel", 3), ("Force", 3), ("Ten", 3), ("BendStiff", 3),
                      ("Weight", 3), ("Drag", 3), ("FroudeKrilov", 3), ("SeabedForce", 3),
                      ("Curv", 1), ("M", 9)):
            a = (D * w)()
            rets.append(getattr(self.L, "MoorDyn_GetLineNode" + fn)(l, op["node"], C.cast(
                a, P(D) if fn == "Curv" else C.c_void_p)))
        return {"rets": rets}

    def op_rodquery(self, op):
        l = self.L.MoorDyn_GetRod(self.H(op), op["rod"])
        return {"rets": [self.md.v("MoorDyn_GetRodNode" + k, l, 3, op["node"])[0] for k in ("Pos", "Vel")]}

    def op_attquery(self, op):
        p = self.L.MoorDyn_GetPoint(self.H(op), op["point"])
        l, end = C.c_void_p(), C.c_int(-1)
        return {"ret": self.L.MoorDyn_GetPointAttached(p, op["i"], C.byref(l), C.byref(end)),
                "found": bool(l.value), "end": end.value}

    def nodes(self, h):
        """what is said of the place of each node; what is not written stays NaN"""
        md, L, out = self.md, self.L, []
        for c, n in (("Line", "Lines"), ("Rod", "Rods")):
            for k in range(1, md.u("MoorDyn_GetNumber" + n, h)[1] + 1):
                b = getattr(L, "MoorDyn_Get" + c)(h, k)
                for i in range(md.u("MoorDyn_Get%sN" % c, b)[1] + 1):
                    e, v = md.v("MoorDyn_Get%sNodePos" % c, b, 3, i)
                    out.append({"nan": any(x != x for x in v), "ret": ERRNAME.get(e, str(e))})
        for c, n in (("Point", "Points"), ("Body", "Bodies")):
            for k in range(1, md.u("MoorDyn_GetNumber" + n, h)[1] + 1):
                b = getattr(L, "MoorDyn_Get" + c)(h, k)
                out.append({"nan": any(x != x for f in (("Pos",) if c == "Point" else ("Pos", "Angle"))
                                       for x in md.v("MoorDyn_Get%s%s" % (c, f), b, 3)[1]), "ret": "any"})
        return out

    def op_null(self, op):
        """call an entry point with a null handle"""
        md, L = self.md, self.L
        n = op["fn"]
        u, i, d = C.c_uint(), C.c_int(), D()
        buf = (D * 64)()
        vb = C.cast(buf, C.c_void_p)
        t, dt = D(0.0), D(0.1)
        sig = {
            "u": lambda: getattr(L, n)(None, C.byref(u)),
            "i": lambda: getattr(L, n)(None, C.byref(i)),
            "d": lambda: getattr(L, n)(None, C.byref(d)),
            "v": lambda: getattr(L, n)(None, vb),
            "nv": lambda: getattr(L, n)(None, 0, vb),
            "nd": lambda: getattr(L, n)(None, 0, C.byref(d)),
            "D": lambda: getattr(L, n)(None, 1.0),
            "I": lambda: getattr(L, n)(None, 1),
            "s": lambda: getattr(L, n)(None, b"/nonexistent/x"),
            "Is": lambda: getattr(L, n)(None, 1, b"x"),
            "vv": lambda: getattr(L, n)(None, vb, vb),
            "vvD": lambda: getattr(L, n)(None, vb, vb, 0.0),
            "step": lambda: getattr(L, n)(None, vb, vb, vb, C.byref(t), C.byref(dt)),
            "0": lambda: getattr(L, n)(None),
            "xyd": lambda: getattr(L, n)(None, 0.0, 0.0, C.byref(d)),
            "kin": lambda: getattr(L, n)(None, 0.0, 0.0, 0.0, vb, vb, C.byref(d), C.byref(dt), None),
            "att": lambda: getattr(L, n)(None, 0, C.byref(C.c_void_p()), C.byref(i)),
            "ts": lambda: getattr(L, n)(None, C.create_string_buffer(200), C.byref(C.c_size_t())),
            "ser": lambda: getattr(L, n)(None, C.byref(C.c_size_t()), None),
            "fast": lambda: getattr(L, n)(None, C.byref(i), vb, vb, vb, vb),
            "h": lambda: getattr(L, n)(None),
            "hn": lambda: getattr(L, n)(None, 1),
        }[op["sig"]]
        r = sig()
        if op["sig"] in ("h", "hn"):
            return {"found": bool(r)}
        return {"ret": r}

    def op_nullarg(self, op):
        """valid handle, null data pointers"""
        L, h = self.L, self.H(op)
        t, dt = D(0.0), D(0.1)
        n = op["fn"]
        z = (D * 600)()
        f = {
            "init": lambda: L.MoorDyn_Init(h, None, None),
            "init_xd": lambda: L.MoorDyn_Init(h, z, None),
            "step_x": lambda: L.MoorDyn_Step(h, None, z, z, C.byref(t), C.byref(dt)),
            "step_xd": lambda: L.MoorDyn_Step(h, z, None, z, C.byref(t), C.byref(dt)),
            "step_f": lambda: L.MoorDyn_Step(h, z, z, None, C.byref(t), C.byref(dt)),
        }[n]
        return {"ret": f()}

    def op_describe(self, op):
        """what was loaded, before any simulation"""
        h, md, L = self.H(op), self.md, self.L
        o = {"body": [], "rod": [], "point": [], "line": []}
        if h:
            for c, n in (("body", "Bodies"), ("rod", "Rods"), ("point", "Points"), ("line", "Lines")):
                C_ = c.capitalize()
                for k in range(1, md.u("MoorDyn_GetNumber" + n, h)[1] + 1):
                    b = getattr(L, "MoorDyn_Get" + C_)(h, k)
                    e = {"id": md.i("MoorDyn_Get%sID" % C_, b)[1]}
                    if c != "line":
                        e["type"] = md.i("MoorDyn_Get%sType" % C_, b)[1]
                    if c in ("rod", "line"):
                        e["n"] = md.u("MoorDyn_Get%sN" % C_, b)[1]
                    if c == "point":
                        e["att"] = md.u("MoorDyn_GetPointNAttached", b)[1]
                    o[c].append(e)
        return {"o": o}

    def op_size(self, op):
        return {"size": os.path.getsize(op["file"]) if os.path.exists(op["file"]) else -1}

    def op_readout(self, op):
        """an output file as tokens (nothing is interpreted here)"""
        try:
            rows = [l.split() for l in open(op["file"]).read().splitlines()]
        except OSError:
            return {"exists": False, "rows": []}
        return {"exists": True, "rows": rows}

    def op_readtext(self, op):
        try:
            t = open(op["file"], errors="replace").read()
        except OSError:
            return {"exists": False, "has": []}
        return {"exists": True, "has": [bool(m in t) for m in op["marks"]],
                "count": [t.count(m) for m in op["marks"]]}

    def op_copy(self, op):
        """file corruption helper: copy src to dst with edits"""
        b = bytearray(open(op["src"], "rb").read())
        for e in op.get("edits", []):
            if e[0] == "trunc":
                del b[e[1]:]
            elif e[0] == "set":
                b[e[1]] = e[2]
            elif e[0] == "add":
                b += bytes(e[1])
            elif e[0] == "xor":
                b[e[1]] ^= e[2]
        open(op["dst"], "wb").write(bytes(b))
        return {}

    def op_stdout(self, op):
        """what the library printed on stdout so far"""
        os.fsync(1)
        t = open(os.environ["WORKER_STDOUT"], errors="replace").read() if "WORKER_STDOUT" in os.environ else ""
        return {"count": [t.count(m) for m in op["marks"]]}

    # ---- v1 API (singleton)
    def op_v1init(self, op):
        return {"ret": self.L.MoorDynInit(self._xv(op, "x"), self._xv(op, "xd"), op["file"].encode())}

    def op_v1step(self, op):
        n = op["nf"]
        f = (D * n)(*([float("nan")] * n))
        t, dt = D(float(op["t"])), D(float(op["dt"]))
        e = self.L.MoorDynStep(self._xv(op, "x"), self._xv(op, "xd"), f, C.byref(t), C.byref(dt))
        return {"ret": e, "views": {"f": dig(vs(f)), "t": dig([fs(t.value), fs(dt.value)])},
                "touched": any(v == v for v in f) or fs(t.value) != fs(float(op["t"])) or fs(dt.value) != fs(float(op["dt"]))}

    def op_v2step(self, op):
        r = self.op_step(op)
        return {"ret": r["ret"], "views": {"f": dig(r["f"]), "t": dig([r["tout"], r["dtout"]])}}

    def op_v1close(self, op):
        return {"ret": self.L.MoorDynClose()}

    def view(self, v1, h, op):
        """what the old interface can show, through it or through the handles: digests"""
        L, md, out, bogus = self.L, self.md, {}, True
        nl, nodes, np_ = len(op["nodes"]), op["nodes"], op["points"]
        ln = lambda l: L.MoorDyn_GetLine(h, l & 0xffffffff)
        pt = lambda p: L.MoorDyn_GetPoint(h, p & 0xffffffff)

        def vec(one, two):
            a = (D * 3)(*([float("nan")] * 3))
            e = one(a) if v1 else two(a)
            return [e, vs(a)]
        out["fairten"] = [fs(L.GetFairTen(l)) if v1 else fs(md.d("MoorDyn_GetLineFairTen", ln(l))[1]) for l in range(1, nl + 1)]
        for k in range(nl + 1):
            t = [(C.c_float * max(k, 1))() for _ in range(4)]
            n = C.c_int(k)
            e = L.GetFASTtens(C.byref(n), *t) if v1 else L.MoorDyn_GetFASTtens(h, C.byref(n), *t)
            out["fast%d" % k] = [e, n.value, [vs(q) for q in t]]
        out["pos"] = [vec(lambda a: L.GetPointPos(p, a), lambda a: L.MoorDyn_GetPointPos(pt(p), a)) for p in range(1, np_ + 1)]
        out["force"] = [vec(lambda a: L.GetPointForce(p, a), lambda a: L.MoorDyn_GetPointForce(pt(p), a)) for p in range(1, np_ + 1)]
        out["node"] = [vec(lambda a: L.GetNodePos(l + 1, i, a), lambda a: L.MoorDyn_GetLineNodePos(ln(l + 1), i, a))
                       for l in range(nl) for i in range(nodes[l] + 1)]
        if op.get("ext"):
            n = op["ext"]
            a = (D * (3 * n))(*([float("nan")] * (3 * n)))
            (L.getWaveKinCoordinates(a) if v1 else L.MoorDyn_ExternalWaveKinGetCoordinates(h, a))
            out["coord"] = vs(a)
        if v1:
            for l in (0, nl + 1, -1, 1 << 20):
                bogus = bogus and L.GetFairTen(l) == -1 and vec(lambda a: L.GetNodePos(l, 0, a), None)[0] != 0
            for p in (0, np_ + 1, -1):
                bogus = bogus and vec(lambda a: L.GetPointPos(p, a), None)[0] != 0 and vec(lambda a: L.GetPointForce(p, a), None)[0] != 0
            for i in (nodes[0] + 1, -1, 1 << 20):
                bogus = bogus and vec(lambda a: L.GetNodePos(1, i, a), None)[0] != 0
            t = [(C.c_float * (nl + 1))() for _ in range(4)]
            for k in (nl + 1, -1):
                bogus = bogus and L.GetFASTtens(C.byref(C.c_int(k)), *t) != 0
        return {k: dig(v) for k, v in out.items()}, bogus

    def op_v1obs(self, op):
        v, b = self.view(True, None, op)
        a = (D * 3)()
        return {"views": v, "bogus": b, "ret": self.L.GetPointPos(1, a)}

    def op_v2obs(self, op):
        return {"views": self.view(False, self.H(op), op)[0]}

    def op_v1wave(self, op):
        """imposed water motion through either interface; n is fixed by the system"""
        U, A = (self.md.arr([float(t) for p in op[k] for t in p]) for k in "UA")
        if op.get("v2"):
            self.L.MoorDyn_ExternalWaveKinSet(self.H(op), U, A, float(op["t"]))
        else:
            self.L.setWaveKin(U, A, float(op["t"]))
        return {}

    def op_fasttens(self, op):
        n = C.c_int(op["lines"])
        k = op["lines"]
        a = [(C.c_float * k)() for _ in range(4)]
        if op.get("v1"):
            r = self.L.GetFASTtens(C.byref(n), *a)
        else:
            r = self.L.MoorDyn_GetFASTtens(self.H(op), C.byref(n), *a)
        return {"ret": r, "t": [vs(x) for x in a]}

    def op_v1ext(self, op):
        n = self.L.externalWaveKinInit()
        return {"ret": 0 if n else 1, "views": {"n": n}}

    def op_v2ext(self, op):
        return {"ret": 0, "views": {"n": self.op_extinit(op)["n"]}}


def main():
    lib, script, outp = sys.argv[1:4]
    ops = json.load(open(script))
    with open(outp, "w") as out:
        w = Worker(lib, out)
        for k, op in enumerate(ops):
            out.write('{"begin":%d}\n' % k)
            out.flush()
            ev = w.run(op)
            out.write(json.dumps(ev, separators=(",", ":")) + "\n")
            out.flush()
        out.write('{"end":1}\n')
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
