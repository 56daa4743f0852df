"""Calls of the Python module next to the same calls of the C API.

Two instances of the same system live side by side: one is handled through the
Python module alone ("py"), the other one through the C API ("c").  Every
operation is carried out on both, and what each of them answered is recorded;
what both systems look like afterwards is seen through the C API."""
import contextlib
import ctypes as C
import hashlib
import importlib
import io
import os
import sys
import tempfile

from md import D, P, fs, vs

U, I = C.c_uint, C.c_int
NAMES = {b"MoorDyn": "system", b"MoorDynWaves": "waves", b"MoorDynSeafloor": "seafloor", b"MoorDynBody": "body",
         b"MoorDynRod": "rod", b"MoorDynPoint": "point", b"MoorDynLine": "line"}
# python function -> [C function, what it works on, how it is called, what else it takes]
V3 = {"GetBodyPos": "body", "GetBodyAngle": "body", "GetBodyVel": "body", "GetBodyAngVel": "body",
      "GetPointPos": "point", "GetPointVel": "point", "GetPointForce": "point"}
NODE = ["Pos", "Vel", "Force", "Ten", "BendStiff", "Weight", "Drag", "FroudeKrilov", "SeabedForce"]


def sha(b):
    return hashlib.sha1(b).hexdigest()[:16]


class PySide:
    def load(self, ext, pkg):
        sys.path[:0] = [ext, pkg]
        self.m = importlib.import_module("moordyn")
        self.api = C.pythonapi
        self.api.PyCapsule_GetName.restype = C.c_char_p
        self.api.PyCapsule_GetName.argtypes = [C.py_object]
        self.api.PyCapsule_GetPointer.restype = C.c_void_p
        self.api.PyCapsule_GetPointer.argtypes = [C.py_object, C.c_char_p]
        self.cap, self.cobj = {}, {}

    # ---- objects
    def ptr(self, cap):
        n = self.api.PyCapsule_GetName(cap)
        return NAMES.get(n, "?"), self.api.PyCapsule_GetPointer(cap, n)

    def plain(self, v):
        """what Python answered, in the words of the trace"""
        if v is None:
            return {"none": True}
        if isinstance(v, bool):
            return {"bool": v}
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            return fs(v)
        if isinstance(v, (bytes, bytearray)):
            return {"bytes": sha(bytes(v)), "n": len(v)}
        if isinstance(v, (list, tuple)):
            return [self.plain(x) for x in v]
        if type(v).__name__ == "PyCapsule":
            k, p = self.ptr(v)
            return {"handle": k, "id": self.ident(k, p)}
        return {"other": type(v).__name__}

    def ident(self, k, p):
        if k in ("body", "rod", "point", "line"):
            return self.md.i("MoorDyn_Get%sID" % k.capitalize(), p)[1]
        return 0 if p else -1

    def who(self, o):
        """the object an operation works on, on both sides"""
        k, i = o
        if k == "system":
            return self.psys, self.h["c"]
        key = (k, i)
        if key not in self.cap:
            if k in ("waves", "seafloor"):
                f = {"waves": "Waves", "seafloor": "Seafloor"}[k]
                self.cap[key] = getattr(self.m, "Get" + f)(self.psys)
                self.cobj[key] = getattr(self.L, "MoorDyn_Get" + f)(self.h["c"])
            else:
                f = k.capitalize()
                self.cap[key] = getattr(self.m, "Get" + f)(self.psys, i)
                self.cobj[key] = getattr(self.L, "MoorDyn_Get" + f)(self.h["c"], i)
        return self.cap[key], self.cobj[key]

    # ---- the same call in C: -> (C function, return code, value)
    def ccall(self, f, h, a):
        L, md = self.L, self.md
        fn = "MoorDyn_" + {"GetWaveKinCoordinates": "ExternalWaveKinGetCoordinates", "SetWaveKin": "ExternalWaveKinSet"}.get(f, f)
        g = getattr(L, fn)
        arr = lambda v: (D * max(1, len(v)))(*v)
        if f in V3:
            e, v = md.v(fn, h, 3)
            return fn, e, vs(v)
        if f in ("GetBodyForce", "GetRodForce"):
            e, v = md.v(fn, h, 6)
            return fn, e, vs(v)
        if f in ("GetBodyM", "GetRodM", "GetPointM"):
            n = 3 if f == "GetPointM" else 6
            e, v = md.v(fn, h, n * n)
            return fn, e, [vs(v[n * i:n * i + n]) for i in range(n)]
        if f.startswith(("GetLineNode", "GetRodNode")):
            if f == "GetLineNodeCurv":
                x = D(float("nan"))
                return fn, g(h, a[0], C.byref(x)), fs(x.value)
            if f == "GetLineNodeM":
                e, v = md.v(fn, h, 9, a[0])
                return fn, e, [vs(v[3 * i:3 * i + 3]) for i in range(3)]
            e, v = md.v(fn, h, 3, a[0])
            return fn, e, vs(v)
        if f == "GetBodyState":
            r, rd = (D * 6)(), (D * 6)()
            return fn, g(h, r, rd), [vs(r), vs(rd)]
        if f in ("GetBodyID", "GetBodyType", "GetRodID", "GetRodType", "GetPointID", "GetPointType", "GetLineID"):
            return (fn,) + md.i(fn, h)
        if f in ("GetRodN", "GetLineN", "GetPointNAttached", "NCoupledDOF", "GetNumberBodies", "GetNumberRods", "GetNumberPoints",
                 "GetNumberLines", "ExternalWaveKinInit", "ExternalWaveKinGetN"):
            return (fn,) + md.u(fn, h)
        if f in ("GetLineUnstretchedLength", "GetLineConstantEA", "GetLineFairTen", "GetLineMaxTen", "GetAverageDepth", "GetMinDepth"):
            e, v = md.d(fn, h)
            return fn, e, fs(v)
        if f in ("IsLineConstantEA", "IsLinePressBend"):
            return (fn,) + md.i(fn, h)
        if f in ("SetLineUnstretchedLength", "SetLineUnstretchedLengthVel", "SetLineConstantEA"):
            return fn, g(h, a[0]), 0
        if f == "SetLinePressBend":
            return fn, g(h, int(a[0])), 0
        if f == "SetLinePressInt":
            return fn, g(h, arr(a[0])), 0
        if f == "GetPointAttached":
            l, e = C.c_void_p(), I(-1)
            r = g(h, a[0], C.byref(l), C.byref(e))
            return fn, r, [{"handle": "line", "id": self.ident("line", l.value)}, e.value] if r == 0 else []
        if f == "GetDepthAt":
            x = D(float("nan"))
            return fn, g(h, a[0], a[1], C.byref(x)), fs(x.value)
        if f == "GetWavesKin":
            u, ud, z, p = (D * 3)(), (D * 3)(), D(), D()
            r = g(h, a[0], a[1], a[2], u, ud, C.byref(z), C.byref(p), self.cobj[("seafloor", 0)] if len(a) > 3 else None)
            return fn, r, [vs(u), vs(ud), fs(z.value), fs(p.value)]
        if f in ("Init", "Init_NoIC"):
            return fn, g(h, arr(a[0]), arr(a[1])), 0
        if f == "Step":
            n = len(a[0])
            F, t, dt = (D * max(1, n))(), D(a[2]), D(a[3])
            e = g(h, arr(a[0]), arr(a[1]), F, C.byref(t), C.byref(dt))
            return fn, e, vs(F)[:n]
        if f == "Close":
            return fn, g(h), 0
        if f in ("GetWaves", "GetSeafloor"):
            p = g(h)
            return fn, 0, {"handle": f[3:].lower(), "id": 0} if p else "null"
        if f in ("GetBody", "GetRod", "GetPoint", "GetLine"):
            p = g(h, a[0])
            return fn, 0, {"handle": f[3:].lower(), "id": self.ident(f[3:].lower(), p)} if p else "null"
        if f == "GetWaveKinCoordinates":
            e, n = md.u("MoorDyn_ExternalWaveKinGetN", h)
            x = (D * (3 * n + 1))()
            e = e or g(h, x)
            return fn, e, [vs(x[3 * i:3 * i + 3]) for i in range(n)]
        if f == "SetWaveKin":
            return fn, g(h, arr(sum(a[0], [])), arr(sum(a[1], [])), a[2]), 0
        if f == "GetFASTtens":
            n = a[0]
            w = [(C.c_float * max(1, n))() for _ in range(4)]
            e = g(h, C.byref(I(n)), *w)
            return fn, e, [vs(x)[:n] for x in w]
        if f == "Serialize":
            n = C.c_size_t(0)
            e = g(h, C.byref(n), None)
            b = (C.c_uint8 * max(8, n.value))()
            e = e or g(h, None, C.cast(b, C.c_void_p))
            self.cbytes = bytes(b)[:n.value]
            return fn, e, {"bytes": sha(self.cbytes), "n": n.value}
        if f == "Deserialize":
            b = self.cbytes
            return fn, g(h, C.cast((C.c_uint8 * len(b)).from_buffer_copy(b), C.c_void_p)), 0
        if f in ("Save", "Load"):
            return fn, g(h, a[1].encode()), 0
        if f in ("SetVerbosity", "SetLogLevel"):
            return fn, g(h, a[0]), 0
        if f == "SetLogFile":
            return fn, g(h, a[1].encode()), 0
        if f == "Log":
            return fn, g(h, a[0], a[1].encode()), 0
        if f in ("SaveVTK", "SaveBodyVTK", "SaveRodVTK", "SavePointVTK", "SaveLineVTK", "UseBodyVTK"):
            return fn, g(h, a[0].encode()), 0
        raise KeyError(f)

    # ---- operations
    def op_pyload(self, op):
        self.load(op["ext"], op["pkg"])
        return {"consts": {k: getattr(self.m, k, "missing") for k in op["consts"]}}

    def num(self, a):
        """numbers travel as strings"""
        if isinstance(a, list):
            return [self.num(x) for x in a]
        if isinstance(a, dict):
            return {"s": lambda: a["s"], "i": lambda: a["i"], "b": lambda: a["b"], "bad": lambda: object()}[next(iter(a))]()
        return float(a)

    def op_pycreate(self, op):
        self.h["c"] = self.L.MoorDyn_Create(op["c"].encode())
        try:
            self.psys = self.m.Create(op["p"]) if op["p"] else self.m.Create()
            d = {"exc": "", "v": self.plain(self.psys)}
            self.h["p"] = self.ptr(self.psys)[1]
        except Exception as x:
            d = {"exc": type(x).__name__, "v": {"none": True}}
            self.psys = None
        return {"py": d, "made": bool(self.h["c"])}

    def op_call(self, op):
        if self.psys is None:
            return {"skip": True}
        f, a = op["f"], self.num(op["a"])
        pyo, co = self.who(op["o"])
        pa = list(a)
        if f in ("Save", "Load", "SetLogFile"):
            pa = pa[:1]
        if f == "GetWavesKin" and len(a) > 3:
            pa[3], _ = self.who(["seafloor", 0])
        if f == "Deserialize":
            pa = [self.pbytes]
        seen = {"p": [], "c": []}
        try:
            if f == "Log":
                v, s = self.caught(getattr(self.m, f), pyo, *pa)
                seen["p"] = [s["out"], s["serr"]]
            else:
                v = getattr(self.m, f)(pyo, *pa)
            if f == "Serialize":
                self.pbytes = v
            py = {"exc": "", "v": self.plain(v)}
        except Exception as x:
            py = {"exc": type(x).__name__, "v": {"none": True}, "msg": str(x)[:200]}
        if op.get("onlypy"):
            c = {"fn": "none", "ret": 0, "v": 0}
        else:
            if f == "Log":
                (fn, ret, v), s = self.caught(self.ccall, f, co, a)
                seen["c"] = [s["out"], s["serr"]]
            else:
                fn, ret, v = self.ccall(f, co, a)
            c = {"fn": fn, "ret": ret, "v": v}
        d = {"py": py, "c": c, "seen": seen, "dg": {"p": "closed", "c": "closed"}}
        if f == "Close":
            self.h.clear()
        elif op.get("look"):
            d["dg"] = {k: self.dig(self.h[k]) for k in "pc"}
        else:
            d["dg"] = {"p": "not looked at", "c": "not looked at"}
        if f == "Save":
            d["same"] = os.path.exists(a[0]) and open(a[0], "rb").read() == open(a[1], "rb").read()
        return d

    def dig(self, h):
        import worker
        return worker.dig(self.obs(h, True))

    def op_pylogs(self, op):
        """which messages are in either log"""
        rd = lambda p: open(p, errors="replace").read() if os.path.exists(p) else ""
        p, c = rd(op["p"]), rd(op["c"])
        return {"in": [{"m": m, "p": m in p, "c": m in c} for m in op["msgs"]]}

    # ---- the generator of input files
    def unval(self, v):
        k, x = next(iter(v.items()))
        return {"n": lambda: float(x), "i": lambda: x, "s": lambda: x, "b": lambda: x, "l": lambda: [float(y) for y in x],
                "o": lambda: self.gobj[x], "none": lambda: None}[k]()

    def val(self, v):
        if v is None:
            return {"none": True}
        for n, o in self.gobj.items():
            if o is v:
                return {"o": n}
        if isinstance(v, bool):
            return {"b": v}
        if isinstance(v, int):
            return {"i": v}
        if isinstance(v, float):
            return {"n": repr(v)}
        if isinstance(v, str):
            return {"s": v}
        if hasattr(v, "values"):
            return {"l": [repr(x) for x in v.values]}
        return {"s": "unknown " + type(v).__name__}

    def op_gen(self, op):
        G = self.m.Generator
        if not hasattr(self, "gobj"):
            self.gobj = {}
            os.makedirs(op["dir"], exist_ok=True)
            self.gdir = tempfile.tempdir = tempfile.mkdtemp(dir=op["dir"])
            self.mooring = G.Mooring()
        d = {"exc": "", "secs": [], "ndof": -1, "got": {"none": True}}
        try:
            c = op["c"]
            if c == "new":
                self.gobj[op["o"]] = getattr(G, op["k"])(*[self.unval(v) for v in op["a"]])
            elif c == "set":
                o = self.gobj[op["o"]]
                if not hasattr(o, op["f"]):
                    raise AttributeError(op["f"])
                setattr(o, op["f"], self.unval(op["v"]))
            elif c == "values":
                getattr(self.gobj[op["o"]], op["f"]).values = self.unval(op["v"])
            elif c == "get":
                d["got"] = self.val(getattr(self.gobj[op["o"]], op["f"]))
            elif c == "number":
                d["got"] = self.gobj[op["o"]].name
            elif c == "add":
                getattr(self.mooring, "Add" + op["k"])(self.gobj[op["o"]])
            elif c == "create":
                with contextlib.redirect_stdout(io.StringIO()):
                    s = self.mooring.Create()
                    d["ndof"] = self.m.NCoupledDOF(s)
                    self.m.Close(s)
                fs_ = [os.path.join(a, f) for a, _, b in os.walk(self.gdir) for f in b if f.endswith(".txt")]
                d["written"] = len(fs_)
                for line in open(fs_[0]).read().splitlines():
                    if line.startswith("---"):
                        d["secs"].append({"s": line, "rows": []})
                    elif d["secs"]:
                        d["secs"][-1]["rows"].append(line.split())
        except Exception as x:
            d["exc"] = "%s: %s" % (type(x).__name__, x)
        return d
