"""Calls of the Fortran module next to the same calls of the C API.

The procedures of the module are reached through a shared library made of the
module and of one forwarding function per procedure (glue() below), which is
all that is needed to call Fortran from here.  As in pyside.py there are two
instances of the same system, one for each side."""
import ctypes as C
import os

from md import D, P, fs, vs

I = C.c_int
# procedure -> what it takes after the handle: i integer in, d real in, s text in, v array in, I integer out, D real out, V array out,
# h handle in, H handle out, X real in and out; an answer of its own, unless it is a handle
FORMS = {}
for n in "NCoupledDOF ExternalWaveKinInit ExternalWaveKinGetN GetNumberBodies GetNumberRods GetNumberPoints GetNumberLines GetBodyID " \
         "GetBodyType GetRodID GetRodType GetRodN GetRodNumberNodes GetPointID GetPointType GetPointNAttached GetLineID GetLineN " \
         "GetLineNumberNodes IsLineConstantEA IsLinePressBend".split():
    FORMS[n] = "I"
for n in "SetVerbosity SetLogLevel SetLinePressBend".split():
    FORMS[n] = "i"
for n in "SetLogFile Save Load SaveVTK SaveBodyVTK UseBodyVTK SaveRodVTK SavePointVTK SaveLineVTK".split():
    FORMS[n] = "s"
for n in "GetBodyPos GetBodyAngle GetBodyVel GetBodyAngVel GetBodyForce GetBodyM GetRodForce GetRodM GetPointPos GetPointVel " \
         "GetPointForce GetPointM ExternalWaveKinGetCoordinates".split():
    FORMS[n] = "V"
for n in "Pos Vel Force Ten BendStiff Weight Drag FroudeKrilov SeabedForce M".split():
    FORMS["GetLineNode" + n] = "iV"
for n in "GetLineUnstretchedLength GetLineConstantEA GetLineFairTen GetLineMaxTen GetAverageDepth GetMinDepth".split():
    FORMS[n] = "D"
for n in "SetLineUnstretchedLength SetLineUnstretchedLengthVel SetLineConstantEA".split():
    FORMS[n] = "d"
FORMS.update({"Log": "is", "Init": "vv", "Init_NoIC": "vv", "Step": "vvVXX", "Close": "", "ExternalWaveKinSet": "vvd",
              "GetFASTtens": "jVVVV", "GetWavesKin": "ddddVVDDh", "GetDepthAt": "ddD", "GetBodyState": "VV", "GetRodNodePos": "iV",
              "GetRodNodeVel": "iV", "GetPointAttached": "iHI", "SetLinePressInt": "v", "GetLineNodeCurv": "iD"})
HANDLES = {"GetWaves": "", "GetSeafloor": "", "GetBody": "i", "GetRod": "i", "GetPoint": "i", "GetLine": "i"}
CONSTS = ["MD_SUCESS", "MD_INVALID_INPUT_FILE", "MD_INVALID_OUTPUT_FILE", "MD_INVALID_INPUT", "MD_NAN_ERROR", "MD_MEM_ERROR",
          "MD_INVALID_VALUE", "MD_NON_IMPLEMENTED", "MD_UNHANDLED_ERROR", "MD_ERR_LEVEL", "MD_WRN_LEVEL", "MD_MSG_LEVEL", "MD_DBG_LEVEL",
          "MD_NO_OUTPUT"]


def glue():
    """the forwarding functions"""
    o = ["module fside", "use, intrinsic :: iso_c_binding", "use moordyn", "implicit none", "contains",
         "function text(n, s) result(t)", "integer, intent(in) :: n", "character(kind=c_char), intent(in) :: s(*)",
         "character(len=n) :: t", "integer :: j", "do j = 1, n", "t(j:j) = s(j)", "end do", "end function text",
         "type(c_ptr) function fs_create(n, s) bind(c, name='FS_Create')", "integer(c_int), value :: n",
         "character(kind=c_char), intent(in) :: s(*)", "fs_create = MD_Create(text(n, s))", "end function fs_create",
         "integer(c_int) function fs_const(i) bind(c, name='FS_Const')", "integer(c_int), value :: i",
         "integer :: list(%d) = (/%s/)" % (len(CONSTS), ", ".join(CONSTS)), "fs_const = list(i)", "end function fs_const"]
    for f, form in list(FORMS.items()) + list(HANDLES.items()):
        args, decl, use = ["h"], ["type(c_ptr), value :: h"], ["h"]
        for k, c in enumerate(form):
            a, n = "a%d" % k, "n%d" % k
            u = a
            if c in "ijd":
                decl.append(("integer(c_int)" if c in "ij" else "real(c_double)") + ", value :: " + a)
            elif c == "s":
                args.append(n)
                decl += ["integer(c_int), value :: " + n, "character(kind=c_char), intent(in) :: %s(*)" % a]
                u = "text(%s, %s)" % (n, a)
            elif c in "vV":
                args.append(n)
                decl += ["integer(c_int), value :: " + n, "real(c_double), intent(inout) :: %s(%s)" % (a, n)]
            elif c in "IDXH":
                decl.append({"I": "integer(c_int)", "D": "real(c_double)", "X": "real(c_double)", "H": "type(c_ptr)"}[c] + ", intent(inout) :: " + a)
            elif c == "h":
                decl.append("type(c_ptr), value :: " + a)
            args.append(a)
            use.append(u)
        t = "type(c_ptr)" if f in HANDLES else "integer(c_int)"
        g = "fs_" + f.lower()
        o += ["%s function %s(%s) bind(c, name='FS_%s')" % (t, g, ", ".join(args), f)] + decl + \
             ["%s = MD_%s(%s)" % (g, f, ", ".join(use)), "end function " + g]
    return "\n".join(o + ["end module fside", ""])


SIZE = {"GetBodyM": 36, "GetRodM": 36, "GetPointM": 9, "GetLineNodeM": 9, "GetBodyForce": 6, "GetRodForce": 6, "GetBodyState": 6}


class FSide:
    def op_fload(self, op):
        try:
            self.F = C.CDLL(op["lib"])
        except OSError as x:   # a procedure without a C function
            self.F = None
            return {"consts": {}, "link": str(x).split(": ", 1)[1]}
        self.F.FS_Create.restype = C.c_void_p
        for f in HANDLES:
            getattr(self.F, "FS_" + f).restype = C.c_void_p
        self.cobj, self.fobj = {}, {}
        return {"consts": {n: self.F.FS_Const(i + 1) for i, n in enumerate(CONSTS)}, "link": ""}

    def op_fcreate(self, op):
        if not self.F:
            return {"made": False, "fort": False}
        self.h["c"] = self.L.MoorDyn_Create(op["c"].encode())
        b = op["p"].encode()
        self.h["p"] = self.F.FS_Create(len(b), b)
        d = {"made": bool(self.h["c"]), "fort": bool(self.h["p"])}
        if not (d["made"] and d["fort"]):
            self.h.clear()
        return d

    def fwho(self, o):
        k, i = o
        if k == "system":
            return self.h["p"], self.h["c"]
        key = (k, i)
        if key not in self.fobj:
            f = k.capitalize()
            a = () if k in ("waves", "seafloor") else (i,)
            self.fobj[key] = getattr(self.F, "FS_Get" + f)(C.c_void_p(self.h["p"]), *a)
            self.cobj[key] = getattr(self.L, "MoorDyn_Get" + f)(self.h["c"], *a)
        return self.fobj[key], self.cobj[key]

    def fident(self, k, p):
        if k in ("body", "rod", "point", "line"):
            return {"handle": k, "id": self.md.i("MoorDyn_Get%sID" % k.capitalize(), p)[1]}
        return {"handle": k, "id": 0}

    def op_fcall(self, op):
        if "c" not in self.h:
            return {"skip": True}
        f, a = op["f"], self.num(op["a"])
        ho, co = self.fwho(op["o"])
        if f in HANDLES:
            k = f[3:].lower()
            p = getattr(self.F, "FS_" + f)(C.c_void_p(ho), *a)
            c = getattr(self.L, "MoorDyn_" + f)(co, *a)
            w = lambda x: self.fident(k, x) if x else "null"
            return {"code": {"f": 0, "c": 0}, "v": {"f": w(p), "c": w(c)}, "seen": {"f": [], "c": []}, "dg": {"p": "not looked at", "c": "not looked at"}}
        ret, v, seen = {}, {}, {"f": [], "c": []}
        for side, h in (("f", ho), ("c", co)):
            b = list(a)
            if f in ("Save", "Load", "SetLogFile"):
                b = [a[0] if side == "f" else a[1]]
            if f == "GetFASTtens":
                b = [a[0]]
            if f == "ExternalWaveKinSet":
                b = [sum(a[0], []), sum(a[1], []), a[2]]
            if f == "GetWavesKin":
                sf = self.fwho(["seafloor", 0])[0 if side == "f" else 1] if len(a) > 3 else None
                b = a[:3] + [0.0] * (side == "f") + [sf]
            if f == "Step":
                b = [a[0], a[1], a[2], a[3]]
            if f == "Log":
                (ret[side], v[side]), s = self.caught(self.one, side, f, h, b)
                seen[side] = [s["out"], s["serr"]]
            else:
                ret[side], v[side] = self.one(side, f, h, b)
        d = {"code": ret, "v": v, "seen": seen}
        if f == "Close":
            self.h.clear()
            d["dg"] = {"p": "closed", "c": "closed"}
        elif op.get("look"):
            d["dg"] = {k: self.dig(self.h[k]) for k in "pc"}
        else:
            d["dg"] = {"p": "not looked at", "c": "not looked at"}
        if f == "Save":
            d["same"] = os.path.exists(a[0].rstrip()) and open(a[0].rstrip(), "rb").read() == open(a[1], "rb").read()
        return d

    def one(self, side, f, h, a):
        """one call; what it answered and what it wrote"""
        form = FORMS[f]
        if side == "c" and f == "GetWavesKin":
            form = "dddVVDDh"
        fort = side == "f"
        g = getattr(self.F, "FS_" + f) if fort else getattr(self.L, "MoorDyn_" + f)
        g.argtypes = None
        g.restype = I
        args, outs, ins, m = [C.c_void_p(h)], [], list(a), 0
        if f == "ExternalWaveKinGetCoordinates":
            m = 3 * self.md.u("MoorDyn_ExternalWaveKinGetN", self.h["c"])[1]
        for c in form:
            if c in "ij":
                x = int(ins.pop(0))
                n = x
                if c == "j":
                    args.append(I(x) if fort else C.byref(I(x)))
                else:
                    args.append(I(x))
            elif c == "d":
                args.append(D(ins.pop(0)))
            elif c == "s":
                t = ins.pop(0).encode()
                args += [I(len(t)), t] if fort else [t.rstrip(b" ")]
            elif c == "v":
                w = ins.pop(0)
                args += ([I(len(w))] if fort else []) + [(D * max(1, len(w)))(*w)]
                m = len(w)
            elif c == "V":
                k = n if f == "GetFASTtens" else m if f in ("Step", "ExternalWaveKinGetCoordinates") else SIZE.get(f, 3)
                T = C.c_float if f == "GetFASTtens" and not fort else D
                y = (T * max(1, k))(*[float("nan")] * k)
                args += ([I(k)] if fort else []) + [y]
                outs.append(lambda y=y, k=k: vs(y)[:k])
            elif c == "I":
                y = I(-77)
                args.append(C.byref(y))
                outs.append(lambda y=y: y.value)
            elif c in "DX":
                y = D(ins.pop(0) if c == "X" else float("nan"))
                args.append(C.byref(y))
                outs.append(lambda y=y: fs(y.value))
            elif c == "H":
                y = C.c_void_p()
                args.append(C.byref(y))
                outs.append(lambda y=y: self.fident("line", y.value) if y.value else "null")
            elif c == "h":
                args.append(C.c_void_p(ins.pop(0)))
        r = g(*args)
        return r, [x() for x in outs]
