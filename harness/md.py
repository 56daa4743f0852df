"""ctypes binding of MoorDyn's public C API (v2 and v1).  Nothing but the
documented entry points is used, so any behaviour preserving edit of the
library leaves the driver untouched."""
import ctypes as C
import os

D = C.c_double
P = C.POINTER


def fs(v):
    """double -> the string the specification works with"""
    return repr(float(v))


def vs(a):
    return [fs(v) for v in a]


class MD:
    def __init__(self, libpath):
        self.lib = L = C.CDLL(libpath)
        vp = C.c_void_p
        for n in ("MoorDyn_Create", "MoorDyn_GetWaves", "MoorDyn_GetSeafloor",
                  "MoorDyn_GetBody", "MoorDyn_GetRod", "MoorDyn_GetPoint",
                  "MoorDyn_GetLine"):
            getattr(L, n).restype = vp
        L.MoorDyn_Create.argtypes = [C.c_char_p]
        for n in ("MoorDyn_GetWaves", "MoorDyn_GetSeafloor", "MoorDyn_Close"):
            getattr(L, n).argtypes = [vp]
        for n in ("MoorDyn_GetBody", "MoorDyn_GetRod", "MoorDyn_GetPoint", "MoorDyn_GetLine"):
            getattr(L, n).argtypes = [vp, C.c_uint]
        for n in ("MoorDyn_NCoupledDOF", "MoorDyn_GetNumberBodies", "MoorDyn_GetNumberRods",
                  "MoorDyn_GetNumberPoints", "MoorDyn_GetNumberLines",
                  "MoorDyn_ExternalWaveKinInit", "MoorDyn_ExternalWaveKinGetN",
                  "MoorDyn_GetPointNAttached", "MoorDyn_GetLineN",
                  "MoorDyn_GetLineNumberNodes", "MoorDyn_GetRodN", "MoorDyn_GetRodNumberNodes"):
            getattr(L, n).argtypes = [vp, P(C.c_uint)]
        L.MoorDyn_SetVerbosity.argtypes = [vp, C.c_int]
        L.MoorDyn_SetLogLevel.argtypes = [vp, C.c_int]
        L.MoorDyn_SetLogFile.argtypes = [vp, C.c_char_p]
        L.MoorDyn_Log.argtypes = [vp, C.c_int, C.c_char_p]
        L.MoorDyn_Init.argtypes = [vp, vp, vp]
        L.MoorDyn_Init_NoIC.argtypes = [vp, vp, vp]
        L.MoorDyn_Step.argtypes = [vp, vp, vp, vp, P(D), P(D)]
        L.MoorDyn_ExternalWaveKinGetCoordinates.argtypes = [vp, vp]
        L.MoorDyn_ExternalWaveKinSet.argtypes = [vp, vp, vp, D]
        for n in ("GetDt", "GetCFL"):
            getattr(L, "MoorDyn_" + n).argtypes = [vp, P(D)]
        for n in ("SetDt", "SetCFL"):
            getattr(L, "MoorDyn_" + n).argtypes = [vp, D]
        L.MoorDyn_GetTimeScheme.argtypes = [vp, C.c_char_p, P(C.c_size_t)]
        L.MoorDyn_SetTimeScheme.argtypes = [vp, C.c_char_p]
        L.MoorDyn_Serialize.argtypes = [vp, P(C.c_size_t), vp]
        L.MoorDyn_Deserialize.argtypes = [vp, vp]
        for n in ("MoorDyn_Save", "MoorDyn_Load", "MoorDyn_SaveVTK", "MoorDyn_SaveLineVTK",
                  "MoorDyn_SaveBodyVTK", "MoorDyn_SavePointVTK", "MoorDyn_SaveRodVTK",
                  "MoorDyn_UseBodyVTK"):
            getattr(L, n).argtypes = [vp, C.c_char_p]
        L.MoorDyn_GetFASTtens.argtypes = [vp, P(C.c_int), vp, vp, vp, vp]
        for n in ("BodyID", "BodyType", "PointID", "PointType", "LineID", "RodID", "RodType"):
            getattr(L, "MoorDyn_Get" + n).argtypes = [vp, P(C.c_int)]
        L.MoorDyn_GetBodyState.argtypes = [vp, vp, vp]
        for n in ("BodyPos", "BodyAngle", "BodyVel", "BodyAngVel", "BodyForce", "BodyM",
                  "PointPos", "PointVel", "PointForce", "PointM", "RodForce", "RodM"):
            getattr(L, "MoorDyn_Get" + n).argtypes = [vp, vp]
        L.MoorDyn_GetPointAttached.argtypes = [vp, C.c_uint, P(vp), P(C.c_int)]
        for n in ("UnstretchedLength", "ConstantEA", "FairTen", "MaxTen"):
            getattr(L, "MoorDyn_GetLine" + n).argtypes = [vp, P(D)]
        for n in ("UnstretchedLength", "UnstretchedLengthVel", "ConstantEA"):
            getattr(L, "MoorDyn_SetLine" + n).argtypes = [vp, D]
        L.MoorDyn_IsLineConstantEA.argtypes = [vp, P(C.c_int)]
        L.MoorDyn_IsLinePressBend.argtypes = [vp, P(C.c_int)]
        L.MoorDyn_SetLinePressBend.argtypes = [vp, C.c_int]
        L.MoorDyn_SetLinePressInt.argtypes = [vp, vp]
        for n in ("Pos", "Vel", "Force", "Ten", "BendStiff", "Weight", "Drag",
                  "FroudeKrilov", "SeabedForce", "M"):
            getattr(L, "MoorDyn_GetLineNode" + n).argtypes = [vp, C.c_uint, vp]
        L.MoorDyn_GetLineNodeCurv.argtypes = [vp, C.c_uint, P(D)]
        L.MoorDyn_GetRodNodePos.argtypes = [vp, C.c_uint, vp]
        L.MoorDyn_GetRodNodeVel.argtypes = [vp, C.c_uint, vp]
        L.MoorDyn_GetWavesKin.argtypes = [vp, D, D, D, vp, vp, P(D), P(D), vp]
        L.WaveNumber.argtypes = [D, D, D]
        L.WaveNumber.restype = D
        L.MoorDyn_GetDepthAt.argtypes = [vp, D, D, P(D)]
        L.MoorDyn_GetAverageDepth.argtypes = [vp, P(D)]
        L.MoorDyn_GetMinDepth.argtypes = [vp, P(D)]
        # v1
        L.MoorDynInit.argtypes = [vp, vp, C.c_char_p]
        L.MoorDynStep.argtypes = [vp, vp, vp, P(D), P(D)]
        L.getWaveKinCoordinates.argtypes = [vp]
        L.getWaveKinCoordinates.restype = None
        L.setWaveKin.argtypes = [vp, vp, D]
        L.setWaveKin.restype = None
        L.GetFairTen.argtypes = [C.c_int]
        L.GetFairTen.restype = D
        L.GetFASTtens.argtypes = [P(C.c_int), vp, vp, vp, vp]
        L.GetPointPos.argtypes = [C.c_int, vp]
        L.GetPointForce.argtypes = [C.c_int, vp]
        L.GetNodePos.argtypes = [C.c_int, C.c_int, vp]

    # ---- helpers
    @staticmethod
    def arr(v):
        """python list -> C double array; exactly sized heap block, so that
        ASan sees any read past the documented length"""
        if v is None:
            return None
        return (D * len(v))(*v)

    def u(self, fn, h):
        n = C.c_uint(0)
        e = getattr(self.lib, fn)(h, C.byref(n))
        return e, n.value

    def i(self, fn, h):
        n = C.c_int(-12345)
        e = getattr(self.lib, fn)(h, C.byref(n))
        return e, n.value

    def d(self, fn, h):
        n = D(float("nan"))
        e = getattr(self.lib, fn)(h, C.byref(n))
        return e, n.value

    def v(self, fn, h, n, *pre):
        a = (D * n)(*([float("nan")] * n))
        e = getattr(self.lib, fn)(h, *pre, C.cast(a, C.c_void_p))
        return e, list(a)
