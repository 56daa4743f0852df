"""The Fortran module answers and acts as the C API."""
from _world import *
import os
import sys

import P25
import fside
from common import ROOT
sys.path.insert(0, os.path.join(ROOT, "tools"))
import build_lib

RULE = ("sessions held through the Fortran module and, call by call, through the C API on a second instance of the same system; a case is "
        "one call on both sides; every session has another system and other calls")
ASSUMES = ASSUMES + ["the C API repeats itself (property P03), which is how the two instances can be compared",
                     "arrays are contiguous and as long as the C API asks for, the Fortran compiler translates the forwarding functions correctly"]
NAMES = {"GetWaveKinCoordinates": "ExternalWaveKinGetCoordinates", "SetWaveKin": "ExternalWaveKinSet"}
TEXTS = {"SetLogFile": 0, "Save": 0, "Load": 0, "Log": 1}


def translate(lib, r):
    def f(ops):
        out = []
        for o in ops:
            if o["op"] == "pyload":
                o = {"op": "fload", "lib": lib}
            elif o["op"] == "pycreate":
                o = {"op": "fcreate", "c": o["c"], "p": o["p"] + " " * r.choice([0, 0, 1, 9])}
            elif o["op"] == "call":
                if o["onlypy"] or o["f"] in ("Serialize", "Deserialize"):
                    continue
                a = list(o["a"])
                g = NAMES.get(o["f"], o["f"])
                if g in TEXTS and r.random() < 0.4:
                    i = TEXTS[g]
                    a[i] = {"s": a[i]["s"] + " " * r.choice([1, 3, 40])}
                if g in ("GetRodN", "GetLineN") and r.random() < 0.5:
                    g = g + "umberNodes"
                if g == "SetLinePressBend":
                    a = [{"i": int(a[0]["b"])}]
                o = {"op": "fcall", "f": g, "o": o["o"], "a": a, "look": o["look"]}
            out.append(o)
        return out
    return f


def run(ctx):
    n = 240 if ctx.quick() else 2000
    lib = build_lib.fortlib(ctx.lib())
    scs = [P25.scenario(ctx, "f%d" % i, sd, i, "", "", translate(lib, random.Random(sd))) for i, sd in enumerate(seeds(ctx, n, 27))]
    ctx.conform("FortTrace", scs, [], relevant("Fort"))
