"""Misuse of the API is refused, safe and without effect."""
from _session import *


def run(ctx):
    ctx.model_check("Session")
    rel = ["Session.misuse", "Session.same", "Session.crash"]
    behave(ctx, 350 if ctx.quick() else 500, "SessionMisuse.cfg", "mis", rel)
    behave(ctx, 40 if ctx.quick() else 250, "SessionMisuse.cfg", "misa", rel, asan=True)
    ctx.conform("SessionTrace", [sweep(ctx, "null%d" % i, ctx.seed * 10 + i, i % 2 == 1) for i in range(2 if ctx.quick() else 8)],
                [], relevant(*rel), tag="null")


def sweep(ctx, name, seed, asan):
    """every entry point without an object, on a living system"""
    c = sessions.Concrete(ctx, name, seed, feat=FEATS[seed % len(FEATS)], scheme="RK2")
    path = c.W["w1"][1]
    x = c.W["w1"][0].x0()
    ops = [{"op": "create", "file": path, "h": "a", "abs": {"o": "create", "h": "a", "w": "w1", "good": True}},
           {"op": "init", "h": "a", "noic": True, "x": sessions.sv(x), "xd": sessions.sv([0.0] * len(x)), "dg": True,
            "abs": {"o": "init", "h": "a", "lab": "init", "good": True}}]
    for i, (f, g) in enumerate(sessions.NULLS):
        ops.append({"op": "null", "fn": "MoorDyn_" + f, "sig": g, "h": "a", "abs": {"o": "misuse", "h": "a"}})
        if i % 6 == 5 or i == len(sessions.NULLS) - 1:
            ops[-1]["dg"] = True
        if i % 40 == 39:
            X, XD, dt = c.step("w1", "s1")
            ops.append({"op": "step", "h": "a", "x": sessions.sv(X), "xd": sessions.sv(XD), "t": "0.0", "dt": sessions.s(dt),
                        "dg": True, "abs": {"o": "step", "h": "a", "lab": "s1", "n": 1}})
    ops.append({"op": "close", "h": "a", "abs": {"o": "close", "h": "a"}})
    return sessions.Scenario(name, ops, [{"op": "head"}], asan=asan)
