"""Determinism, isolation of instances, pure observers."""
from _session import *


def run(ctx):
    ctx.model_check("Session")
    behave(ctx, 500 if ctx.quick() else 1500, "SessionIso.cfg", "iso", ["Session.same", "Session.crash", "Session.nop", "Session.obs"])
