"""Damaged and foreign snapshots are refused without effect."""
from _session import *


def run(ctx):
    ctx.model_check("Session")
    rel = ["Session.load", "Session.same", "Session.crash"]
    behave(ctx, 450 if ctx.quick() else 1200, "SessionDamage.cfg", "dmg", rel)
    behave(ctx, 20 if ctx.quick() else 120, "SessionDamage.cfg", "dmga", rel, asan=True)
