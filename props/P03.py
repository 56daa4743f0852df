"""Snapshots restore exactly."""
from _session import *


def run(ctx):
    ctx.model_check("Session")
    behave(ctx, 500 if ctx.quick() else 1500, "SessionSnap.cfg", "snap",
           ["Session.save", "Session.load.succeeds", "Session.serialize", "Session.deserialize", "Session.same", "Session.crash",
            "Session.step.succeeds"])
