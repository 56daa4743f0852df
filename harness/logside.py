"""Operations around the log of a system: every one of them is carried out with
the two terminal streams caught, and the messages of the session (marked
[mN|...]) found in them and in the files are recorded."""
import ctypes as C
import os
import re
import tempfile

from md import D

MARK = re.compile(r"\[m\d+\|[^\]]*\]")


class LogSide:
    def caught(self, fn, *a):
        libc = C.CDLL(None)
        libc.fflush(None)
        kept = [os.dup(1), os.dup(2)]
        fs_ = [tempfile.TemporaryFile() for _ in kept]
        for k, f in enumerate(fs_):
            os.dup2(f.fileno(), k + 1)
        try:
            r = fn(*a)
        finally:
            libc.fflush(None)
            for k, f in enumerate(kept):
                os.dup2(f, k + 1)
                os.close(f)
        t = []
        for f in fs_:
            f.seek(0)
            t.append(f.read().decode(errors="replace"))
            f.close()
        return r, {"out": MARK.findall(t[0]), "serr": MARK.findall(t[1]), "nout": len(t[0]), "nerr": len(t[1])}

    def op_lcreate(self, op):
        p, d = self.caught(self.L.MoorDyn_Create, op["file"].encode())
        self.h[op["h"]] = p
        return dict(d, made=bool(p), own=os.path.exists(op["own"]))

    def lcall(self, op, fn, *a):
        r, d = self.caught(getattr(self.L, "MoorDyn_" + fn), self.H(op), *a)
        return dict(d, ret=r)

    def op_lverb(self, op):
        return self.lcall(op, "SetVerbosity", op["v"])

    def op_llevel(self, op):
        return self.lcall(op, "SetLogLevel", op["v"])

    def op_lfile(self, op):
        return self.lcall(op, "SetLogFile", op["path"].encode())

    def op_llog(self, op):
        return self.lcall(op, "Log", op["v"], op["msg"].encode())

    def op_linit(self, op):
        n = len(op["x"])
        x = (D * max(1, n))(*map(float, op["x"]))
        return self.lcall(op, "Init_NoIC", x, (D * max(1, n))())

    def op_lstep(self, op):
        n = len(op["x"])
        x = (D * max(1, n))(*map(float, op["x"]))
        return self.lcall(op, "Step", x, (D * max(1, n))(), (D * max(1, n))(), C.byref(D(float(op["t"]))), C.byref(D(float(op["dt"]))))

    def op_lsave(self, op):
        return self.lcall(op, "Save", op["file"].encode())

    def op_lclose(self, op):
        d = self.lcall(op, "Close")
        self.h.pop(op["h"])
        return d

    def op_llook(self, op):
        d = {}
        for p in op["paths"]:
            t = open(p, errors="replace").read() if os.path.exists(p) else None
            d[p] = {"there": t is not None, "msgs": MARK.findall(t or ""), "size": len(t or "")}
        return {"files": d}
