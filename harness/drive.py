"""Runs scripts in crash-isolated workers and returns the recorded events."""
import json, os, subprocess, sys, tempfile, shutil, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "tools"))
import build_lib


def lib(variant="plain"):
    return build_lib.build(variant)


_asan = None


def asan_rt():
    global _asan
    if _asan is None:
        _asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                               text=True).stdout.strip() + " " + \
            subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True,
                           text=True).stdout.strip()
    return _asan


def run(libpath, ops, work, timeout=120, asan=False, keep_stdout=False):
    """-> list of events; a killed process yields a final {"op":"crash",...}"""
    os.makedirs(work, exist_ok=True)
    sp, op = os.path.join(work, "script.json"), os.path.join(work, "events.ndjson")
    json.dump(ops, open(sp, "w"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    if asan:
        env["LD_PRELOAD"] = asan_rt()
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
    so = os.path.join(work, "stdout.txt")
    se = os.path.join(work, "stderr.txt")
    env["WORKER_STDOUT"] = so
    status = None
    with open(so, "wb") as o, open(se, "wb") as e:
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "worker.py"), libpath, sp, op],
                             stdout=o, stderr=e, env=env, cwd=work)
        try:
            p.wait(timeout)
            status = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            status = "timeout"
    evs, begun, ended = [], None, False
    if os.path.exists(op):
        for ln in open(op):
            if not ln.endswith("\n"):
                break
            d = json.loads(ln)
            if "begin" in d and len(d) == 1:
                begun = d["begin"]
            elif "end" in d and len(d) == 1:
                ended = True
            else:
                evs.append(d)
    if not ended:
        err = open(se, errors="replace").read()
        if "Traceback (most recent call last)" in err:
            raise RuntimeError("harness error: " + err[-2000:])
        if begun is None:
            raise RuntimeError("worker did not start: " + err[-2000:])
        evs.append({"op": "crash", "in": ops[begun]["op"], "at": begun, "h": ops[begun].get("h", ""),
                    "status": str(status), "detail": "\n".join(
                        l for l in err.splitlines() if "ERROR" in l or "runtime error" in l or "terminate" in l or "what()" in l)[:600]})
    return evs
