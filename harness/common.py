"""Shared machinery of the checks: scripts -> recorded traces -> TLC."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, HERE)
import drive

JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = glob.glob("/opt/veriftools/tla/CommunityModules*.jar")
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """the machinery failed: neither a pass nor a violation"""


def classes():
    d = os.path.join(ROOT, "build", "classes")
    src = os.path.join(SPEC, "java", "FP.java")
    out = os.path.join(d, "FP.class")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(["javac", "-cp", JAR, "-d", d, src], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac: " + r.stderr)
    return d


def run_tlc(module, cfg, work, env=None, workers=NCPU, timeout=800, extra=(), xmx="10g"):
    """-> (stdout, stats dict).  Raises CheckError unless TLC finished its search."""
    os.makedirs(work, exist_ok=True)
    meta = os.path.join(work, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    cp = ":".join([classes(), JAR] + CM)
    cmd = ["java", "-Xss128m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-cp", cp, "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=work, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = "".join(l for l in r.stdout.splitlines(True)
                  if not l.startswith(("Loading ", "Parsing ", "Semantic ", "Linting ")))
    open(os.path.join(work, "tlc.out"), "w").write(out + r.stderr)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    st = {"generated": int(m.group(1)), "distinct": int(m.group(2))} if m else {}
    st["rc"] = r.returncode
    return out, st


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"([^"]+)",(.*?)>>\s*(?=\n<<\s*"REJECT"|\n[A-Z]|\Z)', re.S)


def check_traces(module, traces, work, checks=(), cfg=None, timeout=800, env=None):
    """every trace must be a behaviour of the specification;
    -> (list of rejections, stats)"""
    os.makedirs(work, exist_ok=True)
    tf = os.path.join(work, "traces.ndjson")
    with open(tf, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    cfile = os.path.join(work, "checks.ndjson")
    open(cfile, "w").write(json.dumps(sorted(checks)) + "\n")
    e = {"TRACES": tf, "CHECKS": cfile}
    e.update(env or {})
    out, st = run_tlc(module, (cfg or module) + ".cfg", work, e, timeout=timeout)
    shape = []
    if st["rc"] != 0 or "Model checking completed. No error has been found" not in out:
        # an event the specification has no meaning for is not a step of it
        j = out.find("The behavior up to this point is")
        at = re.findall(r"/\\ k = (\d+)\n/\\ l = (\d+)", out[j:]) if j >= 0 and "xception" in out and "OutOfMemory" not in out else []
        if at:
            why = re.search(r"The exception was[^\n]*\n(.{0,400}?)Error: The behavior", out, re.S)
            shape = [{"trace": int(at[-1][0]), "event": int(at[-1][1]), "check": "Shape",
                      "detail": "the specification is not defined here: " + " ".join((why.group(1) if why else "").split())}]
    if not shape and (st["rc"] != 0 or "Model checking completed. No error has been found" not in out):
        raise CheckError("TLC failed on %s (%s): %s" % (module, os.path.join(work, "tlc.out"),
                                                       "\n".join(l for l in out.splitlines() if "rror" in l)[:800]))
    rej = []
    for m in REJ.finditer(out):
        rej.append({"trace": int(m.group(1)), "event": int(m.group(2)), "check": m.group(3),
                    "detail": " ".join(m.group(4).split())[:700]})
    rej += shape
    if '"REJECT"' in out and not rej:
        raise CheckError("unparsed rejection in " + os.path.join(work, "tlc.out"))
    st["events"] = sum(len(t) for t in traces)
    st["traces"] = len(traces)
    return rej, st


class Scenario:
    """ops for the worker, header events put before the recorded ones"""

    def __init__(self, name, ops, head=(), asan=False, post=None, timeout=120, parts=None):
        self.parts = parts
        self.name, self.ops, self.head, self.asan, self.post = name, ops, list(head), asan, post
        self.timeout = timeout


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(ROOT, "work", "%s-%s" % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.cov = {"scenarios": 0, "events": 0, "states": 0, "checks": {}}
        self.samples = []
        self.libs = {}

    def quick(self):
        return self.tier == "quick"

    def left(self, total):
        return total - (time.time() - self.t0)

    def lib(self, variant="plain"):
        if variant not in self.libs:
            self.libs[variant] = drive.lib(variant)
        return self.libs[variant]

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def record(self, sc):
        variant = "asan" if sc.asan else "plain"
        evs = []
        for j, ops in enumerate(sc.parts or [sc.ops]):
            # each part is a process of its own
            if j:
                evs.append({"op": "reboot", "abs": {"o": "reboot"}})
            evs += drive.run(self.lib(variant), ops, os.path.join(self.work, "run", sc.name, str(j)),
                             timeout=sc.timeout, asan=sc.asan)
            if evs and evs[-1]["op"] == "crash":
                break
        tr = sc.head + evs
        return sc.post(tr) if sc.post else tr

    def record_all(self, scs):
        for v in {("asan" if s.asan else "plain") for s in scs}:
            self.lib(v)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(self.record, scs))

    def conform(self, module, scs, checks=(), relevant=None, cfg=None, timeout=800, tag="", known=None, env=None):
        """record, check, confirm; adds to violations.
        relevant: predicate on check names (others are other properties')."""
        traces = self.record_all(scs)
        work = self.dir("tlc-" + (tag or module))
        rej, st = check_traces(module, traces, work, checks, cfg, timeout, env)
        self.cov["scenarios"] += len(scs)
        self.cov["events"] += st["events"]
        self.cov["states"] += st.get("distinct", 0)
        self.cov.setdefault("specs", []).append({"module": module, "traces": len(traces), "events": st["events"],
                                                 "distinct_states": st.get("distinct", 0)})
        for t in traces[:1]:
            self.sample(t)
        rej = [r for r in rej if relevant is None or r["check"] == "Shape" or relevant(r["check"])]
        byt = {}
        for r in rej:
            byt.setdefault(r["trace"], []).append(r)
        if known and byt:
            # listed findings: identified one by one, the rest is reported
            for t, key in known(scs, byt, traces).items():
                self.known.append(key)
                del byt[t]
        if byt:
            # only believed if an independent re-run repeats it
            bad = sorted(byt)[:12]
            again = set()
            for _ in range(3):
                traces2 = self.record_all([scs[i - 1] for i in bad])
                rej2, _st = check_traces(module, traces2, self.dir("tlc-rerun-" + (tag or module)), checks, cfg, timeout, env)
                again |= {(bad[r["trace"] - 1], r["check"]) for r in rej2}
                conf = [[r for r in byt[t] if (t, r["check"]) in again] for t in bad]
                if any(conf):
                    break
            if not any(conf):
                raise CheckError("rejection not reproducible: %s" % rej[:3])
            for t, rs in zip(bad, conf):
                if rs:
                    self.violation(scs[t - 1], rs, traces[t - 1])
        return traces, st

    def violation(self, sc, rs, trace):
        sig = sorted({r["check"] for r in rs})
        d = os.path.join(self.work, "replay-%s" % sc.name)
        os.makedirs(d, exist_ok=True)
        json.dump({"property": self.prop, "scenario": sc.name, "ops": sc.parts or sc.ops, "rejections": rs[:50],
                   "asan": sc.asan}, open(os.path.join(d, "replay.json"), "w"), indent=1)
        with open(os.path.join(d, "trace.ndjson"), "w") as f:
            for e in trace:
                f.write(json.dumps(e) + "\n")
        for o in (sum(sc.parts, []) if sc.parts else sc.ops):
            if o.get("op") in ("create", "v1init") and o.get("file") and os.path.exists(o["file"]):
                try:
                    shutil.copy(o["file"], d)
                except OSError:
                    pass
        self.violations.append((os.path.join(d, "replay.json"), sig, rs[0]))

    def model_check(self, module, cfg=None, timeout=600, extra=(), workers=NCPU, tag=None):
        """exhaustive search of a bounded model; a violated invariant is an
        error of the specification, not of the code"""
        out, st = run_tlc(module, (cfg or module) + ".cfg", self.dir("mc-" + (tag or cfg or module)),
                          timeout=timeout, extra=extra, workers=workers)
        if st["rc"] != 0 or "No error has been found" not in out:
            raise CheckError("the model %s/%s violates its own invariants" % (module, cfg))
        self.cov["mc_states"] = self.cov.get("mc_states", 0) + st["distinct"]
        self.cov["mc_transitions"] = self.cov.get("mc_transitions", 0) + st["generated"]
        self.cov.setdefault("models", []).append({"module": module, "cfg": cfg or module,
                                                  "distinct": st["distinct"], "generated": st["generated"]})
        return out, st

    def sample(self, trace):
        """keep one short example of what was explored"""
        if len(self.samples) < 2:
            ex = []
            for e in trace[:14]:
                d = {k: v for k, v in e.items() if k in ("op", "h", "ret", "err", "t", "dt", "tout", "made", "v", "line", "in")}
                ex.append(d)
            self.samples.append(ex)

    def evidence(self, rule):
        c = self.cov
        return {"states": c["states"] + c.get("mc_states", 0),
                "transitions": c["events"] - c["scenarios"] + c.get("mc_transitions", 0),
                "traces_validated_against_impl": c["scenarios"],
                "rule": rule, "samples": self.samples or ["no trace recorded"],
                "specs": c.get("specs", []), "models": c.get("models", []),
                **c.get("more", {})}
