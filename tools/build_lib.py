#!/usr/bin/env python3
"""Build libmoordyn from /repo's *working tree* (no VTK) into /verif/build/<variant>.

Incremental: every translation unit is keyed by a hash of its own text, every
header of the tree and the flags, so a changed tree is always rebuilt.
Exit status 0 and the path of the library on stdout, or an exception.
"""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VARIANTS = {
    "plain": ["-O1", "-DNDEBUG"],
    "asan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined",
             "-fno-sanitize=alignment,vptr,enum", "-fno-sanitize-recover=undefined",
             "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
}


class BuildError(Exception):
    pass


def _sources(src):
    txt = open(os.path.join(src, "CMakeLists.txt")).read()
    m = re.search(r"set\(MOORDYN_SRCS(.*?)\)", txt, re.S)
    names = [n for n in m.group(1).split() if n.endswith(".cpp")]
    return [n for n in names if os.path.exists(os.path.join(src, n))]


def build(variant="plain", quiet=True):
    src = os.path.join(REPO, "source")
    flags = ["-std=c++17", "-fPIC", "-w", "-DMoorDyn_EXPORTS",
             "-I" + src] + VARIANTS[variant]
    ver = open(os.path.join(REPO, "CMakeLists.txt")).read()
    for k in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r"set\(MOORDYN_%s_VERSION (\d+)\)" % k, ver)
        flags.append("-DMOORDYN_%s_VERSION=%s" % (k, m.group(1)))
    out = os.path.join(HERE, "build", variant)
    os.makedirs(out, exist_ok=True)
    hh = hashlib.sha256()
    hdrs = []
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d != "Eigen"]
        hdrs += [os.path.join(root, f) for f in files
                 if f.endswith((".h", ".hpp", ".hxx", ".in", ".inl", ".ipp"))]
    for h in sorted(hdrs):
        hh.update(h.encode() + b"\0" + open(h, "rb").read() + b"\0")
    # Config.h is configured by CMake; sources include it through the build dir
    inc = os.path.join(out, "inc")
    os.makedirs(inc, exist_ok=True)
    tpl = os.path.join(src, "Config.h.in")
    if os.path.exists(tpl):
        t = open(tpl).read()
        t = re.sub(r"#cmakedefine\s+(\w+).*", r"/* #undef \1 */", t)
        t = re.sub(r"@\w+@", "", t)
        cfg = os.path.join(inc, "Config.h")
        if not os.path.exists(cfg) or open(cfg).read() != t:
            open(cfg, "w").write(t)
    flags.append("-I" + inc)
    base = hh.hexdigest() + repr(flags)

    def one(name):
        p = os.path.join(src, name)
        key = hashlib.sha256((base + name).encode() + open(p, "rb").read()).hexdigest()[:24]
        obj = os.path.join(out, name.replace("/", "_")[:-4] + "." + key + ".o")
        if not os.path.exists(obj):
            r = subprocess.run(["g++"] + flags + ["-c", p, "-o", obj + ".tmp"],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError("%s: %s" % (name, r.stderr[-3000:]))
            os.replace(obj + ".tmp", obj)
        return obj

    names = sorted(_sources(src), key=lambda n: -os.path.getsize(os.path.join(src, n)))
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, names))
    key = hashlib.sha256(" ".join(sorted(objs)).encode()).hexdigest()[:24]
    lib = os.path.join(out, "libmoordyn." + key + ".so")
    if not os.path.exists(lib):
        link = ["g++", "-shared", "-o", lib + ".tmp"] + objs
        link += [f for f in VARIANTS[variant] if f.startswith("-fsanitize")]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        os.replace(lib + ".tmp", lib)
    # drop stale objects so that the directory does not grow
    keep = set(objs) | {lib}
    for f in os.listdir(out):
        p = os.path.join(out, f)
        if f.endswith((".o", ".so")) and p not in keep and \
                os.path.getmtime(p) < os.path.getmtime(lib) - 3600:
            os.unlink(p)
    return lib


def pyext(lib):
    """the extension of the Python module, built from the tree's own sources against a library; -> its directory"""
    import sysconfig
    wd = os.path.join(REPO, "wrappers", "python")
    w = [os.path.join(wd, f) for f in sorted(os.listdir(wd)) if f.endswith(".cpp")]
    h = [os.path.join(wd, f) for f in sorted(os.listdir(wd)) if f.endswith((".h", ".hpp"))]
    src = os.path.join(REPO, "source")
    key = hashlib.sha256(b"".join(open(f, "rb").read() for f in w + h) + lib.encode() + sys.version.encode() + b"2")
    for f in sorted(os.listdir(src)):
        if f.endswith(".h"):
            key.update(open(os.path.join(src, f), "rb").read())
    d = os.path.join(HERE, "build", "py", key.hexdigest()[:24])
    so = os.path.join(d, "cmoordyn.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        inc = [i for i in (sysconfig.get_paths()["include"], "/usr/include/python%d.%d" % sys.version_info[:2])
               if os.path.exists(os.path.join(i, "Python.h"))][0]
        r = subprocess.run(["g++", "-O1", "-w", "-fPIC", "-shared", "-ftrivial-auto-var-init=pattern", "-I" + inc, "-I" + src, "-I" + os.path.join(os.path.dirname(lib), "inc"),
                            "-I" + wd] + w + [lib, "-Wl,-rpath," + os.path.dirname(lib), "-o", so + ".tmp"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("cmoordyn.cpp: " + r.stderr[-3000:])
        os.replace(so + ".tmp", so)
    return d


def fortlib(lib):
    """the Fortran module of the tree with the glue of harness/fside.py, against a library; -> its path"""
    sys.path.insert(0, os.path.join(HERE, "harness"))
    import fside
    src = os.path.join(REPO, "wrappers", "fortran", "MoorDyn.f90")
    g = fside.glue()
    key = hashlib.sha256(open(src, "rb").read() + g.encode() + lib.encode()).hexdigest()[:24]
    d = os.path.join(HERE, "build", "fort", key)
    so = os.path.join(d, "fside.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "fside.f90"), "w").write(g)
        r = subprocess.run(["gfortran", "-O1", "-w", "-fPIC", "-shared", "-ffree-line-length-none", "-J" + d, src, os.path.join(d, "fside.f90"),
                            lib, "-Wl,-rpath," + os.path.dirname(lib), "-o", so + ".tmp"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("MoorDyn.f90: " + r.stderr[-3000:])
        os.replace(so + ".tmp", so)
    return so


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"))
