"""Out-of-tree builds of /repo's current sources (instrumented and plain),
with an object cache keyed on the preprocessed text."""
import hashlib, os, subprocess, sys, glob, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
SYM = os.path.join(REPO, "symbolics")
INC = ["include", "functions/include", "graph/include", "printer/include", "writer/include", "wrapper/include", "wrapper"]
PYINC = subprocess.run(["/opt/pymbs-venv/bin/python", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True).stdout.strip()

class BuildError(Exception):
    pass

def incs():
    return ["-I" + os.path.join(SYM, d) for d in INC] + ["-I" + ENG, "-I" + HAR]

def listed(d):
    """the .cpp files the project's own CMakeLists.txt in this directory names"""
    import re
    t = open(os.path.join(SYM, d, "CMakeLists.txt"), errors="replace").read()
    t = re.sub(r"#.*", "", t)
    out = []
    for n in re.findall(r"[A-Za-z0-9_./]+\.cpp", t):
        q = os.path.join(SYM, d, n)
        if os.path.exists(q) and q not in out and "/test/" not in q:
            out.append(q)
    return out

def core_sources():
    s = []
    for d in ("", "functions", "graph", "printer", "writer"):
        s += listed(d)
    return s

def wrapper_sources():
    return listed("wrapper")

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:32]

def fhash(p):
    return h(open(p, "rb").read())

def tool(name, srcs, cmd):
    """build a tool of the framework itself (pass, runtime)"""
    os.makedirs(BUILD, exist_ok=True)
    key = h(name, " ".join(cmd), *[fhash(s) for s in srcs])
    out = os.path.join(BUILD, name + "-" + key[:16])
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = run(cmd + ["-o", tmp])
        if r.returncode:
            raise BuildError(name + "\n" + r.stderr[-3000:])
        os.rename(tmp, out)
    return out

def the_pass():
    cx = run(["llvm-config-18", "--cxxflags"]).stdout.split()
    src = os.path.join(ENG, "SxPass.cpp")
    return tool("SxPass.so", [src], ["clang++-18", "-shared", "-fPIC", "-O1", "-w"] + cx + [src])

def runtime():
    src = os.path.join(ENG, "sxrt.cpp")
    return tool("sxrun", [src, os.path.join(ENG, "sx.h")], ["g++", "-O2", "-std=c++17", "-w", "-I" + Z3 + "/include", src, "-rdynamic", "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-ldl", "-lpthread"])

PLAIN = ["clang++-18", "-std=c++14", "-O1", "-fPIC", "-w", "-ffp-contract=off", "-fno-fast-math"]

def flags(kind):
    f = list(PLAIN)
    if kind == "sym":
        f += ["-fno-vectorize", "-fno-slp-vectorize", "-fpass-plugin=" + the_pass()]
    return f

def compile_one(args):
    src, kind, extra, fl = args
    pre = run(PLAIN + ["-E", "-P", src] + extra + incs())
    if pre.returncode:
        raise BuildError(src + "\n" + pre.stderr[-3000:])
    key = h(kind, " ".join(fl), " ".join(extra), pre.stdout)
    out = os.path.join(OBJ, os.path.basename(src) + "-" + key + ".o")
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = run(fl + ["-c", src, "-o", tmp] + extra + incs())
        if r.returncode:
            raise BuildError(src + "\n" + r.stderr[-3000:])
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out

def objects(srcs, kind, extra=()):
    os.makedirs(OBJ, exist_ok=True)
    fl = flags(kind)
    with ThreadPoolExecutor(10) as ex:
        return list(ex.map(compile_one, [(s, kind, list(extra), fl) for s in srcs]))

def link(objs, out_name, cmd):
    key = h(*(objs + cmd))
    out = os.path.join(BUILD, out_name + "-" + key[:20])
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = run(cmd + objs + ["-o", tmp])
        if r.returncode:
            raise BuildError(out_name + "\n" + r.stderr[-3000:])
        os.rename(tmp, out)
    return out

def harness(name, extra=()):
    """returns (instrumented .so, plain replay executable, runtime)"""
    rt = runtime()
    src = os.path.join(HAR, name + ".cpp")
    vs = os.path.join(ENG, "harness.map")
    so = link(objects(core_sources() + [src], "sym", extra), name + ".so", ["clang++-18", "-shared", "-fPIC", "-Wl,-Bsymbolic", "-Wl,--version-script=" + vs, "-Wl,--gc-sections"])
    exe = link(objects(core_sources() + [src, os.path.join(ENG, "sxplain.cpp")], "plain", extra), name + ".plain", ["clang++-18"])
    return so, exe, rt

class Lock:
    def __init__(self, name="build"):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, "." + name + ".lock")
    def __enter__(self):
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def prune(limit=3000):
    fs = sorted(glob.glob(os.path.join(OBJ, "*.o")) + glob.glob(os.path.join(BUILD, "*-*")), key=lambda p: os.path.getmtime(p))
    for p in fs[:-limit] if len(fs) > limit else []:
        if os.path.isfile(p): os.unlink(p)

if __name__ == "__main__":
    for n in sys.argv[1:]:
        print(harness(n))
