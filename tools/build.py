"""Builds gridpp's sources from /repo's working tree (never its build folder) into /verif/build.

Objects are kept under the hash of everything that went into them (source, headers, flags), so a
change anywhere in the tree is seen whatever its time stamp, and nothing is rebuilt without need."""
import hashlib, os, subprocess, sys, concurrent.futures, glob, shutil, fcntl

REPO = os.environ.get("GRIDPP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("GRIDPP_VERIF_BUILD", os.path.join(VERIF, "build"))
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")

def read(f):
    with open(f, "rb") as h:
        return h.read()

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

BASE = ["-std=c++14", "-fPIC", "-w", "-fopenmp"]
VARIANTS = {
    "plain": (["g++"], ["-O2"], []),
    "asan": (["g++"], ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address"]),
    # memory accesses are reported to driver/race.cpp, which stands in for the sanitizer's own runtime
    "race": (["g++"], ["-O1", "-g1", "-fsanitize=thread", "-fno-inline-functions"], []),
}

def headers(dirs):
    out = []
    for d in dirs:
        for r, _, fs in os.walk(d):
            out += [os.path.join(r, f) for f in fs if f.endswith((".h", ".hpp", ".i"))]
    return sorted(out)

def includes(kind):
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src", "api"), "-I" + os.path.join(VERIF, "driver")]
    if kind == "client":
        inc += ["-I" + os.path.join(REPO, "src", "client"), "-I" + os.path.join(REPO, "src")]
    return inc

def compile_all(sources, kind, variant, jobs=8):
    cxx, opt, _ = VARIANTS[variant]
    hs = headers([os.path.join(REPO, "include")] + ([os.path.join(REPO, "src", "client")] if kind == "client" else []))
    hh = digest(*[x for h in hs for x in (h, read(h))])
    dh = digest(*[x for h in headers([os.path.join(VERIF, "driver")]) for x in (h, read(h))])
    odir = os.path.join(BUILD, "obj", variant)
    os.makedirs(odir, exist_ok=True)
    flags = cxx + BASE + opt + includes(kind)
    # the main header, which pulls in all of boost's geometry, compiled once
    pch = []
    if kind == "api":
        g = os.path.join(REPO, "include", "gridpp.h")
        pd = os.path.join(BUILD, "pch", variant + "-" + digest(read(g), *flags))
        if not os.path.exists(os.path.join(pd, "gridpp.h.gch")):
            os.makedirs(pd, exist_ok=True)
            shutil.copy(g, os.path.join(pd, "gridpp.h"))
            tmp = os.path.join(pd, "tmp%d.gch" % os.getpid())
            sh(flags + ["-x", "c++-header", os.path.join(pd, "gridpp.h"), "-o", tmp])
            os.rename(tmp, os.path.join(pd, "gridpp.h.gch"))
        pch = ["-I" + pd]
    todo, objs = [], []
    for s in sources:
        own = s.startswith(VERIF)
        o = os.path.join(odir, os.path.basename(s).replace(".cpp", "") + "-" + digest(s[len(VERIF):] if own else s[len(REPO):], read(s), hh, dh if own else "", *flags) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, o))
    def one(x):
        s, o = x
        tmp = o + ".%d.tmp" % os.getpid()
        fl = list(flags)
        if s.endswith("race.cpp"):
            fl = [f for f in fl if f != "-fsanitize=thread"]
        else:
            fl = fl[:1] + pch + fl[1:]
        sh(fl + ["-c", s, "-o", tmp])
        os.rename(tmp, o)
    todo.sort(key=lambda x: -os.path.getsize(x[0]) - (10**6 if x[0].startswith(VERIF) else 0))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for _ in ex.map(one, todo):
            pass
    return objs

def api_sources():
    return sorted(f for f in glob.glob(os.path.join(REPO, "src", "api", "*.cpp")) if os.path.basename(f) != "swig.cpp") + [os.path.join(REPO, "src", "api", "swig.cpp")]

def client_sources():
    c = os.path.join(REPO, "src", "client")
    out = []
    for pat in ("*.cpp", "Calibrator/*.cpp", "Downscaler/*.cpp", "File/*.cpp", "ParameterFile/*.cpp"):
        out += sorted(glob.glob(os.path.join(c, pat)))
    return out

def version_flag():
    for l in read(os.path.join(REPO, "CMakeLists.txt")).decode().splitlines():
        pass
    return []

LIBS = ["-larmadillo", "-lgsl", "-lgslcblas", "-lm", "-lpthread"]

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def link(name, objs, variant, extra):
    cxx, _, lf = VARIANTS[variant]
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, variant, digest(*objs, *extra, *lf)))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        omp = [] if variant == "race" else ["-fopenmp"]
        sh(cxx + omp + lf + objs + ["-o", tmp] + extra)
        os.rename(tmp, out)
    return out

def driver(variant="plain"):
    with Lock():
        srcs = api_sources()
        mine = [os.path.join(VERIF, "driver", f) for f in ("api_main.cpp", "api_ops1.cpp", "api_ops2.cpp", "api_ops3.cpp")]
        if variant == "race":
            mine.append(os.path.join(VERIF, "driver", "race.cpp"))
        objs = compile_all(mine + srcs, "api", variant)
        return link("api", objs, variant, LIBS)

def client(variant="plain"):
    with Lock():
        a = compile_all(api_sources(), "api", variant)
        mine = [os.path.join(VERIF, "driver", f) for f in ("client_main.cpp", "client_ops1.cpp", "client_ops2.cpp", "client_ops3.cpp")]
        c = compile_all(mine + client_sources(), "client", variant)
        return link("client", a + c, variant, ["-Wl,--wrap=abort", "-lnetcdf"] + LIBS)

def cli():
    """The command-line program itself."""
    with Lock():
        a = compile_all(api_sources(), "api", "plain")
        c = compile_all([os.path.join(VERIF, "driver", "cli_abort.cpp"), os.path.join(REPO, "src", "client", "Driver", "Gridpp.cpp")] + client_sources(), "client", "plain")
        return link("gridpp", a + c, "plain", ["-Wl,--wrap=abort", "-lnetcdf"] + LIBS)

def pymodule():
    """The Python module, in a folder of its own. Returns the folder."""
    import sysconfig
    py = "/usr/bin/python3"
    inc, npinc = sh([py, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include())"]).split("\n")[:2]
    with Lock():
        a = compile_all(api_sources(), "api", "plain")
        sw = os.path.join(REPO, "swig")
        parts = [os.path.join(sw, f) for f in ("gridpp.i", "vector.i", "numpy.i")] + [os.path.join(REPO, "include", "gridpp.h")]
        wd = os.path.join(BUILD, "swig-" + digest(*[read(f) for f in parts]))
        if not os.path.exists(wd):
            tmp = wd + ".%d.tmp" % os.getpid()
            os.makedirs(tmp)
            swig = shutil.which("swig4.0") or shutil.which("swig")
            env = dict(os.environ)
            if os.path.exists("/usr/share/swig4.0"): env["SWIG_LIB"] = "/usr/share/swig4.0"
            sh([swig, "-python", "-flatstaticmethod", "-outdir", tmp, "-c++", "-interface", "_gridpp_swig", "-I" + os.path.join(REPO, "include"), "-I" + inc, "-I" + npinc,
                "-o", os.path.join(tmp, "wrap.cxx"), os.path.join(sw, "gridpp.i")], env=env)
            sh(["g++"] + BASE + ["-O0", "-I" + os.path.join(REPO, "include"), "-I" + inc, "-I" + npinc, "-c", os.path.join(tmp, "wrap.cxx"), "-o", os.path.join(tmp, "wrap.o")])
            os.rename(tmp, wd)
        out = os.path.join(BUILD, "py-" + digest(wd, *a))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            os.makedirs(tmp)
            shutil.copy(os.path.join(wd, "gridpp.py"), tmp)
            sh(["g++", "-fopenmp", "-shared"] + a + [os.path.join(wd, "wrap.o"), "-o", os.path.join(tmp, "_gridpp_swig.so")] + LIBS)
            os.rename(tmp, out)
        return out

def classes():
    with Lock():
        src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
        out = os.path.join(BUILD, "classes-" + digest(*[read(s) for s in src]))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            os.makedirs(tmp)
            sh(["javac", "-nowarn", "-cp", TLA, "-d", tmp] + src)
            os.rename(tmp, out)
        return out

def setup():
    classes()
    return driver()

if __name__ == "__main__":
    import time
    t = time.time()
    what = sys.argv[1:] or ["classes", "driver"]
    for w in what:
        n, _, v = w.partition(":")
        print(w, globals()[n](*( [v] if v else [])), "%.1f s" % (time.time() - t))
