"""Builds the AmpGen library objects from /repo's current working tree (outside /repo)."""
import os, sys, subprocess, hashlib, fcntl, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
# sources that cannot compile without CERN ROOT (same list as the project's ROOT-free build),
# minus those that compile against the declarations in /verif/stubs
EXCLUDE = set("BinDT Chi2Estimator CoherentSum DalitzIntegrator DiscreteDistribution ErrorPropagator EventList EventListSIMD FastDT FitFraction Generator IncoherentSum Integrator Kinematics LASSO MatrixElement PartialWidthConstraint PhaseSpace PolarisedSum Projection RecursivePhaseSpace ThreeBodyCalculators TreePhaseSpace TreeReader Minimiser FitResult".split())
DEFS = ['-DAMPGENROOT="%s"' % REPO, '-DAMPGENROOT_CMAKE="%s/_build/bin"' % REPO, '-DAMPGEN_CXX="/usr/bin/g++"', '-DAMPGEN_CXX_FLAGS=""',
        '-DAMPGEN_OPENMP_FLAGS="-fopenmp"', '-DENABLE_AVX=1', '-DENABLE_FITTING=0', '-DINSTRUCTION_SET=2', '-DUSE_MVEC=1']
CXXFLAGS = ['-std=c++17', '-fPIC', '-w', '-mfma', '-mavx2', '-DHAVE_AVX2_INSTRUCTIONS', '-fopenmp']

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

def incdir():
    d = os.path.join(BUILD, "inc")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "AmpGenVersion.h")
    if not os.path.exists(p):
        with open(p, "w") as f:
            f.write("#define AMPGEN_MAJOR_VERSION 2\n#define AMPGEN_MINOR_VERSION 5\n")
    return d

def incflags():
    return ['-I' + REPO, '-I' + incdir(), '-I' + os.path.join(VERIF, 'stubs'), '-I' + os.path.join(VERIF, 'harness')]

def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        try:
            with open(f, "rb") as fh: h.update(fh.read())
        except OSError: pass
        h.update(b"\0")
    return h.hexdigest()[:24]

def headers():
    r = []
    for root, _, fs in os.walk(os.path.join(REPO, "AmpGen")):
        r += [os.path.join(root, f) for f in fs]
    r += glob.glob(os.path.join(VERIF, "stubs", "*")) 
    return r

def sources():
    r = []
    for f in sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/Lineshapes/*.cpp")):
        if os.path.basename(f)[:-4] not in EXCLUDE: r.append(f)
    return r

class Lock:
    def __init__(self, name): self.name = name
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, self.name + ".lock"), "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def prune(d, keep=400):
    try:
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        if len(fs) > keep:
            fs.sort(key=os.path.getmtime)
            for f in fs[:-keep]:
                if os.path.isfile(f): os.remove(f)
    except OSError: pass

def compile_one(src, hh, opt, extra=()):
    od = os.path.join(BUILD, "obj"); os.makedirs(od, exist_ok=True)
    key = _hash([src], hh + " ".join(list(opt) + list(extra) + CXXFLAGS + DEFS))
    o = os.path.join(od, os.path.basename(src)[:-4] + "." + key + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + CXXFLAGS + list(opt) + DEFS + incflags() + list(extra) + ["-c", src, "-o", tmp])
        if r.returncode: raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
        os.rename(tmp, o)
    return o

def lib():
    """shared library holding every ROOT-free AmpGen TU compiled from the current tree"""
    with Lock("lib"):
        hh = _hash(headers(), "hdr")
        srcs = sources()
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda s: compile_one(s, hh, ["-O0"]), srcs))
        stub = os.path.join(VERIF, "stubs", "stubs.cpp")
        if os.path.exists(stub): objs.append(compile_one(stub, hh, ["-O0"]))
        key = hashlib.sha256(("gsl" + "".join(objs)).encode()).hexdigest()[:24]
        so = os.path.join(BUILD, "libAG." + key + ".so")
        if not os.path.exists(so):
            for f in glob.glob(os.path.join(BUILD, "libAG.*.so")): os.remove(f)
            tmp = so + ".tmp"
            r = sh(["g++", "-shared", "-fopenmp", "-o", tmp] + objs + ["-ldl", "-lpthread", "-lgsl", "-lgslcblas", "-Wl,-z,lazy"])
            if r.returncode: raise BuildError("link: " + r.stderr[-3000:])
            os.rename(tmp, so)
        prune(os.path.join(BUILD, "obj"))
        return so

def harness(name, src=None, opt=("-O0",)):
    """compile harness/<name>.cpp against the library; returns path of executable"""
    so = lib()
    src = src or os.path.join(VERIF, "harness", name + ".cpp")
    with Lock("h_" + name):
        key = _hash([src, so] + headers() + glob.glob(os.path.join(VERIF, "harness", "*.h")), "h" + " ".join(opt))
        exe = os.path.join(BUILD, "h_" + name + "." + key)
        if not os.path.exists(exe):
            for f in glob.glob(os.path.join(BUILD, "h_" + name + ".*")):
                if not f.endswith(".lock"): os.remove(f)
            r = sh(["g++"] + CXXFLAGS + list(opt) + DEFS + incflags() + ["-fno-access-control", src, so, "-o", exe + ".tmp",
                    "-Wl,-rpath," + BUILD, "-Wl,--unresolved-symbols=ignore-in-shared-libs", "-Wl,-z,lazy", "-Wl,--as-needed", "-lgsl", "-lgslcblas", "-lmvec", "-lm", "-ldl", "-lpthread"])
            if r.returncode: raise BuildError("harness %s:\n%s" % (name, r.stderr[-6000:]))
            os.rename(exe + ".tmp", exe)
        return exe

# --- sources that use CERN ROOT, compiled against the small functional stand-in in /verif/rootmini
ROOTSRC = "BinDT Chi2Estimator CoherentSum DalitzIntegrator DiscreteDistribution ErrorPropagator EventList EventListSIMD FastDT FitFraction Generator IncoherentSum Integrator Kinematics LASSO MatrixElement PartialWidthConstraint PhaseSpace PolarisedSum Projection RecursivePhaseSpace TreePhaseSpace TreeReader EventType ExpressionParser".split()
def rincflags():
    return ['-I' + REPO, '-I' + incdir(), '-I' + os.path.join(VERIF, 'rootmini'), '-I' + os.path.join(VERIF, 'harness')]
def _rc(src, hh, inc, opt, defs):
    od = os.path.join(BUILD, "obj"); os.makedirs(od, exist_ok=True)
    key = _hash([src], hh + "root" + " ".join(list(opt) + CXXFLAGS + list(defs)))
    o = os.path.join(od, "R" + os.path.basename(src)[:-4] + "." + key + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + CXXFLAGS + list(opt) + list(defs) + inc + ["-c", src, "-o", tmp])
        if r.returncode: raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
        os.rename(tmp, o)
    return o
def rheaders(): return headers() + glob.glob(os.path.join(VERIF, "rootmini", "*"))
def rootlib():
    """the ROOT-dependent TUs of the current tree against rootmini; to be linked before lib()"""
    with Lock("rlib"):
        hh = _hash(rheaders(), "rhdr")
        srcs = [os.path.join(REPO, "src", n + ".cpp") for n in ROOTSRC] + [os.path.join(VERIF, "rootmini", "rootmini.cpp")]
        srcs = [x for x in srcs if os.path.exists(x)]
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda s: _rc(s, hh, rincflags(), ["-O0", "-D_GLIBCXX_ASSERTIONS"], DEFS), srcs))
        key = hashlib.sha256("".join(objs).encode()).hexdigest()[:24]; so = os.path.join(BUILD, "libAR." + key + ".so")
        if not os.path.exists(so):
            for f in glob.glob(os.path.join(BUILD, "libAR.*.so")): os.remove(f)
            r = sh(["g++", "-shared", "-fopenmp", "-o", so + ".tmp"] + objs + ["-ldl", "-lpthread", "-lmvec", "-lm", "-Wl,-z,lazy"])
            if r.returncode: raise BuildError("link: " + r.stderr[-3000:])
            os.rename(so + ".tmp", so)
        return so
def rharness(name, opt=("-O0", "-D_GLIBCXX_ASSERTIONS")):
    so, ro = lib(), rootlib(); src = os.path.join(VERIF, "harness", "rt", name + ".cpp")
    with Lock("r_" + name):
        key = _hash([src, so, ro] + rheaders() + glob.glob(os.path.join(VERIF, "harness", "*.h")), "r" + " ".join(opt)); exe = os.path.join(BUILD, "r_" + name + "." + key)
        if not os.path.exists(exe):
            for f in glob.glob(os.path.join(BUILD, "r_" + name + ".*")):
                if not f.endswith(".lock"): os.remove(f)
            r = sh(["g++"] + CXXFLAGS + list(opt) + DEFS + rincflags() + ["-fno-access-control", src, ro, so, "-o", exe + ".tmp", "-Wl,-rpath," + BUILD, "-Wl,--unresolved-symbols=ignore-in-shared-libs", "-Wl,-z,lazy", "-ldl", "-lpthread", "-lgsl", "-lgslcblas", "-lmvec", "-lm"])
            if r.returncode: raise BuildError("harness %s:\n%s" % (name, r.stderr[-6000:]))
            os.rename(exe + ".tmp", exe)
        return exe
