"""Build the extractor, run it over /repo's current sources, load the merged program."""
import glob, hashlib, json, os, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SA = os.path.dirname(HERE)
VERIF = os.path.dirname(SA)
REPO = os.environ.get("RODSA_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    """Analyser cannot give an answer (exit 2)."""


NDEBUG_DIRS = {"Design", "Driver", "ObjectiveFunctions", "Optimizers", "InternalOptimizers", "SurrogateModels"}
OMP_DIRS = {"Optimizers", "InternalOptimizers", "SurrogateModels", "API", ""}
DIRS = ["", "API", "Bounds", "CorrelationFunctions", "Design", "Driver", "InternalOptimizers", "LinearAlgebra",
        "ObjectiveFunctions", "Optimizers", "SurrogateModels"]
# present in the tree but in no build target
NOT_BUILT = {"InternalOptimizers/gradient_optimizer.cpp"}


def sources(dirs=None):
    out = []
    for d in (DIRS if dirs is None else dirs):
        for f in sorted(glob.glob(os.path.join(SRC, d, "*.cpp"))):
            rel = os.path.relpath(f, SRC)
            if rel in NOT_BUILT:
                continue
            out.append(rel)
    if not out:
        raise AnalysisError("no sources under %s" % SRC)
    return out


def flags_for(rel):
    d = os.path.dirname(rel)
    fl = ["-x", "c++", "-std=gnu++17", "-w", "-fopenmp", "-ferror-limit=5", "-I" + os.path.join(SA, "stubs"),
          "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]
    if d in NDEBUG_DIRS:
        fl.append("-DNDEBUG")
    if d in OMP_DIRS:
        fl.append("-DOPENMP_SUPPORT")
    if d == "LinearAlgebra":
        fl.append("-DOPENBLAS")
    if d == "API":
        fl.append("-I" + os.path.join(SRC, "INCLUDE"))
    return fl


def extractor():
    src = os.path.join(SA, "extract", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        cxx = subprocess.run(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"], capture_output=True, text=True, check=True).stdout.split()
        cxx = [x for x in cxx if not x.startswith("-std=") and x != "-fno-exceptions"]
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = ["clang++", "-O0", "-std=c++17", "-fno-rtti"] + cxx + [src, "-o", tmp,
               "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so.18.1"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError("extractor does not build: " + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


def file_hash(*ps):
    h = hashlib.sha256()
    for p in ps:
        h.update(os.path.relpath(p, SRC).encode() + b"\0")
        h.update(open(p, "rb").read())
    return h


def header_hash():
    """every header, the extractor and this file: a change re-extracts everything"""
    hs = []
    for root, ds, fs in os.walk(SRC):
        ds.sort()
        hs += [os.path.join(root, f) for f in sorted(fs) if f.endswith((".hpp", ".h", ".hxx", ".inl"))]
    h = file_hash(*(hs + sorted(glob.glob(os.path.join(SA, "extract", "*"))) + sorted(glob.glob(os.path.join(SA, "stubs", "**", "*.h*"), recursive=True))
                    + [os.path.join(HERE, "facts.py")]))
    h.update(SRC.encode())
    return h.hexdigest()[:24]


def load_raw(dirs=None):
    exe = extractor()
    rels = sources(dirs)
    cache = os.environ.get("RODSA_CACHE", BUILD)
    cdir = os.path.join(cache, "facts-" + header_hash())
    os.makedirs(cdir, exist_ok=True)
    # keep at most a handful of cached trees
    olds = sorted(glob.glob(os.path.join(cache, "facts-*")), key=os.path.getmtime)
    for o in olds[:-6]:
        if o != cdir:
            for f in glob.glob(os.path.join(o, "*")):
                try:
                    os.unlink(f)
                except OSError:
                    pass
            try:
                os.rmdir(o)
            except OSError:
                pass

    def one(rel):
        out = os.path.join(cdir, rel.replace("/", "__") + "-" + file_hash(os.path.join(SRC, rel)).hexdigest()[:20] + ".json")
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run([exe, SRC, tmp, os.path.join(SRC, rel), "--"] + flags_for(rel), capture_output=True, text=True)
            if r.returncode != 0:
                raise AnalysisError("source does not parse: %s\n%s" % (rel, r.stderr[-1500:]))
            os.rename(tmp, out)
            old = sorted(glob.glob(os.path.join(cdir, rel.replace("/", "__") + "-*.json")), key=os.path.getmtime)
            for o in old[:-8]:
                try:
                    os.unlink(o)
                except OSError:
                    pass
        with open(out) as f:
            d = json.load(f)
        return rel, d

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, rels))
