"""Build + run machinery shared by all checks (see DESIGN.md)."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
CUDD = os.path.join(SRC, "symbolic_search", "cudd-3.0.0")
NCPU = os.cpu_count() or 4

INC = [SRC] + [os.path.join(SRC, d) for d in ("search", "symbolic_search", "heuristics", "intDataStructures", "translation", "sat")] + \
      [os.path.join(CUDD, "cudd"), os.path.join(CUDD, "cplusplus")]
DEFS = ["-DNDEBUG", "-DCMAKE_NO_ILP", "-DIL_STD", "-Dmain=panda_main", "-w", "-DPANDA_VERIF_HASH_BUCKETS=61"]
INSTR = ["-O1", "-fno-vectorize", "-fno-slp-vectorize"]


def log(*a):
    print("[vt]", *a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


class Builder:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vt-")
        self.cache = os.environ.get("VT_CACHE", os.path.join(VERIF, "build", "cache"))
        try:
            os.makedirs(self.cache, exist_ok=True)
        except OSError:
            self.cache = None
        self.pool = ThreadPoolExecutor(NCPU)
        self.futs = {}
        self.encoded = {}
        hs = sorted(glob.glob(SRC + "/**/*.h", recursive=True) + glob.glob(SRC + "/**/*.hh", recursive=True))
        self.hdr = sha(*[x for p in hs if "/cudd-3.0.0/" not in p for x in (p, rd(p))])
        self.chdr = sha(*[x for p in hs if "/cudd-3.0.0/" in p for x in (p, rd(p))])
        self.ehdr = sha(*[rd(p) for p in sorted(glob.glob(ENG + "/*.h") + glob.glob(HAR + "/*.h"))])
        self.plugkey = sha(rd(ENG + "/SymPass.cpp"), self.ehdr)

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    def _run(self, cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        return r.stdout

    def job(self, key, fn):
        """run fn(outpath) once per key in the pool; the result is a path"""
        if key in self.futs:
            return self.futs[key]

        def work():
            if self.cache:
                c = os.path.join(self.cache, key)
                if os.path.exists(c):
                    return c
            out = os.path.join(self.dir, key)
            fn(out)
            if self.cache and not os.environ.get("VT_NOCACHE"):
                try:
                    t = c + ".%d" % os.getpid()
                    shutil.copy2(out, t)
                    os.replace(t, c)
                except OSError:
                    pass
            return out
        f = self.pool.submit(work)
        self.futs[key] = f
        return f

    # ---- engine parts
    def plugin(self):
        return self.job("plugin-" + self.plugkey, lambda o: self._run(
            ["clang++-18", "-O0", "-fPIC", "-shared", "-std=c++17", "-w", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-fno-rtti", "-fno-exceptions",
             ENG + "/SymPass.cpp", "-o", o]))

    def rt(self):
        return self.job("rt-" + sha(rd(ENG + "/rt.cpp"), self.ehdr), lambda o: self._run(
            ["g++", "-O2", "-std=c++17", "-w", "-c", ENG + "/rt.cpp", "-o", o]))

    def rt_replay(self):
        return self.job("rtr-" + sha(rd(ENG + "/rt_replay.cpp"), self.ehdr), lambda o: self._run(
            ["g++", "-O1", "-std=c++17", "-w", "-c", ENG + "/rt_replay.cpp", "-o", o]))

    def explorer(self):
        return self.job("explore-" + sha(rd(ENG + "/explore.cpp"), self.ehdr), lambda o: self._run(
            ["g++", "-O2", "-std=c++17", "-w", ENG + "/explore.cpp", "-o", o, "-lz3", "-lminisat", "-lpthread"]))

    # ---- translation units
    def _flags(self, src, defs, inc):
        lang = src.endswith(".c")
        hdr = self.hdr if "/cudd-3.0.0/" not in src else self.chdr
        if "CMAKE_NO_BDD" not in " ".join(defs):
            hdr = sha(self.hdr, self.chdr)
        return lang, hdr, [x for i in inc for x in ("-I", i)]

    def instr(self, src, defs=(), inc=(), opt="-O0", ehdr=""):
        """compile one TU with the symbolic instrumentation"""
        defs = list(defs); inc = list(inc) or INC
        lang, hdr, I = self._flags(src, defs, inc)
        key = "sym-" + sha(rd(src), src, hdr, ehdr, self.plugkey, *defs, *inc, *INSTR, opt)
        plug = self.plugin

        def go(o):
            p = plug_f.result()
            cc = ["clang-18"] if lang else ["clang++-18", "-std=c++17"]
            ex = [] if lang else ["-fno-exceptions"]
            self._run(cc + INSTR + ex + defs + I + ["-fpass-plugin=" + p, "-emit-llvm", "-c", src, "-o", o + ".bc"])
            self._run(["clang-18", opt, "-w", "-c", o + ".bc", "-o", o])
            os.unlink(o + ".bc")
        plug_f = plug()
        return self.job(key, go)

    def native(self, src, defs=(), inc=(), flags=("-O1",), ehdr=""):
        defs = list(defs); inc = list(inc) or INC
        lang, hdr, I = self._flags(src, defs, inc)
        key = "nat-" + sha(rd(src), src, hdr, ehdr, *defs, *inc, *flags)

        def go(o):
            cc = ["gcc"] if lang else ["g++", "-std=c++17"]
            self._run(cc + list(flags) + defs + I + ["-c", src, "-o", o])
        return self.job(key, go)

    def link(self, key, objs, extra=(), cc="g++"):
        def go(o):
            self._run([cc] + list(extra) + objs + ["-o", o])
        # linking waits for its inputs in the caller's thread
        return self.job("bin-" + key, go)


# ------------------------------------------------------------------ source groups
def planner_sources(sat=False, bdd=False):
    pats = ["*.cpp", "cmdline.c", "search/*.cpp", "search/fringes/*.cpp", "heuristics/*.cpp", "heuristics/landmarks/*.cpp",
            "heuristics/landmarks/*/*.cpp", "heuristics/rcHeuristics/*.cpp", "intDataStructures/*.cpp", "translation/*.cpp"]
    if sat:
        pats.append("sat/*.cpp")
    if bdd:
        pats.append("symbolic_search/*.cpp")
    out = []
    for p in pats:
        out += glob.glob(os.path.join(SRC, p))
    # not part of the repository's own build either: these do not compile on their own
    out = [p for p in out if os.path.basename(p) not in ("IntPairHeap-2.cpp", "hsAddFF-2.cpp")]
    return sorted(out)


class Harness:
    """one harness program = harness sources (instrumented) + /repo sources (instrumented) + native helpers"""

    def __init__(self, name, repo="planner", native=(), defs=(), bdd=False, sat=False, files=(), libs=(), extra_src=(), cudd=None, opt="-O0", special=None, exclude=()):
        self.name, self.repo, self.nativesrc, self.defs = name, repo, list(native), list(defs)
        self.bdd, self.sat, self.files, self.libs, self.cudd, self.opt = bdd, sat, list(files), list(libs), cudd, opt
        self.special, self.exclude = special or {}, exclude   # extra flags per source file; sources replaced by the harness

    def sources(self):
        if self.repo == "planner":
            return [p for p in planner_sources(self.sat, self.bdd) if not any(x in p for x in self.exclude)]
        return [os.path.join(SRC, f) for f in self.files]

    def alldefs(self):
        d = list(DEFS) + self.defs
        if not self.bdd:
            d.append("-DCMAKE_NO_BDD")
        if not self.sat:
            d.append("-DCMAKE_NO_SAT")
        return d

    def defs_of(self, src):
        d = self.alldefs()
        for k, v in self.special.items():
            if src.endswith("/" + k):
                d = [x for x in d if not x.startswith("-DCMAKE_NO_") or x == "-DCMAKE_NO_ILP"] + ["-include", os.path.join(HAR, v)]
        return d

    def build_sym(self, b):
        defs = self.alldefs()
        eh = lambda s: sha(*[rd(os.path.join(HAR, v)) for k, v in self.special.items() if s.endswith("/" + k)])
        fs = [b.instr(s, self.defs_of(s) + (["-include", HAR + "/nothrow.h"] if "/symbolic_search/" in s else []), opt=self.opt, ehdr=eh(s)) for s in self.sources()]
        fs.append(b.instr(os.path.join(HAR, self.name + ".cpp"), defs, INC + [HAR, ENG], ehdr=b.ehdr))
        fs += self.natives(b)
        fs.append(b.rt())
        objs = [f.result() for f in fs]
        ex = ["-static", "-no-pie"]
        return b.link(sha(*objs, *self.libs, "sym"), objs + self.libs, ex).result()

    def natives(self, b):
        r = [b.native(os.path.join(HAR, n), self.alldefs(), INC + [HAR, ENG], ("-O2",), ehdr=b.ehdr) for n in self.nativesrc]
        if self.cudd:
            r += cudd_objs(b, self.cudd)
        return r

    def build_replay(self, b, asan=False):
        fl = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr") if asan else ("-O1",)
        defs = self.alldefs()
        fs = [b.native(s, self.defs_of(s), flags=fl) for s in self.sources()]
        fs.append(b.native(os.path.join(HAR, self.name + ".cpp"), defs, INC + [HAR, ENG], fl, ehdr=b.ehdr))
        fs += self.natives(b)
        fs.append(b.rt_replay())
        objs = [f.result() for f in fs]
        ex = ["-Wl,--wrap=exit,--wrap=_ZNSirsERi"] + (["-fsanitize=address,undefined"] if asan else [])
        return b.link(sha(*objs, *self.libs, "rep", asan), objs + self.libs, ex).result()


def cudd_sources(dirs):
    out = []
    for d in dirs:
        for p in sorted(glob.glob(os.path.join(CUDD, d, "*.c"))):
            bn = os.path.basename(p)
            if bn.startswith("test") and d != "dddmp":
                continue
            if d == "dddmp" and bn.startswith("testdddmp"):
                continue
            out.append(p)
    return out


def cudd_objs(b, dirs):
    inc = [os.path.join(VERIF, "lib", "cudd")] + [os.path.join(CUDD, d) for d in ("", "cudd", "util", "st", "mtr", "epd", "dddmp")]
    cpp = [b.native(os.path.join(CUDD, "cplusplus", "cuddObj.cc"), ["-DHAVE_CONFIG_H", "-w", "-DCMAKE_NO_BDD"], inc + [os.path.join(CUDD, "cplusplus")], ("-O2",))] if "cudd" in dirs else []
    return cpp + [b.native(p, ["-DHAVE_CONFIG_H", "-w", "-DCMAKE_NO_BDD"], inc, ("-O2",)) for p in cudd_sources(dirs)]

HARNESSES = {}


def harness(key, *a, **k):
    HARNESSES[key] = Harness(*a, **k)
