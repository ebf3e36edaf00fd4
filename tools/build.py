"""Building: the symbolic executor, the IR of /repo's current sources, and the
native replay runner.  Everything is rebuilt when its inputs change (the cache
under /verif/build is keyed by the content of the inputs)."""
import hashlib, os, re, subprocess, sys, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ARGOS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
LLVM = "/usr/lib/llvm-18"

DEFS = ["-D_GLIBCXX_ASSERTIONS"]
IRFLAGS = ["-std=c++20", "-O2", "-Xclang", "-disable-llvm-passes", "-fno-jump-tables",
           "-gline-tables-only", "-Wno-everything", "-emit-llvm", "-c"] + DEFS
OPTFLAGS = ["-passes=elim-avail-extern,default<O2>", "-vectorize-loops=false", "-vectorize-slp=false"]
NATFLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=undefined", "-c"] + DEFS
PLAINFLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-c"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_digest(dirs):
    parts = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".in", ".cpp", ".inc")):
                    p = os.path.join(root, f)
                    parts.append(p)
                    parts.append(read(p))
    return digest(*parts)


_tmp = threading.local()


def cached(key, ext, make):
    """make(tmp path) creates the file; returns the cached path."""
    path = os.path.join(CACHE, key + ext)
    if not os.path.exists(path):
        tmp = "%s.%d.%d%s" % (path[:-len(ext)] if ext else path, os.getpid(), threading.get_ident(), ext)
        make(tmp)
        os.replace(tmp, path)
    else:
        try:
            os.utime(path)
        except OSError:
            pass
    return path


def lib_sources():
    return sorted(glob.glob(REPO + "/src/Argos/*.cpp"))


def gen_version():
    """What CMake's configure_file does for ArgosVersion.hpp."""
    src = None
    for p in (REPO + "/src/Argos/ArgosVersion.hpp.in", REPO + "/include/Argos/ArgosVersion.hpp.in"):
        if os.path.exists(p):
            src = p
    if src is None:
        c = glob.glob(REPO + "/**/ArgosVersion.hpp.in", recursive=True)
        src = c[0]
    text = read(src).decode()
    cm = read(REPO + "/CMakeLists.txt").decode()
    m = re.search(r"project\s*\(\s*Argos[^)]*VERSION\s+([0-9.]+)", cm)
    ver = (m.group(1) if m else "0.0.0").split(".") + ["0", "0", "0"]
    rep = {"MAJOR": ver[0], "MINOR": ver[1], "PATCH": ver[2]}
    full = ".".join(v for v in ver[:3])
    def sub(mm):
        n = mm.group(1)
        for k, v in rep.items():
            if n.endswith("VERSION_" + k):
                return v
        return full if n.endswith("VERSION") else ""
    text = re.sub(r"[@]([A-Za-z_]+)[@]", sub, text)
    text = re.sub(r"\$\{([A-Za-z_]+)\}", sub, text)
    d = os.path.join(BUILD, "gen", digest(text))
    p = d + "/ArgosVersion.hpp"
    if not os.path.exists(p):
        os.makedirs(d, exist_ok=True)
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(p + ".%d" % os.getpid(), p)
    return d


def prune():
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        fs = sorted(((os.stat(f).st_mtime, os.stat(f).st_size, f) for f in fs), reverse=True)
    except OSError:
        return
    total = 0
    for _, size, f in fs:
        total += size
        if total > 3 << 30:
            try:
                os.unlink(f)
            except OSError:
                pass


class Builder:
    def __init__(self, jobs=8):
        os.makedirs(CACHE, exist_ok=True)
        self.pool = ThreadPoolExecutor(jobs)
        self.gen = gen_version()
        self.inc = ["-I" + VERIF + "/runtime", "-I" + VERIF + "/harness", "-I" + REPO + "/include", "-I" + self.gen, "-I" + REPO + "/src"]
        self.hdr = tree_digest([REPO + "/include", REPO + "/src"]) + digest(read(self.gen + "/ArgosVersion.hpp"))
        # headers only, for the library's own objects
        self.libhdr = digest(*[x for p in sorted(glob.glob(REPO + "/include/**/*.hpp", recursive=True) + glob.glob(REPO + "/src/**/*.hpp", recursive=True)) for x in (p.encode(), read(p))], read(self.gen + "/ArgosVersion.hpp"))
        self.single = REPO + "/single_src/Argos/Argos"
        self.singlehdr = digest(*[read(self.single + e) for e in (".hpp", ".cpp") if os.path.exists(self.single + e)])
        self.harhdr = digest(*[x for p in sorted(glob.glob(VERIF + "/harness/*.hpp") + glob.glob(VERIF + "/runtime/*.h")) for x in (p.encode(), read(p))])

    # -- engine
    def engine(self):
        d = VERIF + "/engine/"
        hs = digest(read(d + "expr.h"), read(d + "ir.h"))
        def obj(src, flags):
            key = digest("eng", hs, read(d + src), " ".join(flags))
            return self.pool.submit(cached, key, ".o", lambda t: sh(["g++", "-std=c++20"] + flags + ["-c", d + src, "-o", t]))
        llvm = ["-I" + LLVM + "/include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
        fs = [obj("expr.cpp", ["-O2"]), obj("exec.cpp", ["-O2"]), obj("irload.cpp", ["-O1"] + llvm)]
        def fin():
            os_ = [f.result() for f in fs]
            return cached(digest("englink", *os_), ".exe", lambda t: sh(["g++"] + os_ + ["-L" + LLVM + "/lib", "-lLLVM-18", "-lz3", "-o", t]))
        return fin

    # -- IR
    def ir(self, src, hdr, extra=()):
        flags = IRFLAGS + list(extra)
        key = digest("ir", read(src), src, hdr, " ".join(flags), " ".join(OPTFLAGS))
        def make(t):
            raw = t + ".raw"
            try:
                sh(["clang++"] + flags + self.inc + [src, "-o", raw])
                sh(["opt"] + OPTFLAGS + [raw, "-o", t])
            finally:
                if os.path.exists(raw):
                    os.unlink(raw)
        return self.pool.submit(cached, key, ".bc", make)

    def native(self, src, hdr, extra=(), flags=NATFLAGS):
        key = digest("nat", read(src), src, hdr, " ".join(flags), " ".join(extra))
        return self.pool.submit(cached, key, ".o", lambda t: sh(["clang++"] + flags + list(extra) + self.inc + [src, "-o", t]))

    def program(self, harnesses, libs=None, extra=()):
        """-> (function giving the linked .bc, function giving the native runner,
        function giving the unsanitised runner)"""
        libs = lib_sources() if libs is None else libs
        har = lambda h: self.libhdr + self.harhdr + (self.singlehdr if h.startswith("c28_s") else "")
        defs = lambda h: list(extra) + (['-DARGOS_SINGLE_%s="%s.%s"' % (e.upper(), self.single, e) for e in ("hpp", "cpp")] if h.startswith("c28_s") else [])
        rt = VERIF + "/runtime/"
        bcs = [self.ir(s, self.libhdr) for s in libs] + [self.ir(rt + "symrt.cpp", self.harhdr)] + \
              [self.ir(VERIF + "/harness/" + h, har(h), defs(h)) for h in harnesses]
        def bc():
            fs = [f.result() for f in bcs]
            return cached(digest("link", *fs), ".bc", lambda t: sh(["llvm-link"] + fs + ["-o", t]))
        def mk(flags):
            nats = [self.native(s, self.libhdr, (), flags) for s in libs] + [self.native(rt + "native.cpp", self.harhdr, (), flags)] + \
                   [self.native(VERIF + "/harness/" + h, har(h), defs(h), flags) for h in harnesses]
            san = ["-fsanitize=address,undefined"] if flags is NATFLAGS else []
            def nat():
                fs = [f.result() for f in nats]
                return cached(digest("natlink", *fs), ".exe", lambda t: sh(["clang++"] + san + fs + ["-rdynamic", "-ldl",
                              "-Wl,--wrap=exit,--wrap=ioctl,--wrap=strtod,--wrap=strtof", "-o", t]))
            return nat
        return bc, mk(NATFLAGS), (lambda: mk(PLAINFLAGS)())
