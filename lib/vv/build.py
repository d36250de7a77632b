"""Compile the programs under test from /repo's working tree (never from a copy).

Objects are cached in /verif/_build, keyed by the hash of every input that can
influence them, so an unchanged tree is compiled once per sandbox.
"""
import fcntl
import glob
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VV_REPO", "/repo")
DEPS = "/opt/vp/deps"
BUILD = os.path.join(VERIF, "_build")

INC = [f"-I{REPO}/libvvhd/headers", f"-I{DEPS}/lua/src", f"-I{DEPS}/hdf5/include", f"-I{DEPS}/libarchive/include"]
LINK = ["-llapack", "-lblas", f"{DEPS}/hdf5/lib/libhdf5.a", f"{DEPS}/zlib/lib/libz.a",
        f"{DEPS}/lua/src/liblua.a", "-ldl", "-lm", "-lpthread"]

VARIANTS = {
    # name: (extra compile flags, extra link flags)
    "rel": (["-O2", "-g", "-DNDEBUG"], ["-fopenmp"]),
    "mon": (["-O2", "-g", "-DNDEBUG", "-DVVFLOW_MONITOR", f"-I{VERIF}/monitor"], ["-fopenmp"]),
    "asan": (["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-fsanitize=float-cast-overflow", "-fno-sanitize=pointer-overflow", "-D_GLIBCXX_ASSERTIONS"],
             ["-fopenmp", "-fsanitize=address,undefined"]),
    "amon": (["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-fsanitize=float-cast-overflow", "-fno-sanitize=pointer-overflow", "-D_GLIBCXX_ASSERTIONS", "-DVVFLOW_MONITOR", f"-I{VERIF}/monitor"],
             ["-fopenmp", "-fsanitize=address,undefined"]),
    "tsan": (["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "tmon": (["-O1", "-g", "-fno-omit-frame-pointer", "-DVVFLOW_MONITOR", f"-I{VERIF}/monitor"], []),
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def _hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(fp.read() + b"\0")
    return h.hexdigest()


def _included_cpps(files):
    """.cpp files that another source includes are not compiled on their own."""
    inc = set()
    for f in files:
        with open(f, errors="replace") as fp:
            for line in fp:
                line = line.strip()
                if line.startswith("#include") and (".cpp" in line or '.c"' in line):
                    n = line.replace("<", '"').replace(">", '"').split('"')
                    if len(n) > 1:
                        inc.add(os.path.normpath(os.path.join(os.path.dirname(f), n[1])))
    return inc


def sources(part):
    if part == "lib":
        d = [f"{REPO}/libvvhd/src/*.cpp"]
    elif part == "vvflow":
        d = [f"{REPO}/utils/vvflow/*.cpp", f"{REPO}/utils/vvflow/*.c"]
    else:
        d = [f"{REPO}/utils/{part}/*.cpp"]
    fs = sorted(sum((glob.glob(p) for p in d), []))
    inc = _included_cpps(fs)
    return [f for f in fs if os.path.normpath(f) not in inc]


class Builder:
    def __init__(self, variant):
        self.variant = variant
        self.cflags, self.lflags = VARIANTS[variant]
        self.dir = os.path.join(BUILD, variant)
        os.makedirs(self.dir, exist_ok=True)
        hdrs = []
        for root in (f"{REPO}/libvvhd", f"{REPO}/utils"):
            for d, _, fs in os.walk(root):
                hdrs += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".inc", ".ipp"))]
        hdrs += sorted(_included_cpps(glob.glob(f"{REPO}/utils/*/*.cpp") + glob.glob(f"{REPO}/libvvhd/src/*.cpp")))
        hdrs = [h for h in hdrs if os.path.exists(h)]
        hdrs += glob.glob(f"{VERIF}/monitor/*") + glob.glob(f"{VERIF}/harness/*.hpp")
        self.hh = _hash_files(hdrs)

    def obj(self, src, omp, extra=()):
        flags = ["-std=c++11"] + self.cflags + list(extra) + INC
        if omp:
            flags.append("-fopenmp")
        cc = "g++"
        if src.endswith(".c"):
            cc = "gcc"
            flags = [f for f in flags if f != "-std=c++11"]
        with open(src, "rb") as fp:
            k = hashlib.sha256((self.hh + cc + " ".join(flags) + src).encode() + fp.read()).hexdigest()[:24]
        o = os.path.join(self.dir, f"{os.path.basename(src)}.{k}.o")
        if not os.path.exists(o):
            tmp = o + ".tmp%d" % os.getpid()
            sh([cc, "-w", *flags, "-c", src, "-o", tmp])
            os.rename(tmp, o)
        return o

    def git_obj(self):
        f = os.path.join(self.dir, "gitinfo_gen.cpp")
        txt = ('extern const char *libvvhd_gitrev, *libvvhd_gitinfo, *libvvhd_gitdiff;\n'
               'const char* libvvhd_gitrev = "0123456789abcdef0123456789abcdef01234567";\n'
               'const char* libvvhd_gitinfo = "verif-build";\n'
               'const char* libvvhd_gitdiff = "";\n')
        if not os.path.exists(f) or open(f).read() != txt:
            open(f, "w").write(txt)
        return self.obj(f, False)

    def objs(self, part):
        jobs = [(s, part == "lib") for s in sources(part)]
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda a: self.obj(*a), jobs))

    def link(self, name, objs, extra=()):
        k = hashlib.sha256(" ".join(objs + list(extra) + self.lflags).encode()).hexdigest()[:16]
        exe = os.path.join(self.dir, f"{name}.{k}")
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            sh(["g++", *self.lflags, "-o", tmp, *objs, *LINK, *extra, *self.lflags])
            os.rename(tmp, exe)
        return exe


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune(limit=600 << 20):
    """Keep the cache small: drop the oldest files above the limit."""
    fs = []
    for d, _, ns in os.walk(BUILD):
        for n in ns:
            p = os.path.join(d, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            fs.append((st.st_mtime, st.st_size, p))
    tot = sum(f[1] for f in fs)
    for _, sz, p in sorted(fs):
        if tot <= limit:
            break
        if not p.endswith(("lock", "gitinfo_gen.cpp")):
            os.unlink(p)
            tot -= sz


def program(name, variant="rel"):
    """name: vvflow | vvplot | vvxtract -> path of the executable."""
    with _Lock():
        prune()
        b = Builder(variant)
        objs = b.objs("lib") + b.objs(name) + [b.git_obj()]
        extra = [f"{DEPS}/libarchive/lib/libarchive.a"] if name == "vvplot" else []
        if variant in ("tsan", "tmon"):
            objs.append(b.obj(f"{VERIF}/harness/gompshim.cpp", False))
        return b.link(name, objs, extra)


def harness(src, variant="rel", parts=("lib",)):
    """Link a /verif/harness source against the code under test."""
    with _Lock():
        b = Builder(variant)
        objs = sum((b.objs(p) for p in parts), []) + [b.git_obj()]
        objs.append(b.obj(os.path.join(VERIF, "harness", src), False))
        if variant in ("tsan", "tmon"):
            objs.append(b.obj(f"{VERIF}/harness/gompshim.cpp", False))
        return b.link(src.rsplit(".", 1)[0], objs)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        n, v = a.split(":")
        print(program(n, v))
