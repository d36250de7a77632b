"""Running the programs on the pthread-based OpenMP runtime of harness/gompshim.cpp."""
import os, re, struct, subprocess
from . import core


def regions(exe):
    """offset of an outlined parallel region -> name of the function it belongs to."""
    out = subprocess.run(["nm", "-C", exe], stdout=subprocess.PIPE, text=True).stdout
    base = int(re.search(r"^([0-9a-f]+) \S __executable_start$", out, re.M).group(1), 16)
    r = {}
    for m in re.finditer(r"^([0-9a-f]+) \S (.*_omp_fn.*)$", out, re.M):
        n = m.group(2)
        k = re.search(r"_omp_fn\.(\d+)", n)
        r[int(m.group(1), 16) - base] = "%s#%s" % (re.split(r"\(| \[", n)[0].split("._omp")[0], k.group(1))
    return r


def env(threads, chunk=0, seed=0, stats=None, tsan=False):
    e = {"GOMPSHIM_THREADS": str(threads), "GOMPSHIM_CHUNK": str(chunk), "GOMPSHIM_SEED": str(seed)}
    if stats:
        e["GOMPSHIM_STATS"] = stats
    if tsan:
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4"
    return e


def read_stats(path, names):
    """-> {region: (entries, entries shared by two or more threads, chunks)}"""
    r = {}
    if os.path.exists(path):
        for fn, n, s, c in struct.iter_unpack("4Q", open(path, "rb").read()):
            if n:
                r[names.get(fn, "?%x" % fn)] = (n, s, c)
    return r
