"""Batch access to harness/lib.cpp."""
import subprocess
from . import core


def run(exe, d, cmds, timeout=120, env=None, what="library", asan=False):
    """-> one answer line per command; a crash or hang is a violation."""
    r = core.run2([exe], d, inp=("\n".join(cmds) + "\n").encode(), timeout=timeout, env=env, asan=asan)
    out = r.out.splitlines()
    dd = core.died(r)
    if dd or r.rc != 0 or len(out) != len(cmds):
        last = cmds[min(len(out), len(cmds) - 1)][:300]
        raise core.Viol("crash:" + what, "%s died (%s, rc %s) at command '%s': %s" % (what, dd, r.rc, last, r.err[-800:]))
    return out


def hx(s):
    return s.encode("utf8", "surrogateescape").hex()


def f(x):
    return float.hex(float(x)) if x == x and abs(x) != float("inf") else ("nan" if x != x else ("inf" if x > 0 else "-inf"))


def pf(s):
    return float.fromhex(s) if "x" in s else float(s)
