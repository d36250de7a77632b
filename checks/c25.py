#!/usr/bin/env python3
import math, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, fieldio, libcli
from vv.libcli import f, pf


def corrupt(rng, b, nx):
    """-> (what, bytes) of a file that is not a complete uniform grid."""
    a = np.frombuffer(b, np.float32).copy()
    k = int(rng.integers(10))
    w = nx + 1
    if k == 0:
        return "odd", b[:len(b) - int(rng.integers(1, 4))]
    if k == 1:
        n = int(rng.integers(1, w)) * 4
        return "cut", b[:len(b) - n]
    if k == 2:
        return "long", b + b"\0\0\0\0" * int(rng.integers(1, w))
    if k == 3:
        return "empty", b[:4 * int(rng.integers(0, 9))]
    if k == 4:
        a[0] = rng.choice([0, 1, -1, -nx, math.nan, math.inf, -math.inf, nx + .5, 1e9, 3e9, 1e38, len(a)])
        return "N", a.tobytes()
    if k == 5:
        a[0] = nx + 1 if len(a) % (nx + 2) else nx + .25
        return "N", a.tobytes()
    if k == 6:
        a[1:w] = a[1] + (a[1:w] - a[1]) * rng.choice([1.1, .5, 2, -1, 0, math.nan])
        return "dx", a.tobytes()
    if k == 7:
        a[w::w] = a[w] + (a[w::w] - a[w]) * rng.choice([1.1, .5, 2, -1, 0, math.nan])
        return "dy", a.tobytes()
    if k == 8:
        return "one row", a[:2 * w].tobytes()
    a[1:w] = a[1] - (a[1:w] - a[1])
    a[w::w] = a[w] - (a[w::w] - a[w])
    return "reversed", a.tobytes()


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    cmds, want = [], []
    for i in range(c["n"]):
        z = fieldio.random(rng)
        ny, nx = z.shape
        dx = float(np.float32(rng.choice([1, .5, .1, 10.0 ** rng.uniform(-3, 2)])))
        off = np.float32(rng.choice([0, 1, 30, 1000]) * rng.uniform(-1, 1, 2) * dx * 30)
        b = fieldio.pack(z, off[0], off[1], dx)
        p = os.path.join(d, "f%d" % i)
        if rng.uniform() < 0.4:
            what, b = corrupt(rng, b, nx)
            ps = []
        else:
            what = None
            n = int((z != 0).sum())
            ps = [float(np.float32(rng.choice([rng.uniform(1e-4, .9999), .5, .01, .99, (int(rng.integers(1, max(n, 1) + 1)) - .5) / max(n, 1)]))) for _ in range(6)]
            ps = [q for q in ps if 0 < q < 1]
        open(p, "wb").write(b)
        cmds.append("field %s %s.o %s" % (p, p, " ".join(f(q) for q in ps)))
        want.append((what, b, z, ps, dx))
    out = libcli.run(c["exe"], d, cmds, what="field", asan=c["san"])
    for cmd, (what, b, z, ps, dx), o in zip(cmds, want, out):
        ny, nx = z.shape
        if what:
            if not o.startswith("E "):
                R.bad("accepted:" + what.replace(" ", "-"), "a %dx%d field with damage '%s' is accepted" % (nx, ny, what))
            R.case("bad|" + what)
            continue
        x0, y0, _ = fieldio.unpack(b)
        eps = 1.2e-7 * max(np.abs(x0).max(), np.abs(y0).max())
        if eps > 2e-4 * dx * (min(nx, ny) - 1):
            R.count("spacing below single precision")
            continue
        if o.startswith("E "):
            R.bad("refused", "a %dx%d field with spacing %g is refused: %s" % (nx, ny, dx, o))
            continue
        g = [pf(x) for x in o.split()]
        if g[0] != z.min() or g[1] != z.max():
            R.bad("minmax", "min/max %g/%g instead of %g/%g" % (g[0], g[1], z.min(), z.max()))
        s = np.sort(z[z != 0].astype(np.float64))
        n = len(s)
        for q, v in zip(ps, g[2:]):
            if n == 0:
                ok = v == 0
            else:
                up = np.float32(q) >= np.float32(.5)
                x = n * ((1 - q) if up else q)
                ks = {max(1, math.floor(x + e)) for e in (-1e-4 - 1e-6 * n, 1e-4 + 1e-6 * n)}
                ok = v in [(s[n - k] if up else s[k - 1]) for k in ks if k <= n]
            if not ok:
                R.bad("percentile", "percentile %g of %d nonzero values is %g" % (q, n, v))
            R.case("p|%d|%d" % (n, int(q * 50)))
        back = open(cmd.split()[2], "rb").read()
        try:
            x1, y1, z1 = fieldio.unpack(back)
            if z1.shape != z.shape or z1.tobytes() != z.tobytes():
                R.bad("values", "a %dx%d field comes back changed" % (nx, ny))
            else:
                e = max(np.abs(x1 - x0).max(), np.abs(y1 - y0).max())
                # the spacing, known to the precision of the ends of the x axis, is used for both
                tol = 3 * eps * max(1, ny / (nx - 1))
                if e > tol:
                    R.bad("grid", "the grid of a %dx%d field with spacing %g is off by %.3g (allowed %.3g)" % (nx, ny, dx, e, tol))
                R.maxi("grid error/allowed", e / tol)
        except ValueError as e:
            R.bad("unreadable", str(e))
        R.case("rt|%d|%d" % (nx // 4, ny // 4), z.size)
    R.sample = cmds[-1][-60:] + " -> " + out[-1][:80]


def main(chk):
    exe, san = build.harness("lib.cpp", "rel"), build.harness("lib.cpp", "asan")
    chk.run(case, [dict(seed=[chk.seed, 25, i], exe=(san if i % 4 == 0 else exe), san=i % 4 == 0, n=150) for i in range(chk.n(120, 1600))])


core.main(main, "C25", "distinct size classes round-tripped, (count, percentile) classes, kinds of damage")
