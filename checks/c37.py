#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from vv import build, core, plot, snap
import c24


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    path, sig = c24.snapshot(c, rng, d)
    s0 = plot.load(path, c["vvflow"], d)
    for k in range(c["n"]):
        rect = snap.window(rng, s0)
        res = int(rng.integers(2, 50))
        eps = float(rng.choice([2, 1, .5, 4, rng.uniform(.1, 6)]))
        opts = [["-G"], ["--G", "%.3g" % rng.uniform(.1, 10)]][int(rng.integers(2))] + ["--res-hi", str(res)]
        if eps != 2 or rng.uniform() < .5:
            opts += ["--eps", "%.17g" % eps]
        A = c24.fields(c["vvplot"], path, d, rect, opts)
        what = "%s window %s %s" % (os.path.basename(path), rect, " ".join(opts))
        P, Q, dx = plot.grid(rect, res)
        if "map_vorticity" not in A:
            R.bad("missing", what + ": archive has only " + ", ".join(A))
            return
        z = c24.check_grid(R, "vorticity", what, A["map_vorticity"], P, dx)
        if z is None:
            continue
        s = plot.load(path, c["vvflow"], d)
        v, sc, un, sl = plot.both(lambda p: plot.vorticity(s, p, eps), P, Q)
        solid = plot.in_body(s, P.reshape(-1, 2))[0] & ~un
        R.count("points in solid", int(solid.sum()))
        R.count("points in solid that are not 0", int((z.ravel()[solid] != 0).sum()))
        c24.compare(R, "vorticity", what, z, v, sc, un, sl, P)
        R.case("%s|%s|%s" % (sig, "default" if eps == 2 else "eps", "solid" if solid.any() else "-"), 0)
        R.count("points with vorticity", int((v != 0).sum()))
    R.sample = "%s: %d vortices, %d bodies" % (sig, len(s0.vort), len(s0.bodies))


def main(chk):
    exe = {p: build.program(p, "rel") for p in ("vvflow", "vvplot")}
    chk.run(case, [dict(seed=[chk.seed, 37, i], n=4, big=i % 3 == 0, **exe) for i in range(chk.n(120, 1500))])


if __name__ == "__main__":
    core.main(main, "C37", "distinct (scenario, smoothing, solids in the window) fields compared point by point")
