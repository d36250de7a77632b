#!/usr/bin/env python3
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, fieldio, h5, oracle as O, plot, snap

NO_FAR = [dict(nb=1, vort=0, steps=1), dict(nb=1, vort=0, steps=3)]


def fields(vp, path, d, rect, opts):
    """Runs vvplot -> archive members."""
    core.must_ok(core.run2([vp, "--tar", "-x", "%.17g,%.17g" % tuple(rect[:2]), "-y", "%.17g,%.17g" % tuple(rect[2:]), *opts, path, "out.tar"], d, timeout=240), "vvplot")
    return plot.archive(os.path.join(d, "out.tar"))


def compare(R, key, what, z, want, sc, unsure, slack, P, tol=2e-6):
    """z: plotted (ny, nx) float32; want.. flat over the same grid."""
    e = np.abs(z.ravel().astype(float) - want)
    lim = tol * sc + max(tol / 10, 1e-13) * np.abs(want) + slack + 1e-12
    ok = ~unsure & np.isfinite(want) & np.isfinite(lim)
    x = np.where(ok, e / np.where(lim > 0, lim, 1e-300), 0)
    x[ok & (e == 0)] = 0
    R.maxi(key + " error/allowed", x.max(initial=0))
    R.evals += int(ok.sum())
    R.count(key + " points", int(ok.sum()))
    R.count(key + " points skipped", int((~ok).sum()))
    bad = ok & ~(e <= lim)
    if bad.any():
        i = int(np.argmax(np.where(bad, np.where(np.isfinite(x), x, 1e300), 0)))
        p = P.reshape(-1, 2)[i]
        R.bad(key, "%s: %d of %d points differ; at (%.17g, %.17g): %.9g instead of %.9g (allowed %.2g)" % (
            what, int(bad.sum()), len(want), p[0], p[1], z.ravel()[i], want[i], lim[i]))
        return False
    return True


def check_grid(R, key, what, b, P, dx):
    """The mesh of a plotted field is that of the window."""
    x, y, z = fieldio.unpack(b)
    eps = 4e-7 * max(np.abs(P).max(), abs(dx) * max(P.shape))
    if z.shape != P.shape[:2] or np.abs(x - P[0, :, 0]).max() > eps or np.abs(y - P[:, 0, 1]).max() > eps:
        R.bad(key + "-grid", "%s: mesh %s from (%.9g, %.9g) to (%.9g, %.9g), expected %s from %s to %s" % (what, z.shape, x[0], y[0], x[-1], y[-1], P.shape[:2], P[0, 0], P[-1, -1]))
        return None
    return z


def snapshot(c, rng, d):
    path, meta = snap.make(rng, d, c["vvflow"], big=c.get("big", False))
    return path, meta.sig


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    path, sig = snapshot(c, rng, d)
    s0 = plot.load(path, c["vvflow"], d)
    for _ in range(c["n"]):
        rect = snap.window(rng, s0)
        res, reslo = int(rng.integers(2, 40)), int(rng.integers(2, 40))
        ref = str(rng.choice(["o", "f", "b"] if s0.bodies else ["o", "f"]))
        mode = str(rng.choice(["x", "y"]))
        eps = float(rng.choice([2, 1, .5, 4, rng.uniform(.1, 6)]))
        opts = [["-U" + mode], ["--U" + mode, "-1,1"]][int(rng.integers(2))] + ["-S", "--res-hi", str(res), "--res-lo", str(reslo)]
        if ref != "o" or rng.uniform() < .5:
            opts += ["--ref-S", ref]
        if eps != 2 or rng.uniform() < .5:
            opts += ["--eps", "%.17g" % eps]
        A = fields(c["vvplot"], path, d, rect, opts)
        what = "%s window %s %s" % (os.path.basename(path), rect, " ".join(opts))
        P, Q, dx = plot.grid(rect, res)
        nm = "map_velocity_" + mode
        if nm not in A or "map_streamfunction" not in A:
            R.bad("missing", what + ": archive has only " + ", ".join(A))
            return
        z = check_grid(R, "velocity", what, A[nm], P, dx)
        s = plot.load(path, c["vvflow"], d)
        if z is not None:
            compare(R, "velocity", what, z, *plot.both(lambda p: plot.velocity(s, p, ref, mode), P, Q), P)
        P, Q, dx = plot.grid(rect, reslo)
        z = check_grid(R, "streamfunction", what, A["map_streamfunction"], P, dx)
        if z is not None:
            s = plot.load(path, c["vvflow"], d)
            compare(R, "streamfunction", what, z, *plot.both(lambda p: plot.streamfunction(s, p, ref, eps), P, Q), P)
        R.case("%s|%s|%s|%s" % (sig, ref, mode, "default" if eps == 2 else "eps"), 0)
    # the script's streamfunction
    q = np.array([rng.uniform(-3, 5, 2) for _ in range(20)])
    lua = 'S:load(%r)\n' % os.path.relpath(path, d) + "".join('print(string.format("%%.17g", S:XStreamfunction({%.17g, %.17g})))\n' % tuple(p) for p in q)
    open(os.path.join(d, "psi.lua"), "w").write(lua)
    r = core.must_ok(core.run2([c["vvflow"], "psi.lua"], d), "vvflow")
    got = np.array([float(x) for x in r.out.split()])
    w, sc, un = plot.script_streamfunction(plot.load(path, c["vvflow"], d), q)
    compare(R, "script", os.path.basename(path), got, w, sc, un, 0, q, 1e-12)
    R.sample = "%s: %d vortices, %d bodies" % (sig, len(s0.vort), len(s0.bodies))


def main(chk):
    exe = {p: build.program(p, "rel") for p in ("vvflow", "vvplot")}
    chk.run(case, [dict(seed=[chk.seed, 24, i], n=4, big=i % 3 == 0, **exe) for i in range(chk.n(120, 1500))])


if __name__ == "__main__":
    core.main(main, "C24", "distinct (scenario, reference frame, component, smoothing) fields compared point by point")
