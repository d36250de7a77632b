#!/usr/bin/env python3
import glob, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, scen

SKIP = {"time_local", "git_rev", "git_info", "git_diff"}
TOL = 1e-6

# a free cylinder driven against its upper movement limit, and the other degrees of freedom likewise
DIRECTED = """
S.re = inf; S.dt = "1/20"; S.dt_save = "1/20"; S.finish = 0.8; S.caption = "t"
local b = gen_cylinder{R=0.5, N=24}
b.density = 2
b.spring_const = %s
b.%s
b.collision_max.%s = %s
b.bounce = 0.7
S.body_list:insert(b)
"""


def snaps(d):
    return {os.path.basename(p): p for p in glob.glob(d + "/results_*/*.h5")}


def near(a, b, scale=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False, "shape %s instead of %s" % (b.shape, a.shape)
    if not a.size:
        return True, ""
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    fin = np.isfinite(a)
    s = max(scale, float(np.abs(a[fin]).max(initial=0)))
    with np.errstate(all="ignore"):
        ok = same | (np.abs(a - b) <= TOL * s + 1e-12)
    if ok.all():
        return True, ""
    k = np.unravel_index(int(np.argmin(ok)), a.shape)
    return False, "element %s is %.12g instead of %.12g" % (k, b[k], a[k])


def compare(R, key, what, a, b):
    """Snapshot a of the uninterrupted run, b of the resumed one."""
    for k in sorted((set(a.attrs) | set(b.attrs)) - SKIP):
        x, y = a.attrs.get(k), b.attrs.get(k)
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if x != y:
                R.bad("%s:attr:%s" % (key, k), "%s: attribute %s is %s instead of %s" % (what, k, str(y)[:60], str(x)[:60]))
            continue
        ok, m = near(np.atleast_1d(x), np.atleast_1d(y), 1.0 if k in ("force_hydro", "force_holder", "speed_slae", "friction_prev", "fdt_dead") else 0)
        if not ok:
            R.bad("%s:attr:%s" % (key, k), "%s: attribute %s %s" % (what, k, m))
    if isinstance(a, h5.Dataset):
        for j in range(a.data.shape[1] if a.data.ndim > 1 else 1):
            c = (lambda z: z[:, j] if z.ndim > 1 else z)
            if a.data.shape != b.data.shape:
                R.bad("%s:shape" % key, "%s: %d elements instead of %d" % (what, len(b.data), len(a.data)))
                return
            ok, m = near(c(a.data), c(b.data), float(np.abs(a.data).max(initial=0)) * .01)
            if not ok:
                R.bad("%s:data" % key, "%s, column %d: %s" % (what, j, m))
                return
        return
    ca = {k for k, v in getattr(a, "children", {}).items() if not isinstance(v, h5.NamedType)}
    cb = {k for k, v in getattr(b, "children", {}).items() if not isinstance(v, h5.NamedType)}
    if ca != cb:
        R.bad("%s:objects" % key, "%s: %s differ" % (what, sorted(ca ^ cb)))
    for k in sorted(ca & cb):
        compare(R, key, what + " " + k, a.children[k], b.children[k])


def rows(path):
    """Step log -> {dataset: rows}."""
    out = {}

    def walk(n, p):
        if isinstance(n, h5.Dataset):
            out[p] = n.data
        for k, v in getattr(n, "children", {}).items():
            walk(v, p + "/" + k)
    walk(h5.read(path), "")
    return out


def logs(R, key, full, part, t0, what):
    t = full["/time"][:, 0]
    k0 = int(np.searchsorted(t, np.float32(t0)))
    if set(full) != set(part):
        R.bad(key + ":datasets", "%s: datasets %s differ" % (what, sorted(set(full) ^ set(part))))
    for k in set(full) & set(part):
        a, b = full[k][k0:], part[k]
        ok, m = near(a, b, float(np.abs(full[k][np.isfinite(full[k])]).max(initial=0)) if full[k].size else 0)
        if not ok:
            R.bad("%s:%s" % (key, k.split("/")[-1]), "%s, step log %s: %s" % (what, k, m))
    R.evals += len(full)


def resume(c, d, R, sc_sig, key="resume", points=None, rng=None, args=(), chain=False):
    """Run s.lua in d/u, then resume from its snapshots in directories of their own."""
    u = d + "/u"
    core.must_ok(core.run2([c["vv"], *args, "s.lua"], u), "vvflow")
    S = snaps(u)
    names = sorted(S)
    if len(names) < 3:
        raise core.Inconclusive("too few snapshots")
    ref = {n: h5.read(S[n]) for n in names}
    full = rows(glob.glob(u + "/stepdata_*.h5")[0])
    hits = [n for n in names if any("collision_state" in b.attrs for b in ref[n].children.values())]
    R.count("snapshots of a rebound", len(hits))
    cand = names[:-1]
    if points is not None and len(cand) > points:
        sel = set(rng.choice(len(cand), points, replace=False).tolist())
        cand = [n for i, n in enumerate(cand) if i in sel or n in hits[:3]]
    src = S
    for n in cand:
        p = d + "/p"
        shutil.rmtree(p, ignore_errors=True)
        os.mkdir(p)
        shutil.copy(src[n], p + "/from.h5")
        core.must_ok(core.run2([c["vv"], *args, "from.h5"], p), "vvflow (resumed)")
        G = snaps(p)
        want = [m for m in names if m >= n]
        if sorted(G) != want:
            R.bad(key + ":files", "resumed from %s: snapshots %s instead of %s" % (n, sorted(G)[:6], want[:6]))
        for m in want:
            if m in G:
                compare(R, key, "resumed from %s, snapshot %s:" % (n, m), ref[m], h5.read(G[m]))
        t = ref[n].attrs["time"]
        logs(R, key + ":log", full, rows(glob.glob(p + "/stepdata_*.h5")[0]), t[0] / t[1], "resumed from %s" % n)
        R.case("%s|%s" % (sc_sig, "rebound" if n in hits else "step"), len(want))
        R.count("resumed runs")
        if R.viol:
            return


def random(c, d, R):
    rng = np.random.default_rng(c["seed"])
    kw = dict(steps=int(rng.integers(8, 18)), save_every=int(rng.choice([1, 1, 2, 3])), start=int(rng.integers(-4, 30)) if rng.uniform() < .4 else 0)
    if c["collide"]:
        kw.update(collide=True, motion=("spring", "free", "spring1"), nb=int(rng.integers(1, 3)))
    sc = scen.scenario(rng, **kw)
    os.mkdir(d + "/u")
    scen.write(sc, d + "/u")
    R.sample = sc.meta.sig
    resume(c, d, R, sc.meta.sig, points=c["points"], rng=rng, args=("--profile",) if rng.uniform() < .3 else ())


def directed(c, d, R):
    os.mkdir(d + "/u")
    k, f, lim = c["dir"]
    open(d + "/u/s.lua", "w").write(DIRECTED % (k, f, lim[0], lim[1]) + ('S.gravity = {0, -1}\n' if "y" in f else "") + "simulate()\n")
    resume(c, d, R, "directed " + f, key="restart:collision-step")
    R.sample = f


def twice(c, d, R):
    """simulate() called again after the finish was moved continues the same run."""
    rng = np.random.default_rng(c["seed"])
    n = int(rng.integers(8, 16))
    sc = scen.scenario(rng, steps=n, save_every=1, start=0, collide=rng.uniform() < .5)
    for sub, tail in (("u", "simulate()\n"), ("p", "local f = S.finish; S.finish = f*%.3f; simulate(); S.finish = f; simulate()\n" % rng.uniform(.1, .9))):
        os.mkdir(d + "/" + sub)
        scen.write(sc, d + "/" + sub, tail)
        core.must_ok(core.run2([c["vv"], "s.lua"], d + "/" + sub), "vvflow")
    A, B = snaps(d + "/u"), snaps(d + "/p")
    if sorted(A) != sorted(B):
        R.bad("twice:files", "snapshots %s instead of %s" % (sorted(B), sorted(A)))
    for m in sorted(set(A) & set(B)):
        a, b = h5.read(A[m]), h5.read(B[m])
        b.attrs["time_to_finish"] = a.attrs["time_to_finish"]
        compare(R, "twice", "continued in the same script, snapshot %s:" % m, a, b)
    logs(R, "twice:log", rows(d + "/u/stepdata_t.h5"), rows(d + "/p/stepdata_t.h5"), 0, "continued in the same script")
    R.case("twice|" + sc.meta.sig, len(A))


def case(c, d, R):
    globals()[c["kind"]](c, d, R)


def main(chk):
    vv = build.program("vvflow", "rel")
    C = [dict(kind="directed", vv=vv, dir=x) for x in (
        ("{0, inf, inf}", 'speed = {1, 0, 0}; S.inf_vx = "1"', ("r.x", "0.1")), ("{inf, 0, inf}", 'label = "y"; S.inf_vy = "1"', ("r.y", "0.1")),
        ("{inf, inf, 0}", 'holder_mo = "0.3"', ("o", "0.05")), ("{0, 0, 0}", 'label = "all"; S.inf_vx = "1"', ("r.x", "0.12")))]
    C += [dict(kind="random", vv=vv, seed=[chk.seed, 2, i], collide=i % 3 == 0, points=chk.n(5, 60)) for i in range(chk.n(110, 1200))]
    C += [dict(kind="twice", vv=vv, seed=[chk.seed, 22, i]) for i in range(chk.n(40, 400))]
    chk.run(case, C)


if __name__ == "__main__":
    core.main(main, "C02", "distinct (scenario, resumed at a rebound or at an ordinary step) continuations compared with the uninterrupted run")
