#!/usr/bin/env python3
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, oracle as O, scen, sim, tp

TOL = 1.2e-5     # six printed digits
V = [{}, {"nb": 0, "vort": 250, "steps": 5}, {"sinks": True}, {"nb": 2, "motion": ["rot", "forced"]}, {"slip": True, "vort": 40}, {"nb": 1, "vort": 200, "viscous": False, "steps": 5},
     {"nb": 3, "viscous": True}, {"motion": ["spring", "free"], "vort": 30}, {"nb": 2, "vort": 0, "viscous": True, "steps": 24}]


def expected(s, p):
    """Velocity at points p in state s, by the cells of every leaf: (leaves, n, 2)."""
    base = np.tile(s.inf_speed, (len(p), 1)) + O.sinks(p, s.src, s.dtf)
    ub, unsure = O.bodies(p, s.bodies)
    base = base + ub
    out = []
    for l in s.leaves:
        w = s.vort[O.near_idx(s.leaves, l)]
        t = base + O.vortices(p, w[w[:, 2] != 0])
        for o in (0, 3):
            f = l.far[l.far[:, o + 2] != 0] if len(l.far) else []
            if len(f):
                t = t + O.points(p, f[:, o:o + 2], f[:, o + 2])
        out.append(t)
    return np.array(out), unsure


def sensors(rng, sc, bodies):
    """Points of every kind: in the flow, far away, in a body, next to the surface."""
    P = []
    for _ in range(int(rng.integers(1, 12))):
        k = int(rng.integers(6))
        if k == 0:
            P.append(rng.uniform(-1, 1, 2) * 10.0 ** rng.integers(0, 4))
        elif k == 1:
            P.append(np.array([1.9 * int(rng.integers(max(sc.meta.nb, 1))), 0]) + rng.uniform(-1, 1, 2) * .8)
        else:
            P.append(rng.uniform(-3, 6, 2) * [1, .5])
    if rng.uniform() < .2:
        P.append(P[0])
    return np.array(P)


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    sc = scen.scenario(rng, **c["kw"])
    P = sensors(rng, sc, None)
    sep = str(rng.choice([" ", "\t", "   ", " \t"]))
    txt = ("\n" if rng.uniform() < .8 else "\n\n").join((" " if rng.uniform() < .2 else "") + "%.17g" % x + sep + ("%.17g" if rng.uniform() < .7 else "%+.17e") % y for x, y in P)
    if rng.uniform() < .5:
        txt += "\n"
    fn = str(rng.choice(["sens.txt", "s e n", "velocity_t.in"]))
    open(os.path.join(d, fn), "w").write(txt)
    arg = [["-s", fn], ["--sensors", fn], ["--sensors=" + fn]][int(rng.integers(3))]
    runs = 1 + int(rng.uniform() < .25)
    S = []
    for k in range(runs):
        st, r = sim.run(c["mon"], sc, d, "solve,eps,conv,tree2", tree=2, args=arg)
        S += st
    if any(tp.diverged(t["solve"]) for t in S if "solve" in t):
        R.count("diverged runs, not judged")
        return
    path = d + "/velocity_t"
    lines = open(path).read().split("\n") if os.path.exists(path) else []
    if lines[-1:] != [""] or len(lines) != len(S) + 1:
        R.bad("lines", "%d lines for %d steps and %d sensors" % (max(len(lines) - 1, 0), len(S), len(P)))
        return
    for t, line in zip(S, lines):
        e, t2 = t["eps"], t["tree2"]
        e.leaves = t2.leaves
        w = line.split()
        if len(w) != 1 + 2 * len(P):
            R.bad("columns", "a line has %d columns for %d sensors" % (len(w), len(P)))
            return
        if w[0] != "%g" % e.t:
            R.bad("time", "the line of the step at %g begins with %s" % (e.t, w[0]))
        got = np.array([float(x) for x in w[1:]]).reshape(-1, 2)
        cells, unsure = expected(e, P)
        sc_ = O.absv(cells).max(0) + 1e-6
        for i, p in enumerate(P):
            if unsure[i]:
                continue
            # if one cell holds the point, its clusters tell the exact value
            own = [k for k, l in enumerate(e.leaves) if abs(p[0] - l.x) < .499 * l.w and abs(p[1] - l.y) < .499 * l.h]
            x = O.absv(cells[:, i] - got[i]) / sc_[i]
            x = float(x[own[0]] if len(own) == 1 else x.min())
            R.maxi("error", x)
            if not x <= TOL:
                R.bad("velocity", "step at %g, sensor %s: %s instead of %s" % (e.t, p, got[i], cells[own[0] if len(own) == 1 else 0, i]))
            far = any(len(l.far) for l in e.leaves)
            R.case("%s|%s|%s|%s" % (sc.meta.sig, len(own) == 1, far, len(e.src) > 0))
    R.count("lines", len(S))
    R.sample = "%d sensors, %s" % (len(P), sc.meta.sig)


def unwritable(c, d, R):
    """Velocities that can not be recorded are not passed over in silence."""
    rng = np.random.default_rng(c["seed"])
    kind, n = str(rng.choice(["directory", "full", "writable"])), int(rng.integers(1, 8))
    if kind == "directory":
        os.mkdir(d + "/velocity_t")
    elif kind == "full":
        os.symlink("/dev/full", d + "/velocity_t")
    open(d + "/s", "w").write("".join("%g %g\n" % tuple(rng.uniform(-2, 2, 2)) for _ in range(int(rng.integers(1, 5)))))
    open(d + "/a.lua", "w").write('S.caption = "t" S.re = inf S.dt = {1, 10} S.finish = %g S.vort_list:append{0, 0, 1} simulate()\n' % (n / 10 - .1))
    r = core.run2([c["rel"], "-s", "s", "a.lua"], d)
    if core.died(r):
        R.bad("output:died", "%s: %s" % (core.died(r), r.err[-300:]))
    R.count("runs with a%s output of sensors" % {"directory": "n impossible", "full": " failing", "writable": " working"}[kind])
    R.case("output|" + kind)
    if (r.rc == 0) != (kind == "writable"):
        R.bad("output:" + kind, "a run whose velocities %s be written ends with %d" % ("can" if kind == "writable" else "can not", r.rc))
    elif kind != "writable" and not r.err.strip():
        R.bad("output:silent", "a run whose velocities can not be written fails without a message")
    elif kind == "writable" and len(open(d + "/velocity_t").readlines()) != n:
        R.bad("output:lines", "%d lines for %d steps" % (len(open(d + "/velocity_t").readlines()), n))


def main(chk):
    rel = build.program("vvflow", "rel")
    chk.run(unwritable, [dict(seed=[chk.seed, 35, 7, i], rel=rel) for i in range(chk.n(12, 100))])
    mon = build.program("vvflow", "mon")
    chk.run(case, [dict(seed=[chk.seed, 35, i], mon=mon, kw=dict(V[i % len(V)])) for i in range(chk.n(250, 2000))])


core.main(main, "C35", "distinct (scenario, sensor inside one cell, far clusters, sinks) sensor readings compared with sums over the traced particles")
