#!/usr/bin/env python3
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, libcli, poly
from vv.libcli import f, pf


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    cmds, want = [], []
    for _ in range(c["shapes"]):
        kind, p = poly.shape(rng)
        cw = rng.uniform() < 0.65
        if cw == (poly.area(p) > 0):
            p = p[::-1]
        sc = 10.0 ** rng.choice([0, 0, 0, -3, 2])
        off = rng.choice([0, 0, 10, 1000]) * rng.uniform(-1, 1, 2)
        p = p * sc + off * sc
        k = int(rng.integers(len(p)))
        p = np.roll(p, k, axis=0)
        cmds.append("body %d " % len(p) + " ".join(f(v) for v in p.ravel()))
        cmds.append("holder %s" % " ".join(f(v) for v in list(p.mean(0) + rng.normal(0, sc, 2)) + [0, *(rng.normal(0, .3 * sc, 2)), 0]))
        moves = int(rng.choice([0, 0, 1, 3, 8]))
        stage = [0] + list(range(1, moves + 1))
        for st in stage:
            if st:
                mv = list(rng.normal(0, sc, 2)) + [rng.normal(0, 1.5)]
                mh = mv if rng.uniform() < 0.5 else list(rng.normal(0, sc, 2)) + [rng.normal(0, 1)]
                cmds.append("move " + " ".join(f(v) for v in mh + mv))
                if rng.uniform() < 0.2:
                    cmds.append("copy")
            if st in (0, moves) or rng.uniform() < 0.3:
                cmds.append("corners")
                want.append((len(cmds) - 1, kind, st, cw))
                cmds.append("#")
    # two passes: the points are chosen around the real contour
    out = libcli.run(c["exe"], d, cmds, what="body")
    qs = {}
    for i, kind, st, cw in want:
        P = np.array([pf(x) for x in out[i].split()]).reshape(-1, 2)
        q = poly.probe(rng, P, c["pts"])
        qs[i] = (P, q)
        cmds[i + 1] = "pts %d " % len(q) + " ".join(f(v) for v in q.ravel())
    out = libcli.run(c["exe"], d, cmds, what="body")
    for i, kind, st, cw in want:
        P, q = qs[i]
        got = np.array([int(x) for x in out[i + 1].split()])
        ins, dist = poly.inside(P, q)
        size = np.ptp(P, axis=0).max()
        tol = 1e-7 * size + 1e-12 * np.abs(P).max()
        solid = poly.area(P) < 0       # clockwise: solid inside
        sure = dist > tol
        w = ins if solid else ~ins
        bad = sure & ((got >= 0) != w)
        if bad.any():
            k = int(np.argmax(bad))
            R.bad("inside:" + ("solid" if solid else "cavity"), "%s, after %d moves: point %s (distance %.3g to the contour) is reported %s" % (
                kind, st, q[k].tolist(), dist[k], "inside" if got[k] >= 0 else "outside"))
        m = 0.5 * (P + np.roll(P, -1, axis=0))
        for k in np.nonzero(sure & (got >= 0) & w)[0]:
            dd = np.hypot(*(m - q[k]).T)
            if got[k] >= len(m) or dd[got[k]] > dd.min() * (1 + 1e-9) + 1e-12 * np.abs(P).max():
                R.bad("nearest", "%s: point %s is charged to segment %d at %.6g, the nearest is %d at %.6g" % (
                    kind, q[k].tolist(), got[k], dd[got[k]] if got[k] < len(m) else -1, int(dd.argmin()), dd.min()))
        R.count("points", int(sure.sum()))
        R.count("points inside", int((sure & w).sum()))
        R.count("points too close to call", int((~sure).sum()))
        R.case("%s|%d|%s" % (kind, st, solid), int(sure.sum()))
    R.sample = "%d shapes, last: %s" % (c["shapes"], kind)


def main(chk):
    exe = build.harness("lib.cpp", "rel")
    chk.run(case, [dict(seed=[chk.seed, 17, i], exe=exe, shapes=12, pts=90) for i in range(chk.n(240, 2400))])


core.main(main, "C17", "distinct (shape kind, number of moves, orientation) combinations with points decided")
