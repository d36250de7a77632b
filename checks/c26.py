#!/usr/bin/env python3
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from scipy.spatial import cKDTree
from vv import build, core, fieldio, libcli
from vv.libcli import f


def reference(z, levels, ge, gaps=()):
    """Marching squares. -> segments [(4,)], alternative pairings {cell: ([i, j], [[seg, seg], ...])}.

    gaps: (xi, yj, g) is a sink in cell (xi, yj); its branch cut runs to the left inside row yj, the lower ends
    of the edges it crosses count g more when seen from that row."""
    z = z.astype(np.float32)
    ny, nx = z.shape
    rows = {}
    for xi, yj, g in gaps:
        rows.setdefault(yj, []).append((xi, np.float32(g)))
    seg, alt = [], []
    fl = lambda v: v.astype(float)
    for j in range(ny - 1):
        left, low = z[j].copy(), z[j].copy()      # the corner (i, j) seen along the edge that goes up and along the lower edge of cell i
        for xi, g in rows.get(j, ()):
            left[np.arange(nx) <= xi] += g
            low[np.arange(nx) < xi] += g
        left, low, top = fl(left), fl(low), fl(z[j + 1])
        for C in levels:
            m = (lambda v: v >= C) if ge else (lambda v: v > C)
            ul, uo, ut = m(left), m(low), m(top)
            n = (ul[:-1] ^ ut[:-1]).astype(int) + (ut[:-1] ^ ut[1:]) + (ut[1:] ^ ul[1:]) + (ul[1:] ^ uo[:-1])
            for i in np.nonzero(n >= 2)[0]:
                a, b, c, e, h = left[i], top[i], top[i + 1], left[i + 1], low[i]
                p = []
                if ul[i] != ut[i]:
                    p.append((i, j + (C - a) / (b - a)))
                if ut[i] != ut[i + 1]:
                    p.append((i + (C - b) / (c - b), j + 1))
                if ut[i + 1] != ul[i + 1]:
                    p.append((i + 1, j + (C - e) / (c - e)))
                if ul[i + 1] != uo[i]:
                    p.append((i + (C - h) / (e - h), j))
                seg.append(p[0] + p[1])
                if len(p) == 4:
                    seg.append(p[2] + p[3])
                    alt.append(([len(seg) - 2, len(seg) - 1], [[p[0] + p[3], p[1] + p[2]]]))
                elif len(p) == 3:       # a line ends at the sink
                    alt.append(([len(seg) - 1], [[p[0] + p[2]], [p[1] + p[2]]]))
    return seg, alt


def match(got, want, tol):
    """Greedy one-to-one matching of undirected segments -> (unmatched got, unmatched want)."""
    if not len(got) or not len(want):
        return list(range(len(got))), list(range(len(want)))
    w = np.array(want)
    t = cKDTree(np.concatenate([w, w[:, [2, 3, 0, 1]]]))
    used, left = set(), []
    for i, g in enumerate(got):
        for k in sorted(t.query_ball_point(g, 2 * tol)):
            k %= len(w)
            if k not in used:
                used.add(k)
                break
        else:
            left.append(i)
    return left, [k for k in range(len(w)) if k not in used]


def compare(got, z, levels, ge, tol, gaps=()):
    want, alt = reference(z, levels, ge, gaps)
    size = lambda s: max(abs(s[0] - s[2]), abs(s[1] - s[3]))
    left, miss = match(got, want, tol)
    if left and alt:
        m = set(miss)
        for ids, pairings in alt:
            for segs in pairings:
                if set(ids) <= m:
                    l2, m2 = match([got[i] for i in left], segs, tol)
                    if not m2:
                        left = [left[i] for i in l2]
                        m -= set(ids)
        miss = sorted(m)
    miss = [k for k in miss if size(want[k]) > 2 * tol]
    left = [k for k in left if size(got[k]) > 2 * tol]
    return want, [got[k] for k in left], [want[k] for k in miss]


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    cmds, want = [], []
    for i in range(c["n"]):
        z = fieldio.random(rng, int(rng.integers(2, 22)), int(rng.integers(2, 22)))
        gaps = []
        sink = rng.uniform()
        if sink < .35:
            ny, nx = z.shape
            y, x = np.mgrid[:ny, :nx]
            z = z * np.float32(rng.choice([0, .2, 1])) + np.float32(rng.normal()) * y.astype(np.float32)
            for q in range(int(rng.choice([1, 1, 2, 5]))):
                xi, yj, g = int(rng.integers(nx)), int(rng.integers(ny)), float(np.float32(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-1, 1)))
                gaps.append((xi, yj, g))
                if sink < .3:       # the stream function of a sink
                    z = (z + g / (2 * math.pi) * np.arctan2(y - yj - rng.uniform(.05, .95), x - xi - rng.uniform(.05, .95))).astype(np.float32)
            R.count("fields with sinks", 1)
        lo, hi = float(z.min()), float(z.max())
        k = int(rng.integers(5))
        n = int(rng.choice([0, 1, 3, 9]))
        if k == 0:      # levels equal to grid values
            a = float(rng.choice(z.ravel()))
            dv = float(rng.choice([1, .5, 2])) if (z == np.round(z)).all() else max(hi - lo, 1e-3) / (n + 1)
        elif k == 1:
            a, dv = 0.0, max(hi - lo, 1e-3) / (n + 1)
        else:
            a = lo + (hi - lo) * rng.uniform(-.1, .9)
            dv = max(hi - a, 1e-3 * max(abs(lo), abs(hi), 1e-3)) / (n + 1) * rng.uniform(.5, 1.5)
        b = a + (n + .5) * dv
        lv, v = [], a
        while v <= b:
            lv.append(float(np.float32(v)))
            v += dv
        dx = float(np.float32(rng.choice([1, 1, .25, .1])))
        off = np.float32(rng.choice([0, 0, 4]) * rng.uniform(-1, 1, 2)) if dx != 1 else np.zeros(2, np.float32)
        p = os.path.join(d, "f%d" % i)
        open(p, "wb").write(fieldio.pack(z, off[0], off[1], dx))
        cmds.append("iso %s %s.o %s %s %s%s" % (p, p, f(a), f(b), f(dv), "".join(" %d %d %s" % (x, y, f(g)) for x, y, g in gaps)))
        want.append((z, lv, dx, off, gaps))
    out = libcli.run(c["exe"], d, cmds, what="isoline")
    for cmd, (z, lv, dx, off, gaps), o in zip(cmds, want, out):
        if o != "ok":
            R.bad("error", "%s: %s" % (cmd, o))
            continue
        a = np.fromfile(cmd.split()[2], np.float32)
        if len(a) % 2:
            R.bad("format", "odd number of values")
            continue
        a = a.reshape(-1, 2)
        sep = np.isnan(a).any(1)
        if len(a) and (not sep[-1] or not np.isnan(a[sep]).all()):
            R.bad("format", "lines are not separated by NaN pairs")
            continue
        g = (a.astype(float) - off) / dx
        got = [tuple(g[i]) + tuple(g[i + 1]) for i in range(len(g) - 1) if not sep[i] and not sep[i + 1]]
        # the interpolation is done in single precision, cell index included
        tol = 2e-5 + 3e-7 * (np.abs(off).max() / dx + max(z.shape))
        res = [compare(got, z, lv, ge, tol, gaps) for ge in (False, True)]
        w, extra, miss = min(res, key=lambda r: len(r[1]) + len(r[2]))
        # a level within rounding of a grid value may cross on either side: interpolation there is ill-conditioned only in exact arithmetic, not here
        if extra:
            R.bad("extra", "%s (%dx%d, levels %s): %d segments are not on a level, e.g. %s" % (cmd[:40], z.shape[1], z.shape[0], lv[:4], len(extra), extra[0]))
        if miss:
            R.bad("missing", "%s (%dx%d, levels %s): %d segments are missing, e.g. %s" % (cmd[:40], z.shape[1], z.shape[0], lv[:4], len(miss), miss[0]))
        R.count("segments", len(w))
        R.count("lines", int(sep.sum()))
        hit = bool(np.isin(z, np.array(lv, np.float32)).any())
        R.count("fields with exact hits", int(hit))
        if len(w):
            R.case("%d|%d|%d|%s" % (z.shape[0] // 4, z.shape[1] // 4, len(lv), hit), len(w))
    R.sample = "%s: %d segments" % (cmds[-1][-60:], len(w))


def main(chk):
    exe = build.harness("lib.cpp", "rel")
    chk.run(case, [dict(seed=[chk.seed, 26, i], exe=exe, n=40) for i in range(chk.n(64, 900))])


if __name__ == "__main__":
    core.main(main, "C26", "distinct (grid size class, number of levels, exact hits) combinations with at least one crossing")
