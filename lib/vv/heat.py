"""Oracles of the heat particles in one step of the simulation loop (see tp.py)."""
import numpy as np
from . import oracle as O, tp
from .oracle import absv, abs2, rotl, dot
from .tp import EPS, close

NEGLECT, ISOLATE, CONST_T, CONST_W = range(4)
CROP = 16.0


def edit(rng, e, f):
    """What scripts can not set: the Prandtl number, heat conditions, initial heat particles."""
    bodies = sorted(k for k in f.children if k.startswith("body"))
    e.set_attr("/", "pr", float(rng.choice([0.1, 0.7, 1.0, 7.0])), "f8")
    lo, hi = np.array([-1.0, -1.0]), np.array([1.0, 1.0])
    dl = 0.1
    for k in bodies:
        c = np.array(f[k].data)
        x = np.stack([c["x"], c["y"]], 1) if c.dtype.names else c[:, :2]
        dl = absv(np.roll(x, -1, 0) - x).mean()
        lo, hi = np.minimum(lo, x.min(0)), np.maximum(hi, x.max(0))
        e.set_attr(k, "heat_condition", int(rng.choice([NEGLECT, ISOLATE, CONST_T, CONST_T, CONST_W])), "u4")
        e.set_attr(k, "general_heat_const", float(np.float32(rng.choice([1.0, -0.5, 3.0, rng.normal()]))), "f8")
    n = int(rng.choice([0, 5, 60, 200]))
    p = rng.uniform(lo - 0.3, hi + 0.3, (n, 2))
    if bodies and n:
        # crowd the surroundings of the contour
        c = np.array(f[bodies[int(rng.integers(len(bodies)))]].data)
        x = np.stack([c["x"], c["y"]], 1) if c.dtype.names else c[:, :2]
        m = rng.uniform(size=n) < 0.6
        p[m] = x[rng.integers(len(x), size=int(m.sum()))] + rng.normal(size=(int(m.sum()), 2)) * dl
    if n > 4:
        p[0] = [15.99, rng.uniform(-1, 1)]      # about to leave
        p[1] = p[2]                             # coincident
        if rng.uniform() < 0.3:
            p[3] = [40.0, 0.0]
    g = rng.normal(size=n) * dl ** 2 * rng.choice([1.0, 1e-3, 10.0], size=n)
    if n and rng.uniform() < 0.5:
        g = np.abs(g)
    if n > 4:
        g[4] = 3e-11                            # negligible
    e.set_dataset("heat", np.stack([p[:, 0], p[:, 1], g], 1).reshape(n, 3))


def rows(a):
    """Canonical order: the order of the list is not part of the property."""
    a = np.asarray(a, float)
    return a[np.lexsort((a[:, 2], a[:, 1], a[:, 0]))] if len(a) else a.reshape(0, a.shape[1] if a.ndim > 1 else 6)


def same(a, b, tol=0.0):
    """Largest difference of two sets of (x, y, g), matched greedily -> index of an unmatched row of a, or None."""
    a, b = np.asarray(a, float).reshape(-1, 3), np.asarray(b, float).reshape(-1, 3)
    if len(a) != len(b):
        return -1
    free = np.ones(len(b), bool)
    for i, q in enumerate(a):
        d = np.abs(b - q)
        m = free & (d[:, :2] <= tol * (1 + np.abs(q[:2]))).all(1) & (d[:, 2] <= tol * max(abs(q[2]), 1e-300))
        k = np.nonzero(m)[0]
        if not len(k):
            return i
        free[k[0]] = False
    return None


def shed(t, R, cx):
    """Bodies release the heat their condition asks for."""
    a = t.get("solve", t["begin"])
    b = t["preshed"]
    kept = getattr(cx, "kept", {})
    if kept is None:                        # the last movement was too close to call
        R.count("skipped steps with ties")
        return
    H = a.heat[:, :3].copy()
    new = []
    for i, (p, q) in enumerate(zip(a.bodies, b.bodies)):
        q1 = abs2(p.dl) * p.hconst
        dh = np.zeros(p.n)
        pos = p.r + rotl(p.dl) * 0.5
        if p.hc == ISOLATE:
            for k in np.nonzero(p.hsum)[0]:
                new.append((*pos[k], -p.hsum[k]))
                dh[k] = -p.hsum[k]
                R.count("heat given back by insulated segments")
        elif p.hc == CONST_W:
            new += [(*pos[k], q1[k]) for k in range(p.n)]
            dh = q1
            R.count("heat released by constant flux", p.n)
        elif p.hc == CONST_T:
            for k in range(p.n):
                w = kept.get((i, k))
                if w is None:
                    new.append((*pos[k], q1[k]))
                    dh[k] = q1[k]
                    R.count("new particles of layers")
                    continue
                m = np.nonzero((H[:, 0] == w[0]) & (H[:, 1] == w[1]) & (H[:, 2] == w[2]))[0]
                if not len(m):
                    R.bad("shed:layer", "step %d: the particle kept in the layer of segment %d of body %d has disappeared" % (a.step, k, i))
                    return
                dh[k] = q1[k] - w[2]
                H[m[0], 2] = q1[k]
                R.count("particles of layers renewed")
        sc = np.abs(p.hsum) + np.abs(q1) + 1e-300
        if not np.all(np.abs(q.hsum - p.hsum - dh) <= 1e-9 * sc):
            k = int(np.argmax(np.abs(q.hsum - p.hsum - dh) / sc))
            R.bad("shed:account", "step %d body %d segment %d (condition %d): the heat released changed by %.6g, expected %.6g" % (
                a.step, i, k, p.hc, q.hsum[k] - p.hsum[k], dh[k]))
        R.case("shed|%s|%d|%d" % (cx.sig, p.hc, len(kept) > 0), p.n)
    w = np.concatenate([H, np.array(new).reshape(-1, 3)])
    got = b.heat[:, :3]
    if len(got) != len(w):
        R.bad("shed:count", "step %d: %d heat particles after the release, expected %d (%d before)" % (a.step, len(got), len(w), len(H)))
        return
    k = same(w, got, 1e-11)
    if k is not None:
        R.bad("shed:particle", "step %d: no particle at %s with the heat %.6g after the release" % (a.step, w[k, :2], w[k, 2]))
    cx.kept = {}


def merging(t, R, cx):
    """Core sizes and merging of neighbours."""
    s, e = t["tree2"], t["eps"]
    lv = s.leaves
    if len(s.heat) != len(e.heat):
        return R.bad("count", "step %d: the merge pass changed the number of heat particles" % s.step)
    r, g, eps = s.heat[:, :2].copy(), s.heat[:, 2].copy(), s.heat[:, 5].copy()
    n = len(g)
    cnt = np.zeros(n, int)
    for l in lv or ():
        cnt[l.h0:l.h0 + l.hn] += 1
    if not np.all(cnt == 1):
        return R.bad("partition", "step %d: %d heat particles are not in exactly one cell" % (s.step, int((cnt != 1).sum())))
    visc = np.isfinite(s.re)
    merges = 0
    if abs(g.sum() - e.heat[:, 2].sum()) > 1e-12 * (np.abs(g).sum() + 1e-300):
        R.bad("merge:heat", "step %d: merging changed the heat by %.3g" % (s.step, e.heat[:, 2].sum() - g.sum()))
    for l in lv or ():
        if not l.hn:
            continue
        near = tp_nearest(s, lv, l)
        if near is None:
            return R.count("skipped steps with ties")
        bl, br = near
        c = np.array([l.x, l.y])
        crit = (0.16 * abs2(bl) * (1 + absv(c - br)) if bl is not None else 0.0) if visc else np.nan
        floor = absv(bl) / 3 if bl is not None else 1e-100
        idx = [np.arange(lv[k].h0, lv[k].h0 + lv[k].hn) for k in l.near]
        idx = np.concatenate(idx).astype(int) if idx else np.zeros(0, int)
        for i in range(l.h0, l.h0 + l.hn):
            if g[i] == 0:
                continue
            may = visc
            while True:
                cand = idx[(g[idx] != 0) & (idx != i)]
                if not len(cand):
                    ep = 0.0
                    break
                d2 = abs2(r[i] - r[cand])
                o = np.argsort(d2, kind="stable")
                if len(o) == 1:
                    ep = np.sqrt(d2[0])
                    break
                r1, r2 = d2[o[0]], d2[o[1]]
                if may and abs(r1 - crit) < 1e-10 * crit:
                    return R.count("skipped steps with ties")
                if may and r1 < crit:
                    a = cand[o[0]]
                    if r2 - r1 <= 1e-12 * r2 or abs(abs(g[i]) - abs(g[a])) < 1e-12 * abs(g[i]) and g[a] * g[i] < 0:
                        return R.count("skipped steps with ties")
                    if np.sign(g[a]) == np.sign(g[i]):
                        r[i] = (r[i] * g[i] + r[a] * g[a]) / (g[i] + g[a])
                    elif abs(g[i]) < abs(g[a]):
                        r[i] = r[a]
                    g[i] += g[a]
                    g[a] = 0
                    merges += 1
                    may = False
                    continue
                ep = np.sqrt(r2)
                break
            eps[i] = 1.0 / max(ep, floor)
    m = g != 0
    R.count("core sizes", int(m.sum()))
    R.count("merges", merges)
    h = e.heat
    if not np.array_equal(m, h[:, 2] != 0):
        k = int(np.argmax(m != (h[:, 2] != 0)))
        return R.bad("merge:who", "step %d: heat particle %d (%s): merged=%s, expected %s" % (s.step, k, s.heat[k, :3], not (h[k, 2] != 0), not m[k]))
    if not close(g[m], h[m, 2], 1e-10):
        k = int(np.argmax(np.abs(g - h[:, 2])))
        R.bad("merge:strength", "step %d heat particle %d: heat %.12g, expected %.12g" % (s.step, k, h[k, 2], g[k]))
    if not close(r[m], h[m, :2], 1e-9, 1e-3):
        k = int(np.argmax(np.where(m, absv(r - h[:, :2]), 0)))
        R.bad("merge:position", "step %d heat particle %d: at %s, expected %s" % (s.step, k, h[k, :2], r[k]))
    if not close(eps[m], h[m, 5], 1e-8):
        x = np.abs(eps / np.where(h[:, 5] == 0, 1, h[:, 5]) - 1)
        k = int(np.argmax(np.where(m, x, 0)))
        R.bad("core", "step %d heat particle %d: core size %.9g, expected %.9g" % (s.step, k, 1 / h[k, 5] if h[k, 5] else np.inf, 1 / eps[k]))
    R.case("%s|%s" % (cx.sig, "merge" if merges else "plain"), n)


def tp_nearest(s, lv, l):
    """The segment that sets the resolution of a cell -> (dl, r), (None, None), or None for a tie."""
    c = np.array([l.x, l.y])
    segs = np.concatenate([lv[k].segs for k in l.near]) if len(l.near) else np.zeros((0, 2), int)
    if len(segs):
        sr = np.array([s.bodies[a].r[q] for a, q in segs])
        d2 = abs2(sr - c)
        o = d2.min()
        tie = [(absv(s.bodies[a].dl[q]), tuple(s.bodies[a].r[q])) for (a, q), d in zip(segs, d2) if d - o <= 1e-12 * o]
        if max(x[0] for x in tie) - min(x[0] for x in tie) > 1e-12 * tie[0][0]:
            return None
        a, q = segs[int(np.argmin(d2))]
        return s.bodies[a].dl[q], s.bodies[a].r[q]
    best, bl, br = np.inf, None, None
    for b in s.bodies:
        i = 0
        while i < b.n:
            d2 = abs2(c - b.r[i])
            if d2 < best:
                best, bl, br = d2, b.dl[i], b.r[i]
            else:
                i += 9
            i += 1
    return bl, br


def convective(t, R, cx):
    """Heat is carried with the fluid."""
    e, c = t["eps"], t["conv"]
    if not np.array_equal(e.heat[:, :3], c.heat[:, :3]):
        return R.bad("conv:moved", "step %d: heat particles changed in the convective phase" % e.step)
    if not len(e.heat):
        return
    u, fs, un = O.convective(e, t["tree2"].leaves, lists=(("heat", "h0", "hn"),))[0]
    m = ~un & (e.heat[:, 2] != 0)
    v = c.heat[:, 3:5] - e.heat[:, 3:5]
    er = absv(v - u) / (1e-3 + absv(u))
    er = np.where(np.isfinite(er), er, np.inf)
    R.maxi("velocity error", er[m].max(initial=0))
    if (er[m] > 1e-6).any():
        i = int(np.argmax(np.where(m, er, 0)))
        R.bad("velocity", "step %d heat particle %d at %s: velocity %s, expected %s" % (e.step, i, e.heat[i, :2], v[i], u[i]))
    R.count("velocities", int(m.sum()))
    R.case("conv|%s|%d" % (cx.sig, np.any(fs > 0)), int(m.sum()))


def diffusive(t, R, cx):
    c, d = t["conv"], t["diff"]
    if not np.isfinite(c.re):
        if not np.array_equal(c.heat, d.heat):
            R.bad("inviscid", "step %d: heat is diffused in an inviscid flow" % c.step)
        R.case("inviscid|" + cx.sig)
        return
    if not np.array_equal(c.heat[:, :3], d.heat[:, :3]):
        return R.bad("diff:moved", "step %d: heat particles changed in the diffusive phase" % c.step)
    lv = t["tree2"].leaves
    h = c.heat
    n = len(h)
    dv, un, sc = np.zeros((n, 2)), np.zeros(n, bool), np.zeros(n)
    for l in lv or ():
        if not l.hn:
            continue
        idx = np.concatenate([np.arange(lv[k].h0, lv[k].h0 + lv[k].hn) for k in l.near]).astype(int)
        segs = np.concatenate([lv[k].segs for k in l.near])
        if len(segs):
            sr = np.array([c.bodies[a].r[q] for a, q in segs])
            sd = np.array([c.bodies[a].dl[q] for a, q in segs])
        for i in range(l.h0, l.h0 + l.hn):
            g, e1 = h[i, 2], h[i, 5]
            if g == 0:
                continue
            w = h[idx]
            w = w[(w[:, 2] != 0) & (np.sign(w[:, 2]) == np.sign(g))]
            x = h[i, :2] - w[:, :2]
            r = absv(x)
            m = r > 1e-10      # closer ones count as coincident
            un[i] |= (np.abs(r - 1e-10) < 1e-10).any()
            x, r, w = x[m], r[m], w[m]
            arg = -r * e1
            un[i] |= (np.abs(arg + 8) < 1e-9).any()
            k = np.where(arg < -8, 0, w[:, 2] * np.exp(arg))
            S2, S1 = (x * (k / r)[:, None]).sum(0), k.sum()
            S3, S0 = np.zeros(2), 0.0
            if len(segs):
                x = h[i, :2] - sr
                r2 = abs2(x)
                r = np.sqrt(r2)
                arg = -r * e1
                ex = np.where(arg < -8, 0, np.exp(arg))
                un[i] |= (np.abs(arg + 8) < 1e-9).any() or not r2.all()
                dS = rotl(sd)
                S3 = (dS * ex[:, None]).sum(0)
                S0 = ((r * e1 + 1) / r2 * dot(x, dS) * ex).sum()
            un[i] |= abs(abs(S1) - abs(0.1 * g)) < 1e-9 * abs(g) or (S1 != 0 and abs(S1) < 1e-12 * abs(g))
            if np.sign(S1) != np.sign(g) or abs(S1) < abs(0.1 * g):
                S1 = 0.1 * g
            D = S1 + S0 / e1 ** 2
            # the denominator may nearly cancel when heat is negative
            un[i] |= abs(D) < 1e-6 * (abs(S1) + abs(S0) / e1 ** 2)
            dv[i] = (e1 * S2 + S3) / D / (c.pr * c.re)
    v = d.heat[:, 3:5] - c.heat[:, 3:5]
    er = absv(v - dv) / (1e-3 + absv(dv) + absv(h[:, 3:5]))
    er = np.where(np.isfinite(er), er, np.inf)
    R.maxi("diffusion error", er[~un].max(initial=0))
    if (er[~un] > 1e-7).any():
        i = int(np.argmax(np.where(un, 0, er)))
        R.bad("diffusion", "step %d heat particle %d at %s: diffusion velocity %s, expected %s" % (c.step, i, h[i, :2], v[i], dv[i]))
    R.count("diffusion velocities", int((~un).sum()))
    R.case("diff|%s|%d" % (cx.sig, n > 100), n)


def layer(b, p):
    """Inside the layer polygon of body b, and distance to the polygon."""
    class L:
        pass
    q = L()
    q.corner, q.area = b.r + rotl(b.dl), b.area
    return tp.inside(q, p)


def moving(t, R, cx):
    """Movement; bodies take up the heat that reaches them."""
    s, m = t["diff"], t["move"]
    cx.kept = None
    dt, code, unsure = tp.move_dt(s)
    if unsure:
        return R.count("skipped steps with ties")
    h = s.heat[~(np.abs(s.heat[:, 2]) < EPS)]
    R.count("negligible particles removed", len(s.heat) - len(h))
    p = h[:, :2] + h[:, 3:5] * dt
    if not np.isfinite(p).all():
        return R.count("skipped steps with non-finite heat")
    n = len(h)
    amb = np.zeros(n, bool)
    who, lay, seg = np.full(n, -1), np.full(n, -1), np.full(n, -1)
    for bi, bd in enumerate(m.bodies):
        if not n:
            break
        tol = 1e-9 * (1 + np.abs(p).max(1))
        ins, dist = tp.inside(bd, p)
        amb |= dist < tol
        who = np.where((who < 0) & ins, bi, who)
        ins, dist = layer(bd, p)
        amb |= dist < tol
        lay = np.where((lay < 0) & ins, bi, lay)
    lay = np.where(who >= 0, -1, lay)
    for i in range(n):
        b = who[i] if who[i] >= 0 else lay[i]
        if b < 0:
            continue
        if who[i] < 0 and m.bodies[b].hc != CONST_T:
            lay[i] = -1
            continue
        d2 = abs2(m.bodies[b].r - p[i])
        o = np.sort(d2)
        if o[1] - o[0] < 1e-10 * (o[0] + 1e-12):
            amb[i] = True
        seg[i] = int(np.argmin(d2))
    if amb.any():
        return R.count("skipped steps with ties")
    # which ones are left
    w = np.concatenate([p, h[:, 2:3]], 1)
    got = m.heat[:, :3]
    free = np.ones(len(got), bool)
    left = np.zeros(n, bool)
    must = (who < 0) & (lay < 0)
    for i in np.concatenate([np.nonzero(must)[0], np.nonzero(~must)[0]]).astype(int):
        k = np.nonzero(free & (np.abs(got[:, :2] - w[i, :2]) <= 1e-12 * (1 + np.abs(w[i, :2]))).all(1) & (got[:, 2] == w[i, 2]))[0]
        if len(k):
            free[k[0]] = False
            left[i] = True
            w[i, :2] = got[k[0], :2]
        elif must[i]:
            return R.bad("move:lost", "step %d: the heat particle at %s (heat %.4g) should move to %s, it is not there" % (s.step, h[i, :2], h[i, 2], p[i]))
    if free.any():
        return R.bad("move:extra", "step %d: %d unexpected heat particles after the movement, e.g. at %s" % (s.step, int(free.sum()), got[np.argmax(free)]))
    if m.heat[:, 3:5].any():
        R.bad("move:speed", "step %d: velocities of heat particles are not reset after the movement" % s.step)
    take = [np.zeros(b.n) for b in m.bodies]
    tot = [np.full(b.n, 1e-300) for b in m.bodies]
    kept, layers = {}, {}
    for i in range(n):
        if who[i] >= 0:
            if left[i]:
                return R.bad("move:inside", "step %d: a heat particle stays inside body %d at %s" % (s.step, who[i], p[i]))
            R.count("absorbed by bodies")
        elif lay[i] >= 0:
            layers.setdefault((lay[i], seg[i]), []).append(i)
        else:
            continue
        if not left[i]:
            b = who[i] if who[i] >= 0 else lay[i]
            take[b][seg[i]] -= h[i, 2]
            tot[b][seg[i]] += abs(h[i, 2])
    for (b, k), li in layers.items():
        o = [i for i in li if left[i]]
        if len(o) != 1:
            return R.bad("layer", "step %d: %d of %d heat particles stay in the layer of segment %d of body %d, expected 1" % (s.step, len(o), len(li), k, b))
        if w[o[0], 0] <= CROP:
            kept[(b, k)] = w[o[0]]
        R.count("kept in layers")
        R.count("absorbed in layers", len(li) - 1)
    for bi, (b0, b1) in enumerate(zip(s.bodies, m.bodies)):
        x = np.abs(b1.hsum - b0.hsum - take[bi])
        if not np.all(x <= 1e-9 * (tot[bi] + np.abs(b0.hsum))):
            k = int(np.argmax(x / (tot[bi] + np.abs(b0.hsum))))
            R.bad("move:account", "step %d body %d segment %d: took up %.6g, expected %.6g" % (s.step, bi, k, b0.hsum[k] - b1.hsum[k], -take[bi][k]))
    e = t["end"]
    if same(m.heat[m.heat[:, 0] <= CROP][:, :3], e.heat[:, :3]) is not None:
        R.bad("crop", "step %d: the heat particles up to x=16 are not those left at the end of the step" % s.step)
    R.count("cropped", int((m.heat[:, 0] > CROP).sum()))
    cx.kept = kept
    R.case("move|%s|%d|%d|%d" % (cx.sig, bool((who >= 0).any()), len(kept) > 0, code >= 0), n)


def budget(t, R, cx):
    """The per-step account of the segments starts from zero."""
    z = t["zero"]
    for i, b in enumerate(z.bodies):
        if b.hsum.any():
            R.bad("reset", "step %d body %d: heat accounts are carried over" % (z.step, i))


FNS = [shed, budget, merging, convective, diffusive, tp.diffusive, moving]
