"""Oracles of one step of the simulation loop, over traced states.

Every function takes (t, R, cx): the states of one step by phase, the result
collector and the case context (cx.prev: states of the previous step).
"""
import os
from fractions import Fraction
import numpy as np
from . import core, h5, oracle as O, scen, sim
from .oracle import absv, abs2, rotl, dot

EPS = 1e-10   # vortices weaker than this are not shed and are removed


def close(a, b, tol, scale=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    d = np.abs(a - b)
    d = np.where(a == b, 0, d)
    return bool(np.all(d <= tol * np.maximum(np.maximum(np.abs(a), np.abs(b)), scale))) if a.size else True


def gsum(s):
    return float(s.vort[:, 2].sum()), float(np.abs(s.vort[:, 2]).sum())


def rigid(k):
    return np.isinf(k)


# ---------------------------------------------------------------- circulation

def circulation(t, R, cx):
    s0 = t["begin"]
    if "solve" in t:
        s = t["solve"]
        gv, ga = gsum(s)
        att = [float(b.g.sum()) for b in s.bodies]
        aw = [2 * b.area * b.speed[2] for b in s.bodies]
        sc = ga + abs(s.inf_g) + sum(float(np.abs(b.g).sum()) for b in s.bodies) + sum(map(abs, aw)) + 1e-6
        first = True
        for i, b in enumerate(s.bodies):
            if b.kutta:
                continue
            if first:
                first = False
                e = sum(att) + sum(aw) + gv + s.inf_g
                if abs(e) > 1e-8 * sc:
                    R.bad("solve:total", "step %d: free+bound circulation misses minus that at infinity by %.3g (of %.3g)" % (s.step, e, sc))
            else:
                e = att[i] + aw[i] - b.g_dead - 2 * b.area * b.speed_prev[2]
                if abs(e) > 1e-8 * sc:
                    R.bad("solve:body", "step %d body %d: released circulation misses what the body took up by %.3g" % (s.step, i, e))
        # all bodies together: what is in the flow after the shed
        s1 = t["shed"]
        kept = sum(float(b.g[(np.abs(b.g) < EPS) | (b.sslip != 0)].sum()) for b in s1.bodies)
        n = sum(b.n for b in s1.bodies)
        if not first:
            e = gsum(s1)[0] + kept + sum(2 * b.area * b.speed[2] for b in s1.bodies) + s1.inf_g
            if abs(e) > 1e-8 * sc:
                R.bad("shed:total", "step %d: circulation balance after the shed is off by %.3g (of %.3g)" % (s.step, e, sc))
        R.case("shed|%s" % cx.sig)
    sh, ep, df, mv = t["shed"], t["eps"], t["diff"], t["move"]
    ga = gsum(sh)[1] + 1e-9
    for a, b, nm in ((sh, ep, "merge"), (ep, df, "velocity")):
        if abs(gsum(a)[0] - gsum(b)[0]) > 1e-11 * ga:
            R.bad(nm, "step %d: circulation of the free vortices changed by %.3g in the %s phase" % (s0.step, gsum(b)[0] - gsum(a)[0], nm))
    # movement: absorbed circulation is charged to the bodies
    dead = 0.0
    ga += sum(float(np.abs(b.g).sum()) for b in mv.bodies)
    for b0, b in zip(df.bodies, mv.bodies):
        held = float(b.g[(np.abs(b.g) < EPS) | (b.sslip != 0)].sum())
        d = b.g_dead - b0.g_dead - held
        dead += d
        dg = float((b.gsum - b0.gsum).sum())
        if abs(dg + d + held) > 1e-10 * (ga + abs(d)):
            R.bad("move:segment", "step %d: the body is charged %.6g but its segments %.6g" % (s0.step, d + held, -dg))
        if abs(d) > EPS:
            R.count("absorptions")
    small = int(((np.abs(df.vort[:, 2]) < EPS)).sum())
    e = gsum(df)[0] - gsum(mv)[0] - dead
    if abs(e) > 1e-10 * ga + small * EPS:
        R.bad("move", "step %d: movement and absorption lost a circulation of %.3g" % (s0.step, e))
    R.count("merged", int((ep.vort[:, 2] == 0).sum()))
    R.case("move|%s|%d" % (cx.sig, dead != 0))


# -------------------------------------------------------------- linear system

def slip(t, R, cx):
    if "solve" not in t:
        return
    s, tr = t["solve"], t["tree1"]
    clusters(tr, R, "tree1")
    cx.fresh = getattr(cx, "fresh", 0)
    near = tr.leaves
    exact = O.slip_residual(s, tr)
    direct = O.slip_residual(s, tr, pointfar=True)
    for bi, ((rs, sc, fs), (rd, _, _)) in enumerate(zip(exact, direct)):
        fs = np.maximum(fs, direct[bi][2])
        b = s.bodies[bi]
        m = np.arange(b.n) != b.special
        x = np.abs(rs) / sc
        R.maxi("slip residual", np.max(x[m], initial=0))
        if np.any((x > 1e-7)[m]):
            i = int(np.argmax(np.where(m, x, 0)))
            R.bad("slip", "step %d body %d segment %d: residual %.3g of scale %.3g" % (s.step, bi, i, rs[i], sc[i]))
        y = (np.abs(rd) - 1e-7 * sc) / np.maximum(fs, 1e-300)
        y = np.where((fs > 0) & m, y, 0)
        R.maxi("far field error", y.max(initial=0))
        bad = m & (np.abs(rd) > 1e-7 * sc + 0.3 * fs)
        if bad.any():
            i = int(np.argmax(np.where(bad, np.abs(rd), 0)))
            R.bad("slip:far", "step %d body %d segment %d: against direct sums residual %.3g (far scale %.3g)" % (s.step, bi, i, rd[i], fs[i]))
        g = b.g[b.special]
        if b.kutta and abs(g) > 1e-9 * (np.abs(b.g).max() + 1e-9):
            R.bad("kutta", "step %d body %d: strength %.3g at the separation point" % (s.step, bi, g))
        R.count("equations of separation points", int(b.kutta))
        R.case("%s|%d|%s" % (cx.sig, bi, "cached" if cx.cached(s) else "full"), b.n)
        R.count("segment equations", b.n)
        R.count("cached solves" if cx.cached(s) else "full solves")


def clusters(s, R, nm):
    """Partition and moments of the cells the program used."""
    lv = s.leaves
    n = len(s.vort)
    cnt = np.zeros(n, int)
    for l in lv:
        cnt[l.v0:l.v0 + l.vn] += 1
    if not np.all(cnt == 1):
        R.bad(nm + ":partition", "step %d: %d vortices are not in exactly one cell" % (s.step, int((cnt != 1).sum())))
        return
    cs = np.zeros(len(s.streak), int)
    for l in lv:
        cs[l.s0:l.s0 + l.sn] += 1
    if not np.all(cs == 1):
        R.bad(nm + ":streak-partition", "step %d: %d streaks are not in exactly one cell" % (s.step, int((cs != 1).sum())))
    seg = {}
    for l in lv:
        for a, c in l.segs:
            seg[(int(a), int(c))] = seg.get((int(a), int(c)), 0) + 1
    want = {(i, j) for i, b in enumerate(s.bodies) for j in range(b.n)}
    if set(seg) != want or any(v != 1 for v in seg.values()):
        R.bad(nm + ":segments", "step %d: the segments are not each in exactly one cell" % s.step)
    g = s.vort[:, 2]
    for l in lv:
        if not (l.vn or l.sn or len(l.segs)):
            continue
        if len(set(l.near.tolist())) != len(l.near):
            R.bad(nm + ":near", "step %d: a near cell is listed twice" % s.step)
        far = np.ones(n, bool)
        far[O.near_idx(lv, l)] = False
        w = s.vort[far]
        R.count("cluster cells")
        for sg, o in ((1, 0), (-1, 3)):
            m = w[:, 2] * sg > 0
            G = w[m, 2].sum()
            M = (w[m, :2] * w[m, 2:3]).sum(0)
            f = l.far
            fg = f[:, o + 2].sum() if len(f) else 0.0
            fm = (f[:, o:o + 2] * f[:, o + 2:o + 3]).sum(0) if len(f) else np.zeros(2)
            ga = np.abs(w[m, 2]).sum() + 1e-12
            ra = (np.abs(w[m, :2]).max(initial=0) + 1) * ga
            if abs(G - fg) > 1e-9 * ga or np.abs(M - fm).max() > 1e-9 * ra:
                R.bad(nm + ":moments", "step %d: far clusters hold circulation %.6g of %.6g (moment %s of %s)" % (s.step, fg, G, fm, M))
                return
        if len(w):
            c = np.array([l.x, l.y])
            d = absv(w[:, :2] - c).min()
            R.count("far pairs", len(w))
            # the far criterion guarantees centre distance > sqrt(8)*(h+w) sums
            if d < 2.2 * (l.w + l.h) * (1 - 1e-9):
                R.bad(nm + ":criterion", "step %d: a vortex at %.4g from a cell of size %.4g is treated as far" % (s.step, d, l.w + l.h))


# -------------------------------------------------------------- fluid particles

def convective(t, R, cx):
    e, c = t["eps"], t["conv"]
    t2 = t["tree2"]
    clusters(t2, R, "tree2")
    if not (np.array_equal(e.vort[:, :3], c.vort[:, :3]) and np.array_equal(e.streak[:, :3], c.streak[:, :3])):
        R.bad("conv:moved", "step %d: particles changed in the convective phase" % e.step)
        return
    merged = bool((e.vort[:, 2] == 0).any())
    X = O.convective(e, t2.leaves)
    D = None if merged else O.convective(e, t2.leaves, pointfar=True)
    for j, k in enumerate(("vort", "streak")):
        a, b = getattr(e, k), getattr(c, k)
        u, fs, un = X[j]
        if not len(a):
            continue
        m = ~un & ((a[:, 2] != 0) | (k == "streak"))
        v = b[:, 3:5] - a[:, 3:5]
        sc = 1e-3 + absv(u)
        er = absv(v - u) / sc
        er = np.where(np.isfinite(er), er, np.inf)
        R.maxi("velocity error", er[m].max(initial=0))
        if (er[m] > 1e-6).any():
            i = int(np.argmax(np.where(m, er, 0)))
            R.bad(k, "step %d %s %d at %s: velocity %s, expected %s" % (e.step, k, i, a[i, :2], v[i], u[i]))
        if D is not None:
            ud = D[j][0]
            fs = np.maximum(fs, D[j][1])
            y = absv(v - ud)
            bad = m & (y > 1e-6 * sc + 0.3 * fs)
            R.maxi("far field error", (np.where(m & (fs > 1e-12), (y - 1e-9 * sc) / np.maximum(fs, 1e-12), 0)).max(initial=0))
            if bad.any():
                i = int(np.argmax(np.where(bad, y, 0)))
                R.bad(k + ":far", "step %d %s %d at %s: velocity %s, direct sum %s, far scale %.3g" % (e.step, k, i, a[i, :2], v[i], ud[i], fs[i]))
        R.count(k + " velocities", int(m.sum()))
        R.case("%s|%s|%d|%d" % (cx.sig, k, len(e.src) > 0, np.any(fs > 0)), int(m.sum()))


def diffusive(t, R, cx):
    c, d = t["conv"], t["diff"]
    if not np.isfinite(c.re):
        if not np.array_equal(c.vort, d.vort) or any(not np.array_equal(a.fric, b.fric) for a, b in zip(c.bodies, d.bodies)):
            R.bad("inviscid", "step %d: an inviscid flow got diffusion" % c.step)
        R.case("inviscid|" + cx.sig)
        return
    if not (np.array_equal(c.vort[:, :3], d.vort[:, :3]) and np.array_equal(c.streak, d.streak)):
        R.bad("diff:moved", "step %d: particles changed in the diffusive phase" % c.step)
        return
    dv, fr, frs, fru, un = O.diffusive(c, t["tree2"].leaves)
    v = d.vort[:, 3:5] - c.vort[:, 3:5]
    er = absv(v - dv) / (1e-3 + absv(dv) + absv(c.vort[:, 3:5]))
    er = np.where(np.isfinite(er), er, np.inf)
    R.maxi("diffusion error", er[~un].max(initial=0))
    if (er[~un] > 1e-7).any():
        i = int(np.argmax(np.where(un, 0, er)))
        R.bad("velocity", "step %d vortex %d at %s: diffusion velocity %s, expected %s" % (c.step, i, c.vort[i, :2], v[i], dv[i]))
    for bi, (b0, b1, f, fs, fu) in enumerate(zip(c.bodies, d.bodies, fr, frs, fru)):
        x = np.abs(b1.fric - b0.fric - f)
        bad = x > 1e-9 * fs + fu + 1e-12
        if bad.any():
            i = int(np.argmax(x))
            R.bad("friction", "step %d body %d segment %d: friction %.6g, expected %.6g" % (c.step, bi, i, b1.fric[i] - b0.fric[i], f[i]))
        R.count("friction sums", b0.n)
    R.count("diffusion velocities", int((~un).sum()))
    R.case("%s|%d" % (cx.sig, len(c.vort) > 100), len(c.vort))


def merging(t, R, cx):
    """Replay of the core size and merging pass."""
    s, e = t["tree2"], t["eps"]
    lv = s.leaves
    r, g = s.vort[:, :2].copy(), s.vort[:, 2].copy()
    n = len(g)
    if len(e.vort) != n:
        R.bad("count", "step %d: the merge pass changed the number of particles" % s.step)
        return
    visc = np.isfinite(s.re)
    eps = s.vort[:, 5].copy()
    merges = 0
    seglist = None
    for l in lv:
        if not l.vn:
            continue
        c = np.array([l.x, l.y])
        idx = O.near_idx(lv, l)
        segs = np.concatenate([lv[k].segs for k in l.near]) if len(l.near) else np.zeros((0, 2), int)
        best, bl, br = np.inf, None, None
        if len(segs):
            sr = np.array([s.bodies[a].r[q] for a, q in segs])
            d2 = abs2(sr - c)
            k = int(np.argmin(d2))
            o = np.sort(d2)
            if len(o) > 1 and o[1] - o[0] < 1e-12 * o[0]:
                a, q = segs[k]
                l0 = absv(s.bodies[a].dl[q])
                tie = [absv(s.bodies[x].dl[y]) for (x, y), dd in zip(segs, d2) if dd - o[0] < 1e-12 * o[0]]
                if max(tie) - min(tie) > 1e-12 * l0:
                    return R.count("skipped steps with ties")
            a, q = segs[k]
            bl, br = s.bodies[a].dl[q], s.bodies[a].r[q]
        elif s.bodies:
            for b in s.bodies:
                i = 0
                while i < b.n:
                    d2 = abs2(c - b.r[i])
                    if d2 < best:
                        best, bl, br = d2, b.dl[i], b.r[i]
                    else:
                        i += 9
                    i += 1
        crit = (0.16 * abs2(bl) * (1 + absv(c - br)) if bl is not None else 0.0) if visc else np.nan
        floor = absv(bl) / 3 if bl is not None else 1e-100
        for i in range(l.v0, l.v0 + l.vn):
            if g[i] == 0:
                continue
            may = visc
            while True:
                cand = idx[(g[idx] != 0) & (idx != i)]
                if not len(cand):
                    ep = 0.0
                    break
                d2 = abs2(r[i] - r[cand])
                o = np.argsort(d2, kind="stable")
                if len(o) == 1:
                    ep = np.sqrt(d2[0])
                    break
                r1, r2 = d2[o[0]], d2[o[1]]
                if may:
                    a, b = cand[o[0]], cand[o[1]]
                    opp = np.sign(g[a]) == np.sign(g[b]) and np.sign(g[a]) != np.sign(g[i])
                    if abs(r1 - crit) < 1e-10 * crit:
                        return R.count("skipped steps with ties")
                    # ties in distance decide who is merged
                    if r2 - r1 < 1e-12 * r2 or (len(o) > 2 and d2[o[2]] - r2 < 1e-12 * r2):
                        if r1 < crit or opp or len({np.sign(g[x]) for x in cand[o[:3]]}) > 1:
                            return R.count("skipped steps with ties")
                    if r1 < crit or opp:
                        if np.sign(g[a]) == np.sign(g[i]):
                            r[i] = (r[i] * g[i] + r[a] * g[a]) / (g[i] + g[a])
                        elif abs(g[i]) < abs(g[a]):
                            r[i] = r[a]
                        if abs(abs(g[i]) - abs(g[a])) < 1e-12 * abs(g[i]) and np.sign(g[a]) != np.sign(g[i]):
                            return R.count("skipped steps with ties")
                        g[i] += g[a]
                        g[a] = 0
                        merges += 1
                        R.count("merges close" if r1 < crit else "merges among opposite signs")
                        may = False
                        continue
                ep = np.sqrt(r2)
                break
            eps[i] = 1.0 / max(ep, floor)
    m = g != 0
    R.count("core sizes", int(m.sum()))
    if not np.array_equal(m, e.vort[:, 2] != 0):
        k = int(np.argmax(m != (e.vort[:, 2] != 0)))
        R.bad("merge:who", "step %d: vortex %d (%s): merged=%s, expected %s" % (s.step, k, s.vort[k, :3], not (e.vort[k, 2] != 0), not m[k]))
        return
    if not close(g[m], e.vort[m, 2], 1e-10):
        k = int(np.argmax(np.abs(g - e.vort[:, 2])))
        R.bad("merge:circulation", "step %d vortex %d: circulation %.12g, expected %.12g" % (s.step, k, e.vort[k, 2], g[k]))
    if not close(r[m], e.vort[m, :2], 1e-9, 1e-3):
        k = int(np.argmax(np.where(m, absv(r - e.vort[:, :2]), 0)))
        R.bad("merge:position", "step %d vortex %d: at %s, expected %s" % (s.step, k, e.vort[k, :2], r[k]))
    if not close(eps[m], e.vort[m, 5], 1e-8):
        x = np.abs(eps / np.where(e.vort[:, 5] == 0, 1, e.vort[:, 5]) - 1)
        k = int(np.argmax(np.where(m, x, 0)))
        R.bad("core", "step %d vortex %d: core size %.9g, expected %.9g" % (s.step, k, 1 / e.vort[k, 5] if e.vort[k, 5] else np.inf, 1 / eps[k]))
    if not np.array_equal(s.vort[:, 3:5], e.vort[:, 3:5]):
        R.bad("velocity", "step %d: the merge pass changed velocities" % s.step)
    R.case("%s|%s" % (cx.sig, "merge" if merges else "plain"), n)


def shed(t, R, cx):
    a, b = t["preshed"], t["shed"]
    new = []
    for i, (p, q) in enumerate(zip(a.bodies, b.bodies)):
        if not close(q.gsum, p.gsum + p.g, 1e-12, 1e-12):
            R.bad("gsum", "step %d body %d: released circulation per segment is wrong" % (a.step, i))
        m = (np.abs(p.g) >= EPS) & (p.sslip == 0)
        for k in np.nonzero(m)[0]:
            new.append((*(p.corner[k] + rotl(p.dl[k]) * 1e-4), p.g[k]))
        R.count("slip segments", int((p.sslip != 0).sum()))
        R.count("segments", p.n)
        if not np.array_equal(p.g, q.g) or not np.array_equal(p.corner, q.corner):
            R.bad("body", "step %d body %d: the shed phase changed the body" % (a.step, i))
    n = len(a.vort)
    if len(b.vort) != n + len(new):
        R.bad("count", "step %d: %d vortices were shed, expected %d" % (a.step, len(b.vort) - n, len(new)))
        return
    if not np.array_equal(a.vort, b.vort[:n]):
        R.bad("existing", "step %d: an existing vortex was changed by the shed" % a.step)
    if new:
        w = np.array(new)
        if not close(b.vort[n:, :2], w[:, :2], 1e-12, 1e-3):
            R.bad("position", "step %d: a vortex was shed at %s instead of %s" % (
                a.step, b.vort[n:, :2][np.argmax(absv(b.vort[n:, :2] - w[:, :2]))], w[np.argmax(absv(b.vort[n:, :2] - w[:, :2])), :2]))
        if not np.array_equal(b.vort[n:, 2], w[:, 2]):
            R.bad("strength", "step %d: a vortex was shed with a wrong strength" % a.step)
        if b.vort[n:, 3:5].any():
            R.bad("speed", "step %d: a vortex was shed with a velocity" % a.step)
        R.count("vortices shed", len(new))
    # streaks
    due = a.dt_streak[1] != 0 and a.dt_streak[0] != 0 and Fraction(*a.time) % Fraction(*a.dt_streak) == 0
    m = len(a.streak)
    k = len(a.ssrc) if due else 0
    if len(b.streak) != m + k:
        R.bad("streak:count", "step %d time %s: %d streaks released, expected %d (dt_streak %s)" % (a.step, a.time, len(b.streak) - m, k, a.dt_streak))
        return
    if not np.array_equal(b.streak[:m], a.streak):
        R.bad("streak:existing", "step %d: an existing streak was changed" % a.step)
    if k and not np.array_equal(b.streak[m:, :3], a.ssrc[:, :3]):
        R.bad("streak:value", "step %d: streak released at a wrong place or with a wrong strength" % a.step)
    R.count("streaks released", k)
    R.case("%s|%d|%d" % (cx.sig, len(a.ssrc) > 0, due), 1 + len(new))


# --------------------------------------------------------------------- motion

def move_dt(s):
    """Length of the step after collisions -> (dt, code of the colliding component, unsure)."""
    dt, code, unsure = s.dtf, -1, False
    for i, b in enumerate(s.bodies):
        cur = b.holder + b.dpos
        new = cur + s.dtf * b.speed
        for k in range(3):
            if rigid(b.kspring[k]):
                continue
            lim = None
            sc = 1e-14 * (1 + abs(cur[k]))
            if new[k] > b.cmax[k] and b.speed[k] > 0:
                lim = b.cmax[k]
            elif new[k] < b.cmin[k] and b.speed[k] < 0:
                lim = b.cmin[k]
            if abs(new[k] - b.cmax[k]) < sc or abs(new[k] - b.cmin[k]) < sc:
                unsure = True
            if lim is not None:
                d = max(0.0, (lim - cur[k]) / b.speed[k])   # time never runs backwards
                if d < dt:
                    dt, code = d, i * 10 + k
    return dt, code, unsure


def inside(b, p):
    """Even-odd rule against the contour, and distance to it."""
    v, w = b.corner, np.roll(b.corner, -1, 0)
    a, c = v[None], w[None]
    q = p[:, None, :]
    cond = (a[..., 1] <= q[..., 1]) != (c[..., 1] <= q[..., 1])
    with np.errstate(all="ignore"):
        x = a[..., 0] + (q[..., 1] - a[..., 1]) * (c[..., 0] - a[..., 0]) / (c[..., 1] - a[..., 1])
    n = (cond & (q[..., 0] < x)).sum(1)
    dl = c - a
    tt = np.clip(dot(q - a, dl) / np.maximum(abs2(dl), 1e-300), 0, 1)
    dist = absv(q - a - dl * tt[..., None]).min(1)
    ins = n % 2 == 1
    area = 0.5 * np.sum(v[:, 0] * w[:, 1] - w[:, 0] * v[:, 1])
    if cavity(b):
        ins = ~ins
    return ins, dist


def cavity(b):
    v, w = b.corner, np.roll(b.corner, -1, 0)
    return b.area <= 0 if hasattr(b, "area") else False


def particles(t, R, cx):
    s, m = t["diff"], t["move"]
    dt, code, unsure = move_dt(s)
    if unsure:
        return R.count("skipped steps with ties")
    charge = [0.0] * len(m.bodies)
    mom = [np.zeros(3) for _ in m.bodies]
    seg = [np.zeros(b.n) for b in m.bodies]
    segu = [np.zeros(b.n, bool) for b in m.bodies]
    sc = 1e-12
    for nm in ("vort", "streak"):
        a, b = getattr(s, nm), getattr(m, nm)
        p = a[:, :2] + a[:, 3:5] * dt
        L = 1 + np.abs(p)
        keep = np.ones(len(a), bool)
        if nm == "vort":
            keep &= ~(np.abs(a[:, 2]) < EPS)
            R.count("negligible vortices removed", int((~keep).sum()))
        who = np.full(len(a), -1)
        amb = np.zeros(len(a), bool)
        for bi, bd in enumerate(m.bodies):
            if not len(p):
                break
            ins, dist = inside(bd, p)
            amb |= (dist < 1e-9 * (1 + np.abs(p).max(1)))
            who = np.where((who < 0) & ins, bi, who)
        # match in order
        j = 0
        gone = []
        okk = True
        for i in range(len(a)):
            if not keep[i]:
                continue
            match = j < len(b) and np.all(np.abs(b[j, :2] - p[i]) <= 1e-12 * L[i]) and b[j, 2] == a[i, 2]
            if amb[i]:
                if match:
                    j += 1
                else:
                    gone.append(i)
                    R.count("ambiguous")
                continue
            if who[i] >= 0:
                gone.append(i)
                if match:
                    R.bad(nm + ":inside", "step %d: %s %d stays inside body %d at %s" % (s.step, nm, i, who[i], p[i]))
                    okk = False
                    break
                continue
            if not match:
                R.bad(nm + ":lost", "step %d: %s %d (strength %.4g) should move from %s to %s (dt %.6g), found %s" % (
                    s.step, nm, i, a[i, 2], a[i, :2], p[i], dt, b[j, :3] if j < len(b) else "nothing"))
                okk = False
                break
            j += 1
        if okk and j != len(b):
            R.bad(nm + ":extra", "step %d: %d unexpected %s particles after the movement" % (s.step, len(b) - j, nm))
            okk = False
        if b[:, 3:5].any():
            R.bad(nm + ":speed", "step %d: velocities are not reset after the movement" % s.step)
        R.count(nm + " moved", j)
        R.count(nm + " absorbed", len(gone))
        if nm == "vort":
            if not okk or any(amb[i] for i in gone):
                continue
            for i in gone:
                w = who[i]
                bd = m.bodies[w]
                g = a[i, 2]
                charge[w] += g
                ax = bd.axis
                mom[w] += np.array([-p[i, 1] * g, p[i, 0] * g, abs2(p[i] - ax) * g])
                d2 = abs2(bd.r - p[i])
                k = int(np.argmin(d2))
                o = np.sort(d2)
                if o[1] - o[0] < 1e-10 * (o[0] + 1e-12):
                    segu[w] |= d2 - o[0] < 1e-9 * (o[0] + 1e-12)
                seg[w][k] -= g
            for w, (b0, b1) in enumerate(zip(s.bodies, m.bodies)):
                h = (np.abs(b1.g) < EPS) | (b1.sslip != 0)
                charge[w] += b1.g[h].sum()
                cr = b1.corner[h]
                gh = b1.g[h]
                mom[w] += np.array([-(cr[:, 1] * gh).sum(), (cr[:, 0] * gh).sum(), (abs2(cr - b1.axis) * gh).sum()])
                seg[w][h] -= gh
                tot = 1e-12 + np.abs(a[gone, 2]).sum() + np.abs(gh).sum()
                if abs(b1.g_dead - b0.g_dead - charge[w]) > 1e-10 * tot:
                    R.bad("charge", "step %d body %d: charged %.6g, expected %.6g" % (s.step, w, b1.g_dead - b0.g_dead, charge[w]))
                ms = tot * (1 + np.abs(b1.corner).max() ** 2 * 4)
                if np.abs(b1.fdt_dead - b0.fdt_dead - mom[w]).max() > 1e-9 * ms:
                    R.bad("momentum", "step %d body %d: momentum taken up %s, expected %s" % (s.step, w, b1.fdt_dead - b0.fdt_dead, mom[w]))
                e = np.abs(b1.gsum - b0.gsum - seg[w])
                if (e[~segu[w]] > 1e-10 * tot).any():
                    k = int(np.argmax(np.where(segu[w], 0, e)))
                    R.bad("segment", "step %d body %d segment %d: charged %.6g, expected %.6g" % (s.step, w, k, (b1.gsum - b0.gsum)[k], seg[w][k]))
        R.case("%s|%s|%d|%d" % (cx.sig, nm, len(gone) > 0, code >= 0), j + len(gone))


def bodies_motion(t, R, cx):
    s, m = t["diff"], t["move"]
    dt, code, unsure = move_dt(s)
    if unsure:
        return R.count("skipped steps with ties")
    sp = s.inf_speed
    if not close(m.inf_marker, s.inf_marker + sp * dt, 1e-12, 1e-6):
        R.bad("marker", "step %d: the fluid marker moved by %s, expected %s" % (s.step, m.inf_marker - s.inf_marker, sp * dt))
    cx.first = getattr(cx, "first", None) or s
    for i, (b, c) in enumerate(zip(s.bodies, m.bodies)):
        root = s.bodies[b.root] if b.root >= 0 else None
        dH = b.speed_exp.copy()
        dB = b.speed.copy()
        if root is not None:
            dr = b.holder[:2] - root.axis
            dH[:2] += root.speed[:2] + rotl(dr) * root.speed[2]
            dH[2] += root.speed[2]
        dH, dB = dH * dt, dB * dt
        ch, rt = b, root
        depth = 0
        while rt is not None and depth < 20:
            dr = ch.holder[:2] - rt.axis
            da = rt.speed[2] * dt
            err = (dr + rotl(dr) * da) - (dr * np.cos(da) + rotl(dr) * np.sin(da))
            dH[:2] -= err
            dB[:2] -= err
            ch, rt = rt, (s.bodies[rt.root] if rt.root >= 0 else None)
            depth += 1
        sc = 1e-6 + np.abs(b.corner).max()
        if not close(c.holder, b.holder + dH, 1e-11, sc):
            R.bad("holder", "step %d body %d: holder moved by %s, expected %s" % (s.step, i, c.holder - b.holder, dH))
        if not close(c.holder + c.dpos, b.holder + b.dpos + dB, 1e-11, sc):
            R.bad("axis", "step %d body %d: axis moved by %s, expected %s" % (s.step, i, c.holder + c.dpos - b.holder - b.dpos, dB))
        q = b.corner - b.axis
        w = b.axis + dB[:2] + q * np.cos(dB[2]) + rotl(q) * np.sin(dB[2])
        if not close(c.corner, w, 1e-11, sc):
            k = int(np.argmax(absv(c.corner - w)))
            R.bad("contour", "step %d body %d point %d: at %s, expected %s" % (s.step, i, k, c.corner[k], w[k]))
        if not close(c.speed_prev, b.speed, 0):
            R.bad("previous", "step %d body %d: previous speed is %s instead of %s" % (s.step, i, c.speed_prev, b.speed))
        # no drift from the initial shape, in the body's own frame
        f = cx.first.bodies[i]
        a = (c.holder + c.dpos - f.holder - f.dpos)[2]
        q = f.corner - f.axis
        w = c.axis + q * np.cos(a) + rotl(q) * np.sin(a)
        er = absv(c.corner - w).max() / (1 + np.abs(w).max())
        R.maxi("shape drift", er)
        if er > 1e-9:
            R.bad("drift", "step %d body %d: the contour has drifted from the initial shape by %.3g" % (s.step, i, er))
        e = t["end"].bodies[i]
        nx = np.roll(e.corner, -1, 0)
        if not close(e.dl, nx - e.corner, 1e-12, sc * 1e-3) or not close(e.r, 0.5 * (nx + e.corner), 1e-12, sc):
            R.bad("segments", "step %d body %d: segments do not match the contour after the movement" % (s.step, i))
        x, y = e.corner.T
        X, Y = nx.T
        cr = x * Y - X * y
        area = -0.5 * cr.sum() if False else None
        if not close(abs(e.area), abs(0.5 * cr.sum()), 1e-8, sc ** 2 * 1e-3):
            R.bad("area", "step %d body %d: area %.12g, contour %.12g" % (s.step, i, e.area, 0.5 * cr.sum()))
        R.case("%s|%d|%s|%d" % (cx.sig, i, "root" if root is not None else "", code >= 0))
        R.count("bodies moved", int(np.any(b.speed != 0)))
        # an attached body without motion of its own keeps its place relative to the root
        if root is not None and cx.still(i):
            f0, r0 = f, cx.first.bodies[b.root]
            rn = m.bodies[b.root]
            ar = (rn.holder + rn.dpos - r0.holder - r0.dpos)[2]
            q = f0.corner - r0.axis
            w = rn.axis + q * np.cos(ar) + rotl(q) * np.sin(ar)
            er = absv(c.corner - w).max()
            R.maxi("attachment drift", er)
            if er > 1e-7 * (1 + s.step):
                R.bad("attached", "step %d body %d: has drifted from its root by %.3g" % (s.step, i, er))
            R.count("attached steps")


def equations(s, b, i):
    """Residuals of the nine equations of body i -> list of (name, residual, scale)."""
    A, d, dt = b.area, s.dtf, s.dtf
    rho, c, ax = b.density, b.cofm, b.axis
    rc = c - ax
    v, w = b.speed[:2], b.speed[2]
    v0, w0 = b.speed_prev[:2], b.speed_prev[2]
    F, H = b.fhydro, b.fholder
    out = []

    def eq(nm, *terms):
        out.append((nm, float(np.sum(terms)), float(np.sum(np.abs(terms)))))

    # acceleration of the centre of mass (semi-implicit centripetal term)
    acc = [(v - v0) / dt, rotl(rc) * ((w - w0) / dt), -rc * w0 ** 2]
    g = s.gravity
    kids = [k for k in s.bodies if k.root == i]
    for k in (0, 1):
        # inertia = hydro + weight minus buoyancy - holder reaction + reactions of attached bodies
        eq("newton" + "xy"[k], *[-rho * A * a[k] for a in acc], F[k], (rho - 1) * g[k] * A, -H[k], *[q.fholder[k] for q in kids])
        # force on the body is minus the change of impulse of released circulation, moved volume and friction
        gm = (rotl(b.corner) * b.g[:, None])[:, k] / dt
        out.append(("hydro" + "xy"[k],
                    float(gm.sum() + A / dt * (v - v0)[k] + A / dt * rotl(2 * c + rc)[k] * (w - w0) - w0 ** 2 * A * rc[k]
                          + b.friction_prev[k] - b.fdt_dead[k] / dt - F[k]),
                    float(np.abs(gm).sum() + A / dt * (abs(v[k]) + abs(v0[k])) + A / dt * abs(rotl(2 * c + rc)[k]) * (abs(w) + abs(w0))
                          + abs(b.friction_prev[k]) + abs(b.fdt_dead[k]) / dt + abs(F[k]))))
    moi = b.moi_cofm + A * abs2(rc)
    tq = 0.0
    tqs = []
    for q in kids:
        arm = q.axis - ax
        tqs += [arm[0] * q.fholder[1], -arm[1] * q.fholder[0], q.fholder[2]]
    eq("newtono", -rho * A * float(dot(rotl(rc), (v - v0))) / dt, -moi * rho * w / dt, moi * rho * w0 / dt, F[2],
       (rho - 1) * A * float(dot(rotl(rc), g)), -H[2], *tqs)
    gm = abs2(b.corner - ax) * b.g / (2 * dt)
    eq("hydroo", gm.sum(), A / dt * float(dot(rotl(rc), v - v0)), 2 * moi / dt * (w - w0), b.friction_prev[2], -b.fdt_dead[2] / (2 * dt), -F[2])
    out[-1] = (out[-1][0], out[-1][1], out[-1][2] + float(np.abs(gm).sum()) + 2 * abs(moi) / dt * (abs(w) + abs(w0)))
    return out


def history(t, R, cx):
    """What the equations take from the step before is what that step left: speeds, friction, momentum absorbed."""
    s, last = t["solve"], getattr(cx, "hist", None)
    for i, b in enumerate(s.bodies):
        if last is None or t["_step"] != last[0] + 1:
            break
        L = last[1].bodies[i]
        if not np.array_equal(b.speed_prev, L.speed):
            R.bad("previous", "step %d body %d: the acceleration starts from speed %s, the last step's is %s" % (s.step, i, b.speed_prev, L.speed))
        if not np.array_equal(b.friction_prev, last[2].bodies[i].friction):
            R.bad("friction", "step %d body %d: the force takes friction %s, the last step's is %s" % (s.step, i, b.friction_prev, last[2].bodies[i].friction))
        R.count("hand-overs")
    cx.hist = (t["_step"], t["solve"], t["forces"]) if "forces" in t else None
    if "move" in t:
        q = _Only(("momentum",))
        particles(t, q, cx)
        for k, m in q.viol:
            R.bad("absorbed", m)
        R.count("steps whose absorbed momentum was recomputed")


class _Only:
    """Stands in for R: keeps the violations with these keys only."""

    def __init__(self, keys):
        self.keys, self.viol = keys, []

    def bad(self, key, msg):
        if key in self.keys:
            self.viol.append((key, msg))

    def case(self, *a):
        pass

    count = maxi = case


def holder_eq(s, b, k):
    """Law of the holder in component k: (kind, residual, scale) without collisions."""
    if rigid(b.kspring[k]) or not s.time[0] > 0:
        want = [b.speed_exp[k]]
        if b.root >= 0:
            r = s.bodies[b.root]
            arm = b.axis - r.axis
            want += [r.speed[k], r.speed[2] * (rotl(arm)[k])] if k < 2 else [r.speed[2]]
        return "speed", b.speed[k] - sum(want), sum(map(abs, want)) + abs(b.speed[k])
    t = [b.fholder[k], -b.damping[k] * b.speed[k], -b.kspring[k] * b.dpos[k]]
    if k == 2:
        t.append(-b.force_o)
    return "spring", sum(t), sum(map(abs, t))


def dynamics(t, R, cx, collisions=False):
    if "solve" not in t:
        return
    s = t["solve"]
    pre = t["begin"].collision
    fs = 1e-6 + max([np.abs(b.fhydro).max() for b in s.bodies] + [np.abs(b.fholder).max() for b in s.bodies])
    for i, b in enumerate(s.bodies):
        for nm, e, sc in equations(s, b, i):
            sc = sc + 1e-3 * fs
            R.maxi("equation residual", abs(e) / sc)
            if not abs(e) <= 1e-7 * sc + 1e-11:
                R.bad(nm, "step %d body %d: residual %.4g of terms of size %.4g" % (s.step, i, e, sc))
        for k in range(3):
            kind, e, sc = holder_eq(s, b, k)
            if pre == i * 10 + k and kind == "spring":
                continue
            sc = sc + (1e-3 * fs if kind == "spring" else 1e-3 + np.abs([x.speed for x in s.bodies]).max())
            if not abs(e) <= 1e-7 * sc + 1e-11:
                R.bad(kind + "xyo"[k], "step %d body %d: residual %.4g of terms of size %.4g" % (s.step, i, e, sc))
            R.count(kind + " laws")
        R.case("%s|%d|%s|%d" % (cx.sig, i, "".join("r" if rigid(x) else "s" for x in b.kspring), s.time[0] > 0), 9)
        R.count("equations", 9)


def collisions(t, R, cx):
    s, m = t["diff"], t["move"]
    dt, code, unsure = move_dt(s)
    b0 = t["begin"]

    def slack(i):
        # an attached body follows the rotation of its roots to second order
        b, e = s.bodies[i], 0.0
        for _ in range(20):
            if b.root < 0:
                break
            r = s.bodies[b.root]
            e += absv(b.holder[:2] - r.axis) * (r.speed[2] * dt) ** 2
            b = r
        return e
    if not unsure and m.collision != code:
        R.bad("detect", "step %d: collision state %d, expected %d (body*10+component)" % (s.step, m.collision, code))
    for i, b in enumerate(m.bodies):
        p = b.holder + b.dpos
        f = b0.bodies[i].holder + b0.bodies[i].dpos
        for k in range(3):
            if rigid(b.kspring[k]):
                continue
            tol = 1e-9 * (1 + abs(p[k])) + slack(i)
            for lim, sg in ((b.cmax[k], 1), (b.cmin[k], -1)):
                if np.isfinite(lim) and (f[k] - lim) * sg <= 1e-9 * (1 + abs(f[k])):
                    R.count("limit checks")
                    if (p[k] - lim) * sg > tol:
                        R.bad("limit", "step %d body %d component %s: at %.12g, beyond its limit %.12g" % (s.step, i, "xyo"[k], p[k], lim))
    if code >= 0 and not unsure:
        i, k = divmod(code, 10)
        b = m.bodies[i]
        p = (b.holder + b.dpos)[k]
        lim = b.cmax[k] if s.bodies[i].speed[k] > 0 else b.cmin[k]
        over = abs((s.bodies[i].holder + s.bodies[i].dpos)[k] - lim) if dt == 0 else 0.0   # it was there already
        if abs(p - lim) > 1e-9 * (1 + abs(p)) + slack(i) + over:
            R.bad("stop", "step %d body %d component %s: stops at %.12g, not at its limit %.12g" % (s.step, i, "xyo"[k], p, lim))
        R.count("collisions")
    pre = b0.collision
    if pre >= 0 and "solve" in t and t["solve"].time[0] > 0:
        i, k = divmod(pre, 10)
        if "solve1" not in t:
            R.bad("two-stage", "step %d: the collision was not resolved" % s.step)
            return
        s1, s2 = t["solve1"], t["solve"]
        a, b = s1.bodies[i], s2.bodies[i]
        v = np.abs([x.speed for x in s1.bodies]).max() + 1e-3
        if abs(a.speed[k]) > 1e-8 * v:
            R.bad("stopping", "step %d body %d: not stopped by the stopping force, speed %.4g" % (s.step, i, a.speed[k]))
        kind, e, sc = holder_eq(s2, b, k)
        want = (1 + b.bounce) * a.fholder[k]
        fs = 1e-6 + np.abs([x.fhydro for x in s2.bodies]).max() + abs(want)
        if abs(e - want) > 1e-7 * (sc + fs):
            R.bad("rebound", "step %d body %d: impulse %.6g, expected %.6g" % (s.step, i, e, want))
        for nm, e, sc in equations(s1, a, i):
            if not abs(e) <= 1e-7 * (sc + 1e-3 * fs) + 1e-11:
                R.bad("stopping:" + nm, "step %d body %d: residual %.4g of %.4g" % (s.step, i, e, sc))
        R.count("rebounds")
        R.case("%s|rebound|%d|%.1f" % (cx.sig, k, b.bounce))
    R.case("%s|%d" % (cx.sig, code))


def friction(t, R, cx):
    a, f, z = t["shed"], t["forces"], t["zero"]
    for i, (b, c) in enumerate(zip(a.bodies, f.bodies)):
        l = absv(b.dl)
        k = b.fric / (np.pi * a.re) / l
        fr = -(b.dl * k[:, None])
        to = -(dot(rotl(b.r - b.axis), b.dl) * k)
        sc = np.array([np.abs(fr).sum(), np.abs(fr).sum(), np.abs(to).sum()]) + 1e-14
        w = np.array([fr[:, 0].sum(), fr[:, 1].sum(), to.sum()])
        for j in range(3):
            if abs(c.friction[j] - w[j]) > 1e-9 * sc[j]:
                R.bad("sum" + "xyo"[j], "step %d body %d: friction %s, expected %s" % (a.step, i, c.friction, w))
                break
        cp = b.Cp + np.cumsum(b.gsum)
        if not close(c.Cp, cp, 1e-9, np.abs(b.gsum).sum() + 1e-12):
            R.bad("pressure", "step %d body %d: accumulated pressure is wrong at segment %d" % (a.step, i, int(np.argmax(np.abs(c.Cp - cp)))))
        F = b.Fr + b.fric * a.dtf / (np.pi * a.re)
        if not close(c.Fr, F, 1e-9, 1e-14):
            R.bad("profile", "step %d body %d: accumulated friction is wrong" % (a.step, i))
        y = z.bodies[i]
        if not np.array_equal(y.friction_prev, c.friction) or y.friction.any():
            R.bad("hand-over", "step %d body %d: friction passed to the next step is %s instead of %s" % (a.step, i, y.friction_prev, c.friction))
        if y.gsum.any() or y.fric.any() or y.g_dead or y.fdt_dead.any():
            R.bad("reset", "step %d body %d: per-step sums are carried over" % (a.step, i))
        if cx.profile and (y.Cp.any() or y.Fr.any()):
            R.bad("profile-reset", "step %d body %d: profiles are carried over" % (a.step, i))
        if not cx.profile and not (np.array_equal(y.Cp, c.Cp) and np.array_equal(y.Fr, c.Fr)):
            R.bad("profile-lost", "step %d body %d: profiles change without being recorded" % (a.step, i))
        R.count("segments", b.n)
        R.case("%s|%d|%d" % (cx.sig, i, bool(b.fric.any())), b.n)


# --------------------------------------------------------------------- driver

def diverged(s):
    return s is not None and (any(np.abs(b.speed).max() > 50 or not np.isfinite(b.speed).all() or not np.isfinite(b.g).all() for b in s.bodies)
                              or not np.isfinite(s.vort[:, :5]).all()
                              or np.abs(s.vort[:, :5]).max(initial=0) > 1e4)


def finite(s):
    return np.isfinite(s.vort[:, :5]).all() and all(np.isfinite(b.speed).all() and np.isfinite(b.g).all() for b in s.bodies)


def top_speed(t):
    s = t.get("solve", t.get("begin"))
    return max([np.abs(b.speed).max() for b in s.bodies] + [0.0])


class Cx:
    def __init__(self, sc, profile=False):
        self.sig = sc.meta.sig
        self.meta = sc.meta
        self.prev = None
        self.profile = profile

    def cached(self, s):
        return s.time[0] > 0 and all(np.isinf(b.kspring).all() and not b.speed_exp.any() for b in s.bodies)

    def still(self, i):
        return i in getattr(self.meta, "still", ())


def edit_kutta(rng, e, f):
    b = sorted(k for k in f.children if k.startswith("body"))
    for k in b:
        if len(b) == 1 or rng.uniform() < .5:
            e.set_attr(k, "boundary_condition", 1, "u4")


EDITS = {"kutta": edit_kutta}


def trace_case(case, d, R):
    """case: dict(seed, kw, fns, phases, tree, exe, args)"""
    rng = np.random.default_rng(case["seed"])
    sc = scen.scenario(rng, **case["kw"])
    scen_args = list(case.get("args", ()))
    if case.get("profile"):
        scen_args.append("--profile")
    ed = EDITS.get(case.get("edit"))
    if ed:      # what scripts can not set
        scen.write(sc, d, 'S:save("edit.h5")\n')
        core.must_ok(core.run2([case["exe"], "s.lua"], d, timeout=60), "vvflow")
        with h5.Editor(os.path.join(d, "edit.h5")) as e:
            ed(rng, e, h5.read(os.path.join(d, "edit.h5")))
    st, r = sim.run(case["exe"], None if ed else sc, d, case["phases"], tree=case.get("tree", 0), args=scen_args, timeout=150, ok=False, input="edit.h5" if ed else None)
    wild = [k for k, t in enumerate(st) if diverged(t.get("solve", t.get("begin")))]
    if wild:
        # e.g. a light body bouncing between its limits: the explicit scheme itself is unstable there.
        # It gets there through large speeds; what is not finite right after calm is another matter.
        w = wild[0]
        x, calm = st[w].get("solve", st[w].get("begin")), w == 0 or top_speed(st[w - 1]) < 50
        if x is None or not finite(x):
            if calm:
                R.bad("finite", "step %d: the speeds are not finite" % st[w]["_step"])
            st = st[:w]
        else:
            st = st[:w + 1 if all(p in st[w] for p in st[0] if p != "solve1") else w]
        R.count("runs cut off at divergence")
        if not st:
            return
    else:
        core.must_ok(r, "vvflow")
    cx = Cx(sc, bool(case.get("profile")))
    if len(st) < 2 and not wild:
        raise core.Inconclusive("only %d steps" % len(st))
    for t in st:
        if not np.isfinite(t["begin"].vort if "begin" in t else 0).all():
            R.count("runs with non-finite values")
            R.bad("finite", "step %d: non-finite particles" % t["_step"])
            break
        for fn in case["fns"]:
            fn(t, R, cx)
        cx.prev = t
    R.count("runs")
    R.count("steps", len(st))
    if R.sample is None:
        R.sample = "%s: %d steps, %d vortices" % (cx.sig, len(st), len(st[-1]["begin"].vort) if "begin" in st[-1] else 0)


def trace_check(pid, rule, fns, phases, variants, nq, nt, tree=0, assumptions=(), extra=None, thorough_steps=2.0):
    from . import build

    def body(chk):
        exe = build.program("vvflow", "mon")
        n = chk.n(nq, nt)
        cases = []
        for i in range(n):
            kw = dict(variants[i % len(variants)])
            c = dict(seed=[chk.seed, int(pid[1:]), i], exe=exe, fns=fns, phases="begin," + phases, tree=tree)
            c["profile"] = kw.pop("profile", False)
            c["edit"] = kw.pop("edit", None)
            if not chk.quick and i % 3 == 2:
                kw["steps"] = int(kw.get("steps", 14) * thorough_steps)
            c["kw"] = kw
            cases.append(c)
        chk.run(trace_case, cases)
        if extra:
            extra(chk, exe)

    core.main(body, pid, rule, assumptions=assumptions)
