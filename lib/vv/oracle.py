"""Independent evaluation of the numerical scheme on traced states (numpy)."""
import numpy as np

PI = np.pi


def rotl(a):
    a = np.asarray(a)
    return np.stack([-a[..., 1], a[..., 0]], axis=-1)


def dot(a, b):
    return a[..., 0] * b[..., 0] + a[..., 1] * b[..., 1]


def abs2(a):
    return dot(a, a)


def absv(a):
    return np.sqrt(abs2(a))


# ----------------------------------------------------------------- velocities

def vortices(p, v):
    """Velocity at points p (n,2) from vortices v (m,6) with their cores."""
    if not len(v):
        return np.zeros_like(p)
    d = p[:, None, :] - v[None, :, :2]
    with np.errstate(all="ignore"):
        k = v[:, 2] / (abs2(d) + (1.0 / v[:, 5]) ** 2)
    k = np.where(v[:, 2] == 0, 0, k)
    return np.einsum("nm,nmk->nk", k, rotl(d)) / (2 * PI)


def points(p, r, g):
    d = p[:, None, :] - r[None, :, :]
    k = g / abs2(d)
    k = np.where(g == 0, 0, k)
    return np.einsum("nm,nmk->nk", k, rotl(d)) / (2 * PI)


def sinks(p, src, dt):
    if not len(src):
        return np.zeros_like(p)
    d = p[:, None, :] - src[None, :, :2]
    g = src[:, 2]
    k = g / (abs2(d) + dt / PI * np.abs(g))
    return np.einsum("nm,nmk->nk", k, d) / (2 * PI)


def seg_speed(b, at):
    return b.speed[:2] + b.speed[2] * rotl(at - b.axis)


def linear_source(p, b, q1, q2):
    """Complex velocity of a linear source sheet on every segment; p (n,2) -> (n,m,2)."""
    z = (p[:, 0] + 1j * p[:, 1])[:, None]
    zc = b.r[:, 0] + 1j * b.r[:, 1]
    dz = b.dl[:, 0] + 1j * b.dl[:, 1]
    z1, z2 = z - (zc - dz / 2), z - (zc + dz / 2)
    with np.errstate(all="ignore"):
        v = ((q2 - q1) - np.conj(q2 * z1 - q1 * z2) / np.conj(dz) * np.log(np.conj(z2) / np.conj(z1))) / np.conj(dz)
    return np.stack([v.real, v.imag], axis=-1)


def bodies(p, bl):
    """-> velocity, mask of points too close to a branch of the near-field formula."""
    res = np.zeros_like(p)
    unsure = np.zeros(len(p), bool)
    for b in bl:
        if b.sslip.any():
            m = b.sslip != 0
            v = np.zeros((m.sum(), 6))
            v[:, :2], v[:, 2], v[:, 5] = b.r[m], b.g[m], b._1_eps[m]
            res += vortices(p, v)
        if not np.any(b.speed):
            continue
        Vs = seg_speed(b, b.r)
        g, q = -dot(Vs, b.dl), -dot(rotl(Vs), b.dl)
        d = p[:, None, :] - b.r[None]
        d2, l2 = abs2(d), abs2(b.dl)[None]
        unsure |= (np.abs(d2 - l2) < 1e-9 * l2).any(1)
        near = d2 < l2
        far = (d * q[None, :, None] + rotl(d) * g[None, :, None]) / np.where(near, 1, d2)[..., None]
        tot = np.where(near[..., None], 0, far)
        if near.any():
            V1, V2 = seg_speed(b, b.corner), seg_speed(b, b.corner + b.dl)
            nr = rotl(linear_source(p, b, -dot(V1, b.dl), -dot(V2, b.dl))) \
                + linear_source(p, b, -dot(rotl(V1), b.dl), -dot(rotl(V2), b.dl))
            tot = tot + np.where(near[..., None], nr, 0)
        res += tot.sum(1) / (2 * PI)
    return res, unsure


# ------------------------------------------------------- boundary conditions

def _gnear(p, pc, dl, rd):
    return dot(pc - p, dl) / rd ** 2


def _qnear(p, pc, dl, rd):
    return dot(pc - p, rotl(dl)) / rd ** 2


def _gdist(p, p1, p2):
    return 0.5 * np.log(abs2(p - p2) / abs2(p - p1))


def _qdist(p, p1, p2):
    a, b = p - p1, p - p2
    return np.arctan2(dot(a, rotl(b)), dot(a, b))


def xi(p, p1, dl, rd):
    """Flow through (and along) the segment p1..p1+dl from a unit vortex (source) at p with core rd, times 2 pi.
    All arguments broadcast. -> (Xi_gamma, Xi_q)"""
    p, p1, dl = np.broadcast_arrays(p, p1, dl)
    rd = np.broadcast_to(rd, p.shape[:-1])
    p2, c = p1 + dl, p1 + dl / 2
    d1, d2, r2 = abs2(p - p1), abs2(p - p2), rd ** 2
    far = (d1 >= r2) & (d2 >= r2)
    near = ~far & (d1 <= r2) & (d2 <= r2)
    with np.errstate(all="ignore"):
        g, q = _gdist(p, p1, p2), _qdist(p, p1, p2)
        # inside the core, with the sign conventions of the two components
        gn, qn = _gnear(p, c, dl, rd), dot(p - c, rotl(dl)) / rd ** 2
        a0 = abs2(dl)
        b0 = dot(p - c, dl)
        disc = np.sqrt(np.maximum(b0 * b0 - a0 * (abs2(p - c) - r2), 0))
        k = (b0 + disc) / a0
        k = np.where((k <= -0.5) | (k >= 0.5), (b0 - disc) / a0, k)
        p3 = c + k[..., None] * dl
        first = d1 < r2
        gm = np.where(first, _gnear(p, 0.5 * (p1 + p3), p3 - p1, rd) + _gdist(p, p3, p2),
                      _gdist(p, p1, p3) + _gnear(p, 0.5 * (p3 + p2), p2 - p3, rd))
        qm = np.where(first, _qnear(p, 0.5 * (p1 + p3), p3 - p1, rd) + _qdist(p, p3, p2),
                      _qdist(p, p1, p3) + _qnear(p, 0.5 * (p3 + p2), p2 - p3, rd))
    G = np.where(far, g, np.where(near, gn, gm))
    Q = np.where(far, q, np.where(near, qn, qm))
    return G, Q


def slip_residual(s, leafsums=None, pointfar=False):
    """Residual and scale of the no-through-flow equation of every segment.
    leafsums: None -> direct sums; else state with leaves -> sums with the program's own clusters.
    -> list per body of (resid, scale, farscale)"""
    out = []
    v = s.vort[s.vort[:, 2] != 0]
    seg2leaf = {}
    if leafsums is not None:
        for l in leafsums.leaves:
            for bi, si in l.segs:
                seg2leaf[(int(bi), int(si))] = l
    for bi, b in enumerate(s.bodies):
        p1, dl = b.corner[:, None, :], b.dl[:, None, :]
        lhs = np.zeros(b.n)
        sc = np.zeros(b.n)
        for bj, c in enumerate(s.bodies):
            ld = absv(c.dl)
            G, _ = xi(c.corner[None], p1, dl, ld[None] * 0.25)
            t = G * c.g[None] / (2 * PI)
            lhs += t.sum(1)
            sc += np.abs(t).sum(1)
            if c is b:
                lhs += b.dl[:, 1] * b.speed[0] - b.dl[:, 0] * b.speed[1]
            sc += absv(b.dl) * np.abs(c.speed[:2]).sum()
            if c.speed[2]:
                P = np.broadcast_to(c.r[None], (b.n, c.n, 2)).copy()
                if c is b:
                    i = np.arange(b.n)
                    P[i, i] += rotl(b.dl) * 0.001
                G, Q = xi(P, p1, dl, ld[None] * 0.25)
                r0 = c.r - c.axis
                t = -(G * dot(rotl(r0), c.dl)[None] - Q * dot(c.dl, r0)[None]) / (2 * PI) * c.speed[2]
                lhs += t.sum(1)
                sc += np.abs(t).sum(1)
        U = s.inf_speed + sinks(b.r, s.src, s.dtf)
        rhs = dot(rotl(U), b.dl)
        sc += np.abs(rhs) + absv(b.dl) * 1e-3
        fs = np.zeros(b.n)
        if len(v):
            with np.errstate(all="ignore"):
                rd = 1.0 / v[:, 5]
            if leafsums is None:
                G, _ = xi(v[None, :, :2], p1, dl, rd[None])
                t = G * v[None, :, 2] / (2 * PI)
                rhs = rhs - t.sum(1)
                sc += np.abs(t).sum(1)
            else:
                for i in range(b.n):
                    l = seg2leaf[(bi, i)]
                    idx = np.concatenate([np.arange(leafsums.leaves[k].v0, leafsums.leaves[k].v0 + leafsums.leaves[k].vn)
                                          for k in l.near]) if len(l.near) else np.zeros(0, int)
                    w = s.vort[idx.astype(int)]
                    w = w[w[:, 2] != 0]
                    if len(w):
                        G, _ = xi(w[:, :2], b.corner[i][None], b.dl[i][None], 1.0 / w[:, 5])
                        t = G * w[:, 2] / (2 * PI)
                        rhs[i] -= t.sum()
                        sc[i] += np.abs(t).sum()
                    if pointfar:
                        m = s.vort[:, 2] != 0
                        m[idx] = False
                        w = s.vort[m]
                        if len(w):
                            t = _gdist(w[:, :2], b.corner[i][None], (b.corner[i] + b.dl[i])[None]) * w[:, 2] / (2 * PI)
                            rhs[i] -= t.sum()
                            sc[i] += np.abs(t).sum()
                            fs[i] += (np.abs(w[:, 2]) / absv(w[:, :2] - b.r[i])).sum() * absv(b.dl[i]) / (2 * PI)
                    elif len(l.far):
                        for o in (0, 3):
                            m = l.far[:, o + 2] != 0
                            f = l.far[m]
                            t = _gdist(f[:, o:o + 2], b.corner[i][None], (b.corner[i] + b.dl[i])[None]) * f[:, o + 2] / (2 * PI)
                            rhs[i] -= t.sum()
                            sc[i] += np.abs(t).sum()
                            fs[i] += (np.abs(f[:, o + 2]) / absv(f[:, o:o + 2] - b.r[i])).sum() * absv(b.dl[i]) / (2 * PI)
        out.append((lhs - rhs, sc, fs))
    return out


# ------------------------------------------------------------------- clusters

def near_idx(leaves, l):
    a = [np.arange(leaves[k].v0, leaves[k].v0 + leaves[k].vn) for k in l.near]
    return np.concatenate(a).astype(int) if a else np.zeros(0, int)


LISTS = (("vort", "v0", "vn"), ("streak", "s0", "sn"))


def convective(s, leaves=None, pointfar=False, lists=LISTS):
    """Convective velocity of every vortex and streak of state s (after the core sizes are known).
    leaves: clusters of the program; None: direct sums.
    -> (vort velocities, streak velocities, far scales, unsure masks)"""
    res = []
    for name, lo, n in lists:
        a = getattr(s, name)
        p = a[:, :2]
        u = np.tile(s.inf_speed, (len(p), 1)) + sinks(p, s.src, s.dtf)
        ub, unsure = bodies(p, s.bodies)
        u = u + ub
        fs = np.zeros(len(p))
        if leaves is None:
            u = u + vortices(p, s.vort)
        else:
            for l in leaves:
                i0, i1 = getattr(l, lo), getattr(l, lo) + getattr(l, n)
                if i1 == i0:
                    continue
                q = p[i0:i1]
                idx = near_idx(leaves, l)
                w = s.vort[idx]
                w = w[w[:, 2] != 0]
                t = vortices(q, w)
                if pointfar:
                    m = s.vort[:, 2] != 0
                    m[idx] = False
                    f = s.vort[m]
                    if len(f):
                        t = t + points(q, f[:, :2], f[:, 2])
                        fs[i0:i1] += (np.abs(f[:, 2]) / absv(q[:, None] - f[None, :, :2])).sum(1) / (2 * PI)
                for o in () if pointfar else (0, 3):
                    m = l.far[:, o + 2] != 0 if len(l.far) else []
                    f = l.far[m] if len(l.far) else l.far
                    if not len(f):
                        continue
                    D = np.array([l.x, l.y]) - f[:, o:o + 2]
                    g, d2 = f[:, o + 2], abs2(D)
                    t1 = -(g / d2 * D[:, 1]).sum() / (2 * PI)
                    t2 = (g / d2 * D[:, 0]).sum() / (2 * PI)
                    t3 = (g / d2 ** 2 * D[:, 1] * D[:, 0]).sum() / PI
                    t4 = (g / d2 ** 2 * (D[:, 1] ** 2 - D[:, 0] ** 2)).sum() / (2 * PI)
                    e = q - np.array([l.x, l.y])
                    t = t + np.stack([t1 + t3 * e[:, 0] + t4 * e[:, 1], t2 + t4 * e[:, 0] - t3 * e[:, 1]], axis=1)
                    fs[i0:i1] += (np.abs(g) / np.sqrt(d2)).sum() / (2 * PI)
                u[i0:i1] += t
        res.append((u, fs, unsure))
    return res


def diffusive(s, leaves):
    """Diffusion velocity of every vortex and friction of every segment in state s."""
    v = s.vort
    dv = np.zeros((len(v), 2))
    fr = [np.zeros(b.n) for b in s.bodies]
    unsure = np.zeros(len(v), bool)
    frs = [np.zeros(b.n) for b in s.bodies]   # scale
    fru = [np.zeros(b.n) for b in s.bodies]   # amount that may be on either side of the cut-off
    for l in leaves:
        if not l.vn:
            continue
        idx = near_idx(leaves, l)
        segs = np.concatenate([leaves[k].segs for k in l.near]) if len(l.near) else np.zeros((0, 2), int)
        if len(segs):
            sr = np.array([s.bodies[a].r[c] for a, c in segs])
            sd = np.array([s.bodies[a].dl[c] for a, c in segs])
        for i in range(l.v0, l.v0 + l.vn):
            g, e1 = v[i, 2], v[i, 5]
            if g == 0:
                continue
            w = v[idx]
            w = w[(w[:, 2] != 0) & (np.sign(w[:, 2]) == np.sign(g))]
            d = v[i, :2] - w[:, :2]
            r = absv(d)
            m = r > 1e-10      # closer ones count as coincident
            unsure[i] |= (np.abs(r - 1e-10) < 1e-10).any()
            d, r, w = d[m], r[m], w[m]
            arg = -r * e1
            unsure[i] |= (np.abs(arg + 8) < 1e-9).any()
            k = np.where(arg < -8, 0, w[:, 2] * np.exp(arg))
            S2 = (d * (k / r)[:, None]).sum(0)
            S1 = k.sum()
            S3, S0 = np.zeros(2), 0.0
            if len(segs):
                d = v[i, :2] - sr
                r2 = abs2(d)
                r = np.sqrt(r2)
                arg = -r * e1
                ex = np.where(arg < -8, 0, np.exp(arg))
                amb = np.abs(arg + 8) < 1e-9
                unsure[i] |= amb.any()
                dS = rotl(sd)
                S3 = (dS * ex[:, None]).sum(0)
                S0 = ((r * e1 + 1) / r2 * dot(d, dS) * ex).sum()
                f = e1 ** 2 * g * ex * absv(sd)
                for (a, c), fv, am in zip(segs, f, amb):
                    fr[a][c] += fv
                    frs[a][c] += abs(fv)
                    if am:
                        fru[a][c] += abs(e1 ** 2 * g * absv(s.bodies[a].dl[c])) * np.exp(-8)
            if abs(abs(S1) - abs(0.1 * g)) < 1e-9 * abs(g) or (S1 != 0 and abs(S1) < 1e-12 * abs(g)):
                unsure[i] = True
            if np.sign(S1) != np.sign(g) or abs(S1) < abs(0.1 * g):
                S1 = 0.1 * g
            S0 = min(S0, PI)
            dv[i] = e1 / (s.re * S1) * S2 + e1 ** 2 / (s.re * (2 * PI - S0)) * S3
    return dv, fr, frs, fru, unsure
