"""Simple polygons, point location and polygon integrals (independent oracles)."""
import math
import numpy as np


def area(p):
    q = np.roll(p, -1, axis=0)
    return 0.5 * float(np.sum(p[:, 0] * q[:, 1] - q[:, 0] * p[:, 1]))


def integrals(p):
    """-> perimeter, signed area (counter-clockwise positive), centroid, second moment about it (same sign as the area)."""
    o = p.mean(0)
    a = p - o
    b = np.roll(a, -1, axis=0)
    per = float(np.hypot(*(b - a).T).sum())
    cr = a[:, 0] * b[:, 1] - b[:, 0] * a[:, 1]
    A = 0.5 * math.fsum(cr)
    if A == 0:
        return per, 0.0, o, 0.0
    c = np.array([math.fsum((a[:, k] + b[:, k]) * cr) for k in (0, 1)]) / (6 * A)
    J = math.fsum(((a * a).sum(1) + (a * b).sum(1) + (b * b).sum(1)) * cr) / 12
    return per, A, o + c, J - A * float(c @ c)


def inside(P, q):
    """Winding by summed angles, and the distance to the contour."""
    d = P[None] - q[:, None]
    e = np.roll(d, -1, axis=1)
    ang = np.arctan2(d[..., 0] * e[..., 1] - d[..., 1] * e[..., 0], (d * e).sum(-1)).sum(1)
    s = e - d
    l2 = (s * s).sum(-1)
    with np.errstate(all="ignore"):
        t = np.clip(-(d * s).sum(-1) / np.where(l2 > 0, l2, 1), 0, 1)
    dist = np.sqrt((((d + t[..., None] * s)) ** 2).sum(-1)).min(1)
    return np.abs(ang) > math.pi, dist


def shape(rng):
    k = int(rng.integers(8))
    n = int(rng.integers(3, 50))
    if k == 0:
        a = np.sort(rng.uniform(0, 2 * math.pi, max(n, 5)))
        r = rng.uniform(0.1, 1, len(a))
        if np.diff(np.append(a, a[0] + 2 * math.pi)).max() > 3:
            a = np.linspace(0, 2 * math.pi, len(a), endpoint=False)
        return "star", np.stack([r * np.cos(a), r * np.sin(a)], 1)
    if k == 1:
        a = np.linspace(0, 2 * math.pi, n, endpoint=False) + rng.uniform(0, 1)
        return "regular", np.stack([np.cos(a), np.sin(a)], 1)
    if k == 2:   # comb with axis-parallel teeth on an integer lattice
        m = int(rng.integers(2, 7))
        p = [(0, 0)]
        for i in range(m):
            p += [(2 * i, 3), (2 * i + 1, 3), (2 * i + 1, 1), (2 * i + 2, 1)]
        p[-1] = (2 * m - 1, 1)
        p = [(0, 0)] + p[1:-2] + [(2 * m - 1, 0)]
        p = np.array(p, float)
        if rng.uniform() < 0.5:
            p = p[:, ::-1]
        return "comb", p * 0.25
    if k == 3:   # spiral band
        t = np.linspace(0.5, rng.uniform(2, 4) * math.pi, max(n, 20))
        o = np.stack([(t + 1.2) * np.cos(t), (t + 1.2) * np.sin(t)], 1)
        i = np.stack([t * np.cos(t), t * np.sin(t)], 1)
        return "spiral", np.concatenate([o, i[::-1]]) * 0.1
    if k == 4:
        return "L", np.array([(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)], float) * rng.choice([0.5, 1])
    if k == 5:   # subdivided rectangle, thin or not
        w, h = 1.0, float(rng.choice([1, 0.3, 0.01]))
        m = int(rng.integers(1, 8))
        x = np.linspace(0, w, m + 1)[:-1]
        p = [(u, 0) for u in x] + [(w, 0)] + [(w - u, h) for u in x] + [(0, h)]
        return "box", np.array(p, float)
    if k == 6:
        return "triangle", rng.normal(0, 1, (3, 2)) + np.array([[0, 0], [3, 0], [0, 3]])
    a = np.linspace(0, 2 * math.pi, 2 * max(n // 2, 4), endpoint=False)
    r = np.where(np.arange(len(a)) % 2, 1, rng.uniform(0.2, 0.9))
    return "gear", np.stack([r * np.cos(a), r * np.sin(a)], 1)


def probe(rng, P, n):
    """Points chosen to hit the shortcuts and the half-open rules."""
    lo, hi = P.min(0), P.max(0)
    s = (hi - lo).max()
    c = integrals(P)[2]
    out = [rng.uniform(lo - 0.2 * s, hi + 0.2 * s, (n // 3, 2))]
    k = rng.integers(len(P), size=n // 3)
    v = P[k].copy()
    m = rng.integers(4, size=len(k))
    v[m == 0, 0] += rng.uniform(-1, 1, (m == 0).sum()) * s       # exactly level with a vertex
    v[m == 1, 1] += rng.uniform(-1, 1, (m == 1).sum()) * s
    v[m == 2] += rng.normal(0, 1, ((m == 2).sum(), 2)) * s * 10.0 ** rng.uniform(-5, -1, ((m == 2).sum(), 1))
    e = 0.5 * (P[k] + np.roll(P, -1, axis=0)[k])
    d = np.roll(P, -1, axis=0)[k] - P[k]
    v[m == 3] = (e + np.stack([-d[:, 1], d[:, 0]], 1) * rng.choice([-1, 1], (len(k), 1)) * 10.0 ** rng.uniform(-4, -0.3, (len(k), 1)))[m == 3]
    out.append(v)
    R = np.hypot(*(P - c).T).max()
    a = rng.uniform(0, 2 * math.pi, n // 6)
    out.append(c + R * (1 + rng.choice([-1, 1], (len(a), 1)) * 10.0 ** rng.uniform(-6, -1, (len(a), 1))) * np.stack([np.cos(a), np.sin(a)], 1))
    t = rng.uniform(lo, hi, (n // 6, 2))
    q = rng.integers(4, size=len(t))
    eps = s * 10.0 ** rng.uniform(-6, -1, len(t)) * rng.choice([-1, 1], len(t))
    t[q == 0, 0] = lo[0] + eps[q == 0]
    t[q == 1, 0] = hi[0] + eps[q == 1]
    t[q == 2, 1] = lo[1] + eps[q == 2]
    t[q == 3, 1] = hi[1] + eps[q == 3]
    out.append(t)
    out.append(rng.uniform(lo - 100 * s, hi + 100 * s, (3, 2)))
    out.append(np.atleast_2d(c))
    return np.concatenate(out)
