"""Snapshots as states, the space partition, and independent evaluation of the plotted fields."""
import io, math, os, tarfile
import numpy as np
from types import SimpleNamespace as NS
from . import core, fieldio, h5, oracle as O, poly

PI = np.pi
DBL_MAX = float(np.finfo(float).max)


def _vec(a, k, n=3):
    return np.array([float(x) for x in a[k]]) if k in a else np.zeros(n)


def body(ds):
    """State of a body from its dataset (x, y, g, gsum) and attributes."""
    b, a, D = NS(), ds.attrs, np.asarray(ds.data, float)
    b.n = len(D)
    b.corner = D[:, :2].copy()
    b.dl = np.roll(b.corner, -1, axis=0) - b.corner
    b.r = 0.5 * (np.roll(b.corner, -1, axis=0) + b.corner)
    b.g, b.gsum = D[:, 2].copy(), D[:, 3].copy()
    gs = np.asarray(a["slip"] if "slip" in a else a.get("general_slip", 0)).astype(int)
    b.sslip = np.broadcast_to(gs, (b.n,)).copy() if gs.ndim == 0 or gs.size == 1 else gs.reshape(-1)
    b._1_eps = 3.0 / O.absv(b.dl)
    b.holder, b.dpos, b.speed = _vec(a, "holder_position"), _vec(a, "delta_position"), _vec(a, "speed_slae")
    b.axis = b.holder[:2] + b.dpos[:2]
    A = 0.5 * np.sum(b.corner[:, 0] * np.roll(b.corner[:, 1], -1) - b.corner[:, 1] * np.roll(b.corner[:, 0], -1))
    b.outside = A < 0            # solid inside the contour (clockwise)
    b.label = a.get("label", "")
    return b


def load(path, vv, d):
    """Snapshot file -> state. The expressions of the flow at infinity are evaluated by the script interface."""
    g = h5.read(path)
    s = NS(step=0)
    f = lambda k, i=0.0: float(g.attrs[k]) if k in g.attrs else i
    s.time, s.dt = tuple(int(x) for x in g.attrs["time"]), tuple(int(x) for x in g.attrs["dt"])
    s.t, s.dtf = s.time[0] / s.time[1], (s.dt[0] / s.dt[1] if s.dt[1] else math.inf)
    s.re = f("re")
    ex = [g.attrs.get("inf_speed_x", ""), g.attrs.get("inf_speed_y", "")]
    s.inf_speed = np.zeros(2)
    for i, e in enumerate(ex):
        try:
            s.inf_speed[i] = float(e) if e else 0.0
        except ValueError:
            open(os.path.join(d, "ev.lua"), "w").write('S.inf_vx=%r\nio.write(string.format("%%.17g", S.inf_vx:eval(%.17g)))\n' % (e, s.t))
            s.inf_speed[i] = float(core.must_ok(core.run2([vv, "ev.lua"], d), "vvflow").out)
    s.inf_marker = _vec(g.attrs, "inf_marker", 2)
    lst = lambda k: np.asarray(g.children[k].data, float).reshape(len(g.children[k].data), -1) if k in g.children else np.zeros((0, 3))
    v = lst("vort")
    s.vort = np.zeros((len(v), 6))
    s.vort[:, :3] = v[:, :3]
    q = lst("source")
    s.src = np.zeros((len(q), 6))
    s.src[:, :3] = q[:, :3]
    s.streak = np.zeros((0, 6))
    s.bodies = [body(g.children[k]) for k in sorted(g.children) if k.startswith("body") and k[4:].isdigit()]
    b = s.bodies[0] if s.bodies else None
    s.dl = O.absv(b.dl).sum() / (b.n - 1) if b and b.n > 1 else 0.0     # the program's length scale
    s.attrs = g.attrs
    return s


def shed(s):
    """The state with this step's surface vortices released."""
    new = [s.vort]
    for b in s.bodies:
        b.gsum = b.gsum + b.g
        m = (np.abs(b.g) >= 1e-10) & (b.sslip == 0)
        v = np.zeros((int(m.sum()), 6))
        v[:, :2] = b.corner[m] + O.rotl(b.dl[m]) * 1e-4
        v[:, 2] = b.g[m]
        new.append(v)
    s.vort = np.concatenate(new)
    return s


# ----------------------------------------------------------------- partition

class Tree:
    """Recursive bisection of particles and segments. Reorders s.vort by leaf."""

    def __init__(self, s, crit, mn, mx=DBL_MAX):
        self.crit, self.mn, self.mx = crit, mn, mx
        self.s = s
        self.segr = np.concatenate([b.r for b in s.bodies]) if s.bodies else np.zeros((0, 2))
        self.segid = np.array([(i, k) for i, b in enumerate(s.bodies) for k in range(b.n)], int).reshape(-1, 2)
        self.nodes, self.leaves = [], []
        self.root = self.node(np.arange(len(s.vort)), np.arange(len(self.segr)))
        i = 0
        order = []
        for l in self.leaves:
            order.append(l.v)
            l.v0, l.vn, l.s0, l.sn = i, len(l.v), 0, 0
            i += len(l.v)
        order = np.concatenate(order).astype(int) if order else np.zeros(0, int)
        s.vort = s.vort[order]
        self.moments(self.root)
        for l in self.leaves:
            l.segs = self.segid[l.b]
            near, far = [], []
            self.lists(l, self.root, near, far)
            l.near = np.array(near, int)
            l.far = np.array(far, float).reshape(-1, 6)

    def node(self, v, b):
        n = NS(v=v, b=b, ch=None, k=-1)
        P = np.concatenate([self.s.vort[v, :2], self.segr[b]])
        if len(P):
            tr, bl = P.max(0), P.min(0)
        else:
            tr, bl = np.full(2, -DBL_MAX), np.full(2, DBL_MAX)
        with np.errstate(all="ignore"):
            n.x, n.y = (bl + tr) * 0.5
            n.w, n.h = tr - bl
        if max(n.h, n.w) < self.mx and (min(n.h, n.w) <= self.mn or max(len(v), len(b)) < 16):
            n.k = len(self.leaves)
            self.leaves.append(n)
            return n
        if len(P) > 1 and max(n.h, n.w) == 0 and self.mx <= 0:
            raise RecursionError
        n.ax = 0 if n.h < n.w else 1
        c = (n.x, n.y)[n.ax]
        lv, lb = self.s.vort[v, n.ax] < c, self.segr[b, n.ax] < c
        n.ch = (self.node(v[lv], b[lb]), self.node(v[~lv], b[~lb]))
        return n

    def moments(self, n):
        if n.ch is None:
            v = self.s.vort[n.v0:n.v0 + n.vn]
            n.cm = []
            for m in (v[:, 2] > 0, v[:, 2] <= 0):
                G = v[m, 2].sum()
                n.cm.append(np.append(v[m, 2] @ v[m, :2] / G, G) if G else np.array([n.x, n.y, 0]))
            return
        for c in n.ch:
            self.moments(c)
        n.cm = []
        for i in (0, 1):
            a, b = n.ch[0].cm[i], n.ch[1].cm[i]
            G = a[2] + b[2]
            n.cm.append(np.append((a[:2] * a[2] + b[:2] * b[2]) / G, G) if G else np.array([n.x, n.y, 0]))

    def lists(self, l, top, near, far):
        with np.errstate(all="ignore"):
            d2 = (top.x - l.x) ** 2 + (top.y - l.y) ** 2
            hp = top.h + top.w + l.h + l.w
            isfar = d2 > self.crit * hp * hp
        if isfar:
            far.append(np.concatenate(top.cm))
        elif top.ch:
            for c in top.ch:
                self.lists(l, c, near, far)
        else:
            near.append(top.k)

    def find(self, p):
        """-> leaf index of every point, and its distance from the nearest dividing line on the way."""
        k, dist = np.zeros(len(p), int), np.full(len(p), np.inf)

        def go(n, i):
            if n.ch is None:
                k[i] = n.k
                return
            t = p[i, n.ax] - (n.x, n.y)[n.ax]
            dist[i] = np.minimum(dist[i], np.abs(t))
            go(n.ch[0], i[t < 0])
            go(n.ch[1], i[t >= 0])
        go(self.root, np.arange(len(p)))
        return k, dist


def cores(s, T):
    """Core sizes without merging."""
    for l in T.leaves:
        if not l.vn:
            continue
        c = np.array([l.x, l.y])
        idx = O.near_idx(T.leaves, l)
        segs = np.concatenate([T.leaves[k].segs for k in l.near]) if len(l.near) else np.zeros((0, 2), int)
        bl = None
        if len(segs):
            sr = np.array([s.bodies[a].r[q] for a, q in segs])
            a, q = segs[int(np.argmin(O.abs2(sr - c)))]
            bl = s.bodies[a].dl[q]
        elif s.bodies:
            best = np.inf
            for b in s.bodies:
                i = 0
                while i < b.n:
                    d2 = O.abs2(c - b.r[i])
                    if d2 < best:
                        best, bl = d2, b.dl[i]
                    else:
                        i += 9
                    i += 1
        floor = O.absv(bl) / 3 if bl is not None else 1e-100
        w = idx[s.vort[idx, 2] != 0]
        for i in range(l.v0, l.v0 + l.vn):
            if s.vort[i, 2] == 0:
                continue
            o = w[w != i]
            d2 = np.sort(O.abs2(s.vort[i, :2] - s.vort[o, :2]))
            e = 0.0 if not len(d2) else math.sqrt(d2[0] if len(d2) == 1 else d2[1])
            s.vort[i, 5] = 1.0 / max(e, floor)


def eps2h(s, T):
    """Square of the distance to the second nearest other place of a vortex, for every vortex."""
    out = np.zeros(len(s.vort))
    for l in T.leaves:
        idx = O.near_idx(T.leaves, l)
        for i in range(l.v0, l.v0 + l.vn):
            d2 = O.abs2(s.vort[i, :2] - s.vort[idx, :2])
            d2 = np.sort(d2[d2 != 0])
            out[i] = d2[1] if len(d2) > 1 else d2[0] if len(d2) else -DBL_MAX
    return out


def leaf_velocity(s, T, p):
    """Velocity at points as a sensor would see it. -> u, scale, unsure."""
    k, dist = T.find(p)
    u = np.tile(s.inf_speed, (len(p), 1)) + O.sinks(p, s.src, s.dtf)
    ub, unsure = O.bodies(p, s.bodies)
    u = u + ub
    sc = O.absv(u) + O.absv(ub)
    for i in np.unique(k):
        m = k == i
        l = T.leaves[i]
        w = s.vort[O.near_idx(T.leaves, l)]
        w = w[w[:, 2] != 0]
        u[m] += O.vortices(p[m], w)
        if len(w):
            sc[m] += (np.abs(w[:, 2]) * w[:, 5]).max()
        for o in (0, 3):
            f = l.far[l.far[:, o + 2] != 0]
            if len(f):
                u[m] += O.points(p[m], f[:, o:o + 2], f[:, o + 2])
    return u, sc, unsure | (dist < 1e-9)


def far_scale(s, T, p):
    """Sum of |g|/(2 pi r) over the vortices that are not in near cells of p's cell."""
    k, _ = T.find(p)
    out = np.zeros(len(p))
    for i in np.unique(k):
        m = k == i
        far = np.ones(len(s.vort), bool)
        far[O.near_idx(T.leaves, T.leaves[i])] = False
        w = s.vort[far]
        if len(w):
            out[m] = (np.abs(w[:, 2]) / np.maximum(O.absv(p[m][:, None] - w[None, :, :2]), 1e-12)).sum(1) / (2 * PI)
    return out


def frame(s, ref):
    return {"o": np.zeros(2), "s": np.zeros(2), "f": s.inf_speed, "b": s.bodies[0].speed[:2] if s.bodies else None}[ref]


# -------------------------------------------------------------------- fields

def velocity(s, p, ref, mode):
    """-> values, scale, unsure. Uses up s."""
    shed(s)
    T = Tree(s, 8, s.dl * 20, 0.1)
    cores(s, T)
    u, sc, unsure = leaf_velocity(s, T, p)
    return u[:, "xy".index(mode)] - frame(s, ref)["xy".index(mode)], sc + np.abs(frame(s, ref)).sum(), unsure


def psi_bodies(s, p, rd2):
    v, sc = np.zeros(len(p)), np.zeros(len(p))
    for b in s.bodies:
        d2 = O.abs2(p[:, None] - b.r[None])
        t = -b.g * np.log(d2 + rd2) / (4 * PI)
        v += t.sum(1)
        sc += np.abs(t).sum(1)
        if not np.any(b.speed):
            continue
        Vs = O.seg_speed(b, b.r)
        g, q = -O.dot(Vs, b.dl), -O.dot(O.rotl(Vs), b.dl)
        t = -g * np.log(d2 + rd2) / (4 * PI)
        v += t.sum(1)
        sc += np.abs(t).sum(1)
        # the flux collected along the contour times the angle each piece of it is seen under
        Q = np.cumsum(q)
        a = b.r[None] - p[:, None]
        e = np.roll(b.r, -1, axis=0)[None] - p[:, None]
        ang = np.arctan2(a[..., 0] * e[..., 1] - a[..., 1] * e[..., 0], O.dot(a, e))
        t = -Q * ang / (2 * PI)
        v += t.sum(1)
        sc += np.abs(t).sum(1) + np.abs(q).sum()
    return v, sc


def psi_rest(s, p, U):
    v, sc = np.zeros(len(p)), np.zeros(len(p))
    for q in s.src:
        d = p - q[:2]
        t = q[2] * np.arctan2(d[:, 1], d[:, 0]) / (2 * PI)
        v += t
        sc += np.abs(q[2]) / 2
    t = O.dot(p, O.rotl(U))
    return v + t, sc + np.abs(p[:, 0] * U[1]) + np.abs(p[:, 1] * U[0])


def cut(s, p, tol=1e-9):
    """Points on a branch cut of a sink."""
    m = np.zeros(len(p), bool)
    for q in s.src:
        m |= (np.abs(p[:, 1] - q[1]) < tol) & (p[:, 0] <= q[0] + tol)
    return m


def streamfunction(s, p, ref, eps_mult):
    rd2 = (0.2 * s.dl) ** 2
    T = Tree(s, 8, s.dl * 10 if s.dl > 0 else 0, s.dl * 20 if s.dl > 0 else math.inf)
    e2 = eps_mult ** 2 * np.maximum(eps2h(s, T) * 0.25, rd2)
    v, sc = psi_bodies(s, p, rd2)
    a, b = psi_rest(s, p, s.inf_speed - frame(s, ref))
    v, sc = v + a, sc + b
    k, dist = T.find(p)
    for i in np.unique(k):
        m = k == i
        l = T.leaves[i]
        idx = O.near_idx(T.leaves, l)
        with np.errstate(all="ignore"):
            t = -s.vort[idx, 2] * np.log(O.abs2(p[m][:, None] - s.vort[idx, :2][None]) + e2[idx]) / (4 * PI)
        v[m] += t.sum(1)
        sc[m] += np.abs(t).sum(1)
        for o in (0, 3):
            f = l.far
            with np.errstate(all="ignore"):
                t = -f[:, o + 2] * np.log(O.abs2(p[m][:, None] - f[:, o:o + 2][None]) + rd2) / (4 * PI)
            t = np.where(f[:, o + 2] == 0, 0, t)
            v[m] += t.sum(1)
            sc[m] += np.abs(t).sum(1)
    return v, sc, (dist < 1e-9) | cut(s, p) | solid(s, p)     # within solids the branch is arbitrary


def script_streamfunction(s, p):
    rd2 = (0.2 * s.dl) ** 2
    v, sc = psi_bodies(s, p, rd2)
    a, b = psi_rest(s, p, s.inf_speed)
    with np.errstate(all="ignore"):
        t = -s.vort[:, 2] * np.log(O.abs2(p[:, None] - s.vort[:, :2][None]) + rd2) / (4 * PI)
    return v + a + t.sum(1), sc + b + np.abs(t).sum(1), cut(s, p) | solid(s, p)


def in_body(s, p):
    """-> in solid, too close to a contour to say."""
    sol, close = np.zeros(len(p), bool), np.zeros(len(p), bool)
    for b in s.bodies:
        i, dist = poly.inside(b.corner, p)
        sol |= i if b.outside else ~i
        close |= dist < 1e-9
    return sol, close


def solid(s, p):
    a, b = in_body(s, p)
    return a | b


def vorticity(s, p, eps_mult):
    shed(s)
    T = Tree(s, 8, s.dl * 20)
    with np.errstate(all="ignore"):
        e = 1.0 / (eps_mult ** 2 * np.maximum(eps2h(s, T), (0.6 * s.dl) ** 2))
    k, dist = T.find(p)
    v, sc, unsure = np.zeros(len(p)), np.zeros(len(p)), dist < 1e-9
    for i in np.unique(k):
        m = k == i
        l = T.leaves[i]
        idx = O.near_idx(T.leaves, l)
        with np.errstate(all="ignore"):
            arg = -O.abs2(p[m][:, None] - s.vort[idx, :2][None]) * e[idx]
            t = np.where(arg > -6, s.vort[idx, 2] * e[idx] * np.exp(arg), 0) / PI
            x = (np.abs(arg + 6) < 1e-9).any(1)
        v[m] += t.sum(1)
        sc[m] += np.abs(t).sum(1)
        segs = np.concatenate([T.leaves[j].b for j in l.near]).astype(int) if len(l.near) else np.zeros(0, int)
        if len(segs):
            h2 = O.abs2(p[m][:, None] - T.segr[segs][None]).min(1)
            a = h2 / (s.dl * eps_mult) ** 2
            v[m] += np.where(a < 3, 0.5 * (1 - np.array([math.erf(z) for z in a])), 0)
            sc[m] += 1
        unsure[m] |= x
    sol, close = in_body(s, p)
    return np.where(sol, 0, v), sc, unsure | close, sol


def pressure(s, p, ref):
    shed(s)
    T = Tree(s, 8, s.dl * 20, 0.1)
    cores(s, T)
    (vc, _, un1), _ = O.convective(s, T.leaves)
    vd, _, _, _, un2 = O.diffusive(s, T.leaves) if math.isfinite(s.re) else (0, 0, 0, 0, False)
    V = vc + vd
    V[s.vort[:, 2] == 0] = 0
    amb = (un1 | un2) & (s.vort[:, 2] != 0)
    K = lambda o: (p[:, None] - o[None]) / O.abs2(p[:, None] - o[None])[..., None]
    c, sc = np.zeros(len(p)), np.zeros(len(p))
    with np.errstate(all="ignore"):
        for b in s.bodies:
            Vs = O.seg_speed(b, b.r)
            g, q = -O.dot(Vs, b.dl), -O.dot(O.rotl(Vs), b.dl)
            k = K(b.r)
            t = O.dot(O.rotl(k) * g[None, :, None] + k * q[None, :, None], Vs[None])
            t = t - O.dot(b.dl[None] / s.dtf, O.rotl(k)) * np.cumsum(b.gsum)[None]
            c += t.sum(1)
            sc += np.abs(t).sum(1)
        t = O.dot(V[None], O.rotl(K(s.vort[:, :2]))) * s.vort[:, 2]
        t = np.where(s.vort[:, 2] == 0, 0, t)
        c += t.sum(1)
        sc += np.abs(t).sum(1)
    u, su, unsure = leaf_velocity(s, T, p)
    v = c / (2 * PI) + 0.5 * (O.abs2(s.inf_speed) - O.abs2(u))
    sc = sc / (2 * PI) + su ** 2
    if ref != "s":
        v = v + 0.5 * O.abs2(u - frame(s, ref))
    # one ambiguous vortex blurs the field near it
    blur = np.abs(np.where(amb, s.vort[:, 2], 0))[None] / np.maximum(O.absv(p[:, None] - s.vort[None, :, :2]), 1e-9) if amb.any() else None
    if blur is not None:
        sc = sc * 1.0
        unsure = unsure | (blur.sum(1) > 0)
    sol, close = in_body(s, p)
    return np.where(sol, 0, v), sc, unsure | close, sol


# ------------------------------------------------------------------- archives

def archive(path):
    """-> {name: bytes} in order; raises on a damaged archive."""
    out = {}
    with tarfile.open(path) as t:
        for m in t.getmembers():
            if m.name in out:
                raise ValueError("two members named " + m.name)
            out[m.name] = t.extractfile(m).read()
    return out


def grid(rect, res):
    """Points of the mesh of a window: two (ny, nx, 2) arrays (in single precision parameters, exact) and the step."""
    dx = (rect[1] - rect[0]) / res
    ny = math.ceil((rect[3] - rect[2]) / dx)
    out = []
    for f in (np.float32, float):
        x0, y0, h = float(f(rect[0])), float(f(rect[2])), float(f(dx))
        X, Y = np.meshgrid(x0 + h * np.arange(res + 1), y0 + h * np.arange(ny + 1))
        out.append(np.stack([X, Y], -1))
    return out[0], out[1], dx


def both(fn, P, Q):
    """fn(points) -> (values, scale, unsure, ...) at P; what Q, or single precision in the position, makes of it
    goes into the scale as slack."""
    p, q = P.reshape(-1, 2), Q.reshape(-1, 2)
    n = len(p)
    e = 1.2e-7 * np.abs(p).max(initial=0)
    r = fn(np.concatenate([p, q, p + [e, e], p + [e, -e]]))
    v, un = np.asarray(r[0]).reshape(4, n), np.asarray(r[2]).reshape(4, n)
    with np.errstate(all="ignore"):
        slack = 2 * np.abs(v[1:] - v[0]).max(0)
    return v[0], r[1][:n], un.any(0), slack
