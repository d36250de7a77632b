"""C33: a run does not depend on the choice of coordinates."""
import glob, math, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
from vv import build, core, h5, scen

# What two equivalent descriptions may differ by after three steps where vortices are shed beside the bodies (the scheme
# sheds them on one side of the corner, merges them in their order, and replaces moving walls by point vortices):
# (kind, column) -> (median, 9th decile) over all pairs
APPROX = {"frame": (.06, .5), "mirror": (.04, .4), "rotate": (.15, .8)}
POINTS = ("vort", "heat", "source", "ink", "ink_source")


class Map:
    """x -> A x + s, seen from a frame that moves with -u (all velocities gain u)."""

    def __init__(self, A=((1, 0), (0, 1)), s=(0, 0), u=(0, 0)):
        self.A, self.s, self.u = np.array(A, float), np.array(s, float), np.array(u, float)
        self.det = round(float(np.linalg.det(self.A)))

    def vec(self, v):
        v = np.asarray(v, float)
        # +0 and exact: the matrices only swap and negate
        return np.stack([self.A[i, 0] * v[..., 0] if self.A[i, 0] else self.A[i, 1] * v[..., 1] for i in (0, 1)], -1)

    def pt(self, p):
        return self.vec(p) + self.s

    def swap(self):
        return self.A[0, 0] == 0

    def expr(self, ex, ey):
        """The two components of a velocity given by expressions."""
        e, out = (ex, ey), []
        for i in (0, 1):
            j = 0 if self.A[i, 0] else 1
            t = e[j]
            if t and self.A[i, j] < 0:
                t = "-(%s)" % t
            out.append(t)
        return out

    def gain(self, e, i):
        return e if not self.u[i] else "(%s)+(%r)" % (e or "0", float(self.u[i]))


def get(a):
    return np.array(a, float)


def transform(src, dst, M):
    shutil.copy(src, dst)
    g = h5.read(src)
    M0 = M.A.T @ M.s
    with h5.Editor(dst) as e:
        v2 = lambda n, v: e.set_attr("/", n, np.array(tuple(v), h5.TVEC), h5.TVEC)
        v2("inf_marker", M.pt(get(g.attrs["inf_marker"])))
        v2("gravity", M.vec(get(g.attrs["gravity"])))
        vx, vy = M.expr(g.attrs.get("inf_speed_x", ""), g.attrs.get("inf_speed_y", ""))
        e.set_attr("/", "inf_speed_x", M.gain(vx, 0), "vstr")
        e.set_attr("/", "inf_speed_y", M.gain(vy, 1), "vstr")
        e.set_attr("/", "inf_circulation", np.array(M.det * float(g.attrs["inf_circulation"])), "f8")
        for n in POINTS:
            if n in g.children:
                d = np.array(g.children[n].data, float)
                d[:, :2] = M.pt(d[:, :2])
                if n == "vort":
                    d[:, 2] *= M.det
                e.overwrite_dataset(n, d)
        for n, b in g.children.items():
            if not (n.startswith("body") and isinstance(b, h5.Dataset)):
                continue
            d = np.array(b.data, float)
            N = len(d)
            d[:, :2] = M.pt(d[:, :2])
            if M.det < 0:                     # keep the orientation: corners in the opposite order
                d = d[(-np.arange(N)) % N]
                d[:, 2:] *= -1
                if "slip" in b.attrs:
                    raise core.Inconclusive("mixed slip")
                k = int(b.attrs["special_segment_no"])
                e.set_attr(n, "special_segment_no", np.array(N - 1 - k), "i4")
            e.overwrite_dataset(n, d)
            v3 = lambda a, xy, o: e.set_attr(n, a, np.array((xy[0], xy[1], o), h5.TVEC3), h5.TVEC3)
            for a in ("holder_position", "delta_position", "speed_slae", "speed_slae_prev", "force_hydro", "force_holder", "friction_prev", "fdt_dead"):
                q = get(b.attrs[a])
                if a == "fdt_dead":
                    q[:2] += np.array([-M0[1], M0[0]]) * float(b.attrs["g_dead"])
                xy = (M.pt if a == "holder_position" else M.vec)(q[:2])
                if a.startswith("speed"):
                    xy = xy + M.u
                v3(a, xy, M.det * q[2])
            for a in ("spring_const", "spring_damping"):
                q = get(b.attrs[a])
                v3(a, q[1::-1] if M.swap() else q[:2], q[2])
            lo, hi = get(b.attrs["collision_min"]), get(b.attrs["collision_max"])
            with np.errstate(invalid="ignore"):
                p, q = M.pt(lo[:2]), M.pt(hi[:2])
            v3("collision_min", np.minimum(p, q), min(M.det * lo[2], M.det * hi[2]))
            v3("collision_max", np.maximum(p, q), max(M.det * lo[2], M.det * hi[2]))
            e.set_attr(n, "g_dead", np.array(M.det * float(b.attrs["g_dead"])), "f8")
            sx, sy = M.expr(b.attrs.get("speed_x", ""), b.attrs.get("speed_y", ""))
            if not b.attrs.get("root_body"):
                sx, sy = M.gain(sx, 0), M.gain(sy, 1)
            e.set_attr(n, "speed_x", sx, "vstr")
            e.set_attr(n, "speed_y", sy, "vstr")
            for a in ("speed_o", "force_o"):
                t = b.attrs.get(a, "")
                e.set_attr(n, a, "-(%s)" % t if t and M.det < 0 else t, "vstr")


def jitter(src, dst, rng, eps):
    """The same set-up up to rounding errors."""
    shutil.copy(src, dst)
    g = h5.read(src)
    with h5.Editor(dst) as e:
        for n, b in g.children.items():
            if isinstance(b, h5.Dataset) and (n in POINTS or n.startswith("body")):
                d = np.array(b.data, float)
                d[:, :2] += rng.uniform(-eps, eps, d[:, :2].shape)
                e.overwrite_dataset(n, d)


def go(exe, d, sub, name, dt, steps):
    """-> (log, last snapshot)"""
    w = os.path.join(d, sub)
    os.makedirs(w)
    shutil.move(os.path.join(d, name), w + "/in.h5")
    open(w + "/s.lua", "w").write('S:load("in.h5")\nS.finish = S.time + %r\nS.dt_save = "%d/%d"\nsimulate()\nS:save("end.h5")\n' % ((steps - .5) * dt[0] / dt[1], dt[0] * 1000, dt[1]))
    core.must_ok(core.run2([exe, "s.lua"], w, timeout=300), "vvflow")
    return h5.read(glob.glob(w + "/stepdata_*.h5")[0]), h5.read(w + "/end.h5")


def series(log, M, t, t0):
    """Everything of the log, mapped back to the coordinates of the original: {column: (values, unit)}."""
    B = Map(M.A.T)
    out = {}
    for n, b in log.children.items():
        if not isinstance(b, h5.Group):
            continue
        for c, x in b.children.items():
            x = np.array(x.data, float)
            if x.ndim != 2 or x.shape[1] != 3 or c not in ("force_hydro", "force_holder", "force_friction", "holder_position", "delta_position", "speed_slae"):
                continue
            xy = x[:, :2].copy()
            if c == "holder_position":
                xy = xy - M.s - np.outer(t - t0, M.u)
            if c == "speed_slae":
                xy = xy - M.u
            out[n, c, "xy"] = B.vec(xy)
            out[n, c, "o"] = M.det * x[:, 2:]
    return out


def vortices(g, M, T):
    """Order-free description of the particles."""
    if "vort" not in g.children:
        return np.zeros(10)
    v = np.array(g.children["vort"].data, float)
    p = Map(M.A.T).vec(v[:, :2] - M.s - M.u * T)
    w = M.det * v[:, 2]
    a = np.abs(w)
    return np.array([len(v), w.sum(), a.sum(), *(p * w[:, None]).sum(0), *(p * a[:, None]).sum(0), *(p ** 2 * w[:, None]).sum(0), (p[:, 0] * p[:, 1] * w).sum()])


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    kw = dict(collide=False, sinks=False, streak=False) if kind == "frame" else dict(collide=rng.uniform() < .3)
    fresh = kind == "mirror" or rng.uniform() < .2
    if fresh:                       # a jump of the circulation has no impulse that all observers agree upon
        kw.update(vort=0, infg=False)
    warm = 0 if fresh else int(rng.integers(1, 10))
    sc = scen.scenario(rng, steps=warm + 1, slip=rng.uniform() < .15, start=0, save_every=1, nb=int(rng.integers(0 if rng.uniform() < .1 and not fresh else 1, 4)),
                       kinds=["poly", "para", "ellipse", "plate", "savonius", "semicyl"], nseg=int(rng.integers(18, 40) if kind in ("shift", "rotate") else rng.integers(40, 64)), special=rng.uniform() < .2, viscous=c["viscous"], **kw)
    # no shape may be aligned with an axis, so that no decision rests on a tie
    lua = re.sub(r"(?m)(local (b\d+) = gen_[^;\n]*$)", lambda m: "%s %s:move_d(%.3f)" % (m[1], m[2], rng.uniform(-170, 170)), sc.lua)
    if kind == "frame":             # documented as proportional to the absolute speed
        lua = re.sub(r"(?m)^.*\.spring_damping = .*\n", "", lua)
    for fn, t in sc.files.items():
        if kind == "mirror":
            t = "".join(" ".join(l.split()[:2]) + "\n" for l in t.splitlines())
        open(os.path.join(d, fn), "w").write(t)
    open(d + "/s.lua", "w").write(lua + ('S:save("base.h5")\n' if fresh else "simulate()\n"))
    core.must_ok(core.run2([c["exe"], "s.lua"], d), "vvflow")
    if not fresh:
        shutil.copy(sorted(glob.glob(d + "/results_t/*.h5"))[-1], d + "/base.h5")
    if kind != "shift" and any("collision_state" in b.attrs for b in h5.read(d + "/base.h5").children.values()):
        R.count("skipped: in contact")
        return
    steps = int(rng.integers(2, 10)) if kind == "shift" or kind == "rotate" and not c["viscous"] else 3
    T0 = h5.read(d + "/base.h5").attrs["time"]
    M = {"shift": lambda: Map(s=10.0 ** rng.uniform(-1, 3) * np.array([math.cos(q := rng.uniform(0, 6.3)), math.sin(q)])),
         "rotate": lambda: Map(A=[((0, -1), (1, 0)), ((-1, 0), (0, -1)), ((0, 1), (-1, 0))][int(rng.integers(3))]),
         "mirror": lambda: Map(A=[((1, 0), (0, -1)), ((-1, 0), (0, 1)), ((0, 1), (1, 0))][int(rng.integers(3))]),
         "frame": lambda: Map(u=np.round(rng.uniform(-1.5, 1.5, 2), 3))}[kind]()
    reach = 8 + float(np.abs(M.s).max())
    transform(d + "/base.h5", d + "/map.h5", M)
    shutil.copy(d + "/base.h5", d + "/base0.h5")
    A = go(c["exe"], d, "a", "base.h5", sc.meta.dt, steps)
    B = go(c["exe"], d, "b", "map.h5", sc.meta.dt, steps)
    I = Map()
    t0 = T0[0] / T0[1]
    t = np.array(A[0].children["time"].data, float).ravel()
    tb = np.array(B[0].children["time"].data, float).ravel()
    if len(t) != len(tb) or np.abs(t - tb).max(initial=0) > 1e-6 * (1 + np.abs(t).max(initial=0)):
        R.bad("steps", "%s: the times of the steps differ: %s instead of %s" % (kind, tb[:9], t[:9]))
        return
    a, b = series(A[0], I, t, t0), series(B[0], M, t, t0)
    if set(a) != set(b):
        R.bad("columns", "%s: columns %s differ" % (kind, set(a) ^ set(b)))
        return
    if not all((np.abs(x) < (1e5 if k[1].startswith("force") else 1e3)).all() for k, x in a.items()):
        R.count("skipped: the run diverges (bodies that meet)")
        return
    unit = {}
    for k, x in a.items():
        u = (k[1][:5], k[2])
        unit[u] = max(unit.get(u, 0), float(np.abs(x).max(initial=0)))
    exact = kind == "shift" or not c["viscous"] and (kind == "rotate" or kind == "frame" and all_slip(sc.lua))
    if not exact:
        W = {}
        for k, x in a.items():
            W.setdefault(("friction" if k[1] == "force_friction" else k[1].split("_")[0], k[2]), []).append((x[1:], b[k][1:]))
        for u, z in W.items():
            p, q = (np.concatenate([y[i].ravel() for y in z]) for i in (0, 1))
            n = float(np.sqrt((p ** 2).mean())) if p.size else 0
            if n > 1e-3:
                e = float(np.sqrt(((q - p) ** 2).mean())) / n
                R.evals += p.size
                R.maxi("difference: %s %s %s" % (kind, *u), e)
                with open(os.path.join(c["agg"], "%s-%s-%s" % (kind, *u)), "a") as f:
                    f.write("%r\n" % e)
        R.count("pairs: " + kind)
        R.case("%s|%s" % (kind, sc.meta.sig), 0)
        return
    va, vb = vortices(A[1], I, 0), vortices(B[1], M, A[1].attrs["time"][0] / A[1].attrs["time"][1] - t0)
    sens, vsens, njit = {k: 0. for k in a}, np.zeros_like(va), 0
    while 1:
        # every decision of the scheme (merging, far fields) that rests on a tie is found by repeating with rounding errors
        if njit:
            jitter(d + "/base0.h5", d + "/jit.h5", rng, 2.3e-16 * reach * (1, 4, 16)[njit % 3])
            J = go(c["exe"], d, "j%d" % njit, "jit.h5", sc.meta.dt, steps)
            j = series(J[0], I, t, t0)
            for k, x in a.items():
                sens[k] = max(sens[k], float(np.abs(x - j[k]).max(initial=0)) if x.shape == j[k].shape else np.inf)
            vsens = np.maximum(vsens, np.abs(va - vortices(J[1], I, 0)))
        bad, worst = [], 0
        for k, x in a.items():
            s = max(unit[k[1][:5], k[2]], unit.get((k[1][:5], "xy"), 0))
            size = 1e-6 * float(np.abs(M.s).max() + np.abs(M.u).max() * t.max(initial=0)) if k[1] == "holder_position" else 1e-6 * np.abs(M.u).max() if k[1] == "speed_slae" else 0
            tol = 1e-5 * max(s, 1e-3, float(np.abs(M.u).max())) + size + 100 * sens[k]
            e = np.abs(x - b[k])
            q = float(e.max(initial=0) / tol)
            worst = max(worst, q)
            if not q <= 1:
                i = np.unravel_index(int(np.argmax(e)), e.shape)
                bad.append(("%s:%s" % (kind, k[1]), "%s: %s %s of %s at t=%g is %.9g instead of %.9g (tolerance %.2g)" % (desc(kind, M), k[1], k[2], k[0], t[i[0]], b[k][i], x[i], tol)))
        scale = (va[2] + 1e-9) * np.array([1e9, 1, 1, 10, 10, 10, 10, 100, 100, 100]) * 1e-5 + 1e-12
        q = float((np.abs(va - vb) / (scale + 100 * vsens)).max())
        worst = max(worst, q)
        if not q <= 1:
            i = int(np.argmax(np.abs(va - vb) / (scale + 100 * vsens)))
            bad.append(("%s:vortices" % kind, "%s: %s of the vortices is %.9g instead of %.9g" % (desc(kind, M), "number,circulation,sum |g|,sum x g,sum y g,sum x |g|,sum y |g|,sum x^2 g,sum y^2 g,sum x y g".split(",")[i], vb[i], va[i])))
        if not bad or njit == 12:
            break
        njit += 1
    for k, m in bad:
        R.bad(k, m)
    if njit:
        R.count("cases with a decision at a tie (repeated with rounding errors)")
    else:
        R.maxi("share of the tolerance used", worst)
    R.evals += sum(x.size for x in a.values()) + len(va)
    R.maxi("particles", va[0])
    R.count("pairs: " + kind)
    R.case("%s|%s" % (kind, sc.meta.sig), 0)


def all_slip(lua):
    return lua.count("body_list:insert(") == lua.count(".slip = true")


def desc(kind, M):
    return "%s A=%s s=%s u=%s" % (kind, M.A.tolist(), M.s.tolist(), M.u.tolist())


def main(chk):
    exe = build.program("vvflow", "rel")
    n = dict(shift=(100, 4000), rotate=(120, 4000), mirror=(100, 3000), frame=(100, 3000))
    agg = os.path.join(chk.tmp, "agg")
    os.makedirs(agg)
    only = os.environ.get("C33_ONLY")
    C = [dict(kind=k, seed=[chk.seed, 33, j, i], exe=exe, tol=1e-5, agg=agg, viscous=bool(i % 2)) for j, k in enumerate(n) for i in range(chk.n(*n[k]))]
    chk.run(case, [x for x in C if not only or x["kind"] in only.split(",")])
    for f in sorted(os.listdir(agg)):
        x = np.array([float(l) for l in open(os.path.join(agg, f))])
        kind, col, comp = f.split("-")
        if len(x) < 15 or col == "delta" or comp == "o":
            continue
        for q, lim in zip((.5, .9), APPROX[kind]):
            v = float(np.quantile(x, q))
            if v > lim:
                chk.bad("%s:%s:approximately" % (kind, col), "%s: %s %s: the %g-quantile of the relative difference over %d pairs of runs is %.3g (limit %g)" % (kind, col, comp, q, len(x), v, lim))


if __name__ == "__main__":
    core.main(main, "C33", "distinct (transformation, scenario) pairs of runs")
