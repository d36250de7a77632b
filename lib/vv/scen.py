"""Random simulation scenarios, written as vvflow Lua scripts.

Everything that varies is drawn from the rng given; sizes are small (bodies of
16..60 segments, a few dozen steps) so that hundreds of runs fit into a check.
"""
import math
from types import SimpleNamespace as NS


def L(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, int):
        return str(x)
    if x == math.inf:
        return "inf"
    if x == -math.inf:
        return "-inf"
    if x != x:
        return "nan"
    return repr(float(x))


def V(*a):
    return "{" + ", ".join(L(float(v)) for v in a) + "}"


def pick(rng, *a):
    return a[int(rng.integers(len(a)))]


def polygon(rng, n, R, star=0.35):
    """Counter-clockwise star-shaped polygon vertices, roughly equal steps."""
    k = int(rng.integers(2, 5))
    ph = rng.uniform(0, 2 * math.pi)
    amp = rng.uniform(0, star)
    return [(R * (1 + amp * math.cos(k * t + ph)) * math.cos(t), R * (1 + amp * math.cos(k * t + ph)) * math.sin(t))
            for t in (2 * math.pi * i / n for i in range(n))]


def body(rng, i, kind=None, n=None, size=0.5, files=None, inner=False):
    """-> (lua constructor expression, approximate segment length, kind)."""
    n = n or int(rng.integers(18, 44))
    kind = kind or pick(rng, "cyl", "cyl", "cyldl", "semicyl", "ellipse", "plate", "para", "poly", "savonius")
    R = size * rng.uniform(0.6, 1.0)
    if kind == "cyl":
        return "gen_cylinder{R=%s, N=%d}" % (L(R), n), 2 * math.pi * R / n, kind
    if kind == "cyldl":
        dl = 2 * math.pi * R / n
        return "gen_cylinder{R=%s, dl=%s}" % (L(R), L(dl)), dl, kind
    if kind == "semicyl":
        return "gen_semicyl{R=%s, N=%d}" % (L(R), n), (2 + math.pi) * R / n, kind
    if kind == "ellipse":
        ry = R * rng.uniform(0.55, 1.0)
        return "gen_ellipse{Rx=%s, Ry=%s, N=%d}" % (L(R), L(ry), n), math.pi * (R + ry) / n, kind
    if kind == "plate":
        r1 = R * rng.uniform(0.25, 0.4)
        r2 = R * rng.uniform(0.25, 0.4)
        ll = R * rng.uniform(0.8, 1.2)
        return "gen_plate{R1=%s, R2=%s, L=%s, N=%d}" % (L(r1), L(r2), L(ll), n), (2 * ll + 3.14 * (r1 + r2)) / n, kind
    if kind == "para":
        ll, h = R * rng.uniform(0.9, 1.3), R * rng.uniform(0.5, 1.0)
        d = rng.uniform(60, 120)
        return ("gen_parallelogram{L=%s, H=%s, d=%s, N=%d}" % (L(ll), L(h), L(d), n),
                2 * (ll + h / math.sin(math.radians(d))) / n, kind)
    if kind == "savonius":
        n = max(n, 40)
        r = R * 0.5
        h = r * rng.uniform(0.3, 0.5)
        return "gen_savonius{R=%s, h=%s, N=%d}" % (L(r), L(h), n), math.pi * (4 * r + h) / n, kind
    if kind == "poly":
        pts = polygon(rng, n, R)[::-1]   # clockwise: solid inside
        sl = rng.uniform(0, 1) < 0.4
        cut = int(rng.integers(0, n))
        txt = "".join("%r %r %d\n" % (x, y, 1 if sl and j < cut else 0) for j, (x, y) in enumerate(pts))
        fn = "body%d.txt" % i
        files[fn] = txt
        return 'load_body("%s")' % fn, 2 * math.pi * R / n, kind
    if kind == "cavity":
        pts = polygon(rng, max(n, 36), 2.5 * R)   # counter-clockwise: fluid inside
        fn = "body%d.txt" % i
        files[fn] = "".join("%r %r\n" % p for p in pts)
        return 'load_body("%s")' % fn, 2 * math.pi * 2.5 * R / max(n, 36), kind
    if kind == "box":
        dl = size * 4 / n * 1.2
        return ("gen_chamber_box{L=%s, H=%s, D=%s, h=%s, d=%s, dln=%s, dls=%s}"
                % (L(2 * size), L(1.6 * size), L(0.8 * size), L(0.4 * size), L(0.3 * size), L(dl / 2), L(dl)), dl, kind)
    raise ValueError(kind)


def time_expr(rng, num, den):
    """The same rational in one of the documented forms of assignment."""
    f = int(rng.integers(3))
    if f == 0:
        return '"%d/%d"' % (num, den)
    if f == 1:
        return "{%d, %d}" % (num, den)
    dec = den
    while dec % 2 == 0:
        dec //= 2
    while dec % 5 == 0:
        dec //= 5
    return L(num / den) if dec == 1 and den <= 1000 else '"%d/%d"' % (num, den)


def evalexpr(rng, amp):
    k = int(rng.integers(4))
    if k == 0:
        return "%.4f" % amp
    if k == 1:
        return "%.4f*sin(2*pi*t/%.3f)" % (amp, rng.uniform(0.5, 4))
    if k == 2:
        return "%.4f*(t>%.3f and 1 or 0.5)" % (amp, rng.uniform(0, 0.5))
    return "%.4f + %.4f*t" % (amp, rng.uniform(-0.3, 0.3))


def scenario(rng, nb=None, viscous=None, steps=None, motion=None, kinds=None, vort=None, flow=None, slip=None,
             sinks=None, streak=None, save_every=None, start=None, collide=False, gravity=None, infg=None, roots=None, nseg=None,
             caption="t", special=None, fine=False):
    """-> NS(lua, files, meta).  None means: draw it."""
    files = {}
    s = []
    nb = int(rng.integers(1, 4)) if nb is None else nb
    viscous = (rng.uniform() < 0.75) if viscous is None else viscous
    re = float(round(rng.uniform(20, 600), 2)) if viscous else math.inf
    steps = int(rng.integers(8, 22)) if steps is None else steps
    den = pick(rng, 500, 1000, 4000) if fine else pick(rng, 20, 25, 30, 40, 50, 64, 77)
    num = pick(rng, 1, 1, 1, 2) if 40 <= den < 500 else 1
    dt = num / den
    s.append("S.re = %s" % L(re))
    s.append("S.dt = %s" % time_expr(rng, num, den))
    se = int(rng.integers(1, 6)) if save_every is None else save_every
    s.append("S.dt_save = %s" % time_expr(rng, num * se, den))
    t0 = 0
    if start is None:
        start = pick(rng, 0, 0, 0, int(rng.integers(1, 40)), -int(rng.integers(1, 6)))
    t0 = start * num / den
    if start:
        s.append('S.time = "%d/%d"' % (start * num, den))
    s.append("S.finish = %s" % L(t0 + (steps - 1) * dt))
    meta = NS(nb=nb, re=re, dt=(num, den), steps=steps, save_every=se, kinds=[], motion=[], t0=t0, start=start, caption=caption)
    flow = flow or pick(rng, "const", "const", "const", "osc", "zero", "xy")
    if nb == 0 and flow == "zero":
        flow = "const"
    if flow == "const":
        s.append('S.inf_vx = "1"')
    elif flow == "osc":
        s.append('S.inf_vx = "1+0.3*sin(2*pi*t/3)"')
        s.append('S.inf_vy = "0.2*cos(t)"')
    elif flow == "late":    # (not in the default draw)
        s.append('S.inf_vx = "%.3f*(t>%.6f and 1 or 0)"' % (pick(rng, -1, 1) * rng.uniform(.3, 1.5), t0 + (int(rng.integers(3, max(steps - 3, 4))) - 0.5) * dt))
    elif flow == "xy":
        s.append('S.inf_vx = "%.3f"' % rng.uniform(-1, 1))
        s.append('S.inf_vy = "%.3f"' % rng.uniform(-1, 1))
    if infg if infg is not None else rng.uniform() < 0.25:
        s.append("S.inf_g = %s" % L(round(rng.uniform(-1.5, 1.5), 3)))
    if gravity if gravity is not None else rng.uniform() < 0.3:
        s.append("S.gravity = %s" % V(round(rng.uniform(-0.3, 0.3), 3), round(rng.uniform(-1, 0), 3)))
    dls, centers = [], []
    motions = []
    for i in range(nb):
        ctor, dl, kind = body(rng, i, kind=pick(rng, *kinds) if kinds else None, n=nseg, files=files)
        meta.kinds.append(kind)
        dls.append(dl)
        b = "b%d" % (i + 1)
        s.append("local %s = %s" % (b, ctor))
        cx = i * 1.9 + rng.uniform(-0.1, 0.1)
        cy = rng.uniform(-0.7, 0.7)
        centers.append((cx, cy))
        s.append("%s:move_r(%s)" % (b, V(cx, cy)))
        if rng.uniform() < 0.4:
            s.append("%s:move_d(%s)" % (b, L(round(rng.uniform(-180, 180), 2))))
        if rng.uniform() < 0.7:
            s.append('%s.label = "%s"' % (b, pick(rng, "cyl", "b", "long_label_%d" % i, "x%d" % i)))
        if slip if slip is not None else rng.uniform() < 0.12:
            s.append("%s.slip = true" % b)
        s.append("%s.density = %s" % (b, L(round(rng.uniform(0.5, 4), 3))))
        if special if special is not None else rng.uniform() < 0.2:
            s.append("%s.special_segment = %d" % (b, int(rng.integers(0, 16))))
        m = pick(rng, *motion) if motion else pick(rng, "fixed", "fixed", "forced", "spring", "rot", "free", "spring1")
        motions.append(m)
        if m in ("forced", "rot"):
            if m == "forced":
                s.append('%s.holder_vx = "%s"' % (b, evalexpr(rng, rng.uniform(-0.3, 0.3))))
                s.append('%s.holder_vy = "%s"' % (b, evalexpr(rng, rng.uniform(-0.3, 0.3))))
            s.append('%s.holder_vo = "%s"' % (b, evalexpr(rng, rng.uniform(-1, 1))))
        if m == "late":
            # still at first; set in motion, and maybe stopped again, some steps later (not in the default draw)
            for a in pick(rng, "o", "o", "x", "y", "xo", "xyo"):
                on = t0 + (int(rng.integers(2, max(steps - 2, 3))) - 0.5) * dt
                off = on + int(rng.integers(1, 5)) * dt if rng.uniform() < 0.5 else t0 + 1e3
                s.append('%s.holder_v%s = "%.4f*((t>%.6f and t<%.6f) and 1 or 0)"' % (b, a, pick(rng, -1, 1) * rng.uniform(0.1, 0.8) * (20 if fine else 1), on, off))
        if m == "latespring":
            # sprung, but at rest until something turns up (not in the default draw)
            dofs = pick(rng, [2], [2], [0], [1], [0, 1], [0, 1, 2])
            s.append("%s.spring_const = %s" % (b, V(*[float(round(pick(rng, 0, 1) * rng.uniform(0, 8), 3)) if d in dofs else math.inf for d in range(3)])))
            if 2 in dofs:
                s.append('%s.holder_mo = "%.3f*(t>%.6f and 1 or 0)"' % (b, pick(rng, -1, 1) * rng.uniform(.5, 5), t0 + (int(rng.integers(3, max(steps - 3, 4))) - 0.5) * dt))
        if m in ("spring", "spring1", "free"):
            dofs = [0, 1, 2] if m == "spring" else [int(rng.integers(3))]
            if m == "free":
                dofs = [0, 1, 2]
            k = [math.inf] * 3
            c = [0.0] * 3
            for d in dofs:
                k[d] = 0.0 if m == "free" else float(round(rng.uniform(0, 8), 3))
                c[d] = float(round(rng.uniform(0, 1), 3)) if rng.uniform() < 0.5 else 0.0
            s.append("%s.spring_const = %s" % (b, V(*k)))
            s.append("%s.spring_damping = %s" % (b, V(*c)))
            if rng.uniform() < 0.4:
                s.append('%s.holder_mo = "%s"' % (b, evalexpr(rng, rng.uniform(-0.3, 0.3))))
            if rng.uniform() < 0.4:
                # axis away from the centroid: holder and body are shifted apart
                s.append("%s.delta_pos.r = %s" % (b, V(round(rng.uniform(-.2, .2), 3), round(rng.uniform(-.2, .2), 3))))
            if rng.uniform() < 0.3:
                s.append('%s.holder_v%s = "%s"' % (b, pick(rng, "x", "y", "o"), evalexpr(rng, rng.uniform(-0.3, 0.3))))
            if collide:
                lo, hi = -rng.uniform(0.005, 0.05), rng.uniform(0.005, 0.05)
                for d in dofs:
                    ax = ("r.x", "r.y", "o")[d]
                    # limits are positions of holder+delta
                    s.append("%s.collision_min.%s = %s.holder_pos.%s + %s.delta_pos.%s - %s" % (b, ax, b, ax, b, ax, L(-lo)))
                    s.append("%s.collision_max.%s = %s.holder_pos.%s + %s.delta_pos.%s + %s" % (b, ax, b, ax, b, ax, L(hi)))
                s.append("%s.bounce = %s" % (b, L(round(rng.uniform(0, 1), 3))))
        meta.motion.append(m)
        s.append("S.body_list:insert(%s)" % b)
    if nb >= 2 and (roots if roots is not None else rng.uniform() < 0.3):
        ch, par = (2, 1) if rng.uniform() < 0.5 else (1, 2)
        if nb >= 3 and rng.uniform() < 0.5:
            s.append("b3.root = b%d" % ch)
        s.append("b%d.root = b%d" % (ch, par))
        meta.motion.append("root")
    nv = vort if vort is not None else pick(rng, 0, 0, 0, int(rng.integers(5, 40)))
    if nb == 0 and nv == 0 and vort is None:
        nv = int(rng.integers(10, 60))
    for _ in range(nv):
        x, y = rng.uniform(-2.5, 6), rng.uniform(-2.5, 2.5)
        if any((x - cx) ** 2 + (y - cy) ** 2 < 1.3 for cx, cy in centers):
            y += 3.5 * (1 if y > 0 else -1)
        s.append("S.vort_list:append(%s)" % V(round(x, 6), round(y, 6), round(rng.normal(0, 0.05), 6)))
    meta.nv = nv
    if sinks if sinks is not None else rng.uniform() < 0.2:
        for _ in range(int(rng.integers(1, 3))):
            s.append("S.sink_list:append(%s)" % V(round(rng.uniform(-2, 5), 4), round(pick(rng, -1, 1) * rng.uniform(2.2, 3.5), 4),
                                                    round(rng.uniform(-0.8, 0.8), 4)))
        if rng.uniform() < 0.4:    # far away and strong
            a, r = rng.uniform(0, 2 * math.pi), 10 ** rng.uniform(1, 3)
            s.append("S.sink_list:append(%s)" % V(round(r * math.cos(a), 3), round(r * math.sin(a), 3), round(r * rng.uniform(-.3, .3), 4)))
    if streak if streak is not None else rng.uniform() < 0.35:
        k = int(rng.integers(1, 4))
        for _ in range(k):
            s.append("S.streak_source_list:append(%s)" % V(round(rng.uniform(-1.5, 4), 4), round(pick(rng, -1, 1) * rng.uniform(1.4, 2.5), 4),
                                                             pick(rng, 0.0, round(rng.uniform(0, 3), 2), round(rng.uniform(0, 3), 2), round(rng.uniform(-3, 3), 2))))
        s.append("S.dt_streak = %s" % time_expr(rng, num * int(rng.integers(1, 4)), den))
    s.append('S.caption = "%s"' % caption)
    meta.dl = min(dls) if dls else 0
    meta.roots = "root" in meta.motion
    meta.sig = "|".join([",".join(meta.kinds), ",".join(meta.motion), "v" if viscous else "inf", flow, str(nv > 0)])
    return NS(lua="\n".join(s) + "\n", files=files, meta=meta)


def write(sc, d, tail="simulate()\n", name="s.lua"):
    import os
    for fn, txt in sc.files.items():
        with open(os.path.join(d, fn), "w") as f:
            f.write(txt)
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(sc.lua + tail)
    return p
