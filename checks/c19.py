#!/usr/bin/env python3
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, poly

pi = math.pi


def seg(p, q, ds, slip=0):
    n = math.hypot(q[0] - p[0], q[1] - p[1]) / ds
    return lambda k: [(p[0] + (q[0] - p[0]) * i / k, p[1] + (q[1] - p[1]) * i / k, slip) for i in range(k)], n


def arc(c, r, a, b, ds, slip=0):
    n = r * abs(b - a) / ds
    return lambda k: [(c[0] + r * math.cos(a + (b - a) * i / k), c[1] + r * math.sin(a + (b - a) * i / k), slip) for i in range(k)], n


def contour(pieces):
    """Points of all pieces; None if the rounding of a piece is a tie."""
    out = []
    for fn, n in pieces:
        if abs(n - math.floor(n) - .5) < 1e-9:
            return None
        k = math.floor(n + .5)
        if k:
            out += fn(k)
    return np.array(out)


def r(rng, a, b, k=4):
    return round(float(rng.uniform(a, b)), k)


def ellipse(rng):
    rx = r(rng, .1, 3)
    ry = round(rx * float(rng.choice([rng.uniform(.05, 1), 1])), 4)
    per = pi * (rx + ry) * (1 + 3 * ((rx - ry) / (rx + ry)) ** 2 / (10 + math.sqrt(4 - 3 * ((rx - ry) / (rx + ry)) ** 2)))
    n = int(per / ry * rng.uniform(2.2, 8)) + 4
    return rx, ry, per, n


def gen(rng):
    """-> (Lua call, kind, reference polygon or (ellipse data), exact area, pieces' finest step)."""
    k = int(rng.integers(9))
    s = float(10.0 ** rng.choice([0, 0, -2, 2]))
    use_n = rng.uniform() < 0.5
    n = int(rng.integers(8, 160))

    def disc(per):
        """(N or dl text, dl)"""
        if use_n:
            return "N=%d" % n, per / n
        dl = float("%.4g" % (per / n))
        return "dl=%r" % dl, dl
    if k == 0:
        R = r(rng, .1, 3) * s
        t, dl = disc(2 * pi * R)
        m = n if use_n else math.floor(2 * pi * R / dl + .5)
        return "gen_cylinder{R=%r, %s}" % (R, t), "cylinder", np.array([(R * math.cos(-2 * pi * i / m), R * math.sin(-2 * pi * i / m), 0) for i in range(m)]), pi * R * R
    if k == 1:
        R = r(rng, .1, 3) * s
        t, dl = disc((2 + pi) * R)
        return "gen_semicyl{R=%r, %s}" % (R, t), "semicyl", contour([seg((0, 0), (R, 0), dl), arc((0, 0), R, 0, -pi, dl), seg((-R, 0), (0, 0), dl)]), pi * R * R / 2
    if k == 2:
        rx, ry, per, m = ellipse(rng)
        rx, ry, per = rx * s, ry * s, per * s
        t = "N=%d" % m if use_n else "dl=%r" % float("%.4g" % (per / m))
        return "gen_ellipse{Rx=%r, Ry=%r, %s}" % (rx, ry, t), "ellipse", ("ellipse", rx, ry, per / m if use_n else float("%.4g" % (per / m)), m if use_n else None), pi * rx * ry
    if k in (3, 4):
        Ll = r(rng, .5, 3) * s
        r1, r2 = r(rng, 0.02, .45) * Ll, r(rng, 0.02, .45) * Ll
        z = rng.uniform()
        r1, r2 = (0.0 if z < .1 else r1), (0.0 if .1 < z < .2 else r2)
        al = math.asin((r2 - r1) / Ll)
        phi = pi / 2 + al
        n = max(n, 24)
        t, dl = disc(2 * ((pi - phi) * r1 + phi * r2 + Ll * math.cos(al)))
        if k == 3:
            P = contour([arc((Ll, 0), r2, 0, -phi, dl), seg((Ll + r2 * math.cos(phi), -r2 * math.sin(phi)), (r1 * math.cos(phi), -r1 * math.sin(phi)), dl),
                         arc((0, 0), r1, -phi, -pi, dl), arc((0, 0), r1, pi, phi, dl),
                         seg((r1 * math.cos(phi), r1 * math.sin(phi)), (Ll + r2 * math.cos(phi), r2 * math.sin(phi)), dl), arc((Ll, 0), r2, phi, 0, dl)])
            area = phi * r2 ** 2 + (pi - phi) * r1 ** 2 + (r1 + r2) * Ll * math.cos(al)
            return "gen_plate{R1=%r, R2=%r, L=%r, %s}" % (r1, r2, Ll, t), "plate", P, area
        st, sp = r(rng, 0, .3, 3), 1 - r(rng, 0, .3, 3)
        gap = r(rng, .01, .15) * Ll if rng.uniform() < .5 else None
        q1, q2, c1, c2 = r1 + st * (r2 - r1), r1 + sp * (r2 - r1), st * Ll, sp * Ll
        g = max(dl, gap or 0)
        a1, a2 = 0.0, phi
        if sp < 1:
            a1, a2 = pi, phi + math.acos(q2 / (q2 + g))
            q2 += g
            if q1 + q2 > .9 * (c2 - c1):
                return None
        b, e = int(sp < 1), int(st > 0)
        P = contour([arc((c2, 0), q2, -a1, -a2, dl, b), seg((c2 + q2 * math.cos(a2), -q2 * math.sin(a2)), (c1 + q1 * math.cos(phi), -q1 * math.sin(phi)), dl),
                     arc((c1, 0), q1, -phi, -pi, dl, e), arc((c1, 0), q1, pi, phi, dl, e),
                     seg((c1 + q1 * math.cos(phi), q1 * math.sin(phi)), (c2 + q2 * math.cos(a2), q2 * math.sin(a2)), dl), arc((c2, 0), q2, a2, a1, dl, b)])
        return "gen_plate{R1=%r, R2=%r, L=%r, start=%r, stop=%r, %s%s}" % (r1, r2, Ll, st, sp, t, ", gap=%r" % gap if gap else ""), "plate-part", P, None
    if k == 5:
        Ll, H, d = r(rng, .3, 3) * s, r(rng, .3, 3) * s, r(rng, 15, 165, 2)
        a = math.radians(d)
        x = H / math.tan(a)
        t, dl = disc(2 * (Ll + H / math.sin(a)))
        c = [(Ll, 0), (0, 0), (x, H), (Ll + x, H)]
        return "gen_parallelogram{L=%r, H=%r, d=%r, %s}" % (Ll, H, d, t), "parallelogram", contour([seg(c[i], c[(i + 1) % 4], dl) for i in range(4)]), Ll * H
    if k == 6:
        R = r(rng, .2, 2) * s
        h = round(R * float(rng.uniform(.05, .9)), 5)
        n = max(n, int(pi * (4 * R + h) / h * 1.5))
        t, dl = disc(pi * (4 * R + h))
        P = contour([arc((R, 0), R - h / 2, pi, 2 * pi, dl), arc((2 * R, 0), h / 2, pi, 0, dl), arc((R, 0), R + h / 2, 0, -pi, dl),
                     arc((-R, 0), R - h / 2, 0, pi, dl), arc((-2 * R, 0), h / 2, 0, -pi, dl), arc((-R, 0), R + h / 2, pi, 0, dl)])
        # the two shells share the line of centres between them
        return "gen_savonius{R=%r, h=%r, %s}" % (R, h, t), "savonius", P, None
    if k == 7:
        R0 = r(rng, .2, 1) * s
        d = r(rng, 0, 40, 1)
        X0 = r(rng, -2, 0) * s
        X1, X2 = X0 + r(rng, .3, 1) * s, 0
        X2 = X1 + r(rng, .3, 1) * s
        X3 = X2 + r(rng, .3, 1) * s
        Y3 = R0 + (X3 - X2) * math.tan(math.radians(d))
        Ll, H = (X3 - X0 + R0) * r(rng, 1.3, 2, 3), 2 * Y3 * r(rng, 1.5, 3, 3)
        dln, dls = r(rng, .04, .12) * s, r(rng, .08, .25) * s
        X4, Y4 = X3 - Ll, H / 2
        d2 = min(dls, (Y4 - Y3) / 5)
        P = contour([seg((X4, -Y4), (X4, Y4), dls, 1), seg((X4, Y4), (X3, Y4), dls, 1), seg((X3, Y4), (X3, Y3), d2, 1), seg((X3, Y3), (X2, R0), dln), seg((X2, R0), (X1, R0), dln),
                     seg((X1, R0), (X0, R0), dls, 1), arc((X0, 0), R0, pi / 2, 3 * pi / 2, dls, 1), seg((X0, -R0), (X1, -R0), dls, 1), seg((X1, -R0), (X2, -R0), dln),
                     seg((X2, -R0), (X3, -Y3), dln), seg((X3, -Y3), (X3, -Y4), d2, 1), seg((X3, -Y4), (X4, -Y4), dls, 1)])
        area = Ll * H - pi * R0 ** 2 / 2 - 2 * R0 * (X2 - X0) - (R0 + Y3) * (X3 - X2)
        return "gen_chamber_gpj{R0=%r, d=%r, X0=%r, X1=%r, X2=%r, X3=%r, L=%r, H=%r, dln=%r, dls=%r}" % (R0, d, X0, X1, X2, X3, Ll, H, dln, dls), "gpj", P, area
    Ll, H, h = r(rng, 2, 4) * s, r(rng, 1, 3) * s, r(rng, .2, 1) * s
    D, d = r(rng, .2, 1.2) * s, r(rng, .1, .5) * s
    dln, dls = min(r(rng, .03, .1) * s, d / 3), r(rng, .08, .19) * s
    D2, L2 = (D + d) / 2, Ll / 2
    P = contour([seg((0, H), (-L2, H), dls, 1), seg((-L2, H), (-L2, 0), dls, 1), seg((-L2, 0), (-D2, 0), dln), arc((-D2, -d / 2), d / 2, pi / 2, 0, dln),
                 arc((-D2, -d / 2), d / 2, 0, -pi / 2, dln), seg((-D2, -d), (-L2 - h, -d), dls, 1), seg((-L2 - h, -d), (-L2 - h, H + h), dls, 1),
                 seg((-L2 - h, H + h), (L2 + h, H + h), dls, 1), seg((L2 + h, H + h), (L2 + h, -d), dls, 1), seg((L2 + h, -d), (D2, -d), dls, 1),
                 arc((D2, -d / 2), d / 2, 3 * pi / 2, pi, dln), arc((D2, -d / 2), d / 2, pi, pi / 2, dln), seg((D2, 0), (L2, 0), dln), seg((L2, 0), (L2, H), dls, 1), seg((L2, H), (0, H), dls, 1)])
    # outer box minus the chamber minus the opening between the rounded edges
    area = (Ll + 2 * h) * (H + h + d) - Ll * H - (2 * D2 * d - pi * d * d / 4)
    return "gen_chamber_box{L=%r, H=%r, h=%r, D=%r, d=%r, dln=%r, dls=%r}" % (Ll, H, h, D, d, dln, dls), "box", P, area


GOOD = {"gen_cylinder": "R=1, N=20", "gen_semicyl": "R=1, N=20", "gen_ellipse": "Rx=1, Ry=0.5, N=40", "gen_plate": "R1=1, R2=0.5, L=3, N=60",
        "gen_parallelogram": "L=1, H=1, d=60, N=40", "gen_savonius": "R=1, h=0.2, N=90",
        "gen_chamber_gpj": "R0=1, d=10, X0=0, X1=1, X2=2, X3=3, L=9, H=9, dln=0.1, dls=0.2", "gen_chamber_box": "L=4, H=3, h=1, D=1, d=0.2, dln=0.05, dls=0.1"}


def bad(rng):
    """A call that must be refused."""
    g = sorted(GOOD)[rng.integers(len(GOOD))]
    a = dict(x.split("=") for x in GOOD[g].split(", "))
    k = sorted(a)[rng.integers(len(a))]
    m = int(rng.integers(6))
    if m == 0 and k != "N":
        a[k] = str(rng.choice(["nan", "inf", "-inf", "{}", "'x'", "print", "true"]))
    elif m == 1 and not (k.startswith("X") or k == "d" and g == "gen_chamber_gpj"):
        a[k] = "-" + a[k]
    elif m == 2:
        if g.startswith("gen_chamber"):
            del a[k]
        else:
            a["dl"] = "0.1"
    elif m == 3:
        a[str(rng.choice(["foo", "n", "r", "DL", "x"]))] = "1"
    elif m == 4:
        del a[k]
    else:
        sp = {"gen_ellipse": {"Ry": "1.01"}, "gen_plate": {"L": "0.4"}, "gen_parallelogram": {"d": str(rng.choice(["0", "180", "200", "-10"]))}, "gen_savonius": {"h": "1.2"},
              "gen_chamber_gpj": dict([[("X1", "-0.5"), ("X2", "0.5"), ("X3", "1.5"), ("L", "3.9"), ("H", "2.1"), ("d", "90"), ("d", "-1")][rng.integers(7)]]),
              "gen_chamber_box": dict([[("D", "4"), ("d", "3")][rng.integers(2)]]), "gen_cylinder": {"R": "0"}, "gen_semicyl": {"N": "0"}}[g]
        if g == "gen_plate":
            sp = dict([[("L", "0.4"), ("start", "1"), ("start", "-0.1"), ("stop", "0"), ("stop", "1.1"), ("gap", "-1"), ("R1", "0, R2=0")][rng.integers(7)]])
            if "R1" in sp:
                a.pop("R2")
        a.update(sp)
    if ", ".join("%s=%s" % x for x in a.items()) == GOOD[g] or a == dict(x.split("=") for x in GOOD[g].split(", ")):
        return None
    return "%s{%s}" % (g, ", ".join("%s=%s" % x for x in a.items()))


def simple(P):
    a, b = P, np.roll(P, -1, axis=0)

    tol = 1e-11 * float(np.ptp(P, axis=0).max() + np.abs(P).max()) * float(np.hypot(*(b - a).T).max())

    def side(p, q, c):
        v = (q[:, None, 0] - p[:, None, 0]) * (c[None, :, 1] - p[:, None, 1]) - (q[:, None, 1] - p[:, None, 1]) * (c[None, :, 0] - p[:, None, 0])
        return np.where(np.abs(v) > tol, np.sign(v), 0)
    s1, s2 = side(a, b, a), side(a, b, b)
    X = (s1 * s2 < 0) & ((s1 * s2).T < 0)
    return not X.any()


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    L, todo = [], []
    while len(todo) < c["n"]:
        g = gen(rng)
        if g is None or g[2] is None:
            continue
        todo.append(g)
        L.append("S.body_list:insert(%s)" % g[0])
    L.append("S:save('b.h5')")
    bads = [x for x in (bad(rng) for _ in range(c["n"])) if x]
    for x in bads:
        L.append("do local ok, v = pcall(function() return %s end); print(ok) end" % x)
    open(os.path.join(d, "t.lua"), "w").write("\n".join(L) + "\n")
    q = core.must_ok(core.run2([c["vv"], "t.lua"], d), "vvflow")
    out = q.out.split()
    for x, o in zip(bads, out):
        if o != "false":
            R.bad("accepted:" + x.split("{")[0], "%s is accepted" % x)
        R.case("bad|" + x.split("{")[0])
    if len(out) != len(bads):
        R.bad("answers", "%d answers for %d calls" % (len(out), len(bads)))
    f = h5.read(os.path.join(d, "b.h5"))
    names = sorted((k for k in f.children if k.startswith("body")), key=lambda k: int(k[4:]))
    if len(names) != len(todo):
        raise core.Viol("bodies", "%d bodies saved of %d" % (len(names), len(todo)))
    for nm, (txt, kind, ref, area) in zip(names, todo):
        b = f.children[nm]
        P = np.asarray(b.data)[:, :2]
        slip = np.broadcast_to(np.asarray(b.attrs["slip"]) if "slip" in b.attrs else b.attrs["general_slip"], len(P))
        size = np.ptp(P, axis=0).max() if len(P) else 0
        A = -poly.area(P) if len(P) else 0
        if not A > 0:
            R.bad("orientation:" + kind, "%s gives a contour of area %g" % (txt, A))
            continue
        if not simple(P):
            R.bad("crossing:" + kind, "%s gives a contour that crosses itself" % txt)
        sl = np.hypot(*(np.roll(P, -1, axis=0) - P).T)
        if isinstance(ref, tuple):
            _, rx, ry, dl, m = ref
            e = np.abs((P[:, 0] / rx) ** 2 + (P[:, 1] / ry) ** 2 - 1).max()
            if e > 1e-9:
                R.bad("curve:" + kind, "%s: a point is off the ellipse by %.3g" % (txt, e))
            if m and abs(len(P) - m) > 2 + .02 * m:
                R.bad("count:" + kind, "%s has %d segments" % (txt, len(P)))
            tol = .03 + .6 * dl / ry        # the scheme of second order is exact for fine ones
            if sl.max() > (1 + tol) * dl or sl.min() < (1 - tol) * dl:
                R.bad("spacing:" + kind, "%s has segments from %.3g to %.3g, requested %.3g" % (txt, sl.min(), sl.max(), dl))
            R.maxi("ellipse spacing deviation", max(sl.max() / dl - 1, 1 - sl.min() / dl))
            j = np.abs(P[:, None] + P[None]).max(-1).min(1).max()
            if j > 1e-9 * size:
                R.bad("symmetry:" + kind, "%s is not symmetric about its centre (%.3g)" % (txt, j))
        else:
            if len(ref) != len(P):
                R.bad("count:" + kind, "%s has %d segments instead of %d" % (txt, len(P), len(ref)))
                continue
            k = int(np.hypot(*(ref[:, :2] - P[0]).T).argmin())
            ref = np.roll(ref, -k, axis=0)
            e = np.abs(ref[:, :2] - P).max()
            if e > 1e-9 * size:
                R.bad("curve:" + kind, "%s: a point is %.3g away from the requested one" % (txt, e))
            elif (ref[:, 2] != slip).any():
                R.bad("slip:" + kind, "%s: the slip flag of segment %d is wrong" % (txt, int((ref[:, 2] != slip).argmax())))
        if area:
            n = len(P)
            t = 40 * size ** 2 * (sl.max() / size) ** 2 + 1e-9 * area
            if abs(A - area) > t:
                R.bad("area:" + kind, "%s has area %g, expected %g" % (txt, A, area))
        R.case("%s|%d" % (kind, len(P) // 8), len(P))
    R.sample = todo[-1][0]


def main(chk):
    vv = build.program("vvflow", "rel")
    chk.run(case, [dict(seed=[chk.seed, 19, i], vv=vv, n=40) for i in range(chk.n(96, 1500))])


core.main(main, "C19", "distinct (generator, size class) contours compared with the analytic shape; refused calls by generator")
