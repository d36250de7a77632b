"""Random spaces, as scripts, with the values the script sets."""
import math
import os
import numpy as np
from . import poly


def num(rng, special=True):
    k = int(rng.integers(12))
    if k < 7:
        return float(rng.normal() * 10.0 ** rng.integers(-3, 3))
    if k == 7 and special:
        return float(rng.choice([math.inf, -math.inf, math.nan]))
    if k == 8:
        return float(rng.normal() * 10.0 ** rng.integers(-300, 300))
    if k == 9:
        return float(rng.choice([0.0, -0.0, 5e-324, 1.7976931348623157e308]))
    return float(int(rng.integers(-5, 6)))


def lua(v):
    if v != v:
        return "nan"
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    if v == 0 and math.copysign(1, v) < 0:
        return "tonumber('-0')"
    return "%.17g" % v


def vec(*a):
    return "{" + ", ".join(lua(x) for x in a) + "}"


def text(rng):
    return str(rng.choice(["a", "", "long label with spaces and ünïcode ☃", "body00", "100%", "x/y", "q" * 300, "tab\there", "'quoted' \"twice\""]))


def luastr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t") + '"'


def expr(rng):
    return str(rng.choice(["0", "1", "t", "sin(t)*2.5", "t>1 and 1 or 0", "-0.1 + exp(-t)", "  2 * t  ", "pi/3"])) if rng.uniform() < .6 else "%.9g*t" % rng.normal()


def space(rng, d, pre, R):
    """-> (lua lines, expected values {path: value})."""
    L, W = [], {}

    def put(path, val):
        W[path] = val
    cap = text(rng)
    L.append("S.caption = %s" % luastr(cap))
    put("/@caption", cap or None)
    for n, a in (("re", "re"), ("finish", "time_to_finish"), ("inf_g", "inf_circulation")):
        v = num(rng)
        L.append("S.%s = %s" % (n, lua(v)))
        put("/@" + a, v)
    for n in ("inf_vx", "inf_vy"):
        e = expr(rng)
        L.append("S.%s = %s" % (n, luastr(e)))
        put("/@inf_speed_" + n[-1], e)
    v = (num(rng), num(rng))
    L.append("S.gravity = " + vec(*v))
    put("/@gravity", v)
    for n in ("time", "dt", "dt_save", "dt_streak", "dt_profile"):
        t = (int(rng.integers(-2 ** 31, 2 ** 31)), int(rng.integers(1, 2 ** 31))) if rng.uniform() < .3 else (int(rng.integers(-50, 200)), int(rng.integers(1, 300)))
        L.append("S.%s = '%d/%d'" % (n, *t) if rng.uniform() < .5 else "S.%s = {%d, %d}" % (n, *t))
        put("/@" + n, t)
    for n, ds in (("vort_list", "vort"), ("sink_list", "source"), ("streak_source_list", "ink_source"), ("streak_domain_list", "ink")):
        m = int(rng.choice([0, 0, 1, 3, 40, 600, 1100])) if n != "sink_list" else int(rng.integers(4))
        el = np.array([[num(rng) for _ in range(3)] for _ in range(m)]).reshape(m, 3)
        if m == 1100 and rng.uniform() < .08:    # beyond 16 bits
            m = int(rng.choice([5000, 33000, 70000]))
            el = rng.normal(0, 1, (m, 3)) * 10.0 ** rng.integers(-3, 3)
        L.append("S.%s:clear()" % n)
        if m:
            el.tofile(os.path.join(d, pre + n))
            L.append("S.%s:load_bin('%s')" % (n, pre + n))
        put("/%s" % ds, el if m else None)
    nb = int(rng.choice([0, 1, 2, 3, 9, 12] if rng.uniform() < .96 else [101, 113]))
    L.append("S.body_list:clear()")
    L.append("local B = {}")
    for i in range(nb):
        fn = "%sb%d.txt" % (pre, i)
        kind, P = poly.shape(rng)
        P = P * 10.0 ** rng.integers(-3, 3) + rng.normal(0, 1, 2)
        if rng.uniform() < .05:
            P = rng.normal(0, 1, (int(rng.choice([1, 2, 700])), 2))
        sl = rng.integers(0, 2, len(P)) if rng.uniform() < .5 else np.full(len(P), rng.integers(2))
        open(os.path.join(d, fn), "w").write("".join("%.17g %.17g %d\n" % (*p, s) for p, s in zip(P, sl)))
        b, q = "B[%d]" % (i + 1), "/body%02d" % i
        L.append("%s = load_body('%s'); S.body_list:insert(%s)" % (b, fn, b))
        W[q + "#points"] = P
        W[q + "#slip"] = sl
        s = text(rng)
        L.append("%s.label = %s" % (b, luastr(s)))
        put(q + "@label", s or None)
        for n, a in (("holder_pos", "holder_position"), ("delta_pos", "delta_position"), ("speed", "speed_slae")):
            v = tuple(num(rng) for _ in range(3))
            L.append("%s.%s = %s" % (b, n, vec(*v)))
            put(q + "@" + a, v)
        v = tuple(rng.choice([math.inf, abs(num(rng, 0))]) for _ in range(3))
        L.append("%s.spring_const = %s" % (b, vec(*v)))
        put(q + "@spring_const", v)
        v = tuple(num(rng, 0) for _ in range(3))
        L.append("%s.spring_damping = %s" % (b, vec(*v)))
        put(q + "@spring_damping", v)
        lo = [num(rng) for _ in range(3)]
        hi = [x + abs(num(rng, 0)) + 1 if rng.uniform() < .6 else math.nan for x in lo]
        hi = [h if h != h or not (l >= h) else math.nan for l, h in zip(lo, hi)]
        L.append("%s.collision_min = %s; %s.collision_max = %s" % (b, vec(*lo), b, vec(*hi)))
        put(q + "@collision_min", tuple(lo))
        put(q + "@collision_max", tuple(hi))
        for n, a in (("density", "density"), ("bounce", "bounce")):
            v = num(rng)
            L.append("%s.%s = %s" % (b, n, lua(v)))
            put(q + "@" + a, v)
        v = int(rng.integers(-2 ** 31, 2 ** 31)) if rng.uniform() < .2 else int(rng.integers(0, 50))
        L.append("%s.special_segment = %d" % (b, v))
        put(q + "@special_segment_no", v)
        for n, a in (("holder_vx", "speed_x"), ("holder_vy", "speed_y"), ("holder_vo", "speed_o"), ("holder_mo", "force_o")):
            e = expr(rng)
            L.append("%s.%s = %s" % (b, n, luastr(e)))
            put(q + "@" + a, e)
    for i in range(nb):
        r = int(rng.integers(nb)) if rng.uniform() < .4 else None
        if r is not None:
            L.append("B[%d].root = B[%d]" % (i + 1, r + 1))
        put("/body%02d@root_body" % i, None if r is None else "body%02d" % r)
    W["bodies"] = nb
    return L, W
