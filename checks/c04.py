#!/usr/bin/env python3
import glob, math, os, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, scen, sim

I32, U32 = 2 ** 31 - 1, 2 ** 32 - 1
TIE = F(1, 10 ** 9)


def lcm(a, b):
    return a * b // math.gcd(a, b)


class Sum:
    """value/timescale as the program keeps it: over the common denominator."""

    def __init__(self, v, s):
        self.v, self.s = v, s

    @property
    def q(self):
        return F(self.v, self.s)

    def plus(self, o):
        s = lcm(self.s, o.s)
        v = self.v * (s // self.s) + o.v * (s // o.s)
        return Sum(v, s) if s <= U32 and abs(v) <= I32 else None


def form(rng, v, s):
    k = int(rng.integers(4))
    q = F(v, s)
    if k == 0:
        return '"%d/%d"' % (v, s), Sum(v, s)
    if k == 1:
        return "{%d, %d}" % (v, s), Sum(v, s)
    d = q.denominator
    for p in (2, 5):
        while d % p == 0:
            d //= p
    if d == 1 and q.denominator <= 10 ** 6 and abs(q.numerator) < 10 ** 6:
        # a decimal number: value/power of ten, without trailing zeros
        t = 1
        while (q * t).denominator != 1:
            t *= 10
        if abs(q * t) < I32 // 10 and t <= 10 ** 8:
            return repr(float(q)), Sum(int(q * t), t)
    return '"%d/%d"' % (v, s), Sum(v, s)


def draw(rng):
    k = int(rng.integers(9))
    if k == 0:
        return int(rng.integers(1, 4)), int(rng.choice([3, 7, 9, 11, 13, 49, 77, 120, 333]))
    if k == 1:
        return 1, int(rng.integers(1, 200))
    if k == 2:
        v, s = int(rng.integers(1, 20)), int(rng.integers(1, 40))
        g = int(rng.integers(1, 6))
        return v * g, s * g            # not reduced
    if k == 3:
        return int(rng.integers(1, 50)), 10 ** int(rng.integers(0, 5))
    if k == 4:
        return 1, 1 << int(rng.integers(0, 12))
    if k == 5:
        return int(rng.integers(1, 10 ** 6)), int(rng.integers(1, 10 ** 6))
    if k == 6:
        return int(rng.integers(1, 100)), int(rng.integers(10 ** 8, 2 * 10 ** 9))
    return int(rng.integers(1, 4)), int(rng.integers(5, 60))


def schedule(c, d, R):
    """A cheap space (or a body) on a random rational schedule."""
    rng = np.random.default_rng(c["seed"])
    body = c["body"]
    dtl, dt = form(rng, *draw(rng))
    n = int(rng.integers(3, 25 if body else 80))
    k = int(rng.integers(8))
    if k < 4:                          # a whole number of steps
        m = int(rng.integers(1, 7))
        sv, ss = dt.v * m, dt.s
        if rng.uniform() < .4:
            q = F(sv, ss)
            g = int(rng.integers(1, 9))
            sv, ss = q.numerator * g, q.denominator * g
    elif k == 4:                       # not commensurable step counts
        q = dt.q * F(int(rng.integers(1, 9)), int(rng.integers(2, 6)))
        sv, ss = q.numerator, q.denominator
    elif k == 5:
        sv, ss = 0, 1
    elif k == 6:
        sv, ss = draw(rng)
    else:                              # smaller than the step
        q = dt.q / int(rng.integers(1, 5))
        sv, ss = q.numerator, q.denominator
    if abs(sv) > I32 or ss > U32:
        sv, ss = dt.v, dt.s
    svl, dts = form(rng, sv, ss)
    k = int(rng.integers(8))
    if k < 3:
        tv, ts = 0, 1
    elif k == 3:
        m = int(10 ** rng.uniform(0, rng.choice([3.2, 6.5])))
        tv, ts = dt.v * m, dt.s
    elif k == 4:
        tv, ts = -dt.v * int(rng.integers(1, n + 3)), dt.s
    elif k == 5:
        tv, ts = draw(rng)
        tv *= int(rng.choice([-1, 1]))
    elif k == 7 and sv:                # the last snapshots not yet due, and the first due
        q = F(sv, ss) * int(rng.choice([-3, -2, -1, -1, -1, 1, 2]))
        tv, ts = q.numerator, q.denominator
    else:
        q = -dt.q * F(int(rng.integers(1, 50)), int(rng.integers(1, 8)))
        tv, ts = q.numerator, q.denominator
    if abs(tv) > I32 or ts > U32:
        tv, ts = 0, 1
    tl, t = form(rng, tv, ts)
    fin = float(t.q + dt.q * (n - 1) + (dt.q * F(int(rng.integers(-49, 49)), 100) if rng.uniform() < .5 else 0))
    cap = "".join(rng.choice(list("abcXYZ019_-. ;$"), int(rng.integers(1, 30)))).strip() or "c"
    if rng.uniform() < .05:
        cap = ("c" * 190)
    L = ["S.re = %s" % ("inf" if rng.uniform() < .6 else "100"), "S.caption = '%s'" % cap]
    P = ["S.dt = " + dtl, "S.dt_save = " + svl, "S.finish = %r" % fin, "S.time = " + tl]
    rng.shuffle(P)
    L += P
    if body:
        L += ["S.inf_vx = '1'", "S.body_list:insert(gen_cylinder{R=0.5, N=12})"]
        if F(dt.q) > 2:
            raise _Skip()
    L += ["S.vort_list:append({3,4,0.01})", "simulate()"]
    open(d + "/s.lua", "w").write("\n".join(L) + "\n")
    st, r = sim.run(c["mon"], None, d, "begin,end", ok=False)
    dead = core.died(r)
    if dead:
        raise core.Viol("schedule:died", "%s; %s" % (dead, r.err[-400:]))
    # the prediction
    lim = F(fin) + dt.q / 2
    want, saved, tie = [], [], False
    cur = t
    over = False
    while True:
        if abs(cur.q - lim) <= TIE * max(abs(cur.q), abs(lim), dt.q):
            tie = True
        if not cur.q < lim:
            break
        want.append(cur)
        if dts.v and (cur.q / dts.q).denominator == 1 and cur.q >= 0:
            no = cur.q / dt.q + F(1, 2)
            if abs(no - round(no)) < F(1, 10 ** 6):
                tie = True             # the name is between two numbers
            saved.append((cur, no.numerator // no.denominator))
        cur = cur.plus(dt)
        if cur is None:
            over = True
            break
        if len(want) > 400:
            raise _Skip()
    if tie:
        raise _Skip()
    if any(m > I32 for _, m in saved):
        raise _Skip()
    txt = "dt=%s dt_save=%s time=%s finish=%r" % (dtl, svl, tl, fin)
    if over:
        R.count("runs whose time does not fit")
        if r.rc == 0 or "can not represent" not in r.err:
            R.bad("schedule:overflow", "%s: the sum of times does not fit, but the run ended with %s: %s" % (txt, r.rc, r.err[-200:]))
    elif r.rc:
        R.bad("schedule:failed", "%s: the run failed: %s" % (txt, r.err[-300:]))
    got = [F(*s["begin"].time) for s in st]
    exp = [w.q for w in want]
    if got != exp:
        k = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
        R.bad("schedule:times", "%s: %d steps instead of %d, step %d at %s instead of %s" % (
            txt, len(got), len(exp), k, got[k] if k < len(got) else None, exp[k] if k < len(exp) else None))
    rd = os.path.join(d, "results_" + cap)
    have = sorted(os.listdir(rd)) if os.path.isdir(rd) else []
    names = sorted("%06d.h5" % m for _, m in saved)
    if have != names:
        R.bad("schedule:files", "%s: snapshots %s... instead of %s..." % (
            txt, [x for x in have if x not in names][:5] or [len(have)], [x for x in names if x not in have][:5] or [len(names)]))
    for w, m in saved:
        p = os.path.join(rd, "%06d.h5" % m)
        if os.path.exists(p):
            a = h5.read(p).attrs
            if F(*a["time"]) != w.q:
                R.bad("schedule:stored-time", "%s: snapshot %d holds time %s instead of %s" % (txt, m, a["time"], w.q))
            if F(*a["dt"]) != dt.q or F(*a["dt_save"]) != dts.q or a["time_to_finish"] != fin:
                R.bad("schedule:stored-schedule", "%s: snapshot %d holds dt %s dt_save %s finish %r" % (txt, m, a["dt"], a["dt_save"], a["time_to_finish"]))
    other = [x for x in os.listdir(d) if x.startswith("results_") and x != "results_" + cap]
    if other:
        R.bad("schedule:directory", "unexpected %s" % other)
    R.count("steps", len(want))
    R.count("snapshots", len(saved))
    R.case("|".join(("body" if body else "free", "start%s" % ((t.q > 0) - (t.q < 0)), "save/dt %s" % (dts.q / dt.q if (dts.q / dt.q).denominator < 6 else "x"),
                     "over" if over else "ok", "dt%d" % len(str(dt.s)))), 1 + len(saved))
    R.sample = txt


class _Skip(Exception):
    pass


ATT = (("holder_position", "holder"), ("delta_position", "dpos"), ("speed_slae", "speed"), ("speed_slae_prev", "speed_prev"), ("spring_const", "kspring"),
       ("spring_damping", "damping"), ("force_hydro", "fhydro"), ("force_holder", "fholder"), ("friction_prev", "friction_prev"), ("fdt_dead", "fdt_dead"),
       ("collision_min", "cmin"), ("collision_max", "cmax"))


def eq(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def content(c, d, R):
    """Every snapshot of a run holds the state traced at the moment of saving."""
    rng = np.random.default_rng(c["seed"])
    sc = scen.scenario(rng, steps=int(rng.integers(4, 14)), collide=rng.uniform() < .3, streak=rng.uniform() < .6)
    st, r = sim.run(c["mon"], sc, d, "begin,save")
    due = 0
    for s in st:
        b = s["begin"]
        q, w = F(*b.time), F(*b.dt_save)
        must = q >= 0 and w and (q / w).denominator == 1
        if must != ("save" in s):
            R.bad("content:due", "step at %s: a snapshot is %sdue every %s, but was %ssaved" % (q, "" if must else "not ", w, "" if "save" in s else "not "))
            continue
        if not must:
            continue
        due += 1
        t = s["save"]
        f = h5.read("%s/results_t/%06d.h5" % (d, round(float(q / F(*b.dt)))))
        if F(*f.attrs["time"]) != q:
            R.bad("content:time", "time %s instead of %s" % (f.attrs["time"], q))
        for ds, k in (("vort", "vort"), ("ink", "streak"), ("ink_source", "ssrc"), ("source", "src")):
            x = f.children.get(ds)
            x = x.data if x is not None else np.zeros((0, 3))
            if not eq(x, getattr(t, k)[:, :3]):
                R.bad("content:list:" + ds, "snapshot at %s: list %s is not that of the step (%s, %s)" % (q, ds, x.shape, getattr(t, k).shape))
        for i, bo in enumerate(t.bodies):
            x = f.children["body%02d" % i]
            if not eq(x.data[:, :2], bo.corner):
                R.bad("content:contour", "snapshot at %s: contour of body %d is not that of the step" % (q, i))
            if not eq(x.data[:, 2], bo.g) or not eq(x.data[:, 3], bo.gsum):
                R.bad("content:circulation", "snapshot at %s: circulation of body %d is not that of the step" % (q, i))
            for a, k in ATT:
                if not eq(x.attrs[a], getattr(bo, k)):
                    R.bad("content:attr:" + a, "snapshot at %s: %s of body %d is %s instead of %s" % (q, a, i, x.attrs[a], getattr(bo, k)))
            if x.attrs["g_dead"] != bo.g_dead or x.attrs["bounce"] != bo.bounce or x.attrs["density"] != bo.density:
                R.bad("content:scalars", "snapshot at %s: g_dead, bounce or density of body %d" % (q, i))
        R.evals += 1
    have = len(glob.glob(d + "/results_t/*.h5"))
    if have != due:
        R.bad("content:files", "%d snapshots instead of %d" % (have, due))
    R.count("snapshots compared with the traced state", due)
    R.case("content|" + sc.meta.sig, 0)


def case(c, d, R):
    try:
        (content if c["kind"] == "content" else schedule)(c, d, R)
    except _Skip:
        R.count("schedules not judged (a tie, or too long)")


def main(chk):
    mon = build.program("vvflow", "mon")
    C = [dict(kind="schedule", mon=mon, body=i % 6 == 0, seed=[chk.seed, 4, i]) for i in range(chk.n(1800, 20000))]
    C += [dict(kind="content", mon=mon, seed=[chk.seed, 44, i]) for i in range(chk.n(120, 1200))]
    chk.run(case, C)


core.main(main, "C04", "distinct (body or not, sign of the start, ratio of dt_save to dt, fits or not, size of denominator) schedules and scenarios of compared snapshots")
