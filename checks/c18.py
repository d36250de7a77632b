#!/usr/bin/env python3
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, poly, scen

HEAD = """
local function show(b)
  local o = {b:get_slen(), b:get_area(), b:get_moi_cofm(), b:get_moi_axis(), b:get_cofm()[1], b:get_cofm()[2], b:get_axis()[1], b:get_axis()[2], #b}
  for i, v in ipairs(b:totable()) do o[#o+1] = v.x; o[#o+1] = v.y end
  for i = 1, #o do o[i] = string.format("%.17g", o[i]) end
  print(table.concat(o, " "))
end
"""


def rot(p, c, a):
    d = p - c
    co, si = math.cos(a), math.sin(a)
    return c + np.stack([d[:, 0] * co - d[:, 1] * si, d[:, 0] * si + d[:, 1] * co], 1)


def props(P):
    """What a contour P (solid: clockwise) has to report: perimeter, area, centre, moment about it."""
    per, A, c, J = poly.integrals(P)
    return per, -A, c, -J


def judge(R, tag, P, ax, got):
    """got = (perimeter, area, moi about centre, moi about axis, centre)."""
    per, A, c, J = props(P)
    L = np.ptp(P, axis=0).max()
    B = np.abs(P).max() + L
    ea = 1e-14 * len(P) ** .5 * per * B + 1e-12 * abs(A)             # rounding of the coordinates
    ej = 1e-13 * len(P) ** .5 * per * L ** 2 * B + 1e-12 * abs(J)
    slen, area, mc, ma, cc = got
    if abs(slen - per) > 1e-12 * per + 1e-14 * len(P) * B:
        R.bad("perimeter:" + tag, "perimeter %.17g, the contour's is %.17g" % (slen, per))
    if not abs(area - A) <= ea:
        R.bad("area:" + tag, "area %.17g, the contour's is %.17g" % (area, A))
    if abs(A) < 1e-6 * per * L or ea > 1e-6 * abs(A):
        R.count("bodies too thin for their centre to be compared")
        return False
    ec = 1e-13 * len(P) ** .5 * per * B * L / abs(A)
    if not np.abs(cc - c).max() <= ec:
        R.bad("centre:" + tag, "centre of mass %s, the contour's is %s" % (cc.tolist(), c.tolist()))
    if not abs(mc - J) <= ej:
        R.bad("moi:" + tag, "moment of inertia %.17g, the contour's is %.17g" % (mc, J))
    w = J + A * float(((ax - c) ** 2).sum())
    if not abs(ma - w) <= 2 * ej + 1e-12 * abs(w) + 4 * abs(A) * ec * float(np.abs(ax - c).max() + ec):
        R.bad("moi axis:" + tag, "moment of inertia about the axis %.17g, expected %.17g" % (ma, w))
    return True


def script(c, d, R):
    rng = np.random.default_rng(c["seed"])
    L, exp, names = [HEAD, "S.re=inf"], [], []
    for k in range(c["shapes"]):
        kind, P = poly.shape(rng)
        if rng.uniform() < .6 and poly.area(P) > 0:
            P = P[::-1]
        sc = 10.0 ** rng.choice([0, 0, -3, 2])
        P = (P + rng.choice([0, 0, 10, 300, 10000]) * rng.uniform(-1, 1, 2)) * sc
        np.savetxt(os.path.join(d, "b%d.txt" % k), P, fmt="%.17g")
        L.append("b = load_body('b%d.txt'); S.body_list:insert(b); show(b)" % k)
        hold, dp, lab = np.zeros(3), np.zeros(3), kind
        exp.append((kind, 0, P.copy(), hold[:2] + dp[:2]))
        for m in range(int(rng.choice([0, 2, 6]))):
            t = int(rng.integers(7))
            if t == 0:
                v = rng.normal(0, sc, 2)
                L.append("b:move_r({%.17g,%.17g})" % tuple(v))
                P, hold = P + v, hold + [*v, 0]
            elif t == 1:
                a = rng.normal(0, 2)
                L.append("b:move_o(%.17g)" % a)
                P, hold = rot(P, hold[:2] + dp[:2], a), hold + [0, 0, a]
            elif t == 2:
                a = float(rng.choice([90, 180, -45, rng.normal(0, 100)]))
                L.append("b:move_d(%.17g)" % a)
                P, hold = rot(P, hold[:2] + dp[:2], math.radians(a)), hold + [0, 0, math.radians(a)]
            elif t == 3:
                hold = rng.normal(0, sc, 3)
                L.append("b.holder_pos = {%.17g,%.17g,%.17g}" % tuple(hold))
            elif t == 4:
                dp = rng.normal(0, sc, 3)
                L.append("b.delta_pos = {%.17g,%.17g,%.17g}" % tuple(dp))
            elif t == 5:
                L.append("b.slip = %s" % rng.choice(["true", "false"]))
            else:
                L.append("b.density = %.3g" % rng.uniform(0, 3))
            L.append("show(b)")
            exp.append((kind, m + 1, P.copy(), hold[:2] + dp[:2]))
        names.append((len(exp) - 1))
    L.append("S:save('x.h5'); S:load('x.h5'); for i, b in ipairs(S.body_list) do show(b) end")
    open(os.path.join(d, "t.lua"), "w").write("\n".join(L) + "\n")
    q = core.must_ok(core.run2([c["vv"], "t.lua"], d), "vvflow")
    out = [np.array([float(x) for x in l.split()]) for l in q.out.splitlines()]
    if len(out) != len(exp) + len(names):
        raise core.Viol("answers", "%d answers for %d questions" % (len(out), len(exp) + len(names)))
    f = h5.read(os.path.join(d, "x.h5"))
    for i, o in enumerate(out):
        back = i >= len(exp)
        kind, st, P, ax = exp[i] if not back else exp[names[i - len(exp)]]
        tag = "loaded" if back else "moved" if st else "new"
        Q = o[9:].reshape(-1, 2)
        if len(Q) != len(P) or o[8] != len(P):
            R.bad("points:" + tag, "a body of %d points reports %d" % (len(P), len(Q)))
            continue
        L_ = np.ptp(P, axis=0).max()
        B = np.abs(P).max() + np.abs(ax).max() + L_
        e = np.abs(P - Q).max()
        if e > 1e-12 * B * (1 + st):
            R.bad("motion:" + tag, "%s: after %d changes a point is %.3g away from its place" % (kind, st, e))
            continue
        if np.abs(o[6:8] - ax).max() > 1e-12 * B * (1 + st):
            R.bad("axis:" + tag, "axis %s, expected %s" % (o[6:8].tolist(), ax.tolist()))
        ok = judge(R, tag, Q, o[6:8], (o[0], o[1], o[2], o[3], o[4:6]))
        R.case("%s|%s|%d|%d" % (kind, tag, st, ok), 5)
        if back:
            b = f.children["body%02d" % (i - len(exp))]
            A = b.attrs
            judge(R, "snapshot", np.asarray(b.data)[:, :2], o[6:8],
                  (o[0], float(A["area"]), float(A["moi_cofm"]), float(A["moi_axis"]), np.array(list(A["cofm"]))))
            R.case("%s|snapshot" % kind, 5)
    R.sample = "%d bodies, %d states, last: %s" % (c["shapes"], len(exp), kind)


def simulated(c, d, R):
    """The same attributes in the snapshots of a run: they follow the contour as it moves."""
    rng = np.random.default_rng(c["seed"])
    sc = scen.scenario(rng, steps=5, save_every=1, nb=int(rng.integers(1, 4)))
    scen.write(sc, d)
    core.must_ok(core.run2([c["vv"], "s.lua"], d), "vvflow")
    n = 0
    for root, _, fs in os.walk(d):
        for fn in fs:
            if not fn.endswith(".h5") or fn.startswith("stepdata"):
                continue
            for k, b in h5.read(os.path.join(root, fn)).children.items():
                if not k.startswith("body"):
                    continue
                A = b.attrs
                P = np.asarray(b.data)[:, :2]
                ax = np.array(list(A["holder_position"]))[:2] + np.array(list(A["delta_position"]))[:2]
                judge(R, "run", P, ax, (poly.integrals(P)[0], float(A["area"]), float(A["moi_cofm"]), float(A["moi_axis"]), np.array(list(A["cofm"]))))
                R.case("run|" + sc.meta.kinds[int(k[4:])], 4)
                n += 1
    R.count("bodies in simulated snapshots", n)


def case(c, d, R):
    (simulated if c["sim"] else script)(c, d, R)


def main(chk):
    vv = build.program("vvflow", "rel")
    n = chk.n(480, 6000)
    chk.run(case, [dict(seed=[chk.seed, 18, i], vv=vv, shapes=12, sim=i % 6 == 5) for i in range(n)])


core.main(main, "C18", "distinct (shape kind, new/moved/loaded/snapshot/run, number of changes) body states compared")
