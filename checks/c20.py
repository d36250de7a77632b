#!/usr/bin/env python3
import math, os, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, libcli
from vv.libcli import f

I32, U32 = 2 ** 31 - 1, 2 ** 32 - 1


def val(rng):
    k = rng.integers(6)
    if k == 0:
        return int(rng.integers(-20, 21))
    if k == 1:
        return int(rng.integers(-I32, I32 + 1))
    if k == 2:
        return int(rng.choice([I32, -I32, I32 - 1, 0, 1, -1, 2 ** 30, -2 ** 30, 65536]))
    return int(rng.choice([-1, 1]) * 10 ** rng.uniform(0, 9))


def scale(rng):
    k = rng.integers(6)
    if k == 0:
        return int(rng.integers(1, 30))
    if k == 1:
        return int(10 ** rng.integers(0, 10))
    if k == 2:
        return int(2 ** rng.integers(0, 32))
    if k == 3:
        return int(rng.choice([U32, U32 - 1, 2 ** 31, 2 ** 31 + 1, 2500000000, 46341, 65537]))
    return int(10 ** rng.uniform(0, 9.6))


def pair(rng):
    """A dividend and a divisor, often related."""
    a, b = val(rng), scale(rng)
    k = rng.integers(5)
    if k < 2:
        return a, b, val(rng), scale(rng)
    # divisor times an integer, both sides rescaled
    c, e = int(rng.choice([-1, 1]) * rng.integers(1, 50)), int(rng.integers(1, 5000))
    m = int(rng.integers(-3000, 3000))
    x = F(c, e) * m
    if k == 4:
        x += F(1, int(rng.integers(2, 7)) * e)
    g, h = int(rng.integers(1, 60)), int(rng.integers(1, 60))
    return x.numerator * g, x.denominator * g, c * h, e * h


def arith(c, d, R):
    rng = np.random.default_rng(c["seed"])
    cmds, want = [], []
    for _ in range(c["n"]):
        a, b, x, y = pair(rng)
        if max(abs(a), abs(x)) > I32 or max(b, y) > U32:
            continue
        k = rng.integers(4)
        if k == 3:
            cmds.append("tdbl %d %d" % (a, b))
            want.append(("str", (a, b)))
        elif k == 0:
            cmds.append("tdiv %d %d %d %d" % (a, b, x, y))
            want.append(("div", x != 0 and (F(a, b) / F(x, y)).denominator == 1))
        elif k == 1:
            cmds.append("tadd %d %d %d %d" % (a, b, x, y))
            want.append(("add", (a, b, x, y)))
        else:
            e = int(rng.integers(0, 10))
            if rng.uniform() < 0.75:
                kk = int(rng.choice([-1, 1]) * min(10 ** rng.uniform(0, 9.34), 2147483640))
                s = float(F(kk, 10 ** e))
                cmds.append("tdec " + f(s))
                want.append(("dec", F(kk, 10 ** e)))
            else:
                s = float(F(int(rng.integers(-999, 1000)), int(rng.integers(1, 1000)))) * 10.0 ** rng.integers(-6, 6)
                if abs(s) > I32:
                    continue
                cmds.append("tdec " + f(s))
                want.append(("round", s))
    out = libcli.run(c["exe"], d, cmds, what="time")
    for cmd, (k, w), o in zip(cmds, want, out):
        if k == "div":
            if o != str(int(w)):
                R.bad("divisible", "%s gives %s, exactly it is %s" % (cmd, o, w))
            R.case("div|%s|%d" % (w, len(cmd) // 4))
        elif k == "str":
            x, o = o.split()
            if libcli.pf(x) != float(F(*w)):
                R.bad("seconds", "%d/%d is %.17g s instead of %.17g" % (*w, libcli.pf(x), float(F(*w))))
            if o != "%d/%d" % w:
                R.bad("text", "%d/%d is written as %s" % (*w, o))
            R.case("str|%d|%d" % (len(str(w[0])), len(str(w[1]))))
        elif k == "add":
            a, b, x, y = w
            s, l = F(a, b) + F(x, y), math.lcm(b, y)
            if o.startswith("E "):
                if l <= U32 and abs(s * l) <= I32:
                    R.bad("add:refused", "%s is refused though %s fits" % (cmd, s))
                R.count("sums refused")
                R.case("add|refused|%d" % (l > U32))
                continue
            v, t = map(int, o.split())
            if t == 0 or F(v, t) != s:
                R.bad("add", "%s gives %d/%d, exactly it is %s" % (cmd, v, t, s))
            R.case("add|%d|%d" % (len(str(abs(s.numerator))), len(str(s.denominator))))
        else:
            v, t = (map(int, o.split()) if not o.startswith("E") else (0, 0))
            if t == 0:
                R.bad("decimal", "%s gives %s" % (cmd, o))
            elif k == "dec" and F(v, t) != w:
                R.bad("decimal", "%s gives %d/%d instead of %s" % (cmd, v, t, w))
            elif k == "round" and abs(v / t - w) > max(5.1e-10, 2.4e-9 * abs(w)):
                R.bad("decimal:far", "%s gives %d/%d, %.3g away" % (cmd, v, t, abs(v / t - w)))
            R.case("%s|%d|%d" % (k, len(str(v)), len(str(t))))
    R.sample = cmds[-1] + " -> " + out[-1]


NAMES = ["time", "dt", "dt_save", "dt_streak", "dt_profile"]


def script(c, d, R):
    """Assignments through the script interface: exact, or refused with the old value kept."""
    rng = np.random.default_rng(c["seed"])
    cur = None
    lines, plan = [], []
    for i in range(c["n"]):
        n = NAMES[rng.integers(len(NAMES))]
        k = rng.integers(7)
        w = None
        if k == 0:
            a, b = val(rng), scale(rng)
            e, w = "{%d, %d}" % (a, b), F(a, b)
        elif k == 1:
            a, b = val(rng), scale(rng)
            e, w = "'%d/%d%s'" % (a, b, " " * int(rng.integers(3))), F(a, b)
        elif k == 2:
            q = int(rng.integers(0, 10))
            a = int(rng.choice([-1, 1]) * min(10 ** rng.uniform(0, 9.3), 2147483640))
            s = ("-" if a < 0 else "") + "%d.%0*d" % (abs(a) // 10 ** q, q, abs(a) % 10 ** q) if q else str(a)
            e, w = s, F(a, 10 ** q)
        elif k == 3:
            a = int(rng.integers(-I32, I32))
            e, w = str(a), F(a)
        else:
            e = str(rng.choice(["{%d, 7}" % (2 ** 31 + int(rng.integers(1 << 40))), "{3, %d}" % (2 ** 32 + int(rng.integers(1 << 40))), "{1, 0}", "{1, -2}", "{1}", "{}",
                                "{1, 2, 3}", "{1.5, 2}", "{1, 'x'}", "'1/0'", "'a/b'", "'3'", "'1/2x'", "''", "'0.1'", "nil", "true", "print", "1e12", "-1e10",
                                "0/0", "1/0", "-1/0", "{-%d, 3}" % (2 ** 31 + 1 + int(rng.integers(1 << 40)))]))
        lines.append("do local ok = pcall(function() S.%s = %s end); S:save('r%d.h5'); print(ok, string.format('%%a', S.%s)) end" % (n, e, i, n))
        plan.append((n, e, w))
    open(os.path.join(d, "t.lua"), "w").write("S:save('d.h5')\n" + "\n".join(lines) + "\n")
    r = core.must_ok(core.run2([c["vv"], "t.lua"], d), "vvflow")
    out = r.out.splitlines()
    assert len(out) == len(plan), r.out[-500:]
    a = h5.read(os.path.join(d, 'd.h5')).attrs
    cur = {n: F(int(a[n][0]), int(a[n][1])) for n in NAMES}
    for i, (n, e, w) in enumerate(plan):
        ok, g = out[i].split()
        if (ok == "true") != (w is not None):
            R.bad("assign:" + ("refused" if w is not None else "accepted"), "S.%s = %s gives ok=%s" % (n, e, ok))
        if w is not None:
            cur[n] = w
        a = h5.read(os.path.join(d, "r%d.h5" % i)).attrs
        os.unlink(os.path.join(d, "r%d.h5" % i))
        for m in NAMES:
            v, t = (int(x) for x in a[m])
            if t <= 0 or F(v, t) != cur[m]:
                R.bad("assign:value", "after S.%s = %s, %s is %d/%d instead of %s" % (n, e, m, v, t, cur[m]))
                cur[m] = F(v, t) if t > 0 else cur[m]
        if libcli.pf(g) != float(cur[n]):
            R.bad("getter", "S.%s = %s reads back as %s" % (n, e, g))
        R.case("set|%s|%s|%s" % (n, e[:1], w is None), 1 + len(NAMES))


def dispatch(c, d, R):
    (arith if "exe" in c else script)(c, d, R)


def main(chk):
    exe, vv = build.harness("lib.cpp", "rel"), build.program("vvflow", "rel")
    chk.run(dispatch, [dict(seed=[chk.seed, 20, i], exe=exe, n=4000) for i in range(chk.n(60, 900))] +
            [dict(seed=[chk.seed, 20, 1000 + i], vv=vv, n=60) for i in range(chk.n(48, 400))])


core.main(main, "C20", "distinct (operation, outcome, magnitude) classes of exact comparisons; script assignments by field and form")
