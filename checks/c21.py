#!/usr/bin/env python3
import ctypes, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, libcli
from vv.libcli import f, pf, hx

M = ctypes.CDLL("libm.so.6")
for _n in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log", "sqrt", "erf", "fabs", "pow"):
    getattr(M, _n).restype = ctypes.c_double
    getattr(M, _n).argtypes = [ctypes.c_double] * (2 if _n == "pow" else 1)
inf, nan = math.inf, math.nan
FN = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log", "sqrt", "erf", "abs", "step", "delta", "nandelta"]
CONST = {"pi": math.pi, "e": math.e, "pi_2": math.pi / 2, "pi_4": math.pi / 4, "ln2": math.log(2), "ln10": math.log(10), "log2e": 1 / math.log(2),
         "log10e": 1 / math.log(10), "sqrt2": math.sqrt(2), "sqrt1_2": math.sqrt(.5)}


def div(a, b):
    if b:
        return a / b
    return nan if a == 0 or a != a else math.copysign(inf, a) * math.copysign(1, b)


def call(n, x):
    if n == "step":
        return x if x != x else (1.0 if x >= 0 else 0.0)
    if n == "delta":
        return x if x != x else (inf if x == 0 else 0.0)
    if n == "nandelta":
        return x if x != x else (nan if x == 0 else 0.0)
    return getattr(M, "fabs" if n == "abs" else n)(x)


def gen(rng, depth):
    """-> (Lua text, function of t)."""
    k = int(rng.integers(10)) if depth else int(rng.integers(3))
    if k in (0, 1):
        return "t", lambda t: t
    if k == 2:
        if rng.uniform() < 0.25:
            n = str(rng.choice(sorted(CONST)))
            return n, lambda t: CONST[n]
        v = float("%.*g" % (int(rng.integers(1, 10)), rng.normal(0, 10.0 ** rng.integers(-2, 3))))
        s = repr(abs(v))
        return (s, lambda t: abs(v)) if v >= 0 else ("(-%s)" % s, lambda t: -abs(v))
    a, fa = gen(rng, depth - 1)
    if k in (3, 4):
        n = FN[rng.integers(len(FN))]
        pre = "math." if n not in ("erf", "step", "delta", "nandelta") and rng.uniform() < 0.15 else ""
        return "%s%s(%s)" % (pre, n, a), lambda t: call(n, fa(t))
    if k == 5:
        return "(-%s)" % a, lambda t: -fa(t)
    b, fb = gen(rng, depth - 1)
    if k == 6:
        op = str(rng.choice(["<", ">", "<=", ">="]))
        c, fc = gen(rng, depth - 1)
        d, fd = gen(rng, depth - 1)
        cmp = {"<": lambda x, y: x < y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y}[op]
        return "((%s %s %s) and %s or %s)" % (a, op, b, c, d), lambda t: fc(t) if cmp(fa(t), fb(t)) else fd(t)
    op = str(rng.choice(["+", "-", "*", "/", "^"]))
    fn = {"+": lambda t: fa(t) + fb(t), "-": lambda t: fa(t) - fb(t), "*": lambda t: fa(t) * fb(t), "/": lambda t: div(fa(t), fb(t)),
          "^": lambda t: M.pow(fa(t), fb(t))}[op]
    sp = " " * int(rng.integers(2))
    return "(%s%s%s%s%s)" % (a, sp, op, sp, b), fn


def expr(rng):
    a, fa = gen(rng, int(rng.integers(0, 5)))
    k = rng.integers(8)
    if k == 0:
        b, fb = gen(rng, 2)
        v = round(float(rng.normal(0, 2)), 2)
        return "if t < %r then return %s else return %s end" % (v, a, b), lambda t: fa(t) if t < v else fb(t)
    if k == 1:
        return "local q = %s; return q*2" % a, lambda t: fa(t) * 2
    if k == 2:
        return " %s -- note\n" % a, fa
    if k == 3:   # fails from some time on
        v = round(float(rng.uniform(0.1, 3)), 2)
        return "t < %r and %s or nosuch + 1" % (v, a), lambda t: fa(t) if t < v else None
    return a, fa


BAD = ["1 +", "x y z", "nil", "'abc'", "{}", "nosuch + 1", "return", "sin(", "t.x", ")", "error('no')", "function() end", "if t < 1 then return 2", "print", "t = 1", "sin()", "--"]


def same(a, b):
    return (a != a and b != b) or a == b or abs(a - b) <= 1e-13 * max(abs(a), abs(b))


def times(rng, pool):
    if pool and rng.uniform() < 0.55:
        return pool[int(rng.integers(len(pool)))]
    t = float(rng.choice([0.0, 1.0, round(float(rng.normal(0, 3)), 1), float(rng.normal(0, 10)), 1e6 * rng.uniform()]))
    t += 0.0
    pool.append(t)
    del pool[:-4]
    return t


def lib(c, d, R):
    rng = np.random.default_rng(c["seed"])
    E, cmds, want, pool = {}, [], [], []

    def q(cmd, w):
        cmds.append(cmd)
        want.append(w)
    for _ in range(c["n"]):
        i, k = int(rng.integers(5)), rng.integers(14)
        if i not in E or k == 0:
            s, fn = expr(rng)
            q("enew %d %s" % (i, hx(s)), "ok")
            E[i] = (s, fn)
        elif k == 1:
            s, fn = expr(rng)
            q("eset %d %s" % (i, hx(s)), "ok")
            E[i] = (s, fn)
        elif k == 2:
            s = BAD[rng.integers(len(BAD))]
            q("eset %d %s" % (i, hx(s)), ("refuse", s))
        elif k == 3:
            j = sorted(E)[rng.integers(len(E))]
            q("%s %d %d" % (rng.choice(["ecopy", "eassign"]), i, j), "ok")
            E[i] = E[j]
        elif k == 4:
            q("eset %d " % i, "ok")
            E[i] = ("", lambda t: 0.0)
        elif k == 5:
            q("estr %d" % i, ("str", E[i][0]))
        elif k == 6:
            q("edel %d" % i, "ok")
            del E[i]
        elif k == 7:
            ids = sorted(E)
            jobs = [(ids[int(rng.integers(len(ids)))], times(rng, pool)) for _ in range(int(rng.integers(8, 200)))]
            jobs = [(a, t) for a, t in jobs if E[a][1](t) is not None]
            if jobs:
                q("emt %d %d " % (rng.integers(2, 9), len(jobs)) + " ".join("%d %s" % (a, f(t)) for a, t in jobs), ("mt", [E[a][1](t) for a, t in jobs], [E[a][0] for a, _ in jobs]))
        else:
            t = times(rng, pool)
            q("eval %d %s" % (i, f(t)), ("val", E[i][1](t), E[i][0], t))
    out = libcli.run(c["exe"], d, cmds, what="expression", env={"OMP_NUM_THREADS": "8"})
    for cmd, w, o in zip(cmds, want, out):
        if w == "ok":
            if o != "ok":
                R.bad("refused", "a valid expression is refused: %s (%s)" % (bytes.fromhex(cmd.split()[2]).decode() if cmd[1] in "ns" else cmd, o))
        elif w[0] == "refuse":
            if not o.startswith("E "):
                R.bad("accepted", "'%s' is accepted" % w[1])
            R.count("bad expressions refused")
        elif w[0] == "str":
            if o.split()[1:] != ([w[1].encode().hex()] if w[1] else []):
                R.bad("text", "the text '%s' comes back as %s" % (w[1], o))
        elif w[0] == "val":
            if w[1] is None:
                if not o.startswith("E "):
                    R.bad("failure", "'%s' at t=%r fails in Lua but gives %s" % (w[2], w[3], o))
                R.count("failing evaluations")
            elif o.startswith("E ") or not same(pf(o), w[1]):
                R.bad("value", "'%s' at t=%r gives %s, expected %r" % (w[2], w[3], o, w[1]))
            R.case("v|%d|%s" % (len(w[2]) // 8, w[2][:6]))
        else:
            for g, v, s in zip(o.split(), w[1], w[2]):
                if not same(pf(g), v):
                    R.bad("threads", "'%s' evaluated by several threads gives %s, expected %r" % (s, g, v))
            R.case("mt|%d" % (len(w[1]) // 10), len(w[1]))
    R.sample = "%d commands, %s" % (len(cmds), [w[2] for w in want if w[0] == "val"][-1:])


def script(c, d, R):
    """The same through vvflow scripts: settings of the space and of bodies, saved and loaded."""
    rng = np.random.default_rng(c["seed"])
    L, want = ["b = gen_cylinder{R=1, N=20}", "S.body_list:insert(b)"], []
    F = {"S.inf_vx": None, "S.inf_vy": None, "b.holder_vx": None, "b.holder_vy": None, "b.holder_vo": None, "b.holder_mo": None}
    pool = []
    for n in range(c["n"]):
        k, i = sorted(F)[rng.integers(len(F))], rng.integers(7)
        if F[k] is None or i == 0:
            s, fn = expr(rng)
            L.append("%s = %s" % (k, "[==[%s]==]" % s))
            F[k] = (s, fn)
        elif i == 1:
            b = BAD[rng.integers(len(BAD))]
            L.append("print(pcall(function() %s = [==[%s]==] end))" % (k, b))
            want.append(("refuse", b))
        elif i == 2:
            j = [x for x in sorted(F) if F[x]]
            j = j[rng.integers(len(j))]
            L.append("%s = %s" % (k, j))
            F[k] = F[j]
        elif i == 3:
            L.append("S:save('q.h5'); S.inf_vx='7'; S:load('q.h5'); b = S.body_list[1]")
        else:
            t = times(rng, pool)
            L.append("do local ok, v = pcall(function() return string.format('%%a', %s:eval(%s)) end); print(ok and v or 'E '..tostring(v):gsub('\\n', ' ')) end" % (
                k, f(t) if t >= 0 else "-" + f(-t)))
            want.append(("val", F[k][1](t), F[k][0], t))
    open(os.path.join(d, "t.lua"), "w").write("\n".join(L) + "\n")
    r = core.must_ok(core.run2([c["vv"], "t.lua"], d), "vvflow")
    out = [x for x in r.out.splitlines()]
    if len(out) != len(want):
        raise core.Viol("script:lines", "%d answers for %d questions: %s" % (len(out), len(want), out[-3:]))
    for w, o in zip(want, out):
        if w[0] == "refuse":
            if not o.startswith("false"):
                R.bad("accepted", "'%s' is accepted by a script: %s" % (w[1], o))
        elif w[1] is None:
            if not o.startswith("E "):
                R.bad("failure", "'%s' at t=%r fails in Lua but gives %s" % (w[2], w[3], o))
        elif o.startswith("E ") or not same(pf(o), w[1]):
            R.bad("value", "script: '%s' at t=%r gives %s, expected %r" % (w[2], w[3], o, w[1]))
        R.case("s|%s|%d" % (w[0], len(w[2]) // 8 if len(w) > 2 else 0))


def dispatch(c, d, R):
    (lib if "exe" in c else script)(c, d, R)


def main(chk):
    exe, vv = build.harness("lib.cpp", "rel"), build.program("vvflow", "rel")
    chk.run(dispatch, [dict(seed=[chk.seed, 21, i], exe=exe, n=1500) for i in range(chk.n(64, 1200))] +
            [dict(seed=[chk.seed, 21, 10000 + i], vv=vv, n=120) for i in range(chk.n(64, 800))])


core.main(main, "C21", "distinct (expression length, leading form) classes evaluated; multi-threaded batches by size")
