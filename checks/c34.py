#!/usr/bin/env python3
"""C34: the vvawk scripts and gpquick against an exact reference."""
import math, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from fractions import Fraction as F
import numpy as np
from vv import build, core, scen

SD = os.path.join(build.REPO, "utils", "scripts")


def table(rng):
    """-> (lines of text, rows as lists of float as awk reads them)"""
    nc, nr = int(rng.integers(2, 7)), int(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 25, 100, 400]))
    t = np.cumsum(rng.choice([1, .1, .01, 5]) * np.ones(nr)) + rng.choice([0, -1, -20, 3.5])
    cols = [t]
    for _ in range(nc - 1):
        k = int(rng.integers(6))
        a = float(rng.choice([1, 1e-4, 1e3]))
        if k == 0: y = a * rng.normal(size=nr)
        elif k == 1: y = rng.integers(-3, 4, nr).astype(float)
        elif k == 2: y = a * np.sin(np.arange(nr) * rng.uniform(.1, 1.5)) + rng.choice([0, .3 * a])
        elif k == 3: y = np.full(nr, rng.choice([.1, 0, 1 / 3, -7]))
        elif k == 4: y = np.abs(rng.normal(size=nr)) + 1
        else: y = a * (np.arange(nr) - nr / 2)
        cols.append(y)
    fmt = str(rng.choice(["%+.6e", "%g", "%.3f", "%.10g", "%E"]))
    sep = str(rng.choice(["\t", " ", "   ", "\t "]))
    lead, trail = str(rng.choice(["", "", " "])), str(rng.choice(["", "\t", " "]))
    word = str(rng.choice(["", "", "", "#", "a#b", "x"]))     # a column of words, never the chosen one
    between = rng.uniform() < .4                              # logs put one after another
    rows, lines = [], []
    if rng.uniform() < .6:
        lines.append("#" + sep.join("name%d" % i for i in range(nc)) + trail)
    for r in range(nr):
        s = [fmt % c[r] for c in cols]
        s += [word] * bool(word)
        rows.append(s)
        lines.append(lead + sep.join(s) + trail)
        if between and r < nr - 1 and rng.uniform() < .1:
            lines.append(str(rng.choice(["", "#" + sep.join("name%d" % i for i in range(nc)), "# 1 2 3", "#1"])))
    return lines, rows, nc


def inside(x, lo, hi, closed=False):
    if closed:
        return (lo is None or x >= lo) and (hi is None or x <= hi)
    return (lo is None or x > lo) and (hi is None or x < hi)


def ref(script, rows, o):
    """exact expected numbers -> list of (value, slack)"""
    col = int(o.get("col", 2)) - 1
    lo, hi = (F(o[k]) if k in o else None for k in ("xmin", "xmax"))
    X = [F(r[0]) for r in rows]
    Y = [F(r[col]) for r in rows]
    if script in ("avg", "sd"):
        y = [b for a, b in zip(X, Y) if inside(a, lo, hi)]
        if not y:
            return [(0., 0.)]
        m = sum(y) / len(y)
        if script == "avg":
            return [(float(m), 1e-14 * float(sum(abs(v) for v in y)) / len(y))]
        v = sum(b * b for b in y) / len(y)
        # the documented formula subtracts two squares: rounding of the sums
        s2 = float(v - m * m)
        e = 1e-13 * float(v) + 1e-300
        r = math.sqrt(s2)
        return [(r, min(math.sqrt(e), e / r if r else math.inf))]
    if script == "zeros":
        out, p = [], None
        for x, y in zip(X, Y):
            if inside(x, lo, hi):
                if p and p[1] * y < 0:
                    out.append(float((x * abs(p[1]) + p[0] * abs(y)) / (abs(p[1]) + abs(y))))
                elif y == 0:
                    out.append(float(x))
            p = (x, y)
        return [(v, 1e-12 * (abs(v) + max(map(abs, map(float, X))))) for v in out]
    if script == "ampl":
        n = int(o.get("span", 5))
        mx, mn = [], []
        for k in range(n, len(Y) + 1):
            w = Y[k - n:k]
            c = k - n // 2    # row in the middle, counted from 1
            xc, yc = X[c - 1], Y[c - 1]
            if lo is not None and xc < lo: continue
            if hi is not None and xc > hi: break
            if yc == min(w): mn.append(yc)
            if yc == max(w): mx.append(yc)
        a = sum(mx) / len(mx) if mx else 0
        b = sum(mn) / len(mn) if mn else 0
        return [(float(a - b), 1e-13 * float(abs(a) + abs(b)))]


def rowref(script, rows, o):
    col = int(o.get("col", 2)) - 1
    out = []
    Y = [F(r[col]) for r in rows]
    for i, r in enumerate(rows):
        if script == "drv":
            if i == 0: continue
            d = F(o.get("div", 1))
            v, e = float((Y[i] - Y[i - 1]) / d), 1e-14 * float((abs(Y[i]) + abs(Y[i - 1])) / abs(d))
        else:
            n = int(o.get("span", 20))
            w = Y[max(0, i + 1 - n):i + 1]
            v, e = float(sum(w) / len(w)), 1e-12 * float(max(abs(q) for q in Y[:i + 1]))
        out.append((i, v, e))
    return out


def close(s, v, e):
    try:
        g = float(s)
    except ValueError:
        return False
    return abs(g - v) <= 1e-6 * abs(v) + e + 1e-300


def invoke(rng, script, text, o, d):
    cmd = ["awk", "-f", os.path.join(SD, "vvawk." + script)] if not os.access(os.path.join(SD, "vvawk." + script), os.X_OK) else [os.path.join(SD, "vvawk." + script)]
    for k in o:
        cmd += ["-v", "%s=%s" % (k, o[k])]
    if rng.uniform() < .5:
        open(os.path.join(d, "in.txt"), "w").write(text)
        return core.run(cmd + ["in.txt"], d)
    return core.run(cmd + ["-"], d, inp=text.encode())


def awk(c, d, R):
    rng = np.random.default_rng(c["seed"])
    for _ in range(c["n"]):
        lines, rows, nn = table(rng)
        text = "\n".join(lines) + ("\n" if lines and rng.uniform() < .8 else "")
        nc = len(rows[0]) if rows else 2
        script = str(rng.choice(["avg", "sd", "zeros", "ampl", "mavg", "drv"]))
        o = {}
        if rng.uniform() < .6: o["col"] = str(int(rng.integers(2, nn + 1)))
        if script in ("ampl", "mavg") and rng.uniform() < .7:
            o["span"] = str(int(rng.choice([1, 2, 3, 4, 5, 7, 8, 20, 33])))
        if script == "drv" and rng.uniform() < .6: o["div"] = str(rng.choice(["0.1", "2", "-3", "1e-3"]))
        if script in ("avg", "sd", "zeros", "ampl"):
            ts = [float(r[0]) for r in rows] or [0.]
            # the limits of avg, sd and zeros are not inside themselves; those of ampl never coincide with a row
            for k in ("xmin", "xmax"):
                if rng.uniform() < .4:
                    v = "0" if rng.uniform() < .3 else "%.7f" % (rng.uniform(min(ts) - 1, max(ts) + 1) + 3e-7)
                    if rows and rng.uniform() < .3: v = rows[int(rng.integers(len(rows)))][0]
                    if script != "ampl" or not any(F(v) == F(r[0]) for r in rows): o[k] = v
        r = invoke(rng, script, text, o, d)
        tag = "vvawk.%s %s" % (script, " ".join("%s=%s" % q for q in o.items()))
        R.case((script, tuple(o), min(len(rows), 30), nc, bool(lines) and lines[0][0] == "#"))
        if r.rc != 0 or r.err:
            R.bad("vvawk.%s-fails" % script, "%s: rc %s %s" % (tag, r.rc, r.err[-200:]))
            continue
        got = r.out.split("\n")
        if got and got[-1] == "": got.pop()
        if script in ("mavg", "drv"):
            want = rowref(script, rows, o)
            other = [l for l in lines if l.startswith("#") or not l]
            first = next((i for i, l in enumerate(lines) if l and l[0] != "#"), 0)
            at = [i - (script == "drv" and i > first) for i, l in enumerate(lines) if l.startswith("#") or not l]
            if [got[i] if i < len(got) else None for i in at] != other:
                R.bad("vvawk.%s-header" % script, "%s: a line that is no data is not passed through in its place: %s" % (tag, got[:2]))
                continue
            got = [g for i, g in enumerate(got) if i not in set(at)]
            R.count("rows of " + script, len(want))
            if len(got) != len(want):
                R.bad("vvawk.%s-rows" % script, "%s: %d rows instead of %d of %s" % (tag, len(got), len(want), rows[:5]))
                continue
            col = int(o.get("col", 2)) - 1
            for g, (i, v, e) in zip(got, want):
                w = g.split()
                R.evals += 1
                if len(w) != nc or w[:col] + w[col + 1:] != rows[i][:col] + rows[i][col + 1:] or not close(w[col], v, e):
                    R.bad("vvawk.%s-value" % script, "%s: row %d is %s, expected column %d = %.6e; input %s" % (tag, i, g, col + 1, v, rows[max(0, i - 5):i + 1]))
                    break
        else:
            want = ref(script, rows, o)
            R.count("numbers of " + script, len(want))
            if len(got) != len(want):
                R.bad("vvawk.%s-count" % script, "%s: %d numbers (%s) instead of %d of %s" % (tag, len(got), got[:5], len(want), rows[:9]))
                continue
            for g, (v, e) in zip(got, want):
                R.evals += 1
                if not close(g, v, e):
                    R.bad("vvawk.%s-value" % script, "%s: %s instead of %.6e for %s" % (tag, g, v, rows[:20]))
                    break


def gp(c, d, R):
    """gpquick: the gnuplot program it runs is the one asked for"""
    rng = np.random.default_rng(c["seed"])
    seen = {}
    for _ in range(c["n"]):
        a, want, no = [], [], []
        if rng.uniform() < .5:
            s = [int(v) for v in rng.integers(50, 2000, 2)]
            a += ["--size", str(s[0]), str(s[1])]
        else:
            s = (640, 480)
        want.append(r"size %d\s*,\s*%d\s*;" % tuple(s))
        for k in "xy":
            if rng.uniform() < .5:
                v = [round(float(q), 3) for q in rng.normal(size=2) * 5]
                a += ["-" + k] + [str(q) for q in v]
                want.append(r"set %srange \[%s:%s\]" % (k, re.escape(str(v[0])), re.escape(str(v[1]))))
            else:
                no.append("set %srange" % k)
        u = "1:2"
        if rng.uniform() < .5:
            u = "%d:%d" % tuple(rng.integers(1, 9, 2))
            a += [str(rng.choice(["-u", "--using"])), u]
        want.append(r"plot '-' using %s " % u)
        if rng.uniform() < .3:
            a.append("--square"); want.append("set size ratio -1")
        else:
            no.append("ratio")
        grid = str(rng.choice(["", "x", "y", "xy"]))
        both = {"set grid ytics", "set grid xtics"}
        if grid:
            a += ["--grid", grid]
        L, Pt = rng.uniform() < .5, rng.uniform() < .5
        if L: a.append(str(rng.choice(["-l", "--lines"])))
        if Pt: a.append(str(rng.choice(["-p", "--points"])))
        want.append(r"lt %d pt %d" % (0 if Pt and not L else 1, 7 if Pt else 0))
        r = core.run([sys.executable, os.path.join(SD, "gpquick")] + a, d)
        R.case(("gpquick", tuple(x for x in a if x[0] == "-" and not x[1:2].isdigit())))
        R.evals += len(want)
        g = {q for q in both if q in r.out}
        seen.setdefault(grid, g)
        if len(g) != len(grid) or g != seen[grid] or seen.get("x", {1}) == seen.get("y", {2}):
            R.bad("gpquick:grid", "%s: grid lines %s" % (" ".join(a), sorted(g)))
        if "-x" not in a and "-y" not in a:      # gnuplot refuses to plot nothing
            pts = rng.normal(size=(20, 9))
            pts[:2] = [[-9] * 9, [9] * 9]
            o = core.run([sys.executable, os.path.join(SD, "gpquick")] + a + ["-o", "out.png"], d, inp="".join(" ".join("%.4f" % v for v in q) + "\n" for q in pts).encode())
            b = open(d + "/out.png", "rb").read() if os.path.exists(d + "/out.png") else b""
            if o.rc != 0 or b[:8] != b"\x89PNG\r\n\x1a\n" or struct.unpack(">II", b[16:24]) != tuple(s):
                R.bad("gpquick:image", "%s -o out.png: rc %s, %d bytes, %s" % (" ".join(a), o.rc, len(b), o.err[-300:]))
            R.count("images of gpquick")
            if b: os.unlink(d + "/out.png")
        miss = [w for w in want if not re.search(w, r.out)] + [w for w in no if w in r.out]
        if r.rc != 0 or miss:
            R.bad("gpquick", "%s: rc %s, the script differs in %s: %s %s" % (" ".join(a), r.rc, miss, r.out[-600:], r.err[-300:]))


def pipe(c, d, R):
    """the documented pipeline over a real step log"""
    rng = np.random.default_rng(c["seed"])
    sc = scen.scenario(rng, nb=1, steps=12)
    scen.write(sc, d)
    core.must_ok(core.run([c["vvflow"], "s.lua"], d), "vvflow")
    f = "stepdata_%s.h5" % "t"
    r = core.must_ok(core.run([c["vvxtract"], f, "time", "body00/force_holder"], d), "vvxtract")
    rows = [l.split() for l in r.out.splitlines() if l.strip() and not l.startswith("#")]
    for script in ("avg", "sd", "mavg", "drv", "ampl", "zeros"):
        for col in ("2", "3"):
            o = {"col": col}
            g = invoke(rng, script, r.out, o, d)
            got = [l for l in g.out.splitlines() if not l.startswith("#")]
            R.case(("pipe", script, col))
            if script in ("mavg", "drv"):
                want = [(v, e) for _, v, e in rowref(script, rows, o)]
                got = [l.split()[int(col) - 1] for l in got]
            else:
                want = ref(script, rows, o)
            R.evals += len(want)
            if g.rc != 0 or len(got) != len(want) or not all(close(a, *b) for a, b in zip(got, want)):
                R.bad("pipe-" + script, "vvxtract | vvawk.%s -v col=%s: %s instead of %s %s" % (script, col, got[:5], want[:5], g.err[-200:]))


def case(c, d, R):
    globals()[c["kind"]](c, d, R)


def main(chk):
    exe = {p: build.program(p, "rel") for p in ("vvflow", "vvxtract")}
    C = [dict(kind="awk", seed=[chk.seed, 34, i], n=60) for i in range(chk.n(80, 800))]
    C += [dict(kind="gp", seed=[chk.seed, 341, i], n=12) for i in range(chk.n(6, 40))]
    C += [dict(kind="pipe", seed=[chk.seed, 342, i], **exe) for i in range(chk.n(8, 60))]
    chk.run(case, C)


core.main(main, "C34", "distinct (script, options, table size, header) inputs whose whole output was recomputed exactly")
