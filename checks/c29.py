"""C29: the result does not depend on the number of threads nor on their schedule."""
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import c02
from vv import build, core, fieldio, h5, omp, plot, scen, snap

VARIANTS = snap.SIM + [dict(nb=2, motion=["spring", "free"], collide=True), dict(nb=3, roots=True), dict(motion=["late", "fixed"]), dict(nb=1, viscous=True, vort=300),
                       dict(nb=0, vort=300, streak=True, sinks=True), dict(nb=2, flow="osc", streak=True, sinks=True, vort=30)]


def text(R, key, what, a, b):
    """Two texts of numbers."""
    A, B = a.split(), b.split()
    if len(A) != len(B):
        R.bad(key + ":size", "%s: %d words instead of %d" % (what, len(B), len(A)))
        return
    for x, y in zip(A, B):
        if x != y:
            try:
                if abs(float(x) - float(y)) <= 1e-6 * max(abs(float(x)), 1e-3):
                    continue
            except ValueError:
                pass
            R.bad(key, "%s: %s instead of %s" % (what, y, x))
            return


def state(d):
    """Everything a run left behind."""
    s = {}
    for p in glob.glob(d + "/**/*", recursive=True):
        n = os.path.relpath(p, d)
        if os.path.isdir(p) or n in ("s.lua", "st") or n.startswith("body"):
            continue
        s[n] = p
    return s


def same(R, key, what, u, v, skip=()):
    """Outputs in directory v as those in directory u."""
    a, b = state(u), state(v)
    if set(a) != set(b):
        R.bad(key + ":files", "%s: files %s differ" % (what, sorted(set(a) ^ set(b))[:5]))
    for n in sorted(set(a) & set(b)):
        R.evals += 1
        if n.startswith("stepdata"):
            x, y = c02.rows(a[n]), c02.rows(b[n])
            if set(x) != set(y):
                R.bad(key + ":log", "%s: %s of %s differ" % (what, sorted(set(x) ^ set(y)), n))
            for k in set(x) & set(y):
                fin = x[k][np.isfinite(x[k])]
                ok, m = c02.near(x[k], y[k], float(np.abs(fin).max(initial=0)))
                if not ok:
                    R.bad(key + ":log", "%s, %s %s: %s" % (what, n, k, m))
        elif n.endswith(".h5"):
            c02.compare(R, key + ":snapshot", what + ", " + n, h5.read(a[n]), h5.read(b[n]))
        else:
            text(R, key + ":text", what + ", " + n, open(a[n], errors="replace").read(), open(b[n], errors="replace").read())


def tars(R, key, what, u, v):
    a, b = plot.archive(u), plot.archive(v)
    if set(a) != set(b):
        R.bad(key + ":members", "%s: members %s differ" % (what, sorted(set(a) ^ set(b))))
    for n in sorted(set(a) & set(b)):
        R.evals += 1
        if a[n] == b[n]:
            continue
        if n.startswith("map_"):
            x, y = fieldio.unpack(a[n]), fieldio.unpack(b[n])
            for p, q in zip(x, y):
                p, q = np.asarray(p, float), np.asarray(q, float)
                if p.shape != q.shape:
                    R.bad(key + ":mesh", "%s: mesh of %s %s instead of %s" % (what, n, q.shape, p.shape))
                    break
                e = np.abs(p - q)
                e[np.isnan(p) & np.isnan(q)] = 0
                e[p == q] = 0
                if not np.all(e <= 1e-5 * np.abs(p[np.isfinite(p)]).max(initial=1e-6)):
                    k = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
                    R.bad(key + ":" + n, "%s: %s at %s is %.9g instead of %.9g" % (what, n, k, q[k], p[k]))
                    break
        elif b"\0" not in a[n]:
            text(R, key + ":" + n, what + ", " + n, a[n].decode("utf8", "replace"), b[n].decode("utf8", "replace"))


def ways(c, rng):
    """-> (name, variant, environment) of the runs compared with the first one of the same variant."""
    r = [("1 thread", "rel", {"OMP_NUM_THREADS": "1"})]
    for n in rng.choice([2, 3, 4, 5, 8, 16], 2, replace=False):
        r.append(("%d threads" % n, "rel", {"OMP_NUM_THREADS": str(n), "OMP_DYNAMIC": "false"}))
    r.append(("1 thread of the shim", "tmon", omp.env(1, 0, 0)))
    for n in rng.choice([2, 3, 5, 8], 2, replace=False):
        ch, sd = int(rng.choice([1, 1, 2, 7])), int(rng.integers(1, 1 << 30))
        r.append(("%d threads of the shim, chunk %d, pauses %d" % (n, ch, sd), "tmon", omp.env(int(n), ch, sd)))
    return r


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    v = dict(VARIANTS[int(rng.integers(len(VARIANTS)))])
    v.update(steps=int(rng.integers(3, 9)), nseg=int(rng.integers(18, 40)), save_every=int(rng.integers(1, 3)))
    v.setdefault("start", 0)
    sc = scen.scenario(rng, **v)
    tail = ""
    dense = rng.uniform() < .3
    if dense:    # enough particles in one leaf to be shared in the real chunks
        x, y = rng.uniform(8, 9), rng.uniform(-1, 1)
        tail += "math.randomseed(%d)\nfor i=1,%d do S.vort_list:append({%.3f+.02*math.random(), %.3f+.02*math.random(), 1e-4}) end\n" % (
            int(rng.integers(1 << 30)), int(rng.integers(800, 2500)), x, y)
    streaks = rng.uniform() < .4    # many in one leaf, and far from its middle
    if streaks:
        x, y, w = rng.uniform(1, 6), rng.uniform(-1, 1), rng.choice([.02, .1, .5])
        tail += "math.randomseed(%d)\nfor i=1,%d do S.streak_domain_list:append({%.3f+%.3f*math.random(), %.3f+%.3f*math.random(), 1}) end\n" % (
            int(rng.integers(1 << 30)), int(rng.choice([40, 300, 2000])), x, w, y, w)
    if rng.uniform() < .3:
        tail += "math.randomseed(%d)\nfor i=1,%d do S.sink_list:append({6+math.random(), -.5+math.random(), .02*math.random()-.01}) end\n" % (
            int(rng.integers(1 << 30)), int(rng.integers(5, 40)))
    tail += 'local f=io.open("psi.txt", "w") for i=1,3 do f:write(S:XStreamfunction({i+.5, 1.7}), " ") end f:close()\nsimulate()\n'
    args = []
    if rng.uniform() < .4:
        args.append("--profile")
        tail = 'S.dt_profile = S.dt_save\n' + tail
    sens = "".join("%.4f %.4f\n" % (rng.uniform(-2, 6), rng.choice([-1, 1]) * rng.uniform(1.4, 3)) for _ in range(3)) if rng.uniform() < .4 else None
    W, first = ways(c, rng), {}
    for i, (name, var, env) in enumerate(W):
        u = os.path.join(d, "r%d" % i)
        os.mkdir(u)
        scen.write(sc, u, tail=tail)
        a = list(args)
        if sens:
            open(u + "/sensors", "w").write(sens)
            a += ["--sensors", "sensors"]
        e = dict(env)
        if var == "tmon":
            e["GOMPSHIM_STATS"] = os.path.join(u, "st")
        core.must_ok(core.run2([c["vvflow", var], *a, "s.lua"], u, env=e, timeout=240, mem_gb=12), "vvflow")
        if var == "tmon":
            for n, (en, s, k) in omp.read_stats(u + "/st", c["names", "vvflow"]).items():
                R.count("shim: region entries", en)
                R.count("shim: region entries shared by threads", s)
                R.count("shim: chunks handed out", k)
        R.count("runs of vvflow")
        if var not in first:
            first[var] = u
            continue
        same(R, "sim", "%s, %s" % (sc.meta.sig, name), first[var], u)
        R.case("%s|%s|%s" % (sc.meta.sig, name.split(", pauses")[0], dense), 0)
        if R.viol:
            return
    fs = sorted(glob.glob(os.path.join(first["rel"], "results_t", "*.h5")))
    if not fs:
        return
    path = fs[int(rng.integers(len(fs)))]
    s = plot.load(path, c["vvflow", "rel"], d)
    for o in (["-G"], ["-Ux" if rng.uniform() < .5 else "-Uy"], ["-P"]):
        rect = snap.window(rng, s)
        if len(s.src) > 3 and rng.uniform() < .6:
            lo, hi = s.src[:, :2].min(0) - .1, s.src[:, :2].max(0) + .1
            rect = [lo[0], hi[0], lo[1], hi[1]]
        ref = str(rng.choice(["o", "f", "b"] if s.bodies else ["o", "f"]))
        opts = o + ["-S", "-V", "-B", "--res-hi", str(int(rng.integers(3, 60))), "--res-lo", str(int(rng.integers(3, 60))), "--ref-S", ref]
        first = {}
        for i, (name, var, env) in enumerate(ways(c, rng)):
            u = os.path.join(d, "p%s%d" % (o[0], i))
            os.mkdir(u)
            out = u + "/o.tar"
            cmd = [c["vvplot", var], "--tar", "-x", "%.9g,%.9g" % tuple(rect[:2]), "-y", "%.9g,%.9g" % tuple(rect[2:]), *opts, path, "o.tar"]
            core.must_ok(core.run2(cmd, u, env=env, timeout=240, mem_gb=12), "vvplot")
            R.count("runs of vvplot")
            if var not in first:
                first[var] = out
                continue
            tars(R, "plot", "%s %s, %s" % (sc.meta.sig, " ".join(opts), name), first[var], out)
            R.case("%s|%s|%s" % (sc.meta.sig, o[0], name.split(", pauses")[0]), 0)
            if R.viol:
                return
    R.sample = "%s, %s" % (sc.meta.sig, "; ".join(w[0] for w in W))


def main(chk):
    exe = {(p, v): build.program(p, v) for p in ("vvflow", "vvplot") for v in ("rel", "tmon")}
    exe["names", "vvflow"] = omp.regions(exe["vvflow", "tmon"])
    chk.run(case, [dict(seed=[chk.seed, 29, i], **{}) | exe for i in range(chk.n(40, 500))])


if __name__ == "__main__":
    core.main(main, "C29", "distinct (scenario or plot, thread count, chunk size) runs compared with the single-thread run")
