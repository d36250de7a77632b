"""C30: no data race in any parallel region, decided by ThreadSanitizer on a runtime whose synchronisation it sees."""
import glob, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
from vv import build, core, omp, plot, scen, snap

SIM = ["Matrix::solveUsingInverseMatrix", "Matrix::transpose", "MConvectiveFast::fill_matrix", "MConvectiveFast::process_all_lists"]
PLOT = ["XVorticity::evaluate", "XVelocity::evaluate", "XStreamfunction::evaluate", "XPressure::evaluate"]
VARIANTS = snap.SIM + [dict(nb=2, motion=["spring", "free"], collide=True), dict(nb=3, roots=True), dict(nb=1, viscous=True, vort=300),
                       dict(nb=0, vort=300, streak=True, sinks=True), dict(nb=2, flow="osc", streak=True, sinks=True, vort=30),
                       dict(nb=1, sinks=True), dict(nb=0, vort=30, sinks=True)]


def place(err):
    """The two accesses of a report, as function names."""
    f = re.findall(r"#0 ([A-Za-z_~][\w:~<>]*)", err)
    return "/".join(dict.fromkeys(f[:2]))


def judge(R, r, what, c):
    R.evals += 1
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", r.err)
    if m:
        R.bad("race:" + m.group(1).strip().replace(" ", "-"), "%s: %s between %s\n%s" % (what, m.group(1).strip(), place(r.err), r.err[:1500]))
        return False
    if "FATAL: ThreadSanitizer" in r.err:
        raise core.Inconclusive("ThreadSanitizer could not start: " + r.err[:200])
    core.must_ok(r, what.split()[0])
    return True


def stats(R, path, names):
    for n, (e, s, k) in omp.read_stats(path, names).items():
        n = n.split("#")[0]
        R.count("entries of " + n, e)
        R.count("entries shared by threads, " + n, s)
        R.count("chunks of work", k)
        R.count("parallel regions entered", e)


def window(rng, s):
    rect = snap.window(rng, s, body=True)
    if len(s.src) > 10:                      # each of many sinks is a gap in some cell
        lo, hi = s.src[:, :2].min(0) - .1, s.src[:, :2].max(0) + .1
        return [lo[0], hi[0], lo[1], hi[1]]
    if len(s.src) and rng.uniform() < .7:    # around a sink
        x, y = s.src[int(rng.integers(len(s.src))), :2]
        w = rng.uniform(.2, 2)
        rect = [x - w, x + w * rng.uniform(.3, 1), y - w * rng.uniform(.3, 1), y + w]
    return rect


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    v = dict(VARIANTS[int(rng.integers(len(VARIANTS)))])
    v.update(steps=int(rng.integers(2, 7)), nseg=int(rng.integers(18, 30)), save_every=1)
    v.setdefault("start", 0)
    sc = scen.scenario(rng, **v)
    dense = rng.uniform() < .3
    tail = ""
    if dense:    # enough particles in one leaf for the real chunk size to be shared
        k = int(rng.integers(600, 1500))
        x, y = rng.uniform(8, 9), rng.uniform(-1, 1)
        tail = "math.randomseed(%d)\nfor i=1,%d do S.vort_list:append({%.3f+.02*math.random(), %.3f+.02*math.random(), 1e-4}) end\n" % (int(rng.integers(1 << 30)), k, x, y)
    if rng.uniform() < .4:
        tail += "math.randomseed(%d)\nfor i=1,%d do S.sink_list:append({6+math.random(), -.5+math.random(), .02*math.random()-.01}) end\n" % (int(rng.integers(1 << 30)), int(rng.integers(20, 80)))
    scen.write(sc, d, tail=tail + "for i=1,3 do S:XStreamfunction({i, .3}) end\nsimulate()\nS:XStreamfunction({1, .1})\n")
    th = int(rng.choice([2, 3, 4, 8]))
    ch = 0 if dense else int(rng.choice([1, 1, 2, 0]))
    sd = int(rng.integers(1, 1 << 30))
    st = os.path.join(d, "st")
    what = "vvflow %s, %d threads, chunk %d" % (sc.meta.sig, th, ch)
    ok = judge(R, core.run([c["vvflow"], "s.lua"], d, env=omp.env(th, ch, sd, st, True), timeout=400, asan=True), what, c)
    stats(R, st, c["names"]["vvflow"])
    R.case("%s|%d|%d|%s" % (sc.meta.sig, th, ch, dense), 0)
    fs = sorted(glob.glob(os.path.join(d, "results_t", "*.h5")))
    if not ok or not fs:
        return
    path = fs[int(rng.integers(len(fs)))]
    s = plot.load(path, c["rel"], d)
    for o in (["-G"], ["-Ux" if rng.uniform() < .5 else "-Uy"], ["-P"]):
        rect = window(rng, s)
        ref = str(rng.choice(["o", "f", "b"] if s.bodies else ["o", "f"]))
        opts = o + ["-S", "-V", "-B", "--res-hi", str(int(rng.integers(3, 20))), "--res-lo", str(int(rng.integers(3, 20))), "--ref-S", ref]
        if o == ["-P"]:
            opts += ["--ref-P", str(rng.choice(["s", ref]))]
        th, ch, sd = int(rng.choice([2, 3, 4, 8])), int(rng.choice([1, 1, 3, 0])), int(rng.integers(1, 1 << 30))
        st = os.path.join(d, "st" + o[0])
        what = "vvplot %s of %s, %d threads, chunk %d" % (" ".join(opts), sc.meta.sig, th, ch)
        cmd = [c["vvplot"], "--tar", "-x", "%.9g,%.9g" % tuple(rect[:2]), "-y", "%.9g,%.9g" % tuple(rect[2:]), *opts, path, "out.tar"]
        if not judge(R, core.run(cmd, d, env=omp.env(th, ch, sd, st, True), timeout=400, asan=True), what, c):
            return
        stats(R, st, c["names"]["vvplot"])
        R.case("%s|%s|%s|%d|%d" % (sc.meta.sig, o[0], ref, th, ch), 0)
    R.sample = what


def main(chk):
    exe = {p: build.program(p, "tsan") for p in ("vvflow", "vvplot")}
    names = {p: omp.regions(e) for p, e in exe.items()}
    exe["rel"] = build.program("vvflow", "rel")
    chk.run(case, [dict(seed=[chk.seed, 30, i], names=names, **exe) for i in range(chk.n(72, 900))])
    for n in set(x.split("#")[0] for v in names.values() for x in v.values()):
        if not chk.viol and not chk.counts.get("entries shared by threads, " + n):
            chk.inconclusive.append("parallel region of %s was never shared by two threads" % n)


if __name__ == "__main__":
    core.main(main, "C30", "distinct (scenario or plot, threads, chunk size) runs under ThreadSanitizer")
