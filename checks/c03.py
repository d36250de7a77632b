#!/usr/bin/env python3
import glob, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from vv import build, core, h5, scen
import c02

MODES = ["before", "torn", "after", "enospc", "eio", "short"]
PHASES = ["begin", "solve", "save", "preshed", "shed", "forces", "zero", "tree2", "eps", "conv", "diff", "move", "end"]

SAVE2 = """
local f = io.open('first', 'w') f:close()
S:save('a.h5')
S.re = 777; S.inf_g = 5
S.vort_list:append({9, 9, 1}, {8, 8, 2})
%s
io.stderr:write('saved\\n')
"""


def same_file(a, b):
    """Two HDF5 files written from the same state: equal up to the time stamps in them."""
    x, y = np.fromfile(a, np.uint8), np.fromfile(b, np.uint8)
    return len(x) == len(y) and int((x != y).sum()) <= 200


def exact(a, b, path=""):
    """None or what differs between two parsed files."""
    for k in sorted((set(a.attrs) | set(b.attrs)) - c02.SKIP):
        x, y = a.attrs.get(k), b.attrs.get(k)
        if x is None or y is None or isinstance(x, str) != isinstance(y, str) or (x != y if isinstance(x, str) else np.atleast_1d(x).tobytes() != np.atleast_1d(y).tobytes()):
            return "%s attribute %s is %s instead of %s" % (path, k, str(y)[:60], str(x)[:60])
    if isinstance(a, h5.Dataset) and (not isinstance(b, h5.Dataset) or a.data.tobytes() != b.data.tobytes()):
        return "%s holds other data" % path
    ca, cb = getattr(a, "children", {}), getattr(b, "children", {})
    if set(ca) != set(cb):
        return "%s: %s differ" % (path, sorted(set(ca) ^ set(cb)))
    for k in sorted(ca):
        m = None if isinstance(ca[k], h5.NamedType) else exact(ca[k], cb[k], path + "/" + k)
        if m:
            return m


def intact(R, key, what, ref, path):
    if not same_file(ref, path):
        R.bad(key, "%s: %s is incomplete (%d bytes, %d when complete)" % (what, os.path.basename(path), os.path.getsize(path), os.path.getsize(ref)))
        return False
    m = exact(h5.read(ref), h5.read(path))
    if m:
        R.bad(key, "%s: %s: %s" % (what, os.path.basename(path), m))
    R.count("snapshots compared")
    return not m


def fault(c, d, w, at, mode, cmd, log=True):
    """Run cmd in w with the fault; -> (result, path of the file hit or None)."""
    lf = w + ".log"
    if os.path.exists(lf):
        os.unlink(lf)
    env = {"LD_PRELOAD": c["shim"], "VVFAULT_LOG": lf}
    if at:
        env.update(VVFAULT_AT=str(at), VVFAULT_MODE=mode)
    r = core.run2(cmd, w, env=env)
    if r.timeout:
        raise core.Inconclusive("time-out")
    L = [l.split() for l in open(lf)] if os.path.exists(lf) else []
    os.path.exists(lf) and os.unlink(lf)
    hit = [l[1] for l in L if int(l[0]) == at] if at else [l[1] for l in L]
    return r, hit


def check_after(c, d, R, u, w, r, what, args, key, killed, names, full, hitname):
    """The state of directory w after the fault: snapshots intact, the run says so, and it can be resumed."""
    left = c02.snaps(w)
    for n in sorted(left):
        if n not in names:
            R.bad(key + ":extra", "%s: leaves %s, which the uninterrupted run does not write" % (what, n))
            return
        if not intact(R, key + ":snapshot", what, c02.snaps(u)[n], left[n]):
            return
    done = [n for n in names if n in left]
    if done != names[:len(done)]:
        R.bad(key + ":missing", "%s: snapshots %s are there but %s are not" % (what, done, sorted(set(names[:len(done)]) - set(done))))
        return
    if not killed:
        if r.rc < 0:
            R.bad(key + ":died", "%s: died with signal %d: %s" % (what, -r.rc, r.err[-200:]))
            return
        if r.rc == 0:
            if done != names:
                R.bad(key + ":silent", "%s: exit code 0 although %s are missing" % (what, sorted(set(names) - set(done))))
                return
            try:
                L = c02.rows(w + "/stepdata_t.h5")
            except h5.H5Error as e:
                R.bad(key + ":silent-log", "%s: exit code 0 but the step log can not be read (%s)" % (what, e))
                return
            c02.logs(R, key + ":silent-log", full, L, full["/time"][0, 0], what + " (exit code 0)")
            if R.viol:
                return
            R.count("faults without consequence")
        elif not r.err.strip():
            R.bad(key + ":mute", "%s: exit code %d without a message" % (what, r.rc))
            return
    if not done:
        return
    if key == "kill" and hitname in PHASES:
        # nothing was being written: the step log has been brought up to date with the snapshot
        t = h5.read(c02.snaps(u)[done[-1]]).attrs["time"]
        k = int((full["/time"][:, 0] < np.float32(t[0] / t[1])).sum())
        try:
            L = c02.rows(w + "/stepdata_t.h5")
        except h5.H5Error as e:
            R.bad(key + ":log", "%s: step log can not be read (%s)" % (what, e))
            return
        if any(len(x) < k for x in L.values()):
            R.bad(key + ":log", "%s: step log has %s rows, there were %d steps before %s" % (what, sorted({len(x) for x in L.values()}), k, done[-1]))
            return
        c02.logs(R, key + ":log", {m: x[:k] for m, x in full.items()}, {m: x[:k] for m, x in L.items()}, full["/time"][0, 0], what + ", before the resume")
        R.count("step-log rows after a kill", k)
        if R.viol:
            return
    # resumed where it was left; an unreadable step log may be refused but then has to be the only obstacle
    n = done[-1]
    q = core.run2([c["vv"], *args, "results_t/" + n], w)
    if q.timeout or q.rc < 0:
        R.bad(key + ":resume-died", "%s: resuming from %s %s: %s" % (what, n, "hangs" if q.timeout else "dies with signal %d" % -q.rc, q.err[-200:]))
        return
    fresh = False
    if q.rc and os.path.exists(w + "/stepdata_t.h5"):
        R.count("step logs refused")
        os.unlink(w + "/stepdata_t.h5")
        fresh = True
        q = core.run2([c["vv"], *args, "results_t/" + n], w)
    if q.rc:
        R.bad(key + ":resume-refused", "%s: resuming from %s: exit code %d %s" % (what, n, q.rc, q.err[-300:]))
        return
    G = c02.snaps(w)
    if sorted(G) != names:
        R.bad(key + ":resume-files", "%s: resumed from %s there are %s" % (what, n, sorted(G)))
        return
    for m in names[names.index(n):]:
        c02.compare(R, key + ":resume", "%s, resumed from %s, %s:" % (what, n, m), h5.read(c02.snaps(u)[m]), h5.read(G[m]))
        if R.viol:
            return
    # the step log is not crash-safe: its rows written before may be lost, those of the resumed run are right
    t = h5.read(c02.snaps(u)[n]).attrs["time"]
    try:
        L = c02.rows(w + "/stepdata_t.h5")
    except h5.H5Error:
        R.count("step logs damaged by the kill")
        return
    if not fresh:
        own = int((full["/time"][:, 0] >= np.float32(t[0] / t[1])).sum())
        if any(len(x) < own for x in L.values()):
            R.bad(key + ":resume-rows", "%s, resumed from %s: step log has %s rows, the resumed run made %d" % (what, n, sorted({len(x) for x in L.values()}), own))
            return
        L = {k: x[len(x) - own:] for k, x in L.items()}
    c02.logs(R, key + ":resume-log", full, L, t[0] / t[1], "%s, resumed from %s" % (what, n))
    R.count("resumed runs")


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    kw = dict(steps=int(rng.integers(4, 8)), save_every=int(rng.choice([1, 2])), start=int(rng.integers(-2, 4)) if rng.uniform() < .4 else 0)
    if c["nb"] is not None:
        kw["nb"] = c["nb"]
    sc = scen.scenario(rng, **kw)
    args = ("--profile",) if rng.uniform() < .4 else ()
    u = d + "/u"
    os.mkdir(u)
    scen.write(sc, u)
    sig = sc.meta.sig
    R.sample = sig
    if c["kind"] == "phase":
        core.must_ok(core.run2([c["mon"], *args, "s.lua"], u), "vvflow")
        hits = None
    else:
        r, hits = fault(c, d, u, 0, "", [c["vv"], *args, "s.lua"])
        core.must_ok(r, "vvflow")
        if len(hits) < 5:
            raise core.Inconclusive("the shim saw only %d writes" % len(hits))
    names = sorted(c02.snaps(u))
    if len(names) < 2:
        return R.count("too short scenarios")
    full = c02.rows(u + "/stepdata_t.h5")
    nsteps = len(full["/time"])
    if c["kind"] == "phase":
        pts = [(s, p) for s in range(nsteps) for p in PHASES]
    else:
        pts = [(k, m) for k in range(1, len(hits) + 1) for m in MODES]
    if len(pts) > c["points"]:
        pts = [pts[i] for i in sorted(rng.choice(len(pts), c["points"], replace=False))]
    for at, mode in pts:
        w = d + "/w"
        shutil.rmtree(w, ignore_errors=True)
        os.mkdir(w)
        scen.write(sc, w)
        if c["kind"] == "phase":
            r = core.run2([c["mon"], *args, "s.lua"], w, env={"VVMON_KILL": "%d:%s" % (at, mode)})
            if r.rc != -9:
                continue                  # a phase this scenario does not reach
            what, killed, hit = "killed at %s of step %d" % (mode, at), True, mode
        else:
            r, h = fault(c, d, w, at, mode, [c["vv"], *args, "s.lua"])
            if not h:
                raise core.Inconclusive("write %d not reached" % at)
            hit = os.path.basename(h[0]).replace(".tmp", "")
            killed = mode in ("before", "torn", "after")
            if killed and r.rc != -9:
                raise core.Inconclusive("not killed")
            what = "%s at write %d (%s)" % ({"before": "killed before", "torn": "killed halfway", "after": "killed after"}.get(mode, mode), at, hit)
        check_after(c, d, R, u, w, r, what, args, "kill" if killed else mode, killed, names, full, hit)
        R.case("%s|%s|%s" % (sig, mode, "log" if "stepdata" in hit else "snapshot" if c["kind"] != "phase" else "phase"))
        if R.viol:
            return


def resave(c, d, R):
    """A script saves over an existing file, or a run is resumed over its own snapshots: the old file stays until the new one is complete."""
    rng = np.random.default_rng(c["seed"])
    sc = scen.scenario(rng, steps=3, vort=30)
    w = d + "/w"

    def prepare(tail):
        shutil.rmtree(w, ignore_errors=True)
        os.mkdir(w)
        scen.write(sc, w, tail)
    prepare(SAVE2 % "S:save('b.h5')")
    r, hits = fault(c, d, w, 0, "", [c["vv"], "s.lua"])
    core.must_ok(r, "vvflow")
    for f in "ab":
        shutil.copy(w + "/%s.h5" % f, d + "/%s.h5" % f)
    first = sum(os.path.basename(h).startswith("a.h5") for h in hits)
    pts = [(k, m) for k in range(1, len(hits) + 1) for m in MODES]
    if len(pts) > c["points"]:
        pts = [pts[i] for i in sorted(rng.choice(len(pts), c["points"], replace=False))]
    for at, mode in pts:
        prot = rng.uniform() < .5
        prepare(SAVE2 % ("print(pcall(S.save, S, 'a.h5'))" if prot else "S:save('a.h5')"))
        r, _ = fault(c, d, w, at, mode, [c["vv"], "s.lua"])
        what = "S:save over an existing file, %s at write %d of %d+%d" % (mode, at, first, len(hits) - first)
        p = w + "/a.h5"
        ok = [f for f in "ab" if os.path.exists(p) and same_file(d + "/%s.h5" % f, p)]
        killed = mode in ("before", "torn", "after")
        R.case("resave|%s|%s" % (mode, "second" if at > first else "first"))
        if os.path.exists(p) and not ok:
            R.bad("resave", "%s: a.h5 is neither the old nor the new file (%d bytes)" % (what, os.path.getsize(p)))
            return
        if ok:
            m = exact(h5.read(d + "/%s.h5" % ok[0]), h5.read(p))
            if m:
                R.bad("resave", "%s: a.h5: %s" % (what, m))
                return
        if at > first and not ok:
            R.bad("resave:lost", "%s: a.h5 is gone" % what)
            return
        if killed:
            continue
        if r.rc < 0 or (r.rc and not r.err.strip()):
            R.bad("resave:died", "%s: exit code %d %s" % (what, r.rc, r.err[-200:]))
            return
        if mode == "short" and (r.rc or ok != ["b"]):
            R.bad("resave:short", "%s: exit code %d, the file is %s" % (what, r.rc, ok))
            return
        said = ("false" in r.out) if prot and at > first else r.rc != 0
        if not said and (ok != ["b"]):
            R.bad("resave:silent", "%s: no error although a.h5 is %s" % (what, {"a": "the old file"}.get((ok or [""])[0], "missing")))
            return


def dispatch(c, d, R):
    (resave if c["kind"] == "resave" else case)(c, d, R)


def main(chk):
    shim = os.path.join(build.BUILD if hasattr(build, "BUILD") else os.path.join(core.VERIF, "_build"), "wfault-%d.so" % os.getpid())
    os.makedirs(os.path.dirname(shim), exist_ok=True)
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(core.VERIF, "harness/wfault.c")], check=True)
    try:
        b = dict(vv=build.program("vvflow", "rel"), mon=build.program("vvflow", "mon"), shim=shim)
        C = []
        for i in range(chk.n(16, 120)):
            C.append(dict(kind="write", seed=[chk.seed, 3, i], nb=[None, 1, 2, 0][i % 4], points=chk.n(70, 100000), **b))
        for i in range(chk.n(8, 60)):
            C.append(dict(kind="phase", seed=[chk.seed, 33, i], nb=[None, 1, 2, 0][i % 4], points=chk.n(30, 100000), **b))
        for i in range(chk.n(4, 30)):
            C.append(dict(kind="resave", seed=[chk.seed, 333, i], points=chk.n(60, 100000), **b))
        chk.run(dispatch, C)
    finally:
        os.unlink(shim)


if __name__ == "__main__":
    core.main(main, "C03", "distinct (scenario, kind of fault, file or phase hit) executions whose snapshots, exit and resumed run were judged")
