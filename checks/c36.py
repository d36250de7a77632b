#!/usr/bin/env python3
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, scen

SKIP = {"time_local", "git_rev", "git_info", "git_diff"}


def bits(v):
    if isinstance(v, np.ndarray):
        return (str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, (tuple, list)):
        return tuple(bits(x) for x in v)
    if isinstance(v, float):
        return np.float64(v).tobytes()
    return v


def flat(n, p="", out=None):
    out = {} if out is None else out
    if isinstance(n, h5.NamedType):
        return out
    for k, v in n.attrs.items():
        if k not in SKIP:
            out[p + "@" + k] = bits(v)
    if isinstance(n, h5.Dataset):
        out[p] = bits(np.asarray(n.data))
    for k, v in getattr(n, "children", {}).items():
        flat(v, p + "/" + k, out)
    return out


def results(d):
    """Everything a run left behind."""
    out = {}
    for f in sorted(glob.glob(d + "/results_*/*") + glob.glob(d + "/stepdata_*") + glob.glob(d + "/velocity_*")):
        n = os.path.relpath(f, d)
        if n.endswith(".h5"):
            for k, v in flat(h5.read(f)).items():
                out[n + ":" + k] = v
            out[n] = None
        else:
            out[n] = open(f, "rb").read()
    return out


def same(c, d, R):
    rng = np.random.default_rng(c["seed"])
    kw = dict(steps=int(rng.integers(4, 12)), collide=rng.uniform() < .3)
    sc = scen.scenario(rng, **kw)
    opts = []
    if rng.uniform() < .5:
        opts.append("--profile")
    if rng.uniform() < .3:
        opts.append("--progress")
    if rng.uniform() < .2:
        opts += ["--profile", "--no-profile"]
    sens = rng.uniform() < .4
    if sens:
        opts += ["-s", "../sens"]
        open(d + "/sens", "w").write("0.1 2\n-1 0.5\n3 3\n")
    ways = ["direct", "file", "load", "dofile", "reload"]
    got = {}
    setup = d + "/direct/setup.h5"
    for w in ways:
        p = d + "/" + w
        os.mkdir(p)
        if w == "direct":
            scen.write(sc, p, "S:save('setup.h5')\nsimulate()\n")
            cmd = ["s.lua"]
        elif w == "file":
            cmd = [setup if rng.uniform() < .5 else "../direct/setup.h5"]
        elif w == "load":
            open(p + "/l.lua", "w").write("S:load('../direct/setup.h5'); simulate()\n")
            cmd = ["l.lua"]
        elif w == "dofile":
            scen.write(sc, p, "")
            open(p + "/l.lua", "w").write("dofile('s.lua') simulate()\n")
            cmd = ["l.lua", "an argument"]
        else:
            # what was there before the load does not matter
            open(p + "/l.lua", "w").write("S.re = 3; S.caption = 'x'; S.inf_g = 2; S.gravity = {1,1}; S.inf_vy = 't'; S.dt_streak = 0.01; S.vort_list:append({1,2,3})\n"
                                          "S.body_list:insert(gen_cylinder{R=1,N=8}); S.time = 3; S.streak_source_list:append({1,1,1})\n"
                                          "S:load('../direct/setup.h5'); S:save('again.h5'); S:load('again.h5'); simulate()\n")
            cmd = ["l.lua"]
        a = list(opts) + cmd if rng.uniform() < .7 else cmd + list(opts)
        r = core.must_ok(core.run2([c["vv"], *a], p), "vvflow")
        if r.out:
            R.bad("output", "unexpected output %r" % r.out[:100])
        if bool(r.err) != ("--progress" in opts):
            R.bad("progress", "%s printed %r" % (opts, r.err[-100:]))
        got[w] = results(p)
    if sens and "velocity_t" not in got["direct"]:
        R.bad("sensors", "no sensor output")
    prof = any(":/body" in k and k.endswith("/pressure") for k in got["direct"])
    if prof != ("--profile" in opts and "--no-profile" not in opts) and sc.meta.nb:
        R.bad("profile", "options %s, but profiles are %s in the log" % (opts, prof))
    for w in ways[1:]:
        a, b = got["direct"], got[w]
        if not set(k for k in a if ":" not in k) == set(k for k in b if ":" not in k):
            R.bad("same:files:" + w, "%s: files %s" % (w, sorted({k for k in set(a) ^ set(b) if ":" not in k})[:6]))
        diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        if diff:
            R.bad("same:%s:%s" % (w, diff[0].split("/")[-1].split("@")[-1][:30]), "%s differs from the direct run in %d places: %s" % (w, len(diff), diff[:6]))
        R.case("%s|%s|%s" % (w, sc.meta.sig, " ".join(opts)), len(a))
    R.count("values compared", sum(len(x) for x in got.values()))
    R.sample = "%s %s" % (sc.meta.sig, opts)


WORDS = ["bar", "", " ", "a b", "ünïcode ☃", "x=1", "10", "1e5", "'q'", '"q"', "\\n", "a\nb", "*", "$HOME", "%d", "/abs/path", "[[x]]", "q" * 3000]


def args(c, d, R):
    rng = np.random.default_rng(c["seed"])
    name = str(rng.choice(["a.lua", "./a.lua", "a b.lua", d + "/a.lua"]))
    open(os.path.join(d, name), "w").write("local f = io.open('out', 'wb')\nfor i = 0, #arg do f:write(string.format('%d:%d:', i, #arg[i]), arg[i]) end f:write('end', tostring(arg[#arg+1]), tostring(arg[-1])) f:close()\n")
    w = [str(x) for x in rng.choice(WORDS, int(rng.integers(0, 12)))]
    cmd, want = [], [name] + list(w)
    k = int(rng.integers(3))
    if k == 0:
        cmd = [name] + w
    elif k == 1:
        w += [str(x) for x in rng.choice(["-x", "--help", "-", "--", "-1", "--profile", "-s"], int(rng.integers(1, 5)))]
        want = [name] + w
        cmd = ["--", name] + w
    else:
        # options may be anywhere
        cmd = [name] + w
        for o in ("--profile", "--progress", "--no-progress"):
            if rng.uniform() < .6:
                cmd.insert(int(rng.integers(len(cmd) + 1)), o)
    r = core.must_ok(core.run2([c["vv"], *cmd], d), "vvflow")
    got = open(d + "/out", "rb").read()
    exp = b"".join(b"%d:%d:" % (i, len(x.encode())) + x.encode() for i, x in enumerate(want)) + b"endnilnil"
    if got != exp:
        R.bad("args", "the script got %r instead of %r" % (got[:300], exp[:300]))
    R.case("args|%d|%d" % (k, len(w)))


FAIL = [("error('Boo', 0)", "Boo"), ("error('with place')", "with place"), ("local x = = 2", "unexpected symbol"), ("S.nothing = 1", "nothing"), ("S.re = 'x'", "re"),
        ("nofunction()", "nofunction"), ("S.dt = 0.1; S.re = 0; simulate()", "re"), ("S.dt = 0.1; S.re = -1; simulate()", "re"), ("S.re = 1; S.dt = -0.1; simulate()", "dt"),
        ("S:load('none.h5')", "none.h5"), ("load_body('none')", "none"), ("error({})", None), ("error()", None), ("S:save('/none/x.h5')", "none"),
        ("S.re=1; S.dt = 0.1; S.finish = 1; local a, b = gen_cylinder{R=1,N=9}, gen_cylinder{R=1,N=9}; a.root = b; S.body_list:insert(a); simulate()", "root"),
        ("require('no.such.module')", "no.such.module"), ("coroutine.wrap(function() error('in coroutine') end)()", "in coroutine")]


def status(c, d, R):
    """The exit code tells success from failure."""
    vv = c["vv"]
    for k, (txt, msg) in enumerate(FAIL):
        open(d + "/f.lua", "w").write("io.open('before', 'w'):close()\n" if not txt.startswith("local x = =") else "")
        open(d + "/f.lua", "a").write(txt + "\nio.open('after', 'w'):close()\n")
        r = core.run2([vv, "f.lua"], d)
        dead = core.died(r)
        if dead or r.rc == 0 or (msg is not None and (not r.err.strip() or msg not in r.err)) or os.path.exists(d + "/after"):
            R.bad("status:script", "script %r ended with %s (%s), message %r" % (txt, r.rc, dead, r.err[-200:]))
        R.case("fail|%d" % k)
    for code in (0, 1, 3, 77, 255):
        open(d + "/f.lua", "w").write("os.exit(%d)" % code)
        r = core.run2([vv, "f.lua"], d)
        if r.rc != code:
            R.bad("status:exit", "os.exit(%d) gave %s" % (code, r.rc))
        R.case("exit|%d" % code)
    for txt in ("", "return 5", "return nil", "return 'x'", "#!/usr/bin/env vvflow\nprint(1)", "-- nothing", "pcall(error, 'caught')"):
        open(d + "/f.lua", "w").write(txt)
        r = core.run2([vv, "f.lua"], d)
        if r.rc != 0 or r.err:
            R.bad("status:success", "script %r ended with %s: %s" % (txt, r.rc, r.err[-200:]))
        R.case("ok|" + txt)
    ok = "S.re=inf; S.dt=0.1; S.finish=0.2; S.dt_save=0.1; S.caption='t'; S.vort_list:append({0,0,1}); S.vort_list:append({1,0,1});"
    open(d + "/ok.lua", "w").write(ok + "simulate()")
    os.mkdir(d + "/h")
    open(d + "/h/mk.lua", "w").write(ok + "S:save('ok.h5'); S.re = 0; S:save('bad.h5')")
    core.must_ok(core.run2([vv, "mk.lua"], d + "/h"), "vvflow")
    b = open(d + "/h/ok.h5", "rb").read()
    open(d + "/h/short.h5", "wb").write(b[:len(b) // 2])

    def places(n, what):
        """Results that can not be written: the run fails and says so."""
        p = d + "/p%s%d" % (what, n)
        os.mkdir(p)
        if n == 0:
            open(p + "/results_t", "w").close()
        elif n == 1:
            os.mkdir(p + "/stepdata_t.h5")
        elif n == 2:
            os.symlink("/dev/full", p + "/stepdata_t.h5")
        elif n == 3:
            os.mkdir(p + "/results_t")
            os.mkdir(p + "/results_t/000001.h5")
        return p
    for n in range(4):
        for what, f in (("lua", d + "/ok.lua"), ("h5", d + "/h/ok.h5")):
            r = core.run2([vv, f], places(n, what))
            dead = core.died(r)
            if dead or r.rc == 0 or not r.err.strip():
                R.bad("status:unwritable", "results that can not be written (%d, %s): the run ended with %s %s, message %r" % (n, what, r.rc, dead, r.err[-200:]))
            R.case("unwritable|%d|%s" % (n, what))
    for f, good in (("h/ok.h5", True), ("h/bad.h5", False), ("h/short.h5", False), ("none.lua", False), ("h", False)):
        r = core.run2([vv, f], d)
        dead = core.died(r)
        if dead or (r.rc == 0) != good or bool(r.err.strip()) == good:
            R.bad("status:file", "%s ended with %s %s: %r" % (f, r.rc, dead, r.err[-200:]))
        R.case("file|" + f)
    for a, rc in ((["-h"], 0), (["--help"], 0), (["-v"], 0), (["--version"], 0), ([], 1), (["--nope", "ok.lua"], 1), (["-x"], 1), (["-s"], 1), (["--profile"], 1), (["ok.lua", "--nope"], 1)):
        r = core.run2([vv, *a], d)
        if r.rc != rc or bool(r.out.strip()) != (rc == 0) or bool(r.err.strip()) != (rc != 0):
            R.bad("status:options", "vvflow %s ended with %s, output %r, message %r" % (a, r.rc, r.out[:80], r.err[:80]))
        R.case("options|%s" % a)


def case(c, d, R):
    globals()[c["kind"]](c, d, R)


def main(chk):
    vv = build.program("vvflow", "rel")
    C = [dict(kind="status", vv=vv)]
    C += [dict(kind="same", vv=vv, seed=[chk.seed, 36, i]) for i in range(chk.n(120, 1400))]
    C += [dict(kind="args", vv=vv, seed=[chk.seed, 366, i]) for i in range(chk.n(150, 1500))]
    chk.run(case, C)


core.main(main, "C36", "distinct (entry point, scenario, options) runs compared bit for bit, argument lists and exit codes")
