"""C31: the work of every other check, repeated on sanitizer builds and under memcheck; only their reports count here."""
import importlib, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "lib"), HERE]
import numpy as np
from vv import build, core

# check -> (cases on the sanitizer builds, cases under memcheck) of a quick run
WORK = {"c01": (16, 2), "c02": (8, 1), "c04": (32, 2), "c05": (20, 2), "c06": (16, 2), "c07": (16, 2), "c08": (16, 2), "c09": (16, 2), "c10": (16, 2),
        "c11": (16, 2), "c12": (16, 2), "c13": (16, 2), "c14": (16, 2), "c15": (16, 2), "c16": (16, 2), "c17": (8, 0), "c18": (16, 2), "c19": (16, 2),
        "c20": (10, 2), "c21": (10, 2), "c22": (24, 4), "c23": (24, 2), "c24": (8, 1), "c25": (8, 1), "c26": (8, 1), "c27": (24, 2), "c28": (8, 1),
        "c35": (16, 2), "c36": (16, 2), "c37": (8, 1), "c38": (8, 1)}
SAN = {"rel": "asan", "mon": "amon", "asan": "asan"}
ASAN = "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:strict_init_order=1"
TABLE = {}
_run = core.run


class Collect:
    """Stands in for the framework: keeps the cases of a check."""

    def __init__(self, seed, quick):
        self.seed, self.quick, self.jobs, self.viol, self.counts, self.inconclusive = seed, quick, [], [], {}, []
        self.tier = "quick" if quick else "thorough"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def run(self, fn, cases, workers=0):
        self.jobs += [(fn, c) for c in cases]


def collect(name, seed, quick, variants):
    """The cases of a check, on other builds of the programs."""
    got, col = [], Collect(seed, quick)
    keep = core.main, build.program, build.harness
    core.main = lambda fn, *a, **k: got.append(fn)
    build.program = lambda n, v="rel": keep[1](n, variants[v])
    build.harness = lambda n, v="rel", *a: keep[2](n, variants[v], *a)
    try:
        sys.modules.pop(name, None)
        m = importlib.import_module(name)
        (got[0] if got else m.main)(col)
    finally:
        core.main, build.program, build.harness = keep
    return col.jobs


def report(err):
    m = core.SAN.search(err)
    if m:
        f = re.search(r"#\d+ \S+ in ([A-Za-z_~][\w:~<>]*)[^\n]*?/(?:libvvhd|utils)/", err)
        g = re.search(r"/((?:libvvhd|utils)/[\w/.]+):\d+:\d+: runtime error", err)
        return m.group(1), (f.group(1) if f else g.group(1) if g else "?")
    return None


def watch(R, vg):
    """core.run that looks at every execution of the programs under test."""
    def run(cmd, cwd, env=None, timeout=120, inp=None, mem_gb=6, asan=False):
        cmd = [str(x) for x in cmd]
        if not cmd[0].startswith(build.BUILD):
            return _run(cmd, cwd, env=env, timeout=timeout, inp=inp, mem_gb=mem_gb, asan=asan)
        exe, log = os.path.basename(cmd[0]).split(".")[0], None
        e = dict(env or {})
        if vg:
            log = os.path.join(str(cwd), "vg.%d.log" % R.counts.get("executions under memcheck", 0))
            cmd = ["valgrind", "-q", "--error-exitcode=66", "--child-silent-after-fork=yes", "--log-file=" + log.replace("%", "%%"), *cmd]
        else:
            e["ASAN_OPTIONS"] = ASAN
            e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        r = _run(cmd, cwd, env=e, timeout=timeout * (8 if vg else 4), inp=inp, asan=True)
        R.count("executions under memcheck" if vg else "executions of sanitizer builds")
        R.count("executions of " + exe)
        R.evals += 1
        if vg and os.path.exists(log):
            t = open(log, errors="replace").read()
            os.unlink(log)
            if r.rc == 66 and "==" in t:
                kind = re.sub(r"==\d+== ", "", t.strip().split("\n")[0])
                R.bad("memcheck:%s:%s" % (exe, re.sub(r"[^A-Za-z]+", "-", kind)[:50]), "%s: %s\n%s" % (exe, kind, t[:1500]))
        x = report(r.err)
        if x and not r.timeout:
            R.bad("san:%s:%s:%s" % (exe, re.sub(r"[^A-Za-z]+", "-", x[0])[:50], x[1]), "%s: %s\n%s" % (exe, x[0], r.err[:1800]))
        elif r.rc < 0 and not r.timeout:
            R.bad("signal:%s:%d" % (exe, -r.rc), "%s killed by signal %d: %s" % (exe, -r.rc, r.err[-800:]))
        return r
    return run


STALE = """
S.vort_list:append({1, 2, 3})
local o = S.vort_list[1]
for i = 1, 100 do S.vort_list:append({i, i, i}) end
o.g = 2
print("alive", S.vort_list[1].g)
"""


def stages(rng):
    """A program of several runs in one process, with the set-up changed between them."""
    s, nb, dt = [], 0, int(rng.choice([20, 25, 40]))
    s.append('S.caption = "t"; S.dt = "1/%d"; S.re = %s; S.inf_vx = "1"' % (dt, rng.choice(["100", "inf", "400"])))
    s.append("local k, B, old = 0, {}, {}")
    s.append("local function run(n) if #S.vort_list + #S.body_list == 0 then return end S.finish = (k+n)/%d; simulate(); k = k+n+1 end" % dt)
    ops = []
    for _ in range(int(rng.integers(6, 16))):
        o = str(rng.choice(["run", "run", "run", "insert", "insert", "erase", "vort", "clear", "save", "load", "psi", "gc", "table", "re", "move", "sink", "streak", "dump", "root", "clearb"]))
        ops.append(o)
        if o == "run":
            s.append("run(%d)" % rng.integers(0, 4))
        elif o == "insert":
            from vv import scen
            g, _, _ = scen.body(rng, 0, kind=str(rng.choice(["cyl", "semicyl", "ellipse", "plate", "para"])), files={}, n=int(rng.integers(16, 40)))
            s.append("B[#B+1] = %s; B[#B]:move_r({%g, %g})" % (g, 4.0 * nb, rng.uniform(-1, 1)))
            s.append({0: "", 1: 'B[#B].holder_vo = "sin(t)"', 2: "B[#B].spring_const = {1, inf, 0}; B[#B].spring_damping = {0, 0, .1}",
                      3: "B[#B].slip = true", 4: "B[#B].special_segment = 3", 5: "B[#B].spring_const = {0, 0, 0}; B[#B].density = 2"}[int(rng.integers(6))])
            s.append("S.body_list:insert(B[#B])")
            nb += 1
        elif o == "erase":
            s.append("if #S.body_list > 0 then local b = S.body_list[%d %% #S.body_list + 1]; old[#old+1] = b; old[#old+1] = b.holder_pos; S.body_list:erase(b) end" % rng.integers(9))
        elif o == "vort":
            s.append("for i=1,%d do S.vort_list:append({%g+.3*i, 2.5+.01*i, .01}) end" % (rng.integers(1, 60), rng.uniform(-3, 0)))
        elif o == "clear":
            s.append("S.%s:clear()" % rng.choice(["vort_list", "sink_list", "streak_source_list", "streak_domain_list"]))
        elif o == "clearb":
            s.append("if %s then S.body_list:clear() end" % str(rng.uniform() < .3).lower())
        elif o == "save":
            s.append('if #S.vort_list + #S.body_list > 0 then S:save("x.h5"); have = true end')
        elif o == "load":
            s.append('if have then S:load("x.h5"); k = math.floor(S.time*%d+1.5) end' % dt)
        elif o == "psi":
            s.append("if #S.body_list > 0 then local x = S:XStreamfunction({%g, %g}) end" % tuple(rng.uniform(-3, 6, 2)))
        elif o == "gc":
            s.append("collectgarbage()")
        elif o == "table":
            s.append("for _, l in ipairs{S.vort_list, S.sink_list, S.streak_domain_list} do local n = 0; for i, e in ipairs(l) do n = n + #e:tostring() end; l:totable() end; for _, b in ipairs(S.body_list) do b:totable() end")
        elif o == "re":
            s.append("S.re = %s" % rng.choice(["50", "inf", "1000"]))
        elif o == "move":
            s.append("if #S.body_list > 0 then local b = S.body_list[1]; b:move_r({%g, 0}); b:move_d(%g); b:get_moi_cofm(); b:totable() end" % (rng.uniform(-.1, .1), rng.uniform(-30, 30)))
        elif o == "sink":
            s.append("S.sink_list:append({%g, 4, %g})" % (rng.uniform(-2, 4), rng.uniform(-.3, .3)))
        elif o == "streak":
            s.append('S.streak_source_list:append({%g, 2, 1}); S.dt_streak = "1/%d"' % (rng.uniform(-2, 0), dt))
        elif o == "dump":
            s.append("for _, e in ipairs(old) do local t = e.r and e:totable() end; for _, b in ipairs(B) do local t = tostring(b) .. b.label .. b.holder_pos:tostring() .. tostring(b.holder_vo) end")
        elif o == "root":
            s.append("if #S.body_list > 1 then S.body_list[1].root = S.body_list[2] end")
    return "\n".join(s) + "\nrun(2)\nprint('done')\n", ops


def direct(c, d, R):
    rng = np.random.default_rng(c["seed"])
    run = watch(R, c["vg"])
    if c["kind"] == "stale":
        open(os.path.join(d, "s.lua"), "w").write(STALE)
        r = run([c["vvflow"], "s.lua"], d)
        for i, (k, m) in enumerate(R.viol):
            R.viol[i] = ("script:stale-reference:" + k, m)
        R.sample = "reference to a particle kept while its list grows"
        R.case("stale reference", 0)
        return
    if c["kind"] == "large":
        n = int(10 ** rng.uniform(5.45, 5.6))
        open(os.path.join(d, "s.lua"), "w").write("""
b=gen_cylinder{R=1,N=%d} S.body_list:insert(b) S.caption="large"
for i=1,20000 do S.vort_list:append({i*1e-3,2+i%%7,1e-3}) end
S:save("a.h5") S:load("a.h5") S:save("b.h5") assert(#S.vort_list==20000) print("done")""" % n)
        r = run([c["vvflow"], "s.lua"], d)
        if not R.viol and not r.timeout and (r.rc or "done" not in r.out):
            R.bad("large", "saving a body of %d segments ends with %s: %s" % (n, r.rc, r.err[-300:]))
        R.count("segments of large bodies", n)
        R.case("large|%d" % (n // 50000), 0)
        return
    txt, ops = stages(rng)
    open(os.path.join(d, "s.lua"), "w").write(txt)
    r = run([c["vvflow"], "s.lua"], d, env={"VVFLOW_SAVE_MATRIX": "1"} if rng.uniform() < .1 else None)
    if not r.timeout and r.rc == 0 and "done" in r.out:
        R.count("programs of several runs finished")
    elif not r.timeout and not R.viol and "is not in body_list" not in r.err:
        R.bad("script:fail", "a valid program ended with %s: %s\n%s" % (r.rc, r.err[-500:], txt))
    R.case("stages|" + ",".join(sorted(set(ops))), 0)


def case(c, d, R):
    if "kind" in c:
        return direct(c, d, R)
    fn, k = TABLE[c["t"]][c["i"]]
    own = core.Res()
    core.run = watch(R, c["t"][1] == "vg")
    try:
        fn(k, d, own)
    except core.Viol:
        pass                        # judged by the check this case belongs to
    except core.Inconclusive:
        pass
    except Exception as e:          # its oracle may choke on what a killed program left
        if not R.viol:
            R.count("oracle of another check failed")
            R.sample = "%s: %r" % (c["t"][0], e)
    finally:
        core.run = _run
    for s in set(own.sigs):
        R.sigs.append("%s|%s|%s" % (c["t"][0], c["t"][1], s))
    R.count("cases of %s" % c["t"][0].upper())


def main(chk):
    jobs = []
    for name, (a, b) in WORK.items():
        for mode, k in (("san", a), ("vg", b)):
            k *= chk.n(1, 12)
            if not k:
                continue
            J = collect(name, chk.seed + 3100, chk.quick, SAN if mode == "san" else {x: x for x in SAN})
            rng = np.random.default_rng([chk.seed, 31, int(name[1:])])
            idx = [int(i) for i in rng.permutation(len(J))[:k]]
            TABLE[name, mode] = J
            jobs += [dict(t=(name, mode), i=i) for i in idx]
    rng = np.random.default_rng([chk.seed, 31])
    vv = {True: build.program("vvflow", "rel"), False: build.program("vvflow", "asan")}
    jobs.append(dict(t=("stale", ""), kind="stale", vvflow=vv[False], vg=False, seed=[0]))
    jobs += [dict(t=("large", ""), kind="large", vvflow=vv[i % 2 == 0], vg=False, seed=[chk.seed, 312, i]) for i in range(chk.n(4, 24))]
    jobs += [dict(t=("stages", ""), kind="stages", vvflow=vv[i % 10 == 0], vg=i % 10 == 0, seed=[chk.seed, 311, i]) for i in range(chk.n(120, 2500))]
    jobs = [jobs[i] for i in rng.permutation(len(jobs))]
    only = os.environ.get("C31_ONLY")
    chk.run(case, [j for j in jobs if not only or j["t"][0] in only.split(",")])


if __name__ == "__main__":
    core.main(main, "C31", "distinct cases of the other checks executed on a sanitizer build or under memcheck")
