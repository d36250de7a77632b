#!/usr/bin/env python3
"""Set-ups that can not be simulated or saved are refused, everything next to them is accepted."""
import glob, math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, scen
from vv.tree import diff, flat, results

inf, nan = math.inf, math.nan
COMP = ("r.x", "r.y", "o")
TINY, HUGE = 5e-324, 1.7976931348623157e308


def lua(v):
    return "(0/0)" if v != v else "(1/0)" if v == inf else "(-1/0)" if v == -inf else "%.17g" % v


def vec(a):
    return "{%s}" % ", ".join(lua(x) for x in a)


def scenario(rng, **kw):
    return scen.scenario(rng, nb=int(rng.integers(1, 4)), steps=int(rng.integers(2, 5)), start=0, **kw)


def nbodies(d):
    return open(d + "/s.lua").read().count("S.body_list:insert(")


# ------------------------------------------------------------------ simulate()
def sim_faults(rng, nb):
    b = "b%d" % rng.integers(1, nb + 1)
    out = [("re", "local o = S.re; S.re = %s" % lua(float(rng.choice([0.0, -0.0, -1.0, -TINY, -inf, nan]))), "S.re = o"),
           ("dt", "local o = S.dt; S.dt = %s" % rng.choice(["0", '"0/5"', "-0.1", '"-1/7"']), "S.dt = o"),
           ("special", "local o = %s.special_segment; %s.special_segment = #N%s + %d" % (b, b, b, rng.choice([0, 1, 5, 1000])), "%s.special_segment = o" % b),
           ("special", "local o = %s.special_segment; %s.special_segment = %d" % (b, b, -int(rng.integers(1, 9))), "%s.special_segment = o" % b),
           ("outside", "local o = %s.root; local x = gen_cylinder{R=1, N=20}; %s.root = x" % (b, b), "%s.root = o" % b)]
    if nb >= 2:
        k = list(rng.permutation(nb) + 1)[:int(rng.integers(2, nb + 1))]
        ring = [(k[i], k[(i + 1) % len(k)]) for i in range(len(k))]
        out.append(("cycle", "local o = {%s}; " % ", ".join("b%d.root or 0" % i for i, _ in ring) + "; ".join("b%d.root = b%d" % r for r in ring),
                    "; ".join("b%d.root = o[%d] ~= 0 and o[%d] or nil" % (r[0], i + 1, i + 1) for i, r in enumerate(ring))))
    return out


def refuse_sim(c, d, R):
    rng = np.random.default_rng(c["seed"])
    sc = scenario(rng)
    for p in ("good", "bad"):
        os.mkdir(d + "/" + p)
    scen.write(sc, d + "/good", "simulate()\n")
    core.must_ok(core.run2([c["vv"], "s.lua"], d + "/good"), "vvflow")
    want = results(d + "/good")
    nb = nbodies(d + "/good")
    name, fault, undo = sim_faults(rng, nb)[int(rng.integers(5 + (nb > 1)))]
    if name == "dt":
        undo = re.search(r"(?m)^S\.dt = .*$", open(d + "/good/s.lua").read()).group(0)
    if "#N" in fault:
        # the number of segments is in the file the good run left
        f = sorted(glob.glob(d + "/good/results_t/*.h5"))
        body = "body%02d" % (int(fault.split("#Nb")[1][0]) - 1)
        if not f:
            return
        n = len(h5.read(f[0]).children[body].data)
        fault = fault.replace("#N" + fault.split("#N")[1][:2], str(n))
    p = d + "/bad"
    tail = "do\n%s\nlocal ok, e = pcall(simulate)\nprint(ok, e)\nlocal p = io.popen('ls -A')\nprint('files', (p:read('*a'):gsub('%%s+', ' '))); p:close()\n%s\nend\nsimulate()\n" % (fault, undo)
    scen.write(sc, p, tail)
    r = core.run2([c["vv"], "s.lua"], p)
    dead = core.died(r)
    if dead or r.rc != 0:
        R.bad("refuse:" + name, "%s: refused set-up and its correction ended with %s %s %s" % (fault, r.rc, dead, r.err[-200:]))
        return
    out = r.out.splitlines()
    if not out or not out[0].startswith("false\t") or len(out[0]) < 8:
        R.bad("refuse:" + name, "%s is not refused: %r" % (fault, r.out[:200]))
        return
    if re.sub(r"body\d+\.txt ?", "", out[1].split("\t")[1]).strip() != "s.lua":
        R.bad("refuse:" + name, "the refused set-up %s left files: %s" % (fault, out[1]))
    got = results(p)
    bad = diff(want, got)
    if bad:
        R.bad("refuse:after", "after %s was refused and corrected the run differs in %s" % (fault, bad[:3]))
    # without pcall: the program fails
    scen.write(sc, p, fault + "\nsimulate()\n")
    r = core.run2([c["vv"], "s.lua"], p)
    if core.died(r) or r.rc == 0 or not r.err.strip():
        R.bad("refuse:status", "%s: the program ended with %s, message %r" % (fault, r.rc, r.err[-200:]))
    R.count("set-ups refused by simulate()")
    R.case("sim|%s|%d" % (name, nb))


# ------------------------------------------------------------------ saving and loading
def up(x):
    return float(np.nextafter(x, inf))


def body_values(rng, bad):
    """member -> value of one body; bad: {(member, component)} that are impossible."""
    V = {"spring_const": [float(rng.choice([inf, 0.0, -0.0, TINY, 1.0, HUGE])) for _ in range(3)],
         "spring_damping": [float(rng.choice([0.0, -3.0, HUGE, -HUGE, TINY, .5])) for _ in range(3)]}
    lo, hi = [], []
    for _ in range(3):
        x = float(rng.choice([nan, 0.0, -1.0, .3, -inf, 1e300]))
        lo.append(x)
        hi.append(float(rng.choice([nan, up(x) if x == x and x > -inf else 0.0, inf])))
    V["collision_min"], V["collision_max"] = lo, hi
    for m, i in bad:
        if m == "spring_const":
            V[m][i] = float(rng.choice([nan, -1.0, -TINY, -inf, -HUGE]))
        elif m == "spring_damping":
            V[m][i] = float(rng.choice([nan, inf, -inf]))
        else:
            x = float(rng.choice([0.0, -0.0, 1.5, inf, -inf, -2.0]))
            V["collision_max"][i] = x
            V["collision_min"][i] = float(rng.choice([x, inf, up(x) if abs(x) < inf else inf]))
    return V


def pick(rng):
    allc = [(m, i) for m in ("spring_const", "spring_damping", "collision_max") for i in range(3)]
    return [allc[k] for k in rng.permutation(9)[:1 if rng.uniform() < .7 else int(rng.integers(2, 5))]]


def named(text, bad):
    return [(m, i) for m, i in bad if m + "." + COMP[i] in text]


def refuse_save(c, d, R):
    rng = np.random.default_rng(c["seed"])
    sc = scenario(rng, motion="fixed")
    scen.write(sc, d, "")
    nb = nbodies(d)
    ib = int(rng.integers(1, nb + 1))
    bad = pick(rng)
    L = []
    for i in range(1, nb + 1):
        V = body_values(rng, bad if i == ib else [])
        # NaN limits are 'no limit': only the limits given are set
        L += ["b%d.%s = %s" % (i, m, vec(V[m])) for m in V]
    # the first file is the one that may not be touched
    tail = "S:save('f.h5')\n" + "\n".join(L) + "\nprint(pcall(S.save, S, 'f.h5'))\nprint(pcall(S.save, S, 'g.h5'))\n"
    scen.write(sc, d, tail.replace("S:save('f.h5')\n", "S:save('f.h5'); os.rename('f.h5', 'k.h5'); local a = io.open('k.h5', 'rb'); local b = io.open('f.h5', 'wb'); b:write(a:read('*a')); b:close()\n"))
    r = core.run2([c["vv"], "s.lua"], d)
    dead = core.died(r)
    if dead or r.rc != 0:
        R.bad("save:status", "a refused save ended the program: %s %s %s" % (r.rc, dead, r.err[-300:]))
        return
    out = r.out.splitlines()
    for k, ln in enumerate(out[:2]):
        if not ln.startswith("false\t"):
            R.bad("save:accepted", "body with impossible %s is saved: %s" % (bad, [x for x in L if x.startswith("b%d." % ib)]))
        elif not named(ln, bad):
            R.bad("save:message", "message %r names none of %s" % (ln, bad))
    if open(d + "/f.h5", "rb").read() != open(d + "/k.h5", "rb").read():
        R.bad("save:touched", "a refused save changed the file")
    left = sorted(x for x in set(os.listdir(d)) - {"s.lua", "f.h5", "k.h5"} if not re.match(r"body\d+\.txt$", x))
    if left:
        R.bad("save:left", "a refused save left %s" % left)
    # a simulation fails at its first save
    p = d + "/run"
    os.mkdir(p)
    scen.write(sc, p, "\n".join(L) + "\nsimulate()\n")
    r = core.run2([c["vv"], "s.lua"], p)
    dead = core.died(r)
    if dead or r.rc == 0 or not named(r.err, bad):
        R.bad("save:simulate", "simulation of impossible %s ended with %s %s, message %r" % (bad, r.rc, dead, r.err[-200:]))
    left = glob.glob(p + "/results_*/*")
    if left:
        R.bad("save:simulate", "a simulation that can not be saved left %s" % left)
    R.count("saves refused", 3)
    R.case("save|%s|%d of %d" % (sorted(bad), ib, nb))


def accept(c, d, R):
    rng = np.random.default_rng(c["seed"])
    sc = scenario(rng, motion="fixed")
    scen.write(sc, d, "")
    nb = nbodies(d)
    VV = [body_values(rng, []) for _ in range(nb)]
    L = ["b%d.%s = %s" % (i + 1, m, vec(V[m])) for i, V in enumerate(VV) for m in V]
    scen.write(sc, d, "\n".join(L) + "\nS:save('f.h5'); S:load('f.h5'); S:save('g.h5')\n")
    r = core.run2([c["vv"], "s.lua"], d)
    dead = core.died(r)
    if dead or r.rc != 0 or r.err.strip():
        R.bad("accept", "possible values %s: %s %s %r" % (VV, r.rc, dead, r.err[-300:]))
        return
    for f in ("f.h5", "g.h5"):
        t = h5.read(d + "/" + f)
        for i, V in enumerate(VV):
            for m in V:
                got = t.children["body%02d" % i].attrs[m]
                if np.asarray(got).tobytes() != np.asarray(V[m]).tobytes() and not all(a == b or (a != a and b != b) for a, b in zip(got, V[m])):
                    R.bad("accept:value", "%s %s = %s is saved as %s" % (f, m, V[m], got))
    R.count("possible set-ups accepted")
    R.case("accept|%d" % nb)


def load(c, d, R):
    rng = np.random.default_rng(c["seed"])
    sc = scenario(rng, motion="fixed")
    scen.write(sc, d, "S:save('f.h5')\n")
    core.must_ok(core.run2([c["vv"], "s.lua"], d), "vvflow")
    nb = nbodies(d)
    ib = int(rng.integers(nb))
    body = "body%02d" % ib
    bad = pick(rng) if rng.uniform() < .8 else []
    V = body_values(rng, bad)
    odd = {}
    T = h5.read(d + "/f.h5").children
    names = [k for k in T if k.startswith("body")]
    roots = {k: T[k].attrs.get("root_body") for k in names}
    with h5.Editor(d + "/f.h5") as e:
        for m in V:
            e.set_attr(body, m, tuple(V[m]), h5.TVEC3)
        if rng.uniform() < .4:
            odd["boundary_condition"] = int(rng.choice([2, 3, 77, 2**31, 2**32 - 1]))
        if rng.uniform() < .4:
            odd["heat_condition"] = int(rng.choice([4, 5, 255, 2**31, 2**32 - 1]))
        for k, v in odd.items():
            e.set_attr(body, k, v, "u4")
        if rng.uniform() < .4:
            odd["root"] = str(rng.choice(["body77", "nobody", "vort", "BODY00", body + "0"]))
            e.set_attr(body, "root_body", odd["root"], "vstr")
    open(d + "/l.lua", "w").write("S:load('f.h5')\nlocal b = S.body_list[%d]\n" % (ib + 1) + """
for _, m in ipairs{'spring_const', 'spring_damping', 'collision_min', 'collision_max'} do print(string.format('%.17g %.17g %.17g', b[m].r.x, b[m].r.y, b[m].o)) end
print(b.root)
print(pcall(S.save, S, 'g.h5'))
""")
    r = core.run2([c["vv"], "l.lua"], d)
    dead = core.died(r)
    if dead or r.rc != 0:
        R.bad("load:status", "loading %s %s ended with %s %s %s" % (V, odd, r.rc, dead, r.err[-300:]))
        return
    miss = [x for x in bad if x not in named(r.err, bad)]
    if miss:
        R.bad("load:warning", "no warning of %s in %r" % (miss, r.err[-400:]))
    said = [(m, i) for m in ("spring_const", "spring_damping", "collision_max") for i in range(3) if m + "." + COMP[i] in r.err]
    if set(said) - set(bad):
        R.bad("load:warning", "warnings of %s, which are possible: %s" % (sorted(set(said) - set(bad)), V))
    for k, words in (("boundary_condition", "boundary condition"), ("heat_condition", "heat condition"), ("root", odd.get("root", "root"))):
        if (k in odd) != (words in r.err):
            R.bad("load:warning", "%s = %s, messages %r" % (k, odd.get(k), r.err[-400:]))
    out = r.out.splitlines()
    W = {m: [inf if m == "spring_const" and x < 0 else x for x in V[m]] for m in V}
    for m, ln in zip(V, out):
        got = [float(x) for x in ln.replace("-nan", "nan").split()]
        if not all(a == b or (a != a and b != b) for a, b in zip(got, W[m])):
            R.bad("load:value", "%s = %s of the file is loaded as %s" % (m, V[m], got))
    if ("root" in odd or roots[body] in (None, "")) != (out[4] == "nil"):
        R.bad("load:root", "root %s (%s of the file) is loaded as %s" % (roots[body], odd.get("root"), out[4]))
    still = [x for x in bad if not (x[0] == "spring_const" and V["spring_const"][x[1]] < 0)]
    if (out[5].split("\t")[0] == "true") != (not still):
        R.bad("load:save", "saving the loaded %s: %s" % (V, out[5]))
    if not still:
        a, b = flat(h5.read(d + "/f.h5")), flat(h5.read(d + "/g.h5"))
        skip = {"/%s@%s" % (body, k) for k in list(V) + list(odd) + ["root_body"]}
        rest = [k for k in diff(a, b) if k not in skip]
        if rest:
            R.bad("load:rest", "loaded and saved again, the file differs in %s" % rest[:4])
        B = h5.read(d + "/g.h5").children[body].attrs
        for k in ("boundary_condition", "heat_condition"):
            if k in odd and B[k] != 0:
                R.bad("load:condition", "%s = %d of the file is loaded as %s" % (k, odd[k], B[k]))
    R.count("files with impossible values loaded")
    R.case("load|%s|%s" % (sorted(bad), sorted(odd)))


def case(c, d, R):
    globals()[c["kind"]](c, d, R)


def main(chk):
    vv = build.program("vvflow", "rel")
    q = dict(refuse_sim=(250, 2500), refuse_save=(300, 4000), accept=(120, 1500), load=(400, 5000))
    chk.run(case, [dict(kind=k, vv=vv, seed=[chk.seed, 40, n, i]) for n, k in enumerate(q) for i in range(chk.n(*q[k]))])


core.main(main, "C40", "distinct (kind of impossible value, body, component) set-ups refused, accepted or loaded")
