#!/usr/bin/env python3
"""What a script does not set has its neutral value."""
import math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, scen, snap
from vv.tree import diff, flat, results

inf, nan = math.inf, math.nan
# member: (neutral value in a script, in a file (attribute, value))
SPACE = {"caption": ('""', ("caption", None)), "re": ("inf", ("re", inf)), "inf_g": ("0", ("inf_circulation", 0.0)), "inf_vx": ('""', ("inf_speed_x", None)), "inf_vy": ('""', ("inf_speed_y", None)),
         "gravity": ("{0, 0}", ("gravity", (0.0, 0.0))), "time": ("0", ("time", 0)), "dt": ("1", ("dt", 1)), "dt_save": ("0", ("dt_save", 0)), "dt_streak": ("0", ("dt_streak", 0)), "dt_profile": ("0", ("dt_profile", 0)),
         "finish": ("inf", ("time_to_finish", inf))}
V0, VI, VN = (0.0,) * 3, (inf,) * 3, (nan,) * 3
BODY = {"label": ('""', ("label", None)), "delta_pos": ("{0, 0, 0}", ("delta_position", V0)), "speed": ("{0, 0, 0}", ("speed_slae", V0)), "collision_min": ("{nan, nan, nan}", ("collision_min", VN)),
        "collision_max": ("{nan, nan, nan}", ("collision_max", VN)), "spring_const": ("{inf, inf, inf}", ("spring_const", VI)), "spring_damping": ("{0, 0, 0}", ("spring_damping", V0)), "holder_vx": ('""', ("speed_x", None)),
        "holder_vy": ('""', ("speed_y", None)), "holder_vo": ('""', ("speed_o", None)), "holder_mo": ('""', ("force_o", None)), "density": ("1", ("density", 1.0)), "bounce": ("0", ("bounce", 0.0)),
        "special_segment": ("0", ("special_segment_no", 0)), "slip": ("false", None), "root": ("nil", ("root_body", None))}
ZERO = {"speed_slae_prev": V0, "force_hydro": V0, "force_holder": V0, "friction_prev": V0, "fdt_dead": V0, "g_dead": 0.0, "boundary_condition": 0, "heat_condition": 0, "general_heat_const": 0.0, "general_slip": 0}
KINDS = ["cyl", "cyldl", "semicyl", "ellipse", "plate", "para", "poly", "savonius", "cavity", "box"]


def same(a, b):
    if b is None:
        return a in (None, "")
    if isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def check(R, what, attrs, table, extra=()):
    for m, (_, f) in table.items():
        if f is None:
            continue
        v = attrs.get(f[0])
        if m in ("time", "dt", "dt_save", "dt_streak", "dt_profile"):
            v = v[0] / v[1] if v[1] else nan
        if not same(v, f[1]):
            R.bad("value:" + m, "%s: %s is %s, nobody set it" % (what, m, v))
        R.evals += 1
    for k, w in dict(extra).items():
        if not same(attrs.get(k), w):
            R.bad("value:" + k, "%s: %s is %s, nobody set it" % (what, k, attrs.get(k)))
        R.evals += 1


GET = """
local function sv(v) if type(v) == 'number' then return string.format('%%.17g', v) elseif type(v) == 'userdata' then return v:tostring() else return tostring(v) end end
for _, m in ipairs{%s} do print(m, sv(%s[m])) end
"""


def fresh(c, d, R):
    """Values as saved and as read by the script, before and after another file was loaded."""
    rng = np.random.default_rng(c["seed"])
    after = bool(rng.integers(2))
    kinds = [str(k) for k in rng.permutation(KINDS)[:int(rng.integers(1, 4))]]
    os.mkdir(d + "/o")
    L = []
    if after:       # what was loaded and dropped leaves nothing behind
        path, _ = snap.make(rng, d + "/o", c["vv"], big=False)
        L.append("S:save('empty.h5'); S:load('%s'); S:load('empty.h5')" % path)
    for i, k in enumerate(kinds):
        sc = scen.scenario(rng, nb=1, kinds=[k])
        p = d + "/o/%d" % i
        os.mkdir(p)
        scen.write(sc, p, "")
        t = open(p + "/s.lua").read()
        m = re.search(r"(?m)^local b1 = (.*)$", t).group(1)
        m = re.sub(r"load_body\(['\"]([^'\"]*)['\"]\)", lambda x: "load_body('%s/%s')" % (p, x.group(1)), m)
        L.append("local b%d = %s\nS.body_list:insert(b%d)" % (i + 1, m, i + 1))
    L.append("S:save('f.h5')")
    L.append(GET % (", ".join("'%s'" % m for m in SPACE), "S"))
    for i in range(len(kinds)):
        L.append(GET % (", ".join("'%s'" % m for m in BODY), "b%d" % (i + 1)))
    L.append("for _, m in ipairs{'vort_list', 'sink_list', 'streak_source_list', 'streak_domain_list'} do print(m, #S[m]) end")
    open(d + "/f.lua", "w").write("\n".join(L))
    r = core.must_ok(core.run2([c["vv"], "f.lua"], d), "vvflow")
    T = h5.read(d + "/f.h5")
    what = "%s%s" % ("+".join(kinds), " after a load" if after else "")
    check(R, what, T.attrs, SPACE, {"inf_marker": (0.0, 0.0), "pr": 0.0})
    left = [k for k in T.children if not k.startswith(("body", "friction")) and isinstance(T.children[k], h5.Dataset) and len(T.children[k].data)]
    if left:
        R.bad("lists", "%s: nobody filled %s" % (what, left))
    slip = {"general_slip": 0}
    for i, k in enumerate(kinds):
        B = T.children.get("body%02d" % i)
        if B is None:
            R.bad("bodies", "%s: body %d is not saved" % (what, i))
            return
        z = {a: w for a, w in ZERO.items() if a in B.attrs}
        if k in ("poly", "box"):      # parts of them may slip
            z.pop("general_slip", None)
        check(R, what + ": " + k, B.attrs, BODY, z)
    out = [x.split("\t") for x in r.out.splitlines()]
    want = [(m, v[0]) for m, v in SPACE.items()] + [(m, v[0]) for _ in kinds for m, v in BODY.items()]
    if len(out) != len(want) + 4:
        R.bad("read", "%s: %d lines instead of %d" % (what, len(out), len(want) + 4))
        return
    nk = -1
    for (m, v), o in zip(want, out):
        nk += m == "label"
        if m == "slip" and kinds[nk] in ("poly", "box"):
            continue
        n = v.strip('"').replace("{", "").replace("}", "").replace(" ", "")
        g = re.sub(r"^TVec(3D)?\(|\)$", "", o[1]).replace("-nan", "nan").replace("+", "").replace(" ", "")
        try:
            ok = same(tuple(float(x) for x in g.split(",")), tuple(float(x) for x in n.split(",")))
        except ValueError:
            ok = n == g
        if o[0] != m or not ok:
            R.bad("read:" + m, "%s: %s reads %s instead of %s" % (what, m, o[1], v))
        R.evals += 1
    for o in out[-4:]:
        if o[1] != "0":
            R.bad("lists", "%s: #%s is %s" % (what, *o))
    R.count("bodies nobody set anything of", len(kinds))
    R.case("fresh|%s|%s" % (sorted(kinds), after))


def explicit(c, d, R):
    """A member that is given its neutral value behaves as one that is not mentioned."""
    rng = np.random.default_rng(c["seed"])
    sc = scen.scenario(rng, steps=int(rng.integers(2, 8)), nb=int(rng.integers(0, 4)), **[dict(), dict(), dict(sinks=True, vort=20), dict(streak=True), dict(gravity=True)][int(rng.integers(5))])
    for p in "ab":
        os.mkdir(d + "/" + p)
        scen.write(sc, d + "/" + p, "simulate()\n")
    t = open(d + "/a/s.lua").read()
    L, said = [], 0
    for m, (v, f) in SPACE.items():
        if not re.search(r"(?m)^S\.%s\b" % m, t) and m != "caption" and rng.uniform() < .7:
            L.append("S.%s = %s" % (m, {"inf_vx": '"0"', "inf_vy": '"0"'}.get(m, v)))
    for b in re.findall(r"(?m)^local (b\d+) =", t):
        for m, (v, f) in BODY.items():
            if m in ("label", "speed") or re.search(r"(?m)^%s\.%s\b" % (b, m), t) or rng.uniform() < .3:
                continue
            if m == "slip" and re.search(r"(?m)^local %s = (load_body|gen_chamber)" % b, t):
                continue
            L.append("%s.%s = %s" % (b, m, {"holder_vx": '"0"', "holder_vy": '"0"', "holder_vo": '"0"', "holder_mo": '"0"'}.get(m, v)))
    rng.shuffle(L)
    s = t.rindex("simulate()")
    open(d + "/b/s.lua", "w").write("%s%s\n%s" % (t[:s], "\n".join(L), t[s:]))
    for p in "ab":
        core.must_ok(core.run2([c["vv"], "s.lua"], d + "/" + p), "vvflow")
    A, B = results(d + "/a"), results(d + "/b")
    expr = ("inf_speed_x", "inf_speed_y", "speed_x", "speed_y", "speed_o", "force_o", "@dt_", "@time")
    bad = [k for k in diff(A, B) if not any(e in k.rsplit("/", 1)[-1] for e in expr)]
    if bad:
        R.bad("explicit", "with the neutral values spelled out (%s) %s differ" % ("; ".join(L), bad[:4]))
    R.count("neutral values spelled out", len(L))
    R.case("explicit|%d|%d" % (len(L), len(A)))


def case(c, d, R):
    globals()[c["kind"]](c, d, R)


def main(chk):
    vv = build.program("vvflow", "rel")
    q = dict(fresh=(200, 3000), explicit=(300, 4000))
    chk.run(case, [dict(kind=k, vv=vv, seed=[chk.seed, 42, n, i]) for n, k in enumerate(q) for i in range(chk.n(*q[k]))])


core.main(main, "C42", "distinct (kinds of bodies, before or after a load) fresh set-ups and spelled-out scenarios")
