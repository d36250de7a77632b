#!/usr/bin/env python3
"""C43: looking at a space, logging and reading tools change nothing."""
import hashlib, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, plot, scen, snap
from vv.tree import diff, flat, results

LOOK = """
local SM = {'caption','re','finish','inf_g','inf_vx','inf_vy','gravity','time','dt','dt_save','dt_streak','dt_profile','body_list','vort_list','sink_list','streak_source_list','streak_domain_list'}
local BM = {'label','holder_pos','delta_pos','speed','collision_min','collision_max','spring_const','spring_damping','holder_vx','holder_vy','holder_vo','holder_mo','density','bounce','special_segment','slip','root'}
local BG = {'get_slen','get_area','get_moi_cofm','get_moi_axis','get_cofm','get_axis'}
local seen = 0
local function touch(v)
  seen = seen + 1
  local s = tostring(v)
  if type(v) ~= 'userdata' then return end
  for _, m in ipairs{'tostring', 'totable', 'abs', 'abs2'} do
    local ok, f = pcall(function() return v[m] end)
    if ok and type(f) == 'function' then pcall(f, v) end
  end
  for _, m in ipairs{'x', 'y', 'r', 'd', 'o', 'g', 'v'} do
    local ok, w = pcall(function() return v[m] end)
    if ok and type(w) == 'userdata' then tostring(w.x); tostring(w.y) end
  end
  pcall(function() return v == v, #v end)
end
local looks = 0
function look(what, t0)
  now = t0
  looks = looks + 1
  if what:find('m') then for _, m in ipairs(SM) do touch(S[m]) end end
  if what:find('b') then
    for i = 1, #S.body_list do
      local b = S.body_list[i]
      for _, m in ipairs(BM) do touch(b[m]) end
      for _, m in ipairs(BG) do touch(b[m](b)) end
      b:totable()
      pcall(function() return #b, b[1], b == S.body_list[1], tostring(b) end)
    end
    for _, b in ipairs(S.body_list) do touch(b.label) end
  end
  if what:find('l') then
    for _, n in ipairs{'vort_list', 'sink_list', 'streak_source_list', 'streak_domain_list'} do
      local l = S[n]
      for _, o in ipairs(l) do touch(o) end
      for _, i in ipairs{1, #l, 0, #l + 1, -1} do pcall(function() touch(l[i]) end) end
      l:totable()
    end
  end
  if what:find('x') then
    for k = 1, 12 do touch(S:XStreamfunction({math.random()*8 - 3, math.random()*6 - 3})) end
    for i = 1, math.min(#S.vort_list, 5) do touch(S:XStreamfunction(S.vort_list[i].r)) end
    for i = 1, #S.body_list do touch(S:XStreamfunction(S.body_list[i]:get_cofm())) end
  end
  if what:find('e') then
    -- also near the steps before and after
    local ts = {0, 0.5, 1e3, -1}
    for k = -2, 4 do for _, q in ipairs{0, 1e-9, -1e-9, math.random() - 0.5} do ts[#ts+1] = now + (k + q)*DT end end
    for i = #ts, 2, -1 do local j = math.random(i) ts[i], ts[j] = ts[j], ts[i] end
    for k = 1, math.random(#ts) do
      local t = ts[k]
      pcall(function() touch(S.inf_vx:eval(t)) touch(S.inf_vy:eval(t)) end)
      for i = 1, #S.body_list do for _, m in ipairs{'holder_vx', 'holder_vy', 'holder_vo', 'holder_mo'} do pcall(function() touch(S.body_list[i][m]:eval(t)) end) end end
    end
  end
  if what:find('s') then S:save('look' .. looks .. '.h5') S:save('look0.h5') end
  if what:find('c') then collectgarbage() end
end
"""
END = "S:save('end.h5')\nio.open('seen', 'w'):write('done'):close()\n"
V = [dict(), dict(), dict(nb=1, vort=40), dict(nb=3, roots=True), dict(motion=["spring", "spring1", "free"], collide=True), dict(motion=["forced", "rot", "late"]),
     dict(nb=0, vort=80, sinks=True), dict(streak=True, sinks=True), dict(slip=True), dict(viscous=True, gravity=True, flow="osc"), dict(special=True, nb=2)]
KEEP = re.compile(r"@dt_save$")


def legs(rng, sc, w):
    """The simulation in one, two or three parts; what is looked at before, between and after."""
    m = sc.meta
    fin = m.t0 + (m.steps - 1) * m.dt[0] / m.dt[1]
    cuts = sorted(int(x) for x in rng.integers(1, max(m.steps - 1, 2), int(rng.integers(0, 3))))
    at = lambda c: m.t0 + c * m.dt[0] / m.dt[1]
    out = [w(m.t0) if w else ""]
    for c in cuts:
        out += ["S.finish = %.17g\nsimulate()\n" % at(c), w(at(c)) if w else ""]
    return out + ["S.finish = %.17g\nsimulate()\n" % fin, w(fin) if w else ""]


def twice(c, d, R):
    rng = np.random.default_rng(c["seed"])
    kw = dict(V[c["i"] % len(V)], steps=int(rng.integers(4, 14)))
    sc = scen.scenario(rng, **kw)
    lseed = [int(x) for x in rng.integers(1 << 30, size=2)]
    how = str(rng.choice(["look", "look", "look", "options", "often"]))
    said = []

    def w(t):
        k = "".join(x for x in "mblxesc" if rr.uniform() < .55)
        said.append(k)
        return "look('%s', %.17g)\n" % (k, t)
    opts = []
    if how == "options" or rng.uniform() < .2:
        opts = [x for x in ("--progress", "--profile", "-s") if rng.uniform() < .6] or ["--profile"]
        if "-s" in opts:
            opts.insert(opts.index("-s") + 1, "../sens")
            open(d + "/sens", "w").write("".join("%.3f %.3f\n" % tuple(p) for p in rng.uniform(-3, 4, (int(rng.integers(1, 6)), 2))))
    for p in "ab":
        rr = np.random.default_rng(lseed[0])
        cut = legs(rr, sc, None)
        if p == "b" and how == "look":
            rr2 = np.random.default_rng(lseed[0])
            rr, keep = np.random.default_rng(lseed[1]), None
            cut = legs(rr2, sc, w)
        os.mkdir(d + "/" + p)
        tail = "".join(cut) + END
        if p == "b" and how == "often":
            tail = "S.dt_save = '%d/%d'\n" % sc.meta.dt + tail
        scen.write(sc, d + "/" + p, ("DT = %d/%d\nmath.randomseed(%d)\n" % (*sc.meta.dt, lseed[1]) + LOOK if p == "b" else "") + tail)
        core.must_ok(core.run2([c["vv"], *(opts if p == "b" else []), "s.lua"], d + "/" + p), "vvflow")
        if not os.path.exists(d + "/" + p + "/seen"):
            raise core.Inconclusive("script did not end")
    a, b = results(d + "/a"), results(d + "/b")
    for p, x in (("a", a), ("b", b)):
        x["end.h5"] = True
        for k, v in flat(h5.read(d + "/" + p + "/end.h5")).items():
            x["end.h5:" + k] = v
    if how == "often":
        # the same states, and more of them
        b = {k: v for k, v in b.items() if k.split(":")[0] in a}
        a, b = ({k: v for k, v in x.items() if not KEEP.search(k)} for x in (a, b))
    if "--profile" in opts:
        b = {k: v for k, v in b.items() if not (k.startswith("stepdata") and re.search(r"/(pressure|friction)(@|$)", k)) or k in a}
    D = diff(a, b)
    tag = how if how != "options" else "+".join(x for x in opts if x[0] == "-")
    if D:
        k = D[0]
        R.bad("twice:%s:%s" % (how, re.split(r"[/@:]", k)[-1][:30]), "%s: with %s %s the run differs in %d places: %s" % (
            sc.meta.sig, tag, said, len(D), D[:6]))
    R.case("%s|%s|%s" % (tag, ",".join(said[:3]), sc.meta.sig), len(a))
    R.count("runs watched (%s)" % how)
    R.count("looks", len(said))
    R.count("values compared", len(a))
    R.sample = "%s %s %s" % (tag, said, sc.meta.sig)


def listing(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            st = os.stat(p)
            out[os.path.relpath(p, d)] = (hashlib.sha256(open(p, "rb").read()).hexdigest(), st.st_mtime_ns, st.st_ino)
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
    return out


def tools(c, d, R):
    """Tools leave what they read alone and write what they were asked for."""
    rng = np.random.default_rng(c["seed"])
    path, meta = snap.make(rng, d, c["vv"], tail="S:save('set.h5')\n")
    s = plot.load(path, c["vv"], d)
    rel = os.path.relpath(path, d)
    log = next(x for x in os.listdir(d) if x.startswith("stepdata_"))
    os.mkdir(d + "/out")
    os.mkdir(d + "/elsewhere")
    for k in range(c["n"]):
        kind = str(rng.choice(["x", "x", "plot", "plot", "plot", "run", "load"]))
        cwd, new = d, set()
        if kind == "x":
            f = [rel, log][int(rng.integers(2))]
            names = list(h5.read(d + "/" + f).children)
            args = [[f], [f, "--list"], [f, *[str(x) for x in rng.permutation(names)[:2]]], [f, "time", "vort"], [f, "none"]][int(rng.integers(5))]
            cmd = [c["vx"], *args]
        elif kind == "plot":
            rect = snap.window(rng, s)
            a = ["-x", "%g,%g" % tuple(rect[:2]), "-y", "%g,%g" % tuple(rect[2:])]
            a += [x for x in ("-B", "-V", "-S", "-P", "-G", "-Ux") if rng.uniform() < .4]
            a += ["--res-hi", "30", "--res-lo", "10", "--size", "160x0"]
            out = "out/%d.%s" % (k, ["tar", "png"][int(rng.integers(2))])
            new = {out}
            if rng.uniform() < .1:
                out, new = "none/x.png", set()
            cmd = [c["vp"], rel, out, *a] if c["pos"] else [c["vp"], rel, *a, "--" + out[-3:], out]
        elif kind == "run":
            cwd = d + "/elsewhere/%d" % k
            os.mkdir(cwd)
            cmd = [c["vv"], os.path.relpath(path, cwd)]
        else:
            cwd = d + "/elsewhere/%d" % k
            os.mkdir(cwd)
            open(cwd + "/l.lua", "w").write("S:load('%s') local n = #S.vort_list S.finish = 0 S:save('c.h5') for i = 1, 3 do S:load('%s') end" % (path, path))
            cmd = [c["vv"], "l.lua"]
        before = listing(d)
        r = core.run2(cmd, cwd)
        dead = core.died(r)
        if dead:
            raise core.Viol("tools:died", "%s: %s %s" % (" ".join(cmd), dead, r.err[-300:]))
        after = listing(d)
        pre = os.path.relpath(cwd, d) + "/" if cwd != d else None
        changed = sorted(x for x in before if before[x] != after.get(x) and x not in new)
        extra = sorted(x for x in after if x not in before and x not in new and not (pre and x.startswith(pre)))
        what = " ".join(os.path.basename(x) if "/" in x else x for x in cmd)
        if changed:
            R.bad("tools:input:" + kind, "%s changed %s" % (what, changed[:4]))
        if extra:
            R.bad("tools:extra:" + kind, "%s left %s behind" % (what, extra[:4]))
        if kind == "plot" and new and r.rc == 0 and not all(x in after for x in new):
            R.bad("tools:output", "%s ended well without writing %s" % (what, new))
        R.count("tool runs that ended well" if r.rc == 0 else "tool runs refused")
        R.case("tool|%s|%s|%s" % (kind, r.rc, meta.sig), len(after))
        if kind in ("x", "plot"):
            R.count("%s runs%s" % (kind, "" if r.rc == 0 else " refused"))
    R.sample = "tools on " + meta.sig


def case(c, d, R):
    globals()[c["kind"]](c, d, R)


def main(chk):
    exe = dict(vv=build.program("vvflow", "rel"), vp=build.program("vvplot", "rel"), vx=build.program("vvxtract", "rel"))
    C = [dict(kind="twice", i=i, seed=[chk.seed, 43, i], **exe) for i in range(chk.n(330, 3300))]
    C += [dict(kind="tools", n=10, pos=False, seed=[chk.seed, 434, i], **exe) for i in range(chk.n(30, 300))]
    chk.run(case, C)


if __name__ == "__main__":
    core.main(main, "C43", "distinct (way of looking, scenario) pairs of runs compared bit for bit, and (tool, outcome, snapshot) runs with the directory compared before and after")
