#!/usr/bin/env python3
import glob, os, shutil, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, scen
from vv.spacegen import num, space

SKIP = {"time_local", "git_rev", "git_info", "git_diff"}


def bits(v):
    """Bit-exact canonical form of an attribute or dataset."""
    if isinstance(v, np.ndarray):
        return (v.dtype.str if not v.dtype.names else str(v.dtype.names), v.shape, v.tobytes())
    if isinstance(v, (tuple, list)):
        return tuple(bits(x) for x in v)
    if isinstance(v, float):
        return struct.pack("<d", v)
    return v


def same(R, tag, a, b, path=""):
    """Compare two files node by node; a is the reference."""
    n = 0
    ka, kb = set(a.attrs) - SKIP, set(b.attrs) - SKIP
    for k in sorted(ka ^ kb):
        v = (a.attrs if k in ka else b.attrs)[k]
        R.bad("%s:attr:%s" % (tag, k), "%s attribute %s is %s (value %s)" % (path or "/", k, "lost" if k in ka else "new", str(v)[:80]))
    for k in ka & kb:
        n += 1
        if bits(a.attrs[k]) != bits(b.attrs[k]):
            R.bad("%s:attr:%s" % (tag, k), "%s attribute %s is %s instead of %s" % (path or "/", k, str(b.attrs[k])[:80], str(a.attrs[k])[:80]))
    if isinstance(a, h5.Dataset) != isinstance(b, h5.Dataset):
        R.bad("%s:kind" % tag, "%s is of a different kind" % path)
        return n
    if isinstance(a, h5.Dataset):
        n += 1
        if bits(a.data) != bits(b.data):
            R.bad("%s:data:%s" % (tag, path.rstrip("0123456789")), "dataset %s differs (%s and %s)" % (path, a.data.shape, b.data.shape))
        return n
    ca = {k: v for k, v in getattr(a, "children", {}).items() if not isinstance(v, h5.NamedType)}
    cb = {k: v for k, v in getattr(b, "children", {}).items() if not isinstance(v, h5.NamedType)}
    for k in sorted(set(ca) ^ set(cb)):
        R.bad("%s:object:%s" % (tag, k.rstrip("0123456789")), "%s/%s is %s" % (path, k, "lost" if k in ca else "new"))
    for k in set(ca) & set(cb):
        n += same(R, tag, ca[k], cb[k], path + k)
    return n


def against(R, W, f):
    """What the script set against the file."""
    names = [k for k in f.children if k.startswith("body")]
    if len(names) != W["bodies"]:
        R.bad("set:bodies", "%d bodies saved instead of %d" % (len(names), W["bodies"]))
        return
    for k, v in W.items():
        if k == "bodies":
            continue
        if "#" in k:
            o, w = k[1:].split("#")
            b = f.children[o]
            got = np.asarray(b.data)[:, :2] if w == "points" else np.broadcast_to(
                np.asarray(b.attrs["slip"] if "slip" in b.attrs else b.attrs["general_slip"]), len(b.data)).astype(np.int64)
            if bits(np.ascontiguousarray(got)) != bits(np.ascontiguousarray(v)):
                R.bad("set:" + w, "%s: the %s saved differ from the ones loaded" % (o, w))
        elif "@" in k:
            o, w = k[1:].split("@")
            got = (f.children[o] if o else f).attrs.get(w)
            if bits(got) != bits(v):
                R.bad("set:" + w, "%s of %s is saved as %s, the script set %s" % (w, o or "the space", str(got)[:60], str(v)[:60]))
        else:
            got = f.children.get(k[1:])
            if (got is None) != (v is None) or v is not None and bits(np.ascontiguousarray(np.asarray(got.data)[:, :3])) != bits(np.ascontiguousarray(v)):
                R.bad("set:list:" + k[1:], "list %s differs from the one loaded (%s and %s)" % (
                    k[1:], None if got is None else got.data.shape, None if v is None else v.shape))
        R.evals += 1


def vvflow(c, d, L, name):
    open(os.path.join(d, name), "w").write("\n".join(L) + "\n")
    return core.must_ok(core.run2([c["vv"], name], d), "vvflow")


def scripted(c, d, R):
    rng = np.random.default_rng(c["seed"])
    files, L = [], []
    for k in range(c["n"]):
        s, W = space(rng, d, "s%d_" % k, R)
        L += ["do"] + s + ["S:save('a%d.h5')" % k, "end"]
        files.append(("a%d.h5" % k, W))
    vvflow(c, d, L, "t.lua")
    for fn, W in files:
        against(R, W, h5.read(os.path.join(d, fn)))
        R.case("set|%d bodies" % min(W["bodies"], 101))
    reload(c, d, R, [f for f, _ in files], rng, "scripted")
    R.sample = "%d spaces of %s bodies" % (len(files), [W["bodies"] for _, W in files])


def reload(c, d, R, files, rng, tag):
    """Every file loaded after others in one process, and again in a process of its own."""
    order = list(rng.permutation(len(files))) + [int(rng.integers(len(files))) for _ in range(2)]
    L = ["S.vort_list:append({1,2,3}); S.sink_list:append({1,2,3}); S.streak_source_list:append({1,2,3}); S.streak_domain_list:append({1,2,3}); "
         "S.body_list:insert(gen_cylinder{R=1,N=9}); S.re = 7; S.caption='old'"]
    for j, i in enumerate(order):
        L.append("S:load('%s'); S:save('r%d.h5')" % (files[i], j))
        if j % 3 == 1:
            L.append("S:load('r%d.h5'); S:save('r%d.h5')" % (j, j))
    vvflow(c, d, L, "l.lua")
    ref = [h5.read(os.path.join(d, f)) for f in files]
    for j, i in enumerate(order):
        n = same(R, "reload", ref[i], h5.read(os.path.join(d, "r%d.h5" % j)))
        R.case("%s|%d|%d children" % (tag, j % 3, min(len(ref[i].children), 20)), n)
    vvflow(c, d, ["S:load('%s'); S:save('own.h5')" % files[-1]], "o.lua")
    R.case("%s|own process" % tag, same(R, "reload", ref[-1], h5.read(os.path.join(d, "own.h5"))))


def simulated(c, d, R):
    """Snapshots of a run (strengths, core sizes, friction, forces), with hidden attributes varied as well."""
    rng = np.random.default_rng(c["seed"])
    sc = scen.scenario(rng, steps=7, save_every=2, collide=rng.uniform() < .3)
    scen.write(sc, d)
    core.must_ok(core.run2([c["vv"], "s.lua"], d), "vvflow")
    files = []
    for k, fn in enumerate(sorted(glob.glob(d + "/results_*/*.h5"))[-3:]):
        f = "z%d.h5" % k
        shutil.copy(fn, os.path.join(d, f))
        files.append(f)
        if rng.uniform() < .6:
            nd = h5.read(os.path.join(d, f))
            bodies = [b for b in nd.children if b.startswith("body")]
            with h5.Editor(os.path.join(d, f)) as e:
                e.set_attr("/", "pr", num(rng), "f8")
                e.set_attr("/", "inf_marker", (num(rng), num(rng)), h5.TVEC)
                e.set_dataset("heat", np.array([[num(rng) for _ in range(3)] for _ in range(5)]))
                for b in bodies:
                    for a in ("speed_slae_prev", "force_hydro", "force_holder", "friction_prev", "fdt_dead"):
                        e.set_attr(b, a, tuple(num(rng) for _ in range(3)), h5.TVEC3)
                    e.set_attr(b, "g_dead", num(rng), "f8")
                    e.set_attr(b, "general_heat_const", float(np.float32(rng.normal())), "f8")
                    e.set_attr(b, "boundary_condition", int(rng.integers(2)), "u4")
                    e.set_attr(b, "heat_condition", int(rng.integers(4)), "u4")
            R.count("snapshots with every stored value varied")
        nd = h5.read(os.path.join(d, f))
        R.count("snapshots with core sizes", int("vort_core" in nd.children))
        R.count("snapshots with friction", int(any(k.startswith("friction_") for k in nd.children)))
    if not files:
        raise core.Inconclusive("no snapshot")
    reload(c, d, R, files, rng, "simulated")
    R.sample = sc.meta.sig


def case(c, d, R):
    (simulated if c["sim"] else scripted)(c, d, R)


def main(chk):
    vv = build.program("vvflow", "rel")
    chk.run(case, [dict(seed=[chk.seed, 1, i], vv=vv, n=4, sim=i % 3 == 2) for i in range(chk.n(180, 2400))])


core.main(main, "C01", "distinct (origin, load history, content size) snapshots compared attribute by attribute, bit for bit")
