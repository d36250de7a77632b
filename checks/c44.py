#!/usr/bin/env python3
"""Snapshots written by earlier versions."""
import math, os, shutil, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, scen, tree
from vv.spacegen import num, space

HC = "nitw"          # neglect, isolate, constant temperature, constant flux
BC = ("si", "z")     # steady, Kutta


def load(c, d, names, fresh):
    """Load each file and save it again, in one process after another space or in processes of their own."""
    pre = "S.vort_list:append({1,2,3}); S.streak_source_list:append({1,2,3}); S.streak_domain_list:append({1,2,3}); S.body_list:insert(gen_cylinder{R=1,N=9}); S.re = 7; S.caption='old'\n"
    txt = ["S:load('%s'); S:save('%s.new.h5')\n" % (n, n) for n in names]
    for k, t in enumerate(txt if fresh else ["".join(txt)]):
        with open(d + "/l%d.lua" % k, "w") as f:
            f.write(t if fresh else pre + t)
        core.must_ok(core.run2([c["vv"], "l%d.lua" % k], d), "loading an old snapshot")
    return [h5.read(d + "/%s.new.h5" % n) for n in names]


def hdf(c, d, R):
    """The first HDF version: one slip condition per body, conditions as letters."""
    rng = np.random.default_rng(c["seed"])
    ref, old = [], []
    for k in range(c["n"]):
        fn = "a%d.h5" % k
        L, _ = space(rng, d, "s%d_" % k, R)
        with open(d + "/a.lua", "w") as f:
            f.write("\n".join(L + ["S:save('%s')" % fn]) + "\n")
        core.must_ok(core.run2([c["vv"], "a.lua"], d), "vvflow")
        F = h5.read(d + "/" + fn)
        B = [b for b in F.children if b.startswith("body")]
        if len(B) > 20:
            continue
        val = {}
        with h5.Editor(d + "/" + fn) as e:
            for b in B:
                v = val[b] = dict(bc=int(rng.integers(2)), hc=int(rng.integers(4)), heat=float(np.float32(rng.normal())), seg=int(rng.integers(len(F.children[b].data))))
                e.set_attr(b, "boundary_condition", v["bc"], "u4")
                e.set_attr(b, "heat_condition", v["hc"], "u4")
                e.set_attr(b, "general_heat_const", v["heat"], "f8")
                e.set_attr(b, "special_segment_no", v["seg"], "i4")
        on = "o%d.h5" % k
        shutil.copy(d + "/" + fn, d + "/" + on)
        n = 0
        with h5.Editor(d + "/" + on) as e:
            for b in B:
                if "general_slip" not in F.children[b].attrs or rng.uniform() < .15:
                    continue          # every body has a version of its own
                v = val[b]
                slip = int(F.children[b].attrs["general_slip"])
                for a in ("general_slip", "general_heat_const", "special_segment_no", "boundary_condition", "heat_condition", "simplified_dataset"):
                    e.del_attr(b, a)
                if rng.uniform() < .5:
                    e.set_attr(b, "simplified_dataset", int(rng.integers(2)), "u4")
                e.set_attr(b, "general_bc", ord("l" if slip else "n"), "i4")
                e.set_attr(b, "heat_const", v["heat"], "f8")
                e.set_attr(b, "special_bc_segment", v["seg"], "i4")
                e.set_attr(b, "special_bc", ord(str(rng.choice(list(BC[v["bc"]])))), "i4")
                e.set_attr(b, "heat_condition", ord(HC[v["hc"]]), "i4")
                n += 1
                R.count("bodies of the first HDF version")
                R.case("hdf|%d|%d|%d" % (v["bc"], v["hc"], slip), 0)
        ref.append(fn)
        old.append((on, n))
    if not ref:
        return
    got = load(c, d, [n for n, _ in old], rng.uniform() < .4)
    for fn, (on, n), g in zip(ref, old, got):
        a, b = tree.flat(h5.read(d + "/" + fn)), tree.flat(g)
        R.evals += len(a)
        m = tree.diff(a, b)
        if m:
            R.bad("hdf", "a space written in the first HDF version (%d of its bodies) is read differently: %s" % (n, m))


def v13(c, d, R):
    """The binary format."""
    rng = np.random.default_rng(c["seed"])
    S = lambda s: struct.pack("<i", len(s)) + s.encode()
    D = lambda *a: struct.pack("<%dd" % len(a), *a)
    V3 = lambda: tuple(num(rng) for _ in range(3))
    EX = ["", "1", "sin(t)", "t > 2 and 1 or -0.5", "(2*t)^2 + 1e-7*" + "t*" * 200 + "1"]
    plan = []
    for k in range(c["n"]):
        A, parts, lists, bodies = {}, [], {}, []
        T = {n: (int(rng.integers(-50, 5000)) if n == "time" else int(rng.integers(1, 999)), int(rng.integers(1, 10 ** 6))) for n in ("time", "dt", "dt_save", "dt_streak", "dt_profile")}
        cap = str(rng.choice(["old", "", "x" * 63, "y" * 64, "cyl re600"]))
        A.update(caption=cap or None, re=abs(num(rng)), pr=abs(num(rng)), inf_marker=(num(rng), num(rng)), inf_speed_x=str(rng.choice(EX)) or None, inf_speed_y=str(rng.choice(EX)) or None,
                 inf_circulation=num(rng), gravity=(num(rng), num(rng)), time_to_finish=num(rng), **T)
        head = b"v: 1.3  " + cap.encode().ljust(64, b"\0") + b"".join(struct.pack("<iI", *T[n]) for n in ("time", "dt", "dt_save", "dt_streak", "dt_profile")) + D(A["re"], A["pr"], *A["inf_marker"]) \
            + S(A["inf_speed_x"] or "") + S(A["inf_speed_y"] or "") + D(A["inf_circulation"], *A["gravity"], A["time_to_finish"]) + struct.pack("<q", 1)
        parts.append(("Header  ", head))
        for nm, ds in (("Vortexes", "vort"), ("Heat    ", "heat"), ("StrkSrc ", "ink_source"), ("Streak  ", "ink")):
            m = int(rng.choice([0, 1, 7, 900]))
            a = rng.normal(0, 1, (m, 3)) * 10.0 ** rng.integers(-3, 3)
            lists[ds] = a
            if m or rng.uniform() < .5:
                parts.append((nm, struct.pack("<q", m) + a.tobytes()))
        rng.shuffle(parts)
        for i in range(int(rng.integers(0, 5))):
            b = dict(holder_position=V3(), delta_position=V3(), speed_x=str(rng.choice(EX)) or None, speed_y=str(rng.choice(EX)) or None, speed_o=str(rng.choice(EX)) or None, speed_slae=V3(), speed_slae_prev=V3(),
                     spring_const=tuple(float(rng.choice([math.inf, abs(num(rng, 0))])) for _ in range(3)), density=abs(num(rng)), force_hydro=V3(), fdt_dead=V3(), friction_prev=V3())
            parts.append(("BData   ", D(*b["holder_position"], *b["delta_position"]) + S(b["speed_x"] or "") + S(b["speed_y"] or "") + S(b["speed_o"] or "")
                          + D(*b["speed_slae"], *b["speed_slae_prev"], *b["spring_const"], b["density"], *b["force_hydro"], *b["fdt_dead"], *b["friction_prev"])))
            n = int(rng.choice([3, 12, 40]))
            P = scen.polygon(rng, n, 10.0 ** rng.integers(-2, 3))[::-1]
            n = len(P)
            g, gs = rng.normal(0, 1, n), rng.normal(0, 1, n)
            slip = np.full(n, rng.integers(2)) if rng.uniform() < .6 else rng.integers(0, 2, n)
            heat, hc = float(np.float32(rng.normal())), int(rng.integers(4))
            sp, bc = (int(rng.integers(n)), int(rng.integers(2))) if rng.uniform() < .6 else (None, 0)
            let = ["l" if s else "n" for s in slip]
            if sp is not None:
                let[sp] = str(rng.choice(list(BC[bc])))
            parts.append(("Body    ", struct.pack("<q", n) + b"".join(D(*P[j], g[j]) + struct.pack("<qq", ord(let[j]), ord(HC[hc])) + D(heat, gs[j]) for j in range(n))))
            b.update(boundary_condition=bc, heat_condition=hc, general_heat_const=heat)
            if sp is not None:
                b["special_segment_no"] = sp
            bodies.append((b, np.column_stack([P, g, gs]), slip, sp))
            R.case("v13|%d|%d|%d" % (hc, bc, sp is not None), 0)
        tab, body = b"", b""
        for nm, p in parts:
            tab += struct.pack("<q", 1024 + len(body)) + nm.encode()
            body += p
        fn = "v%d" % k
        with open(d + "/" + fn, "wb") as f:
            f.write(tab.ljust(1024, b"\0") + body)
        plan.append((fn, A, lists, bodies))
        R.count("files of the binary version")
    got = load(c, d, [p[0] for p in plan], rng.uniform() < .4)
    same = lambda x, w: (x is None) == (w is None) and (w is None or (x == w if isinstance(w, str) else np.array_equal(np.array(list(x) if isinstance(w, tuple) else x, float), np.array(w, float), equal_nan=True)))
    for (fn, A, lists, bodies), f in zip(plan, got):
        for k, w in A.items():
            x = f.attrs.get(k)
            R.evals += 1
            if not same(x, w):
                R.bad("v13:" + k, "%s of a space in the binary format is read as %s instead of %s" % (k, str(x)[:60], str(w)[:60]))
        for k, w in lists.items():
            x = np.asarray(f.children[k].data)[:, :3] if k in f.children else np.zeros((0, 3))
            R.evals += 1
            if x.shape != w.shape or not np.array_equal(x, w):
                R.bad("v13:list:" + k, "list %s of a space in the binary format is read differently (%s and %s)" % (k, x.shape, w.shape))
        names = sorted(k for k in f.children if k.startswith("body"))
        if len(names) != len(bodies):
            R.bad("v13:bodies", "%d bodies instead of %d" % (len(names), len(bodies)))
            continue
        for nm, (b, data, slip, sp) in zip(names, bodies):
            o = f.children[nm]
            for k, w in b.items():
                R.evals += 1
                if not same(o.attrs.get(k), w):
                    R.bad("v13:" + k, "%s of a body in the binary format is read as %s instead of %s" % (k, str(o.attrs.get(k))[:60], str(w)[:60]))
            if not np.array_equal(np.asarray(o.data), data):
                R.bad("v13:segments", "segments of a body in the binary format are read differently")
            s = np.broadcast_to(np.asarray(o.attrs["slip"] if "slip" in o.attrs else o.attrs["general_slip"]), len(data)).astype(int)
            if any(s[j] != slip[j] for j in range(len(data)) if j != sp):
                R.bad("v13:slip", "slip flags of a body in the binary format are read differently")


def case(c, d, R):
    (hdf if c["kind"] == "hdf" else v13)(c, d, R)


def main(chk):
    vv = build.program("vvflow", "rel")
    chk.run(case, [dict(seed=[chk.seed, 44, i], vv=vv, kind=("hdf", "v13")[i % 2], n=6) for i in range(chk.n(80, 1000))])


if __name__ == "__main__":
    core.main(main, "C44", "distinct (format, conditions of the body) combinations written in an old format, read and compared")
