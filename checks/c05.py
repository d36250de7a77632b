#!/usr/bin/env python3
import glob, os, sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5, scen, sim

COLS = (("force_hydro", "fhydro"), ("force_holder", "fholder"), ("force_friction", "friction"), ("holder_position", "holder"),
        ("delta_position", "dpos"), ("speed_slae", "speed"))
f32 = np.float32


def read(path):
    out = {}
    root = h5.read(path)
    for k, v in root.children.items():
        if isinstance(v, h5.Dataset):
            out[k] = v.data
        elif isinstance(v, h5.Group):
            for n, x in v.children.items():
                out[k + "/" + n] = x.data
    return root.attrs, out


def rows_of(st, profile):
    """Expected rows of the performed steps: list of (time, {dataset: row})."""
    out = []
    with np.errstate(over="ignore", invalid="ignore"):
        for s in st:
            t = s["forces"]
            r = {}
            for i, b in enumerate(t.bodies):
                for ds, k in COLS:
                    r["body%02d/%s" % (i, ds)] = np.asarray(getattr(b, k)).astype(f32)
                if profile:
                    dt = t.dt[0] / t.dt[1]
                    r["body%02d/pressure" % i] = (b.Cp / dt).astype(f32)
                    r["body%02d/friction" % i] = (b.Fr / dt).astype(f32)
            out.append((f32(t.time[0] / t.time[1]), r))
    return out


def close(a, b):
    with np.errstate(all="ignore"):
        return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 2e-7 * np.abs(b)) | (np.abs(b) < 1e-37)))


def verify(R, key, d, model, names, what):
    logs = glob.glob(d + "/stepdata_*")
    if [os.path.basename(x) for x in logs] != ["stepdata_t.h5"]:
        R.bad(key + ":file", "%s: step logs %s" % (what, logs))
        return
    at, got = read(logs[0])
    if at.get("caption") != "t":
        R.bad(key + ":caption", "%s: caption of the log is %s" % (what, at.get("caption")))
    if set(got) - {"time"} != names:
        R.bad(key + ":datasets", "%s: datasets %s" % (what, sorted((set(got) - {"time"}) ^ names)))
    t = np.array([x[0] for x in model], f32).reshape(-1, 1)
    if got["time"].shape != t.shape or not np.array_equal(got["time"], t):
        n = min(len(t), len(got["time"]))
        k = int(np.argmax(got["time"][:n, 0] != t[:n, 0])) if n and (got["time"][:n] != t[:n]).any() else n
        R.bad(key + ":time", "%s: %d rows instead of %d; row %d is %s instead of %s" % (
            what, len(got["time"]), len(t), k, got["time"][k:k + 1, 0], t[k:k + 1, 0]))
        return
    for ds in sorted(names & set(got)):
        a = got[ds]
        prof = ds.endswith(("/pressure", "/friction"))
        last = max((i for i, x in enumerate(model) if ds in x[1]), default=-1) + 1
        if (len(a) != len(t) and not prof) or len(a) > len(t) or len(a) < last:
            R.bad(key + ":length", "%s: %s has %d rows instead of %d" % (what, ds, len(a), len(t)))
            continue
        for i in range(len(a)):
            w = model[i][1].get(ds)
            if w is None:
                if not np.isnan(a[i]).all():
                    R.bad(key + ":foreign", "%s: %s row %d should be empty but is %s" % (what, ds, i, a[i][:4]))
            elif not close(a[i], w):
                R.bad("%s:%s" % (key, ds.split("/")[1]), "%s: %s row %d (t=%g) is %s instead of %s" % (what, ds, i, t[i, 0], a[i][:4], w[:4]))
                break
        R.evals += len(a)
    R.count("rows compared", len(t))


def names_of(nb, profile):
    return {"body%02d/%s" % (i, ds) for i in range(nb) for ds in [x for x, _ in COLS] + (["pressure", "friction"] if profile else [])}


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    n = int(rng.integers(5, 14))
    big = c["kind"] == "many"
    kw = dict(nb=int(rng.integers(9, 14)), steps=4, kinds=("cyl",), nseg=12, vort=0, special=False) if big else dict(collide=rng.uniform() < .25, steps=n)
    sc = scen.scenario(rng, save_every=1, **kw)
    if c["kind"] == "long":
        sc = scen.scenario(rng, nb=1, steps=300, save_every=50, kinds=("cyl",), nseg=8, vort=0, viscous=False, motion=("fixed", "rot"), special=False)
    profile = rng.uniform() < .5
    model, names, nb = [], set(), sc.meta.nb
    ops = []

    def go(what, tail="simulate()\n", input=None, profile=False, start=None):
        nonlocal model, names
        arg = ("--profile",) if profile else ()
        st, _ = sim.run(c["mon"], None if input else sc, d, "forces", args=arg, tail=tail, input=input)
        new = rows_of(st, profile)
        start = new[0][0] if start is None else f32(start)
        model = [x for x in model if x[0] < start] + new      # also if no step is left to perform
        names |= names_of(nb, profile)
        ops.append(what)
        verify(R, c["kind"], d, model, names, "; ".join(ops) + (" --profile" if profile else ""))
        return st

    go("run", profile=profile)
    for k in range(c["ops"]):
        if R.viol:
            break
        S = sorted(glob.glob(d + "/results_t/*.h5"))
        if not S:
            break
        o = int(rng.integers(8))
        profile = rng.uniform() < .5
        if o == 0:
            os.unlink(d + "/stepdata_t.h5")
            model, names = [], set()
            ops.append("log removed")
        p = S[int(rng.integers(len(S)))]
        with open(p, "rb") as f:
            b = f.read()
        with open(d + "/from.h5", "wb") as f:
            f.write(b)
        x = h5.read(d + "/from.h5").attrs
        dt = x["dt"][0] / x["dt"][1]
        t0 = x["time"][0] / x["time"][1]
        if rng.uniform() < .6:
            # a different end: earlier (the log gets shorter) or later
            fin = t0 + dt * float(rng.integers(0, 12)) * (1 if rng.uniform() < .9 else -1)
            with h5.Editor(d + "/from.h5") as e:
                e.set_attr("/", "time_to_finish", fin, "f8")
        if o < 6:
            go("resume at step %s" % os.path.basename(p)[:-3], input="from.h5", profile=profile, start=t0)
        else:
            # the same in one script, twice in a row
            open(d + "/two.lua", "w").write("S:load('from.h5')\nlocal f = S.finish\nS.finish = f - %d*%r\nsimulate()\nS.finish = f\nsimulate()\n"
                                            % (int(rng.integers(1, 4)), dt))
            go("load at step %s, simulate twice" % os.path.basename(p)[:-3], input="two.lua", profile=profile, start=t0)
    R.case("%s|%s|%s|%d" % (c["kind"], sc.meta.sig, profile, len(ops)), 0)
    R.count("runs over a log", len(ops))
    R.sample = "; ".join(ops)


def grow(c, d, R):
    """A body added between two simulate() calls has empty earlier rows."""
    rng = np.random.default_rng(c["seed"])
    n1, n2 = int(rng.integers(2, 8)), int(rng.integers(2, 8))
    lua = """S.re = inf; S.dt = 0.1; S.caption = "t"; S.inf_vx = "1"
S.body_list:insert(gen_cylinder{R=0.5, N=10})
S.finish = %r; simulate()
local b = gen_cylinder{R=0.3, N=14}; b:move_r({2, 0.3})
S.body_list:insert(b)
S.finish = %r; simulate()
""" % ((n1 - 1) * .1, (n1 + n2 - 1) * .1)
    open(d + "/s.lua", "w").write(lua)
    profile = rng.uniform() < .5
    st, _ = sim.run(c["mon"], None, d, "forces", args=("--profile",) if profile else ())
    verify(R, "grow", d, rows_of(st, profile), names_of(2, profile), "body added after %d steps" % n1)
    R.case("grow|%d|%d|%s" % (n1, n2, profile), 0)


def any_case(c, d, R):
    (grow if c["kind"] == "grow" else case)(c, d, R)


def main(chk):
    mon = build.program("vvflow", "mon")
    C = [dict(kind="history", mon=mon, ops=int(2 + i % 4), seed=[chk.seed, 5, i]) for i in range(chk.n(160, 2200))]
    C += [dict(kind="many", mon=mon, ops=2, seed=[chk.seed, 55, i]) for i in range(chk.n(8, 60))]
    C += [dict(kind="long", mon=mon, ops=3, seed=[chk.seed, 555, i]) for i in range(chk.n(8, 60))]
    C += [dict(kind="grow", mon=mon, seed=[chk.seed, 5555, i]) for i in range(chk.n(12, 80))]
    chk.run(any_case, C)


core.main(main, "C05", "distinct (scenario, profiles, number of runs over the same log) histories whose whole log was compared with the traces")
