"""Random snapshots for the tools that read them."""
import glob, os
from . import core, scen

SIM = [dict(), dict(nb=1), dict(nb=2), dict(nb=1, viscous=True, vort=60), dict(kinds=["savonius"], motion=["forced", "rot"], nb=1), dict(kinds=["cavity"], nb=1, motion=["forced", "rot", "spring"]),
       dict(kinds=["box"], nb=1), dict(slip=True), dict(sinks=True, vort=40), dict(motion=["forced", "rot"], flow="osc"), dict(nb=0, vort=40), dict(nb=0, vort=6, sinks=True),
       dict(nb=3, motion=["free", "spring", "rot"]), dict(kinds=["poly", "ellipse"], motion=["rot"], flow="xy"), dict(nb=1, viscous=False, vort=150), dict(streak=True, nb=1)]


def make(rng, d, vv, variants=SIM, steps=None, big=False, tail="", **kw):
    """Runs a random scenario. -> (path of one of its snapshots, meta)."""
    v = dict(variants[int(rng.integers(len(variants)))])
    v.update(kw)
    v.setdefault("steps", steps or int(rng.integers(1, 30 if big else 14)))
    v.setdefault("save_every", 1)
    v.setdefault("special", False)
    v.setdefault("start", int(rng.choice([0, 0, int(rng.integers(0, 40)), -int(rng.integers(1, v["steps"] + 1)) + 1])))
    v.setdefault("nseg", int(rng.integers(18, 60 if big else 36)))
    sc = scen.scenario(rng, **v)
    scen.write(sc, d, tail=tail + "simulate()\n")
    core.must_ok(core.run2([vv, "s.lua"], d, timeout=240), "vvflow")
    fs = sorted(glob.glob(os.path.join(glob.escape(d), "results_t", "*.h5")))
    if not fs:
        raise core.Inconclusive("no snapshot (negative times)")
    k = len(fs) - 1 if rng.uniform() < .5 else int(rng.integers(len(fs)))
    return fs[k], sc.meta


def window(rng, s, body=False):
    """A plot window around the interesting part of a state."""
    P = [b.corner for b in s.bodies] + ([s.vort[:, :2]] if len(s.vort) and not body else [])
    k = int(rng.integers(5))
    if not P or k == 0:
        c, w = rng.uniform(-2, 4, 2), 10.0 ** rng.uniform(-1, 1.5)
    else:
        A = P[int(rng.integers(len(P)))]
        lo, hi = A.min(0), A.max(0)
        c, w = rng.uniform(lo, hi), max((hi - lo).max(), .1) * rng.choice([.3, 1, 1.5, 4])
    a = float(rng.choice([1, .5, 2, rng.uniform(.3, 2)]))
    r = [c[0] - w / 2, c[0] + w / 2, c[1] - w * a / 2, c[1] + w * a / 2]
    if rng.uniform() < .3:
        r = [round(x * 4) / 4 for x in r]
        if r[1] <= r[0]: r[1] = r[0] + .5
        if r[3] <= r[2]: r[3] = r[2] + .5
    return [float(x) for x in r]
