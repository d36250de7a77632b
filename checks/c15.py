#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import heat, tp

tp.EDITS["heat"] = heat.edit

SPR = ["spring", "spring1", "free"]
V = [{"motion": SPR, "collide": True}, {"motion": SPR, "collide": True, "nb": 1, "steps": 30}, {"motion": ["free"], "collide": True, "gravity": True, "steps": 30},
     {"motion": SPR, "collide": True, "nb": 3}, {"motion": ["fixed", "forced", "spring1"], "collide": True}, {"motion": SPR, "collide": True, "nb": 2, "roots": True}, {"motion": SPR}]
V += [{"motion": SPR, "collide": True, "vort": 40, "streak": True}, {"motion": SPR, "collide": True, "viscous": True, "edit": "heat", "nb": 1, "steps": 20}]


def others(t, R, cx):
    """A step shortened by a collision is shortened for everything: other bodies, particles, heat, the fluid marker."""
    dt, code, unsure = tp.move_dt(t["diff"])
    if code < 0 or unsure or dt > 0.999 * t["diff"].dtf:
        return
    for fn, keys in ((tp.bodies_motion, ("marker", "holder", "axis")), (tp.particles, ("vort:lost", "streak:lost")), (heat.moving, ("move:lost",))):
        q = tp._Only(keys)
        fn(t, q, cx)
        for k, m in q.viol:
            R.bad("together:" + k, m)
    s = t["diff"]
    R.case("together|%d|%d|%d" % (len(s.vort) > 0, len(s.streak) > 0, len(s.heat) > 0), 3)
    R.count("shortened steps followed by everything")


tp.trace_check("C15", "distinct (body kinds, motions, flow, collision component or rebound and bounce) combinations",
               [tp.collisions, others], "solve1,solve,diff,move,end", V, 560, 1400)
