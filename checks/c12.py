#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import tp

SPR = ["spring", "spring1", "free"]
V = [{"streak": True}, {"motion": ["forced", "rot"], "vort": 60, "streak": True}, {"nb": 3, "vort": 60}, {"motion": SPR, "collide": True, "vort": 40},
     {"kinds": ["cavity"], "nb": 1, "motion": ["rot", "forced"]}, {"nb": 0, "vort": 80}, {"slip": True, "streak": True}, {"kinds": ["savonius", "poly"], "vort": 40, "viscous": True},
     {"motion": ["free"], "vort": 30, "streak": True}]
tp.trace_check("C12", "distinct (body kinds, motions, flow, particle kind, absorption, collision) combinations",
               [tp.particles], "diff,move", V, 480, 1500)
