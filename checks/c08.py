#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import tp

SPR = ["spring", "spring1", "free"]
V = [{}, {"nb": 0, "vort": 300, "steps": 6}, {"sinks": True, "streak": True}, {"nb": 2, "motion": ["rot", "forced"], "streak": True},
     {"slip": True, "vort": 40}, {"nb": 1, "vort": 300, "viscous": False, "steps": 6}, {"nb": 3, "viscous": True}, {"motion": SPR, "vort": 40},
     {"kinds": ["cavity"], "nb": 1}, {"nb": 2, "roots": True, "streak": True}]
tp.trace_check("C08", "distinct (body kinds, motions, flow, particle kind, sinks, far clusters) combinations",
               [tp.convective], "tree2,eps,conv", V, 240, 800, tree=2)
