#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import tp

SPR = ["spring", "spring1", "free"]
V = [{}, {"slip": True}, {"kinds": ["poly", "cyl"]}, {"vort": 60, "viscous": True}, {"nb": 3, "roots": True}, {"infg": True, "nb": 2},
     {"motion": SPR, "collide": True}, {"nb": 0, "vort": 120}, {"vort": 40, "motion": ["forced", "rot"], "nb": 1, "steps": 25},
     {"kinds": ["cavity"], "nb": 1, "motion": ["rot", "fixed"]}, {"motion": ["free"], "nb": 2, "flow": "const"}, {"sinks": True, "viscous": True}, {"edit": "kutta", "nb": 2, "special": True},
     {"motion": ["late", "fixed"], "steps": 20}, {"nb": 2, "motion": ["late", "fixed"], "fine": True, "steps": 20}]
tp.trace_check("C06", "distinct (body kinds, motions, flow, phase, absorption) combinations whose balances were evaluated",
               [tp.circulation], "solve,shed,eps,diff,move", V, 500, 1500)
