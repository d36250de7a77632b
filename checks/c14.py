#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import tp

SPR = ["spring", "spring1", "free"]
V = [{}, {"motion": SPR}, {"motion": SPR, "nb": 2, "roots": True}, {"motion": ["free"], "gravity": True}, {"nb": 3, "roots": True, "motion": ["spring", "fixed", "rot"]},
     {"motion": SPR, "collide": True}, {"nb": 1, "motion": ["fixed"]}, {"motion": ["rot", "forced"], "nb": 2}, {"motion": SPR, "start": -3}, {"slip": True, "motion": SPR},
     {"nb": 1, "motion": ["latespring"], "flow": "zero", "vort": 0, "sinks": False, "infg": False, "gravity": False},
     {"motion": ["latespring", "fixed"], "flow": "late", "vort": 0, "sinks": False, "infg": False, "gravity": False},
     {"motion": ["late"]}, {"motion": ["late", "spring"], "nb": 2}, {"nb": 2, "motion": ["late", "fixed"], "fine": True, "steps": 20}]
tp.trace_check("C14", "distinct (body kinds, motions, flow, body, rigid or sprung components, time sign) combinations",
               [tp.dynamics, tp.history], "solve,forces,diff,move", V, 480, 1400)
