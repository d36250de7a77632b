#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import tp

SPR = ["spring", "spring1", "free"]
V = [{}, {"nb": 1, "motion": ["fixed"], "steps": 20}, {"nb": 2, "motion": ["fixed"], "vort": 60}, {"nb": 3}, {"sinks": True},
     {"motion": ["rot", "forced"]}, {"motion": SPR}, {"nb": 2, "roots": True}, {"kinds": ["cavity"], "nb": 1}, {"slip": True}, {"special": True, "nb": 2},
     {"nb": 1, "vort": 400, "steps": 6},
     {"motion": ["late"]}, {"nb": 2, "motion": ["late", "fixed"]}, {"nb": 2, "motion": ["late", "fixed"], "roots": False, "slip": False},
     {"nb": 2, "motion": ["late", "fixed"], "fine": True, "steps": 20}, {"nb": 3, "motion": ["late", "fixed", "fixed"], "fine": True, "steps": 20},
     {"nb": 1, "motion": ["latespring"], "flow": "zero", "vort": 0, "sinks": False, "infg": False, "gravity": False},
     {"motion": ["latespring", "fixed"], "flow": "late", "vort": 0, "sinks": False, "infg": False, "gravity": False},
     {"edit": "kutta", "nb": 1, "special": True}, {"edit": "kutta", "nb": 3, "special": True}]
tp.trace_check("C07", "distinct (body kinds, motions, flow, body, cached or full solve) combinations",
               [tp.slip], "solve,tree1", V, 240, 1000, tree=2)
