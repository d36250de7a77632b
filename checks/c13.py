#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import tp

SPR = ["spring", "spring1", "free"]
V = [{}, {"nb": 2, "roots": True}, {"nb": 3, "roots": True, "steps": 30}, {"motion": SPR}, {"motion": ["forced", "rot"], "steps": 40}, {"motion": SPR, "collide": True},
     {"nb": 3, "roots": True, "motion": ["rot", "fixed"], "steps": 40}, {"kinds": ["cavity"], "nb": 1, "motion": ["rot"]},
     {"motion": ["late"], "steps": 20}, {"motion": ["late", "spring"], "steps": 20}, {"nb": 2, "motion": ["late", "fixed"], "fine": True, "steps": 20}]
tp.trace_check("C13", "distinct (body kinds, motions, flow, body, attached, collision) combinations",
               [tp.bodies_motion], "diff,move,end", V, 400, 1400)
