#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import heat, tp

tp.EDITS["heat"] = heat.edit
SPR = ["spring", "spring1", "free"]
V = [{"viscous": True}, {"viscous": True, "nb": 1, "vort": 40, "steps": 10}, {"nb": 0, "viscous": True, "vort": 30, "steps": 6}, {"viscous": False},
     {"viscous": True, "nb": 2, "motion": ["rot", "forced"]}, {"viscous": True, "nb": 1, "motion": SPR}, {"viscous": True, "kinds": ["cavity"], "nb": 1},
     {"viscous": True, "nb": 1, "collide": True}, {"viscous": True, "nb": 1, "motion": ["fixed"], "steps": 20}]
tp.trace_check("C39", "distinct (phase, body kinds, motions, heat conditions, layers occupied) combinations",
               heat.FNS, "solve,preshed,zero,tree2,eps,conv,diff,move,end", [dict(v, edit="heat") for v in V], 160, 500, tree=2)
