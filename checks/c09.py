#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import tp

SPR = ["spring", "spring1", "free"]
V = [{"viscous": True}, {"viscous": True, "nb": 1, "vort": 100}, {"nb": 0, "vort": 150, "viscous": True, "steps": 6}, {"viscous": False},
     {"viscous": True, "nb": 3, "steps": 16}, {"viscous": True, "motion": SPR}, {"viscous": True, "kinds": ["cavity"], "nb": 1}]
tp.trace_check("C09", "distinct (body kinds, motions, flow, size class) combinations",
               [tp.diffusive], "tree2,conv,diff", V, 280, 700, tree=2)
