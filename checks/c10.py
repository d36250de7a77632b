#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import tp

SPR = ["spring", "spring1", "free"]
V = [{"viscous": True}, {"viscous": True, "nb": 1, "vort": 100}, {"nb": 0, "vort": 150, "viscous": True, "steps": 6}, {"viscous": False},
     {"viscous": True, "nb": 3, "steps": 16}, {"viscous": True, "motion": SPR}, {"nb": 0, "vort": 2, "viscous": True}, {"nb": 0, "vort": 1},
     {"viscous": True, "nb": 1, "vort": 250, "steps": 8}]
tp.trace_check("C10", "distinct (body kinds, motions, flow, merging or not) combinations",
               [tp.merging], "tree2,eps", V, 360, 720, tree=2)
