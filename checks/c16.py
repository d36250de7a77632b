#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import tp

SPR = ["spring", "spring1", "free"]
V = [{"viscous": True}, {"viscous": True, "profile": True}, {"viscous": False, "profile": True}, {"viscous": True, "nb": 3}, {"slip": True, "viscous": True, "profile": True},
     {"viscous": True, "motion": ["rot", "forced"]}, {"viscous": True, "motion": SPR}]
tp.trace_check("C16", "distinct (body kinds, motions, flow, body, friction present) combinations",
               [tp.friction], "shed,forces,zero", V, 420, 1400)
