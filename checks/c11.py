#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import tp

SPR = ["spring", "spring1", "free"]
V = [{"streak": True}, {"slip": True, "streak": True}, {"kinds": ["poly"], "streak": True}, {"nb": 3}, {"motion": SPR, "streak": True}, {"nb": 0, "vort": 20, "streak": True},
     {"kinds": ["cavity"], "nb": 1}, {"start": -4, "streak": True}]
tp.trace_check("C11", "distinct (body kinds, motions, flow, streak sources, due) combinations",
               [tp.shed], "preshed,shed", V, 500, 1600)
