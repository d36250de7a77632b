#!/usr/bin/env python3
"""setup_cmd: warm the build cache (every check rebuilds what it needs anyway)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vv import build
for n, v in (("vvflow", "rel"), ("vvflow", "mon"), ("vvflow", "asan"), ("vvplot", "rel"), ("vvplot", "asan"), ("vvxtract", "rel"), ("vvxtract", "asan"),
             ("vvflow", "amon"), ("vvflow", "tmon"), ("vvplot", "tmon"), ("vvflow", "tsan"), ("vvplot", "tsan")):
    print(build.program(n, v))
