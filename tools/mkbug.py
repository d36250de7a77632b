#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE OLD NEW NEEDS BREAKS: write seeded/ID/{patch.diff,meta.json} (OLD must be unique in FILE; several FILE OLD NEW with --also)."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, prop, edits, needs, breaks, demo=None, files=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    patch = ""
    by = {}
    for f, old, new in edits:
        src = by.get(f) or open("/repo/" + f).read()
        assert src.count(old) == 1, (f, src.count(old), old)
        by[f] = src.replace(old, new)
    for f, src in by.items():
        p = os.path.join(t, "x")
        open(p, "w").write(src)
        r = subprocess.run(["git", "-C", "/repo", "diff", "--no-index", "--", "/repo/" + f, p], capture_output=True, text=True).stdout
        body = r[r.index("@@"):]
        patch += "diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n%s" % (f, f, f, f, body)
    shutil.rmtree(t)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if demo:
        open(os.path.join(d, "demo.sh"), "w").write(demo)
    for n, txt in (files or {}).items():
        open(os.path.join(d, n), "w").write(txt)
    print(id, len(patch))
