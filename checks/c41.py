#!/usr/bin/env python3
"""vvencode: what it asks the encoder to do (ffmpeg and exiv2 are not here, recorders stand in for them)."""
import glob, os, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core

SCRIPT = os.path.join(build.REPO, "utils", "scripts", "vvencode")
STUB = """#!/bin/sh
{ printf '%%s\\0' "$PWD" "$@"; printf '\\1'; } >> "$STUBLOG.%s"
%s
"""
DIRS = ["", "images_cyl_re600/", "my images/", "a  b/", "./x/", "d[1]/", "it's/", "d$HOME/", "ünï ☃/", "ABS"]
COMMENTS = ["", "t=10", "two words", "a 'quoted' \"text\"", "$HOME `ls` $(ls)", "*", "line1\nline2", "ünï ☃", "-y", "back\\slash", "  spaces  inside  "]
OUTS = ["out.mp4", "my movie.mp4", "./o.mkv", "sub dir/o.mp4", "a*.mp4", "$x.mp4", "it's.mp4", "ünï.mp4"]


def escape(d):
    """A directory name inside a file mask."""
    return d.replace("[", "\\[").replace("]", "\\]")


def runs(path):
    if not os.path.exists(path):
        return []
    return [[a.decode() for a in r.split(b"\0")[:-1]] for r in open(path, "rb").read().split(b"\1")[:-1]]


def encode(c, d, R):
    rng = np.random.default_rng(c["seed"])
    os.mkdir(d + "/bin")
    rc = int(rng.choice([0, 0, 0, 1, 187]))
    comment = str(rng.choice(COMMENTS))
    for n, body in (("ffmpeg", "exit %d" % rc), ("exiv2", "cat \"$STUBLOG.comment\"")):
        open(d + "/bin/" + n, "w").write(STUB % (n, body))
        os.chmod(d + "/bin/" + n, 0o755)
    w = d + "/work"
    os.mkdir(w)
    open(d + "/log.comment", "w").write(comment + ("\n" if rng.uniform() < .7 else ""))
    dn = str(rng.choice(DIRS))
    esc = escape(dn)
    if dn == "ABS":
        dn = esc = w + "/abs dir/"
    real = dn if dn.startswith("/") else w + "/" + dn
    os.makedirs(real, exist_ok=True)
    nf = int(rng.choice([1, 2, 11, 120]))
    step = int(rng.choice([1, 5, 50]))
    style = int(rng.integers(3))
    for i in range(nf):
        open(real + ("%06d.png" % (i * step) if style == 0 else "V frame %04d.png" % i if style == 1 else "f%d.png" % i), "w").close()
    for x in ("note.txt", "000000.eps"):
        open(real + x, "w").close()
    mask = esc + str(rng.choice({0: ["*.png", "0*.png", "??????.png"], 1: ["V*.png", "V frame *.png", "*.png"], 2: ["f*.png", "*.png"]}[style]))
    out = str(rng.choice(OUTS))
    extra = [[], [], ["-y"], ["-vf scale=640:-2"]][int(rng.integers(4))]
    env = dict(os.environ, PATH=d + "/bin:" + os.environ["PATH"], STUBLOG=d + "/log", HOME=d)
    env["LC_ALL"] = str(rng.choice(["C", "C.UTF-8"]))
    r = core.run([SCRIPT, mask, out] + extra, w, env=env)
    F, X = runs(d + "/log.ffmpeg"), runs(d + "/log.exiv2")
    what = "vvencode %r %r %s" % (mask, out, extra)
    if len(F) != 1:
        R.bad("encode:runs", "%s: %d runs of ffmpeg; %s %s" % (what, len(F), r.rc, r.err[-200:]))
        return
    if r.timeout or r.rc != rc:
        R.bad("encode:status", "%s: ffmpeg ended with %d, vvencode with %s" % (what, rc, r.rc))
    cwd, a = F[0][0], F[0][1:]
    if os.path.realpath(cwd) != os.path.realpath(w):
        R.bad("encode:cwd", "%s: ffmpeg runs in %s" % (what, cwd))
    i = a.index("-i") if "-i" in a else -1
    if i < 0 or i + 1 >= len(a) or a[i + 1] != mask or a.count("-i") != 1:
        R.bad("encode:input", "%s: input of ffmpeg %r" % (what, a))
        return
    pre = a[:i]
    if "-pattern_type" not in pre or pre[pre.index("-pattern_type") + 1] != "glob":
        R.bad("encode:input", "%s: the mask is not given as a mask: %r" % (what, a))
    if a[-1] != out:
        R.bad("encode:output", "%s: output of ffmpeg %r" % (what, a))
    if "-r" not in a or a[a.index("-r") + 1] != "25":
        R.bad("encode:rate", "%s: frame rate: %r" % (what, a))
    want = "comment=" + comment.rstrip("\n")
    if "-metadata" not in a or a[a.index("-metadata") + 1] != want:
        R.bad("encode:comment", "%s: comment of the first frame %r, options %r" % (what, comment, a))
    words = " ".join(extra).split()
    j = a.index("-metadata") + 2 if "-metadata" in a else 0
    if words and a[j:-1] != words:
        R.bad("encode:extra", "%s: extra options, ffmpeg gets %r" % (what, a))
    if not words and [x for x in a[j:-1] if x]:
        R.bad("encode:extra", "%s: options nobody gave: %r" % (what, a))
    first = sorted(glob.glob((glob.escape(dn) if dn.startswith("/") else w + "/" + glob.escape(dn)) + mask[len(esc):]))[0]
    if len(X) != 1 or os.path.realpath(os.path.join(X[0][0], X[0][-1])) != os.path.realpath(first):
        R.bad("encode:first", "%s: first frame %s, the comment is read from %s" % (what, first, [x[-1] for x in X]))
    R.count("frames matched", nf)
    R.case("encode|%s|%s|%s|%d|%s" % (dn if dn[0:1] != "/" else "ABS", comment, out, style, extra))


def usage(c, d, R):
    os.mkdir(d + "/bin")
    for n in ("ffmpeg", "exiv2"):
        open(d + "/bin/" + n, "w").write(STUB % (n, ""))
        os.chmod(d + "/bin/" + n, 0o755)
    env = dict(os.environ, PATH=d + "/bin:" + os.environ["PATH"], STUBLOG=d + "/log")
    open(d + "/a.png", "w").close()
    for a in ([], ["*.png"]):
        r = core.run([SCRIPT] + a, d, env=env)
        if "Usage" not in r.out + r.err or runs(d + "/log.ffmpeg"):
            R.bad("usage", "vvencode %s: %s %r, ffmpeg %r" % (a, r.rc, r.out, runs(d + "/log.ffmpeg")))
        if sorted(os.listdir(d)) != ["a.png", "bin"]:
            R.bad("usage", "vvencode %s leaves %s" % (a, os.listdir(d)))
        R.case("usage|%d" % len(a))


def case(c, d, R):
    globals()[c["kind"]](c, d, R)


def main(chk):
    if not os.stat(SCRIPT).st_mode & stat.S_IXUSR:
        chk.bad("script", "vvencode is not executable")
    chk.run(case, [dict(kind="usage")] + [dict(kind="encode", seed=[chk.seed, 41, i]) for i in range(chk.n(300, 3000))])


core.main(main, "C41", "distinct (mask, comment, output, options) command lines with the arguments the encoder received")
