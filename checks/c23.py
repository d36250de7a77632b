#!/usr/bin/env python3
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core, h5

LISTS = ("vort_list", "sink_list", "streak_source_list", "streak_domain_list")
DS = {"vort_list": "vort", "sink_list": "source", "streak_source_list": "ink_source", "streak_domain_list": "ink"}
HEAD = """
local function g(x) return string.format("%.17g", x) end
function show(n) local o = {#S[n]}; for i, v in ipairs(S[n]) do o[#o+1]=g(v.r.x); o[#o+1]=g(v.r.y); o[#o+1]=g(v.g) end; print(table.concat(o, " ")) end
function try(f, ...) local ok, e = pcall(f, ...); print(ok and "ok" or "refused") end
function body(n) local ok, b = pcall(load_body, n); if not ok then print("refused") return end
  local o = {#b}; for i, v in ipairs(b:totable()) do o[#o+1]=g(v.x); o[#o+1]=g(v.y) end; print(table.concat(o, " ")); S.body_list:insert(b) end
"""


def num(rng):
    """-> (value, one of its spellings)."""
    k = int(rng.integers(9))
    if k == 0:
        v = float(int(rng.integers(-1000, 1000)))
        return v, str(int(v))
    if k == 1:
        v = rng.normal() * 10.0 ** rng.integers(-300, 300)
        return v, "%.17g" % v
    if k == 2:
        s = "%.3f" % rng.normal()
        return float(s), s
    if k == 3:
        s = "%+.5E" % rng.normal()
        return float(s), s
    if k == 4:
        v = rng.normal()
        return v, float(v).hex()
    if k == 5:
        s = str(rng.choice([".5", "-.25", "7.", "0", "-0", "+3", "00012", "1e-320", "123456789012345678901234567890"]))
        return float(s), s
    v = rng.normal() * 10.0 ** rng.integers(-3, 3)
    return v, repr(float(v))


def sep(rng, long=True):
    k = int(rng.integers(6))
    return " " if k < 3 else "\t" if k == 3 else "  \t " if k == 4 else " " * int(rng.choice([3, 300 if long else 3]))


def bits(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    L, want = [HEAD], []
    has = {n: [] for n in LISTS}
    bodies = []
    for k in range(c["n"]):
        fn = "f%d" % k
        t = int(rng.integers(9))
        if t < 3:       # text list
            n = int(rng.choice([0, 1, 2, 5, 40, 700]))
            el, txt = [], ""
            free = rng.uniform() < .3          # records need not follow lines
            for _ in range(n):
                v = [num(rng) for _ in range(3)]
                el.append([x[0] for x in v])
                txt += sep(rng, 0)[:2] * int(rng.integers(2))
                txt += v[0][1] + (sep(rng) if not free else "\n") + v[1][1] + sep(rng) + v[2][1]
                txt += "\n" if not free or rng.uniform() < .5 else sep(rng)
                if rng.uniform() < .1:
                    txt += "\n"
            kind = "text"
            if rng.uniform() < .3 and n:
                txt = txt.rstrip()
                kind = "text, no final newline"
            elif rng.uniform() < .15:
                txt = txt.replace("\n", "\r\n")
                kind = "text, CRLF"
            elif rng.uniform() < .3:      # what follows the first malformed record is not read
                txt += str(rng.choice(["x y z\n1 2 3\n", "1 2\n", "1\n", "1, 2, 3\n4 5 6\n", "# end\n 1 1 1\n", "1 2 z\n4 5 6"]))
                kind = "text, malformed rest"
            open(os.path.join(d, fn), "w").write(txt)
            l = LISTS[int(rng.integers(4))]
            has[l] += el
            L.append("try(S.%s.load, S.%s, '%s'); show('%s')" % (l, l, fn, l))
            want += [("try", kind, "ok"), ("list", kind, l, list(has[l]))]
        elif t < 5:     # binary list
            n = int(rng.choice([0, 1, 3, 50, 2000]))
            if n == 2000 and rng.uniform() < .1:
                n = int(rng.choice([9000, 33000, 66000]))
            el = rng.normal(0, 1, (n, 3)) * 10.0 ** rng.integers(-300, 300, (n, 3))
            el[rng.uniform(size=el.shape) < .02] = np.inf
            rest = int(rng.choice([0, 0, 0, 1, 8, 23]))
            open(os.path.join(d, fn), "wb").write(el.tobytes() + b"\1" * rest)
            l = LISTS[int(rng.integers(4))]
            has[l] += el.tolist()
            kind = "binary, partial record" if rest else "binary"
            L.append("try(S.%s.load_bin, S.%s, '%s'); show('%s')" % (l, l, fn, l))
            want += [("try", kind, "ok"), ("list", kind, l, list(has[l]))]
        elif t == 5:    # unreadable
            l = LISTS[int(rng.integers(4))]
            p = str(rng.choice(["nowhere", "."]))
            f = str(rng.choice(["load", "load_bin"]))
            L.append("try(S.%s.%s, S.%s, '%s'); show('%s'); body('%s')" % (l, f, l, p, l, p))
            want += [("try", "unreadable " + f, "refused"), ("list", "unreadable", l, list(has[l])), ("body", "unreadable body", None)]
        else:           # body
            n = int(rng.integers(1, 60))
            pts, sl, txt = [], [], ""
            cols = int(rng.integers(3))
            kind = "body, " + ("no slip column", "slip column", "partial slip column")[cols]
            for _ in range(n):
                v = [num(rng) for _ in range(2)]
                s = int(rng.integers(2)) if cols == 1 or cols == 2 and rng.uniform() < .5 else None
                pts.append([v[0][0], v[1][0]])
                sl.append(s or 0)
                txt += sep(rng) * int(rng.integers(2)) + v[0][1] + sep(rng) + v[1][1] + ("" if s is None else sep(rng) + str(s)) + sep(rng) * int(rng.integers(2)) + "\n"
            if rng.uniform() < .3:
                txt = txt.rstrip()
                kind += ", no final newline"
            elif rng.uniform() < .2:
                txt = txt.replace("\n", "\r\n")
                kind += ", CRLF"
            elif rng.uniform() < .25:
                rows = txt.splitlines()
                rows.insert(int(rng.integers(len(rows) + 1)), str(rng.choice(["", "x", "1", "1,2", "# comment", "1 x"])))
                txt = "\n".join(rows) + "\n"
                kind = "body, malformed"
            open(os.path.join(d, fn), "w").write(txt)
            L.append("body('%s')" % fn)
            if "malformed" in kind:
                want.append(("body", kind, None))
            else:
                want.append(("body", kind, pts))
                bodies.append((kind, pts, sl))
    L.append("S:save('x.h5')")
    open(os.path.join(d, "t.lua"), "w").write("\n".join(L) + "\n")
    q = core.must_ok(core.run2([c["vv"], "t.lua"], d), "vvflow")
    out = q.out.splitlines()
    if len(out) != len(want):
        raise core.Viol("answers", "%d answers for %d questions" % (len(out), len(want)))
    for w, o in zip(want, out):
        tag = w[1].replace(", ", ",").replace(" ", "-")
        if w[0] == "try":
            if o != w[2]:
                R.bad("%s:%s" % (o, tag), "%s: the file is %s" % (w[1], o))
            continue
        if w[0] == "body" and (w[2] is None or o == "refused"):
            if (w[2] is None) != (o == "refused"):
                R.bad("body:" + tag, "%s: %s" % (w[1], "refused" if o == "refused" else "accepted as " + o[:200]))
            R.case(w[1])
            continue
        ref = w[3] if w[0] == "list" else w[2]
        m = 3 if w[0] == "list" else 2
        x = o.split()
        got = np.array([float(v) for v in x[1:]]).reshape(-1, m)
        if int(x[0]) != len(ref) or len(got) != len(ref):
            R.bad("count:" + tag, "%s: %s elements instead of %d" % (w[1], x[0], len(ref)))
        elif not bits(got, np.array(ref).reshape(-1, m)):
            k = int(np.argmax((got != np.array(ref).reshape(-1, m)).any(1)))
            R.bad("value:" + tag, "%s: element %d is %s instead of %s" % (w[1], k, got[k].tolist(), ref[k]))
        R.case("%s|%d" % (w[1], min(len(ref), 50)), len(ref) + 1)
    f = h5.read(os.path.join(d, "x.h5"))
    for l in LISTS:
        got = np.asarray(f.children[DS[l]].data)[:, :3] if DS[l] in f.children else np.zeros((0, 3))
        ref = np.array(has[l]).reshape(-1, 3)
        if len(got) != len(ref) or not bits(got, ref):
            R.bad("snapshot:" + l, "the %s saved after loading has %d elements, expected %d" % (l, len(got), len(ref)))
        R.case("snapshot|" + l, len(ref))
    for i, (kind, pts, sl) in enumerate(bodies):
        b = f.children["body%02d" % i]
        P = np.asarray(b.data)[:, :2]
        s = np.broadcast_to(np.asarray(b.attrs["slip"] if "slip" in b.attrs else b.attrs["general_slip"]), len(P)).astype(int)
        if not bits(P, pts):
            R.bad("body points", "%s: the points saved differ" % kind)
        if (s != sl).any():
            R.bad("slip:" + kind.replace(" ", "-"), "%s: segment %d has slip flag %d" % (kind, int((s != sl).argmax()), s[int((s != sl).argmax())]))
        R.case("snapshot|" + kind, len(P))
    R.sample = "%d files; lists of %s elements, %d bodies" % (c["n"], [len(has[l]) for l in LISTS], len(bodies))


def main(chk):
    vv = build.program("vvflow", "rel")
    chk.run(case, [dict(seed=[chk.seed, 23, i], vv=vv, n=24) for i in range(chk.n(240, 3000))])


core.main(main, "C23", "distinct (file kind, size class) files loaded and compared; readback through the script and the snapshot")
