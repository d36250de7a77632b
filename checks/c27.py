#!/usr/bin/env python3
import glob, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
np.seterr(all="ignore")
from vv import build, core, h5, poly, scen, sim
from vv.spacegen import space


def fmt(v):
    """%+.6le"""
    if v != v:
        return None
    if math.isinf(v):
        return "+inf" if v > 0 else "-inf"
    return "%+.6e" % v


def g(v):
    return "%g" % v


def samenum(got, v, rel=0.0, ab=0.0):
    """Printed with %lg; rel/ab loosen it for derived values."""
    try:
        x = float(got)
    except ValueError:
        return False
    if v != v or x != x:
        return v != v and x != x
    if got == g(v):
        return True
    return (rel or ab) and abs(x - v) <= rel * abs(v) + ab + 6e-6 * abs(v)


def run(c, d, *args):
    r = core.run2([c["vx"], *args], d)
    dead = core.died(r)
    if dead:
        raise core.Viol("vvxtract:died", "vvxtract %s: %s %s" % (" ".join(args), dead, r.err[-500:]))
    return r


def datasets(path):
    out = {}

    def walk(n, p):
        for k, v in getattr(n, "children", {}).items():
            if isinstance(v, h5.Dataset):
                out[p + k] = np.asarray(v.data, float)
            elif isinstance(v, h5.Group):
                walk(v, p + k + "/")
    walk(h5.read(path), "")
    return out


def tables(c, d, R, fn, rng, tag):
    D = datasets(d + "/" + fn)
    r = run(c, d, *(["-l"] if rng.uniform() < .5 else ["--list"]), fn)
    if r.rc or sorted(r.out.split("\n")[:-1]) != sorted(D):
        R.bad("list:" + tag, "vvxtract --list printed %s, the file holds %s (exit %d)" % (sorted(r.out.split())[:8], sorted(D)[:8], r.rc))
    R.case("list|%s|%d" % (tag, min(len(D), 12)))
    names = sorted(D)
    for _ in range(3):
        if not names:
            break
        sel = [names[int(rng.integers(len(names)))] for _ in range(int(rng.integers(1, 5)))]
        if rng.uniform() < .3:
            sel[0] = "/" + sel[0]
        r = run(c, d, fn, *sel)
        if r.rc:
            R.bad("table:failed", "vvxtract %s %s failed: %s" % (fn, sel, r.err[-300:]))
            continue
        L = r.out.split("\n")
        A = [D[s.lstrip("/")] for s in sel]
        A = [a.reshape(len(a), -1) for a in A]
        head = "#" + "".join("%s%s\t" % (s, "[%d]" % (j + 1) if a.shape[1] > 1 else "") for s, a in zip(sel, A) for j in range(a.shape[1]))
        if L[0] != head:
            R.bad("table:head", "header %s instead of %s" % (L[0][:200], head[:200]))
        n = max(len(a) for a in A)
        if len(L) != n + 2 or L[-1]:
            R.bad("table:rows:" + tag, "vvxtract %s %s printed %d rows instead of %d" % (fn, sel, len(L) - 2, n))
            continue
        for i in range(n):
            cells = L[i + 1].split("\t")
            want = [None if i >= len(a) else float(a[i, j]) for a in A for j in range(a.shape[1])]
            if len(cells) != len(want) + 1 or cells[-1]:
                R.bad("table:columns", "row %d has %d columns instead of %d" % (i, len(cells) - 1, len(want)))
                break
            for j, (x, w) in enumerate(zip(cells, want)):
                if w is None:
                    ok = x.strip() == ""
                elif w != w:
                    ok = x.strip().lstrip("+-") == "nan"
                else:
                    ok = x == fmt(w)
                if not ok:
                    R.bad("table:value:" + tag, "vvxtract %s %s: row %d column %d is %r, the file holds %r" % (fn, sel, i, j, x, w))
                    break
            else:
                continue
            break
        R.case("table|%s|%d|%s" % (tag, len(sel), len({len(a) for a in A}) > 1), n)
        R.count("rows", n)


def info(c, d, R, fn, rng, tag):
    f = h5.read(d + "/" + fn)
    args = ([["-i"], ["--info"], []][int(rng.integers(3))])
    D = [k for k, v in f.children.items() if isinstance(v, h5.Dataset)]
    r = run(c, d, *args, fn, *(D[:1] if args and rng.uniform() < .3 else []))
    if r.rc:
        R.bad("info:failed", "vvxtract --info %s failed: %s" % (fn, r.err[-300:]))
        return
    L = r.out.split("\n")
    A = f.attrs
    # the git difference may take several lines
    want = []
    want.append("caption: %s" % A.get("caption", ""))
    want.append("created: %s" % A.get("time_local", ""))
    want.append("version: %s" % A.get("git_info", ""))
    want.append("git_rev: %s" % A.get("git_rev", ""))
    if A.get("git_diff"):
        want += ("git_diff: %s" % A["git_diff"]).split("\n")
    if "dt" not in A:
        if L != want + [""]:
            R.bad("info:log", "info of a step log is %s instead of %s" % (L[:6], want[:6]))
        R.case("info|log")
        return
    if L[:len(want)] != want:
        R.bad("info:file", "%s instead of %s" % ([x for x in L[:len(want)] if x not in want][:3], [x for x in want if x not in L][:3]))
    L = L[len(want):]
    bodies = sorted(k for k in f.children if k.startswith("body"))
    bodies.sort(key=lambda k: int(k[4:]))
    n = lambda k: len(f.children[k].data) if k in f.children else 0
    # (text before the values, the values, text after them) or plain lines
    W = ["", "-- space", ("S.re = ", [A["re"]], ""), ("S.inf_g = ", [A["inf_circulation"]], ""),
         "S.inf_vx = '%s'" % A.get("inf_speed_x", ""), "S.inf_vy = '%s'" % A.get("inf_speed_y", ""), ("S.gravity = {", list(A["gravity"]), "}")]
    for k in ("time", "dt"):
        W.append("S.%s = '%d/%d' -- %s" % (k, *A[k], g(A[k][0] / A[k][1])))
    for k in ("dt_save", "dt_streak", "dt_profile"):
        W.append("S.%s = '%d/%d'" % (k, *A[k]))
    W += [("S.finish = ", [A["time_to_finish"]], ""), "-- #S.body_list = %d -- number of elements" % len(bodies), "-- #S.vort_list = %d" % n("vort"),
          "-- #S.sink_list = %d" % n("source"), "-- #S.streak_source_list = %d" % n("ink_source"), "-- #S.streak_domain_list = %d" % n("ink")]
    lab = {b: f.children[b].attrs.get("label") or b for b in bodies}
    for b in bodies:
        o = f.children[b]
        a = o.attrs
        l = lab[b]
        W += ["", "-- %s (%s)" % (b, a.get("label", "")), "%s.label = '%s'" % (l, a.get("label", "")), (l + ".density = ", [a["density"]], "")]

        def v3(name, at, deg=False):
            v = list(a[at])
            return ("%s.%s = {" % (l, name), v, "}" if not deg else ("} -- .d = ", v[2] * 180. / math.pi))
        W.append(v3("holder_pos", "holder_position", True))
        for k, at in (("holder_vx", "speed_x"), ("holder_vy", "speed_y"), ("holder_vo", "speed_o"), ("holder_mo", "force_o")):
            W.append("%s.%s = '%s'" % (l, k, a.get(at, "")))
        W += [v3("speed", "speed_slae"), v3("delta_pos", "delta_position", True), v3("spring_const", "spring_const"), v3("spring_damping", "spring_damping"),
              v3("collision_min", "collision_min", True), v3("collision_max", "collision_max", True), (l + ".bounce = ", [a["bounce"]], "")]
        s = set(np.atleast_1d(a["slip"] if "slip" in a else a["general_slip"]).tolist())
        W.append("%s.slip = %s" % (l, "nil -- mixed" if len(s) > 1 else "false -- no-slip" if s == {0} else "true -- slip"))
        W.append("%s.special_segment = %d" % (l, a["special_segment_no"]))
        W.append("%s.root = %s" % (l, lab.get(a.get("root_body"), "nil")))
        W.append("-- #%s = %d -- number of segments" % (l, len(o.data)))
        P = np.asarray(o.data)[:, :2]
        ax = np.array(list(a["holder_position"]))[:2] + np.array(list(a["delta_position"]))[:2]
        per, ar, cm, J = poly.integrals(P)
        B = float(np.abs(P).max() + np.ptp(P, axis=0).max())
        good = len(P) > 2 and abs(ar) > 1e-3 * per * per
        axm = float(np.nanmax(np.abs(ax))) if np.isfinite(ax).all() else math.inf
        W += [("-- %s.get_axis() = {" % l, list(ax), "} -- rotation axis", 1e-9, 1e-12 * axm), ("-- %s.get_cofm() = {" % l, list(cm) if good else None, "} -- center of mass", 1e-6, 1e-6 * B),
              ("-- %s.get_slen() = " % l, [per], " -- surface length", 1e-6), ("-- %s.get_area() = " % l, [-ar] if good else None, "", 1e-6, 1e-9 * B * B)]
        if good and B < 30 * per:
            d2 = float(((ax - cm) ** 2).sum())
            W += [("-- %s.get_moi_cofm() = " % l, [-J], "", 1e-6, 1e-9 * B ** 4), ("-- %s.get_moi_axis() = " % l, [-J - ar * d2], "", 1e-6, 1e-9 * B ** 4)]
        else:
            W += [("-- %s.get_moi_cofm() = " % l, None, ""), ("-- %s.get_moi_axis() = " % l, None, "")]
    W.append("")
    if len(L) != len(W):
        R.bad("info:lines:" + tag, "info of %s has %d lines instead of %d" % (fn, len(L), len(W)))
        return
    for x, w in zip(L, W):
        if isinstance(w, str):
            ok = x == w
        else:
            pre, vals, post = w[:3]
            rel, ab = (list(w[3:]) + [0, 0])[:2]
            last = None
            if isinstance(post, tuple):
                post, last = post
            ok = x.startswith(pre) and post in x[len(pre):]
            if ok:
                k = x.index(post, len(pre)) if post else len(x)
                nums, rest = x[len(pre):k].split(", "), x[k + len(post):]
                if vals is not None:
                    ok = len(nums) == len(vals) and all(samenum(a, float(b), rel, ab) for a, b in zip(nums, vals))
                ok = ok and (samenum(rest, last, 1e-12) if last is not None else rest == "")
        R.evals += 1
        if not ok:
            key = x.split(" = ")[0].split(".")[-1].split(" ")[-1] if " = " in x else "text"
            R.bad("info:%s" % key[:30], "vvxtract --info printed %r, the file holds %r" % (x[:200], w if isinstance(w, str) else w[:3]))
    R.case("info|%s|%d bodies|%s" % (tag, min(len(bodies), 13), any(lab[b] == b for b in bodies)), 0)


def full(c, d, R, fn, rng):
    """A table cut short by a full disk is not passed off as complete."""
    D = sorted(datasets(d + "/" + fn))
    for args in [[fn, k] for k in D[:2]] + [[fn, *D]] + [["-l", fn], ["-i", fn], [fn]]:
        ok = run(c, d, *args)
        r = core.run2(["sh", "-c", '"$0" "$@" > /dev/full', c["vx"], *args], d)
        dead = core.died(r)
        if ok.rc == 0 and ok.out and (dead or r.rc == 0 or not r.err.strip()):
            R.bad("full", "vvxtract %s > /dev/full ended with %s (exit code %d) and the message %r" % (" ".join(args), dead, r.rc, r.err[:200]))
        R.count("outputs to a full disk")
    R.case("full disk", 0)


def refused(c, d, R, fn, rng):
    """Names and files that are not there."""
    D = datasets(d + "/" + fn)
    open(d + "/text.h5", "w").write("no hdf5 at all\n" * 50)
    open(d + "/empty.h5", "w").close()
    b = open(d + "/" + fn, "rb").read()
    open(d + "/short.h5", "wb").write(b[:int(len(b) * rng.uniform(.01, .6))])
    os.mkdir(d + "/dir.h5")
    some = sorted(D)[0] if D else "vort"
    for args in ([fn, "no_such"], [fn, some, "no_such"], [fn, "no_such", some], ["none.h5"], ["none.h5", some], ["text.h5"], ["text.h5", some], ["empty.h5"],
                 ["short.h5"], ["dir.h5"], [], ["-l"], ["-l", "text.h5"], [fn, "/"], ["--nope", fn], [fn, some + "/x"], [fn, ""]):
        r = run(c, d, *args)
        if r.rc == 0 or not r.err.strip():
            R.bad("refused", "vvxtract %s ended with exit code %d and the message %r" % (args, r.rc, r.err[:200]))
        R.case("refused|%s" % " ".join(args).replace(fn, "F").replace(some, "D"))
    for k in sorted(D):
        if "/" in k:
            r = run(c, d, fn, k.split("/")[0])
            if r.rc == 0:
                R.bad("refused:group", "a group was printed as a dataset")
            break


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "space":
        L, W = space(rng, d, "a", R)
        open(d + "/a.lua", "w").write("\n".join(L + ["S:save('a.h5')"]) + "\n")
        core.must_ok(core.run2([c["vv"], "a.lua"], d), "vvflow")
        files = ["a.h5"]
    else:
        sc = scen.scenario(rng, steps=int(rng.integers(3, 10)), save_every=2)
        scen.write(sc, d)
        core.must_ok(core.run2([c["vv"], *(["--profile"] if rng.uniform() < .5 else []), "s.lua"], d), "vvflow")
        S = sorted(glob.glob(d + "/results_t/*.h5"))
        files = ["stepdata_t.h5"] + ([os.path.relpath(S[int(rng.integers(len(S)))], d)] if S else [])
    for fn in files:
        tag = "log" if fn.startswith("step") else c["kind"]
        tables(c, d, R, fn, rng, tag)
        info(c, d, R, fn, rng, tag)
        if rng.uniform() < .1:
            refused(c, d, R, fn, rng)
            os.rmdir(d + "/dir.h5")
            full(c, d, R, fn, rng)
    if rng.uniform() < .3:
        # tables of any width, such as the profiles of a body of two segments
        with h5.Editor(d + "/" + fn) as e:
            for n in (2, int(rng.integers(4, 40))):
                e.set_dataset("wide%d" % n, np.round(rng.normal(0, 1, (int(rng.integers(1, 9)), n)) * 10.0 ** rng.integers(-9, 9), 5).astype(rng.choice(["f4", "f8"])))
        tables(c, d, R, fn, rng, "wide")
    R.sample = "%s of a %s" % (files, c["kind"])


def main(chk):
    vv, vx = build.program("vvflow", "rel"), build.program("vvxtract", "rel")
    chk.run(case, [dict(seed=[chk.seed, 27, i], vv=vv, vx=vx, kind="space" if i % 3 else "run") for i in range(chk.n(400, 5000))])


core.main(main, "C27", "distinct (kind of output, kind of file, number of datasets or bodies) outputs compared with an independent reader")
