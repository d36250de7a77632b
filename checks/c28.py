#!/usr/bin/env python3
import io, math, os, re, sys, tarfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from vv import build, core, fieldio, h5, plot, png, poly, snap
import c24, c26

FLAGS = dict(gray=0, colorbox=None, timelabel=1, holder=0, spring=0)


def g6(x):
    return float("%.6g" % x)


def near(a, b, tol=6e-6):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-12


def window(rng, s, o):
    """Fills o with -x, -y and --size; -> (options, expected window before the shift or None when it must be refused, W, H)."""
    r = snap.window(rng, s)
    W, H = int(rng.choice([1280, 640, 300, 201, 64])), int(rng.choice([720, 360, 111, 64]))
    aspect = (r[3] - r[2]) / (r[1] - r[0])
    k = int(rng.integers(9))
    x, y = list(r[:2]), list(r[2:])
    size = (W, H)
    f = lambda v: "nan" if math.isnan(v) else "%.17g" % v
    nan = math.nan
    if k == 0:
        size = None
        W, H = 1280, 1280 * aspect
    elif k == 1:
        H = W * aspect
        size = (W, int(rng.choice([0, 333])))
    elif k == 2:
        W = H / aspect
        size = (0, H)
    elif k == 3:
        y = [r[2], r[2]]
        h = (r[1] - r[0]) * H / W
        r = [r[0], r[1], y[0] - h / 2, y[0] + h / 2]
    elif k == 4:
        x = [r[0], r[0]]
        w = (r[3] - r[2]) * W / H
        r = [x[0] - w / 2, x[0] + w / 2, r[2], r[3]]
    elif k == 5:
        if rng.uniform() < .5:
            y = [nan, r[3]]
            r = [r[0], r[1], r[3] - (r[1] - r[0]) * H / W, r[3]]
        else:
            y = [r[2], nan]
            r = [r[0], r[1], r[2], r[2] + (r[1] - r[0]) * H / W]
    elif k == 6:
        if rng.uniform() < .5:
            x = [nan, r[1]]
            r = [r[1] - (r[3] - r[2]) * W / H, r[1], r[2], r[3]]
        else:
            x = [r[0], nan]
            r = [r[0], r[0] + (r[3] - r[2]) * W / H, r[2], r[3]]
    elif k == 7:
        # more than one thing is missing
        x, y, size = [(x, None, (W, 0)), (x, y, (0, 0)), ([x[0], nan], [nan, y[1]], None), (x, [0, 0], (0, H)), (None, None, (W, H)), (None, y, (W, 0))][int(rng.integers(6))]
        r = None
    else:
        x, y = x[::-1], y[::-1]
        size = None
        W, H = 1280, 1280 * aspect
    opts = []
    if x: opts.append(["-x", f(x[0]) + "," + f(x[1])])
    if y: opts.append(["-y", f(y[0]) + "," + f(y[1])])
    if size: opts.append(["--size", "%dx%d" % size])
    return opts, r, W, H, k


def parse(gp):
    """plot.gp -> (settings text, [(source, rest)])."""
    i = gp.find("\nplot ")
    if i < 0:
        return gp, []
    items, src = [], None
    for t in gp[i + 6:].replace("\\\n", " ").split("\n")[0].split(",     "):
        t = t.strip()
        m = re.match(r"'([^']*)'\s*(.*)$", t)
        if not m:
            raise ValueError("plot item " + t)
        src = m.group(1) or src
        items.append((src, m.group(2)))
    return gp[:i], items


def rows(b, n):
    if len(b) % (4 * n):
        raise core.Viol("items", "an item of %d bytes, which are no rows of %d numbers" % (len(b), n))
    return np.frombuffer(b, np.float32).reshape(-1, n)


def texts(b):
    return [[float(x) for x in l.split()] for l in b.decode().splitlines()]


def isolines(R, key, what, b, z, x, y, lo, hi, dv, src=()):
    a = np.frombuffer(b, np.float32)
    if not dv > 0:
        if len(a):
            R.bad(key, what + ": lines of a constant field")
        return
    if len(a) % 2:
        return R.bad(key, what + ": odd number of values")
    a = a.reshape(-1, 2)
    sep = np.isnan(a).any(1)
    lv, v = [], lo
    while v <= hi:
        lv.append(float(np.float32(v)))
        v += dv
    x, y = x.astype(float), y.astype(float)
    dx = (y[-1] - y[0]) / (len(y) - 1)
    g = np.stack([(a[:, 0] - x[0]) / (x[-1] - x[0]) * (len(x) - 1), (a[:, 1] - y[0]) / dx], 1)
    got = [tuple(g[i]) + tuple(g[i + 1]) for i in range(len(g) - 1) if not sep[i] and not sep[i + 1]]
    # positions are in single precision
    tol = 3e-5 + 1e-6 * (max(np.abs(x).max(), np.abs(y).max()) / dx + max(z.shape))
    if tol > .01 or len(got) > 20000:
        return R.count("isoline sets skipped")
    gaps = []
    for sx, sy, g in src:
        u, v = (sx - x[0]) / (x[-1] - x[0]) * (len(x) - 1), (sy - y[0]) / dx
        if min(abs(u - round(u)), abs(v - round(v))) < 10 * tol:
            return R.count("isoline sets skipped")
        if u > 0 and 0 < v < len(y) - 1:
            gaps.append((min(int(u), len(x) - 1), int(v), g))
            R.count("sinks among streamlines")
    res = [c26.compare(got, z, lv, ge, tol, gaps) for ge in (False, True)]
    w, extra, miss = min(res, key=lambda r: len(r[1]) + len(r[2]))
    # interpolation next to nearly equal values is ill-conditioned
    if len(extra) + len(miss) > .25 * len(w) + 2:
        R.bad(key, "%s: %d of %d segments are missing, %d are not on a level (levels %g..%g step %g)" % (what, len(miss), len(w), len(extra), lo, hi, dv))
    R.count("isoline segments", len(w))


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    path, sig = c24.snapshot(c, rng, d)
    s = plot.load(path, c["vvflow"], d)
    nb = len(s.bodies)
    names = [""] * nb
    if nb and rng.uniform() < .6:
        pool = ["wing", "wing", "a b", "body01", "body00", "", "L'aile", "x\"y", "tail,1", "%s%d", "vortex_list", "map_vorticity"]
        with h5.Editor(path) as e:
            for i in range(nb):
                names[i] = str(rng.choice(pool))
            if rng.uniform() < .4:       # names that belong to another item or to another body
                own = ["body00", "body01", "body02", "vortex_list", "map_vorticity", "map_pressure", "isopressure", "streamlines", "map_streamfunction", "map_velocity_x", "map_velocity_y",
                       "body_holders", "body_springs", "ttree_bottom_nodes", "ttree_near_nodes", "ttree_find_node", "plot.gp"]
                k = int(rng.integers(4))
                if k == 0:               # all of them the same
                    names = [str(rng.choice(own + ["wing"]))] * nb
                elif k == 1:             # the first has the fallback name of another
                    names = ["body%02d" % (i + 1) for i in range(nb)]
                    names[-1] = str(rng.choice(["", "body00", names[0]]))
                elif k == 2:
                    names[int(rng.integers(nb))] = str(rng.choice(own))
                else:
                    names[int(rng.integers(nb))] = "n" * int(rng.choice([99, 100, 101, 249, 250, 300, 1000]))
            for i in range(nb):
                if names[i]:
                    e.set_attr("body%02d" % i, "label", names[i], "vstr")
    for k in range(c["n"]):
        one(c, d, R, rng, path, sig, s, names, "out%d.tar" % k)
    body_picture(c, d, R, rng, path, s)
    if rng.uniform() < .35:
        defaults(c, d, R, rng, path)


DEFAULTS = [["-x", "0,0"], ["-y", "0,0"], ["--size", "1280x720"], ["--eps", "2"], ["--ref-xy", "o"], ["--ref-S", "o"], ["--ref-P", "s"], ["--no-gray"], ["--timelabel"], ["--no-holder"], ["--no-spring"],
            ["--res-hi", "640"], ["--res-lo", "256"]]


def defaults(c, d, R, rng, path):
    """An option that is given its documented default changes nothing."""
    field = str(rng.choice(["", "G", "P", "Ux", "Uy"]))
    sel = [x for x in "BVS" if rng.uniform() < .6]
    a = [["-" + x] for x in sel] + ([["-" + field]] if field else [])
    b = [["--V", "4"] if x == "V" and rng.uniform() < .5 else ["--B"] if x == "B" and rng.uniform() < .5 else ["-" + x] for x in sel]
    b += [["--P", "-1.5,1"] if field == "P" and rng.uniform() < .5 else ["-" + field]] if field else []
    costly = {"-x": "1.25,2.5", "-y": "-0.5,0.75", "--size": "64x48", "--res-hi": "9", "--res-lo": "7"}
    said = []
    axis = str(rng.choice(["-x", "-y"]))     # at least one range is required
    for x in DEFAULTS:
        u = rng.uniform() if x[0] != axis else 0
        if x[0] in costly and u < (.4 if x[0] != "--res-hi" else .75):
            a.append([x[0], costly[x[0]]])
            b.append([x[0], costly[x[0]]])
        elif u < .8 or x[0] in costly:
            b.append(x)
            said.append(x[0])
    if rng.uniform() < .5 and field:
        b.append(["--colorbox"])
    rng.shuffle(b)
    A = []
    for nm, o in (("da.tar", a), ("db.tar", b)):
        q = core.run2([c["vvplot"], "--tar", *sum(o, []), path, nm], d, timeout=100)
        if core.died(q) or q.rc:
            return R.bad("defaults", "%s: %s, exit code %s, %s" % (sum(o, []), core.died(q), q.rc, q.err[-200:]))
        t = plot.archive(os.path.join(d, nm))
        A.append({k: "\n".join(x for x in v.decode().splitlines() if x[:1] != "#") if k == "plot.gp" else v for k, v in t.items()})
    diff = [k for k in set(A[0]) | set(A[1]) if A[0].get(k) != A[1].get(k)]
    if diff:
        R.bad("defaults", "%s and %s draw different %s" % (" ".join(sum(a, [])), " ".join(sum(b, [])), sorted(diff)))
    R.count("defaults given explicitly", len(said))
    R.case("defaults|%s|%s|%s" % (field, "".join(sel), len(said)))


def one(c, d, R, rng, path, sig, s, names, name):
    nb = len(s.bodies)
    wo, r, W, H, kind = window(rng, s, {})
    opts = wo
    # what to plot
    o = dict(B=rng.uniform() < .5, V=rng.uniform() < .4, S=rng.uniform() < .4)
    field = str(rng.choice(["", "G", "P", "Ux", "Uy"]))
    if field and rng.uniform() < .2:     # the last one counts
        opts.append([str(rng.choice(["-G", "-P", "-Ux", "-Uy"]))])
    lim = None
    auto = rng.uniform() < .5
    if field:
        if auto:
            opts.append(["-" + field])
        elif field == "G":
            lim = round(float(rng.uniform(.1, 9)), 3)
            opts.append(["--G", "%g" % lim])
        else:
            a, b = sorted(np.round(rng.uniform(-3, 3, 2), 3))
            lim = (float(a), float(b + .5))
            opts.append(["--" + field, "%g,%g" % lim])
    # an earlier explicit range stays with its field only
    fixed = len(opts)
    vs = 4
    if o["B"]: opts.append(["-B"])
    if o["V"]:
        if rng.uniform() < .5:
            opts.append(["-V"])
        else:
            vs = int(rng.integers(0, 9))
            opts.append(["--V", str(vs)])
    srange = None
    if o["S"]:
        if rng.uniform() < .5:
            opts.append(["-S"])
        else:
            a = float(np.round(rng.uniform(-2, 1), 2))
            srange = (a, a + float(np.round(rng.uniform(0, 3), 2)), float(np.round(rng.uniform(.05, .5), 2)))
            opts.append(["--S", "%.17g,%.17g,%.17g" % srange])
    fl = dict(FLAGS)
    for f in FLAGS:
        u = rng.uniform()
        if u < .5:
            fl[f] = int(u < .3)
            opts.append(["--" + ("" if fl[f] else "no-") + f])
    hi, lo = int(rng.integers(2, 24)), int(rng.integers(2, 24))
    opts += [["--res-hi", str(hi)], ["--res-lo", str(lo)]]
    tt = [t for t in ("bottom-nodes", "near-nodes", "find-node") if rng.uniform() < .15]
    opts += [["--ttree-" + t] for t in tt]
    ref = str(rng.choice(["o", "o", "f", "b", "bxy", "bx", "by"]))
    refS, refP = str(rng.choice(["o", "f", "b"])), str(rng.choice(["s", "o", "f", "b"]))
    if ref != "o" or rng.uniform() < .3: opts.append(["--ref-xy", ref])
    if refS != "o" or rng.uniform() < .3: opts.append(["--ref-S", refS])
    if refP != "s" or rng.uniform() < .3: opts.append(["--ref-P", refP])
    # order is free, except between fields and between them and the colour box (which each of them turns on)
    keep = [x for x in opts if x[0].lstrip("-")[:2] in ("G", "P", "Ux", "Uy", "co") or x[0] in ("--no-colorbox",)]
    rest = [x for x in opts if x not in keep]
    rng.shuffle(rest)
    for x in keep:
        rest.insert(0, x) if rng.uniform() < 0 else None
    pos = sorted(int(rng.integers(len(rest) + 1)) for _ in keep)
    seq, j = [], 0
    for i in range(len(rest) + 1):
        while j < len(keep) and pos[j] == i:
            seq += keep[j]
            j += 1
        if i < len(rest):
            seq += rest[i]
    what = "%s: %s %s" % (name, os.path.basename(path), " ".join(seq))
    frame_b = ref[0] == "b" or (field == "P" and refP == "b") or ((o["S"] or field[:1] == "U") and refS == "b")
    refused = r is None or (frame_b and not nb)
    out = os.path.join(d, name)
    if os.path.exists(out):
        os.remove(out)
    run = core.run2([c["vvplot"], "--tar", *seq, path, name], d, timeout=100)
    if core.died(run):
        return R.bad("died", "%s: %s" % (what, core.died(run)))
    R.evals += 1
    if refused:
        R.case("refused|%s|%s" % (kind if r is None else "-", bool(frame_b and not nb)), 0)
        if run.rc == 0:
            R.bad("accepted", what + ": accepted")
        if os.path.exists(out):
            R.bad("accepted", what + ": refused, but an archive was written")
        return
    if run.rc:
        return R.bad("failed", "%s: exit code %d, %s" % (what, run.rc, run.err[-200:]))
    try:
        A = plot.archive(out)
    except (ValueError, tarfile.TarError) as e:
        return R.bad("archive", "%s: the archive cannot be read: %s" % (what, e))
    gp = A["plot.gp"].decode()
    head, items = parse(gp)
    src = [x[0] for x in items]
    R.case("%s|%s|%s|%s|%d" % (kind, field or "-", "".join(k for k in o if o[k]), ref, nb), 0)

    def bad(key, msg):
        R.bad(key, "%s: %s" % (what, msg))

    def setting(rx, key, n):
        m = re.findall(rx, head)
        if len(m) < 1:
            bad(key, "no '%s' in plot.gp" % rx)
            return None
        m = m[-1]
        return [float(x) for x in (m if isinstance(m, tuple) else (m,))]

    # size and window
    sz = setting(r"size\s+(\d+)\s*,\s*(\d+)", "size", 2)
    for nm, got, want in (("width", sz[0], W), ("height", sz[1], H)) if sz else ():
        if want != int(want) or nm == "height" and kind in (0, 1, 8) or nm == "width" and kind == 2:
            ok = got % 2 == 0 and want - 2 - 1e-6 < got <= want + 1e-6
        else:
            ok = got == want
        if not ok:
            bad("size", "%s is %g instead of %g" % (nm, got, want))
    sh = np.zeros(2)
    if ref == "f":
        sh = s.inf_marker
    elif ref in ("b", "bxy"):
        sh = s.bodies[0].axis
    elif ref == "bx":
        sh = np.array([s.bodies[0].axis[0], 0])
    elif ref == "by":
        sh = np.array([0, s.bodies[0].axis[1]])
    w = [r[0] + sh[0], r[1] + sh[0], r[2] + sh[1], r[3] + sh[1]]
    span = max(map(abs, w))
    for ax, a, b in (("x", w[0], w[1]), ("y", w[2], w[3])):
        m = setting(r"set %srange \[([^:\]]*):([^\]]*)\]" % ax, "range", 2)
        if m and not (near(m[0], a, 1e-5) or abs(m[0] - a) < 1e-9 * span) or m and not (near(m[1], b, 1e-5) or abs(m[1] - b) < 1e-9 * span):
            bad("range", "%s range is %s instead of [%.9g, %.9g]" % (ax, m, a, b))
    vc = (w[1] - w[0]) / (sz[0] if sz else W) * vs / 2
    # time label, colour box
    m = re.findall(r'set label "t = ([^"]*)"', head)
    if bool(m) != bool(fl["timelabel"]) or m and not near(float(m[0]), s.t, 1e-6) and abs(float(m[0]) - s.t) > 1e-6:
        bad("timelabel", "time label %s at t = %.9g" % (m, s.t))
    last_cb = None
    for x in keep:
        last_cb = 0 if x[0] == "--no-colorbox" else 1
    cb = bool(last_cb)
    if cb != ("unset colorbox" not in head):
        bad("colorbox", "colour box %s" % ("missing" if cb else "drawn"))

    # what is drawn, in which order
    exp = []
    fname = {"G": "map_vorticity", "P": "map_pressure", "Ux": "map_velocity_x", "Uy": "map_velocity_y"}.get(field)
    if fname: exp.append(fname)
    if field == "P": exp.append("isopressure")
    if o["V"]: exp += ["vortex_list"] * (1 + (vs > 0))
    if o["S"]: exp.append("streamlines")
    got_b = [(n, t) for n, t in items if "filledcurve" in t]
    rest_items = [n for n, t in items if "filledcurve" not in t]
    if fl["holder"]: exp.append("body_holders")
    if fl["spring"]: exp += ["body_springs"] * 2
    exp += ["ttree_" + t.replace("-", "_") for t in ("bottom-nodes", "near-nodes", "find-node") if t in tt]
    if rest_items != exp:
        return bad("items", "draws %s instead of %s" % (rest_items, exp))
    for n in src:
        if n not in A:
            return bad("items", "draws '%s', which is not in the archive" % n)
    # bodies
    if len(got_b) != (nb if o["B"] else 0):
        return bad("bodies", "%d of %d bodies are drawn" % (len(got_b), nb if o["B"] else 0))
    for (n, t), b in zip(got_b, s.bodies):
        want = np.concatenate([b.corner, b.corner[:1]]).astype(np.float32)
        z = rows(A[n], 2)
        if z.shape != want.shape or not (z == want).all():
            bad("bodies", "contour '%s' is not that of the body" % n)
        R.count("body contours", 1)
    # vortices
    if o["V"]:
        z = rows(A["vortex_list"], 3)
        want = s.vort[:, :3].astype(np.float32)
        if z.shape != want.shape or not (z == want).all():
            bad("vortices", "%d vortices instead of %d, or different ones" % (len(z), len(want)))
        R.count("vortices", len(want))
        m = [float(x) for n, t in items if n == "vortex_list" for x in re.findall(r"u 1:2:\(([-0-9.e+]+)\)", t)]
        if vs and (len(m) != 1 or abs(m[0] - vc) > 1e-6 + 1e-6 * vc):
            bad("circles", "circles of radius %s instead of %.9g" % (m, vc))
    # holders
    if fl["holder"]:
        z = texts(A["body_holders"])
        if len(z) != nb or any(not near(a, v, 1e-5) for l, b in zip(z, s.bodies) for a, v in zip(l, b.holder[:2])):
            bad("holders", "%s instead of %s" % (z, [b.holder[:2] for b in s.bodies]))
    if fl["spring"]:
        z = texts(A["body_springs"])
        if len(z) != nb or any(not near(a, v, 1e-5) and abs(a - v) > 1e-12 for l, b in zip(z, s.bodies) for a, v in zip(l, (*b.axis, *(b.holder[:2] - b.axis)))):
            bad("springs", "%s instead of %s" % (z, [(*b.axis, *(b.holder[:2] - b.axis)) for b in s.bodies]))

    # fields: meshes, colour ranges, lines
    def mesh(nm, res):
        x, y, z = fieldio.unpack(A[nm])
        dx = (w[1] - w[0]) / res
        ny = {math.ceil((w[3] - w[2]) / dx * (1 + e)) for e in (-1e-9, 1e-9)}
        eps = 1e-6 * (span + dx * (res + max(ny)))
        if len(x) != res + 1 or len(y) - 1 not in ny or abs(x[0] - w[0]) > eps or abs(x[-1] - w[1]) > eps or abs(y[0] - w[2]) > eps or abs(y[-1] - (w[2] + dx * (len(y) - 1))) > eps:
            bad("mesh", "%s is %dx%d from (%.7g, %.7g) to (%.7g, %.7g); window %s, resolution %d" % (nm, len(x), len(y), x[0], y[0], x[-1], y[-1], w, res))
        return x, y, z
    if fname:
        x, y, z = mesh(fname, hi)
        cr = setting(r"set cbrange \[([^:\]]*):([^\]]*)\]", "cbrange", 2)
        if field == "G":
            nz = np.sort(z[z != 0].astype(float))
            if lim is not None:
                want = [(-lim, lim)]
            elif len(nz) == 0:
                want = [(-1, 1)]      # any valid one
                cr = None if cr and cr[0] == -cr[1] and cr[1] > 0 else cr
            else:
                n = len(nz)
                ks = lambda x: sorted({min(n, max(1, math.floor(x + e))) for e in (-1e-4 - 1e-6 * n, 1e-4 + 1e-6 * n)})
                want = [(-m, m) for a in ks(n * .02) for b in ks(n * (1 - .98)) for m in [max(-nz[a - 1], nz[n - b])]]
        elif field == "P":
            want = [lim or (-1.5, 1)]
        else:
            want = [lim or (float(z.min()), float(z.max()))]
            a, b = want[0]
            if lim is None and b - a <= 2e-4 * max(abs(a), abs(b)) and cr and cr[0] <= a and b <= cr[1] and cr[0] < cr[1]:
                cr = None           # nothing to scale to: any range around the value
        if cr and not any(near(cr[0], a, 2e-5) and near(cr[1], b, 2e-5) for a, b in want):
            bad("cbrange", "colour range of %s is %s instead of %s" % (fname, cr, want))
        lab = [setting(r'set label %d "([^"]+)"' % n, "cblabel", 1) for n in (61, 62)]
        if cr and all(lab) and any(abs(l[0] - v) > .0501 + 1e-5 * abs(v) for l, v in zip(lab, cr)):
            bad("cblabel", "colour range labels %s of the range %s" % (lab, cr))
        if field == "P":
            isolines(R, "isopressure", what, A["isopressure"], z, x, y, cr[0] if lim is None else lim[0], cr[1] if lim is None else lim[1], ((lim or (-1.5, 1))[1] - (lim or (-1.5, 1))[0]) / 33)
    if o["S"]:
        x, y, z = mesh("map_streamfunction", lo)
        if srange is None:
            a, b = float(z.min()), float(z.max())
            sr = (a, b, (b - a) / 33)
        else:
            sr = srange
        isolines(R, "streamlines", what, A["streamlines"], z, x, y, *sr, [q[:3] for q in s.src])
    # space partition
    g = h5.read(path).children if tt else {}
    if tt and not any(len(g[k].data) for k in ("heat", "ink", "ink_source") if k in g):
        s2 = plot.load(path, c["vvflow"], d)
        T = plot.Tree(s2, 8, s2.dl * 10 if s2.dl > 0 else 0, s2.dl * 20 if s2.dl > 0 else math.inf)
        L = T.leaves
        if "bottom-nodes" in tt and (len(s2.vort) or nb):
            z = rows(A["ttree_bottom_nodes"], 4)
            want = np.array([[l.x, l.y, l.w / 2, l.h / 2] for l in L]).astype(np.float32)
            if sorted(map(tuple, z)) != sorted(map(tuple, want)):
                bad("ttree", "%d cells instead of %d, or different ones" % (len(z), len(want)))
        if "near-nodes" in tt and (len(s2.vort) or nb):
            n = len(rows(A["ttree_near_nodes"], 4))
            want = sum(len(l.near) for l in L)
            if n != want:
                bad("ttree", "%d pairs of neighbours instead of %d" % (n, want))
    # pictures
    if rng.uniform() < .12 and sz and sz[0] * sz[1] < 3e5 and min(sz) >= 16 and src:
        picture(c, d, name, R, seq, path, what, sz, s, names, o, w, fl, bool(fname), srange, field)
    if rng.uniform() < .05:
        for tgt in ("/dev/full", os.path.join(d, "nowhere", "x.tar")):
            q = core.run2([c["vvplot"], "--tar", *seq, path, tgt], d, timeout=100)
            if q.rc == 0:
                bad("unwritten", "exit code 0 although nothing can be written to " + tgt.replace(d + "/", ""))
    R.sample = what


def picture(c, d, name, R, seq, path, what, sz, s, names, o, w, fl, fieldq, srange, field):
    a = core.run2([c["vvplot"], "--png", *seq, path, name + ".a.png"], d, timeout=100)
    b = core.run2([c["vvplot"], name, name + ".b.png"], d, timeout=100)
    R.count("pictures", 1)
    for q, how in ((a, "from the snapshot"), (b, "from the archive")):
        if q.rc:
            return R.bad("picture", "%s: plotting %s: exit code %d, %s" % (what, how, q.rc, q.err[-200:]))
    try:
        pa, pb = png.read(os.path.join(d, name + ".a.png")), png.read(os.path.join(d, name + ".b.png"))
    except ValueError as e:
        return R.bad("picture", "%s: %s" % (what, e))
    if pa.shape != pb.shape or (pa != pb).any():
        R.bad("replot", "%s: the picture made from the archive differs from the one made from the snapshot" % what)
    if "map_streamfunction" in (A := plot.archive(os.path.join(d, name))) and srange:
        redraw(c, d, name, R, A, pa, what, srange)
    if pa.shape[:2] != (int(sz[1]), int(sz[0])):
        R.bad("picture", "%s: picture of %dx%d instead of %gx%g" % (what, pa.shape[1], pa.shape[0], *sz))
        return


def redraw(c, d, name, R, A, pa, what, srange):
    """An archive without the lines, but with the field, is drawn with the lines that are asked for."""
    with tarfile.open(os.path.join(d, name + ".cut.tar"), "w") as t:
        for k, v in A.items():
            if k != "streamlines":
                m = tarfile.TarInfo(k)
                m.size = len(v)
                t.addfile(m, io.BytesIO(v))
    q = core.run2([c["vvplot"], "--S", "%.17g,%.17g,%.17g" % srange, name + ".cut.tar", name + ".c.png"], d, timeout=100)
    if q.rc:
        return R.bad("replot", "%s: replotting without lines in the archive: exit code %d, %s" % (what, q.rc, q.err[-200:]))
    pc = png.read(os.path.join(d, name + ".c.png"))
    R.count("streamlines made again", 1)
    n = (np.abs(pa.astype(int) - pc.astype(int)).max(-1) > 64).sum() if pa.shape == pc.shape else pa.size
    if n > .01 * pa.shape[0] * pa.shape[1] + 10:
        R.bad("replot", "%s: the streamlines made again from the field in the archive differ in %d pixels" % (what, n))


def body_picture(c, d, R, rng, path, s):
    """Pixels well inside the bodies are filled, pixels well outside are not."""
    out = [b for b in s.bodies if b.outside]
    if not out or len(out) < len(s.bodies) or rng.uniform() < .5:
        return
    P = np.concatenate([b.corner for b in out])
    lo, hi = P.min(0), P.max(0)
    m = (hi - lo).max() * rng.uniform(.05, .4)
    lo, hi = lo - m, hi + m
    W = int(rng.choice([200, 300]))
    what = "-B --no-timelabel -x %.17g,%.17g -y %.17g,%.17g --size %dx0" % (lo[0], hi[0], lo[1], hi[1], W)
    q = core.run2([c["vvplot"], *what.split(), path, "bodies.png"], d, timeout=100)
    if q.rc:
        return R.bad("picture", "%s: exit code %d, %s" % (what, q.rc, q.err[-200:]))
    a = png.read(os.path.join(d, "bodies.png"))
    H, W = a.shape[:2]
    X, Y = np.meshgrid(lo[0] + (np.arange(W) + .5) / W * (hi - lo)[0], hi[1] - (np.arange(H) + .5) / H * (hi - lo)[1])
    p = np.stack([X, Y], -1).reshape(-1, 2)
    px = max((hi - lo) / (W, H))
    ins, near_ = np.zeros(len(p), bool), np.zeros(len(p), bool)
    for b in out:
        i, dist = poly.inside(b.corner, p)
        ins |= i
        near_ |= dist < 4 * px
    axes = (np.abs(p[:, 0]) < 3 * px) | (np.abs(p[:, 1]) < 3 * px)
    col = a.reshape(-1, a.shape[2])[:, :3]
    for nm, msk, v in (("inside", ins & ~near_ & ~axes, 0xad), ("outside", ~ins & ~near_ & ~axes, 255)):
        bad = msk & (col != v).any(1)
        R.count("pixels " + nm + " bodies", int(msk.sum()))
        if bad.sum() > .01 * msk.sum() + 20:
            R.bad("picture", "%s: %d of %d pixels %s the bodies have another colour, e.g. %s at (%.3g, %.3g)" % (what, int(bad.sum()), int(msk.sum()), nm, col[bad][0], *p[bad][0]))


def main(chk):
    exe = {p: build.program(p, "rel") for p in ("vvflow", "vvplot")}
    chk.run(case, [dict(seed=[chk.seed, 28, i], n=12, **exe) for i in range(chk.n(120, 1500))])


if __name__ == "__main__":
    core.main(main, "C28", "distinct (window kind, field, layers, reference shift, bodies) command lines whose archive was compared, kinds of refusal")
