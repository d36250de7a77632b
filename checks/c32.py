"""C32: malformed input is refused; nothing crashes, hangs or reads outside its input."""
import glob, io, math, os, re, shutil, struct, sys, tarfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
from vv import build, core, h5, plot, scen, snap

ENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0:max_allocation_size_mb=4000",
       "UBSAN_OPTIONS": "print_stacktrace=1"}
NUM = [0, -0.0, 1, -1, math.nan, math.inf, -math.inf, 1e300, -1e300, 1e-300, 5e-324, 1e18, 2.0 ** 31, -2.0 ** 31 - 1, 2.0 ** 63, 0.5]
INTS = [0, 1, -1, 2, 3, 4, 5, 100, 2 ** 31 - 1, -2 ** 31, 105, 108, 115, 122]
STRS = ["", "x", "1/0", "0/0", "nan", "t", "return", "error('x')", "return 'a'", "while", "a" * 300, "/", "../x", "%s%n%d", "\x01\x7f", "é", "{}", "'", "\"", "1 2", "--", "nil"]


def where(err):
    for m in re.finditer(r"#\d+ 0x\S+ in ([^\n]*)", err):
        if "/repo/" in m.group(1) or "/libvvhd/" in m.group(1) or "/utils/" in m.group(1):
            f = re.match(r"[\w:~<>]+", m.group(1))
            return f.group(0) if f else "?"
    g = re.search(r"/((?:libvvhd|utils)/[\w/.]+):\d+:\d+: runtime error", err)
    return g.group(1) if g else "?"


def judge(R, r, kind, tool, what):
    """A finished run is either a success or a refusal with a message."""
    R.evals += 1
    m = core.SAN.search(r.err)
    if r.timeout:
        R.bad("hang:%s:%s" % (kind, tool), "%s: no end after the time limit; stderr: %s" % (what, r.err[-600:]))
    elif m:
        R.bad("san:%s:%s:%s:%s" % (kind, tool, re.sub(r"[^A-Za-z]+", "-", m.group(1))[:45], where(r.err)), "%s: %s\n%s" % (what, m.group(1), r.err[:2500]))
    elif r.rc < 0:
        R.bad("signal:%s:%s:%d" % (kind, tool, -r.rc), "%s: killed by signal %d; stderr: %s" % (what, -r.rc, r.err[-1500:]))
    elif r.rc == 0:
        R.count("accepted")
    elif not r.err.strip() and not r.out.strip():
        R.bad("silent:%s:%s" % (kind, tool), "%s: exit code %d without any message" % (what, r.rc))
    else:
        R.count("refused with a message")
    R.count("runs of %s on %s" % (tool, kind))
    return r


def run(c, R, kind, tool, args, d, what, timeout=40, inp=None):
    e = dict(ENV, PATH=d + "/bin:" + os.environ["PATH"])
    if not os.path.exists(d + "/bin/gnuplot"):         # gnuplot itself is not under test
        os.makedirs(d + "/bin", exist_ok=True)
        open(d + "/bin/gnuplot", "w").write("#!/bin/sh\ncat \"$1\" > /dev/null\n")
        os.chmod(d + "/bin/gnuplot", 0o755)
    r = core.run([c[tool], *args], d, env=e, timeout=timeout, asan=True, inp=inp)
    if r.timeout:
        r = core.run([c[tool], *args], d, env=e, timeout=3 * timeout, asan=True, inp=inp)
    return judge(R, r, kind, tool, what)


# ---------------------------------------------------------------- snapshots

READ = """
local ok, e = pcall(function() S:load(arg[1]) end)
if not ok then io.stderr:write("refused: ", tostring(e), "\\n") os.exit(3) end
for _, b in ipairs(S.body_list) do
  local t = tostring(b) .. tostring(b.label) .. tostring(b.slip) .. b.holder_pos:tostring() .. b.delta_pos:tostring() .. b.speed:tostring() .. tostring(b.root)
  b:totable(); b:get_slen(); b:get_area(); b:get_moi_cofm(); b:get_moi_axis(); b:get_cofm(); b:get_axis()
  for _, k in ipairs{"holder_vx", "holder_vy", "holder_vo", "holder_mo"} do pcall(function() return b[k]:eval(1) end) end
end
for _, l in ipairs{S.vort_list, S.sink_list, S.streak_source_list, S.streak_domain_list} do local n = 0; for i, o in ipairs(l) do n = n + #o:tostring() end end
pcall(function() S.inf_vx:eval(S.time) end)
local t = tostring(S.dt) .. tostring(S.dt_save) .. tostring(S.dt_streak) .. tostring(S.dt_profile)
pcall(function() S:XStreamfunction({.3, .2}) end)
local ok, e = pcall(function() S:save("again.h5") end)
if not ok then io.stderr:write("refused: ", tostring(e), "\\n") os.exit(3) end
S:load("again.h5")
"""


NEED = {"/": {"caption", "inf_speed_x", "inf_speed_y", "time", "dt", "dt_save", "dt_streak", "dt_profile", "re", "pr", "inf_marker", "inf_circulation", "gravity", "time_to_finish"},
        "body": {"label", "speed_x", "speed_y", "speed_o", "force_o", "holder_position", "delta_position", "speed_slae", "speed_slae_prev", "spring_const", "spring_damping", "density", "force_hydro", "force_holder",
                 "friction_prev", "fdt_dead", "g_dead", "collision_min", "collision_max", "bounce", "collision_state", "root_body"}}
TEXT = {"caption", "inf_speed_x", "inf_speed_y", "label", "speed_x", "speed_y", "speed_o", "force_o", "root_body"}
COLS = {"vort": 3, "heat": 3, "source": 3, "ink": 3, "ink_source": 3}


def mutate_h5(rng, path, light=False):
    """One to three semantic changes of a valid file; -> their description.

    bad collects the changes after which the file is no snapshot any more: {object: {attribute or "": why}}.
    """
    g, log, bad = h5.read(path), [], {}

    def attr(o, n, text, size=1):
        need = NEED["/"] if o == "/" else NEED["body"] if re.match(r"body\d", o) else ()
        if n in need:
            why = "has the wrong type" if text != (n in TEXT) else "has %d elements" % size if size != 1 else ""
            bad.setdefault(o, {})[n] = why
    datasets = [k for k, v in g.children.items() if isinstance(v, h5.Dataset)]
    pick = lambda x: x[int(rng.integers(len(x)))]
    with h5.Editor(path) as e:
        for _ in range(int(rng.integers(1, 4))):
            obj = pick(["/"] + datasets * 2) if datasets else "/"
            o = g if obj == "/" else g.children[obj]
            names = [n for n in o.attrs]
            k = int(rng.integers(10))
            try:
                if k <= 4 and names:
                    n = pick(names)
                    if rng.uniform() < .1:
                        n = pick(["slip", "root_body", "general_slip", "simplified_dataset", "heat_condition", "general_bc", "special_bc", "collision_state"])
                    v = o.attrs.get(n)
                    m = int(rng.integers(8))
                    if m == 0:
                        e.del_attr(obj, n); bad.get(obj, {}).pop(n, None); log.append("del %s@%s" % (obj, n))
                    elif m == 1:
                        s = pick(STRS); e.set_attr(obj, n, s, "vstr"); attr(obj, n, True); log.append("%s@%s = %r" % (obj, n, s[:20]))
                    elif m == 2:
                        a = np.array([pick(NUM) for _ in range(pick([1, 2, 3, 7, 40, 3000]))])
                        e.set_attr(obj, n, a, "f8"); attr(obj, n, False, len(a)); log.append("%s@%s = %d doubles" % (obj, n, len(a)))
                    elif m == 3:
                        a = np.array(pick(INTS)); e.set_attr(obj, n, a, "i4"); attr(obj, n, False); log.append("%s@%s = %d" % (obj, n, a))
                    elif m == 4 and n in ("time", "dt", "dt_save", "dt_streak", "dt_profile"):
                        a = np.array((pick(INTS), pick([0, 1, 2 ** 32 - 1, 2 ** 31, 7])), h5.TTIME)
                        e.set_attr(obj, n, a, h5.TTIME); attr(obj, n, False); log.append("%s@%s = %s" % (obj, n, a))
                    elif m in (5, 6):
                        t = {1: "f8", 2: h5.TVEC, 3: h5.TVEC3}[pick([1, 2, 3])]
                        if n in ("time", "dt"):
                            t = h5.TTIME
                        if isinstance(v, float):
                            t = "f8"
                        a = pick(NUM) if t == "f8" else tuple(pick(NUM) if t is not h5.TTIME else min(abs(int(pick(INTS))), 2 ** 31 - 1) for _ in t.names)
                        e.set_attr(obj, n, np.array(a, t), t); attr(obj, n, False); log.append("%s@%s = %s" % (obj, n, a))
                    elif m == 7:
                        a = np.zeros(pick([0, 1, 5, 100]), pick([h5.TVEC, h5.TVEC3, h5.TTIME]))
                        e.set_attr(obj, n, a, a.dtype); attr(obj, n, False, len(a)); log.append("%s@%s = %d records" % (obj, n, len(a)))
                elif k == 5 and obj != "/":
                    e.unlink(obj); bad.pop(obj, None); log.append("unlink " + obj)
                elif k in (6, 7) and obj != "/":
                    d = np.array(o.data, float)
                    attrs = dict(o.attrs)
                    m = int(rng.integers(9))
                    if m == 0: d = d.reshape(-1)
                    elif m == 1: d = d[:int(rng.integers(0, 4))]
                    elif m == 2: d = d[:, :max(d.shape[1] - 1, 1)]
                    elif m == 3: d = np.hstack([d] * int(rng.integers(2, 5)))
                    elif m == 4: d = d[None]
                    elif m == 5: d = np.array(pick(NUM))
                    elif m == 6: d = d.astype("i4") if np.isfinite(d).all() and (np.abs(d) < 1e9).all() else d[:0]
                    elif m == 7: d = np.zeros((len(d),), h5.TVEC)
                    elif m == 8: d = np.repeat(d[:1], int(rng.integers(1, 40)), 0)
                    e.set_dataset(obj, d)
                    bad.pop(obj, None)
                    want = 4 if re.match(r"body\d", obj) else COLS.get(obj)
                    if want and (d.ndim != 2 or d.shape[1] != want or want == 4 and not len(d)):
                        bad[obj] = {"": "has the shape %s" % (d.shape,)}
                    if rng.uniform() < .7:       # the attributes come along
                        for n, v in attrs.items():
                            if isinstance(v, str): e.set_attr(obj, n, v, "vstr")
                            elif isinstance(v, float): e.set_attr(obj, n, v, "f8")
                            elif isinstance(v, (int, np.integer)): e.set_attr(obj, n, int(v), "i4")
                            elif np.size(v) == 3: e.set_attr(obj, n, np.array(tuple(float(x) for x in np.asarray(v).tolist()), h5.TVEC3), h5.TVEC3)
                    log.append("%s: shape %s" % (obj, d.shape))
                elif k == 8 and obj != "/" and not light:
                    d = np.array(o.data, float)
                    if d.size:
                        for _ in range(int(rng.integers(1, 4))):
                            i, j = int(rng.integers(len(d))), int(rng.integers(d.shape[1] if d.ndim > 1 else 1))
                            d[i, j] = pick(NUM)
                        e.overwrite_dataset(obj, d); log.append("%s: special values" % obj)
                elif k == 9:
                    n = pick(["body", "bod", "b", "body7", "bodyXY", "body000", "vort", "source", "ink", "heat", "ink_source", "vort_core", "friction_body00", "x"])
                    if n not in g.children:
                        e.set_dataset(n, np.full(pick([(0,), (3,), (0, 4), (1, 4), (2, 3), (5, 4), (40, 4), (4, 1)]), pick(NUM)))
                        log.append("new " + n)
            except (h5.H5Error, IndexError, ValueError, TypeError):
                pass
            try:
                g = h5.read(path) if False else g
            except h5.H5Error:
                pass
    return log, ["%s %s %s" % (o, n, why) for o, v in bad.items() for n, why in v.items() if why]


def plot_opts(rng):
    o = [str(rng.choice(["-G", "-Ux", "-Uy", "-P", "-V"])), "-B"]
    if rng.uniform() < .6: o.append("-S")
    o += ["--res-hi", str(int(rng.integers(2, 16))), "--res-lo", str(int(rng.integers(2, 16)))]
    o += ["--ref-S", str(rng.choice(["o", "f", "b"])), "--ref-P", str(rng.choice(["s", "o", "f", "b"])), "--ref-xy", str(rng.choice(["o", "b", "f", "bx"]))]
    return o + ["-x", "-1.3,2.1", "-y", "-1.2,1.4"]


def h5case(c, d, R, rng):
    path, meta = snap.make(rng, d, c["rel"], steps=int(rng.integers(1, 5)), nseg=18, start=0)
    log = glob.glob(d + "/stepdata_*.h5")[0]
    open(d + "/read.lua", "w").write(READ)
    for it in range(c["n"]):
        src = log if rng.uniform() < .15 else path
        shutil.copy(src, d + "/m.h5")
        if rng.uniform() < .2:
            b = open(src, "rb").read()
            cut = int(rng.integers(0, len(b)))
            open(d + "/m.h5", "wb").write(b[:cut])
            what = "%s cut to %d of %d bytes" % (os.path.basename(src), cut, len(b))
            bad = ["it is cut short"] if cut else []
        else:
            m, bad = mutate_h5(rng, d + "/m.h5")
            if not m:
                continue
            what = "%s with %s" % (os.path.basename(src), "; ".join(m))
        keep = d + "/keep%d.h5" % it
        shutil.copy(d + "/m.h5", keep)
        nv = len(R.viol)
        r = run(c, R, "snapshot", "vvflow", ["read.lua", "m.h5"], d, what)
        if bad and not r.timeout and len(R.viol) == nv:
            R.count("files that are no snapshots")
            if r.rc != 3 or "refused" not in r.err:
                R.bad("accepted:snapshot", "%s: loaded, though %s (exit code %d)" % (what, bad[0], r.rc))
        if rng.uniform() < .5:
            run(c, R, "snapshot", "vvplot", ["--tar", *plot_opts(rng), "m.h5", "o.tar"], d, what)
        x = int(rng.integers(4))
        a = [["m.h5"], ["-l", "m.h5"], ["-i", "m.h5"], ["m.h5"] + [str(q) for q in rng.choice(["vort", "body00", "source", "ink", "time", "body00/force_hydro", "nope", "body00/"], int(rng.integers(1, 4)))]][x]
        run(c, R, "snapshot", "vvxtract", a, d, what)
        if len(R.viol) == nv:
            os.unlink(keep)
        R.case("h5|" + "|".join(sorted(re.sub(r"[-\d.]+", "#", w)[:40] for w in what.split("; "))), 0)
    R.sample = what


# ------------------------------------------------------------- continuation

def resume(c, d, R, rng):
    """A damaged snapshot, continued for a few steps."""
    path, meta = snap.make(rng, d, c["rel"], steps=int(rng.integers(2, 5)), nseg=18, start=0)
    for it in range(c["n"]):
        shutil.copy(path, d + "/m.h5")
        m, bad = mutate_h5(rng, d + "/m.h5")
        keep = d + "/keep%d.h5" % it
        shutil.copy(d + "/m.h5", keep)
        open(d + "/go.lua", "w").write("""local ok, e = pcall(function() S:load("m.h5") end)
if not ok then io.stderr:write("refused: ", tostring(e), "\\n") os.exit(3) end
S.caption = "again"
S.dt = "1/20"; S.dt_save = "1/20"; S.finish = S.time + .1
simulate()
""")
        nv = len(R.viol)
        run(c, R, "continuation", "vvflow", ["go.lua"], d, "; ".join(m), timeout=60)
        if len(R.viol) == nv:
            os.unlink(keep)
        R.case("resume|" + "|".join(sorted(re.sub(r"[-\d.]+", "#", w)[:40] for w in m)), 0)


# ----------------------------------------------------------------- archives

def flip(rng, b):
    b = bytearray(b)
    k = int(rng.integers(6))
    if k == 0 or not b:
        return bytes(b[:int(rng.integers(0, len(b) + 1))])
    if k == 1:
        i, j = sorted(int(x) for x in rng.integers(0, len(b) + 1, 2))
        return bytes(b[:i] + b[j:])
    if k == 2:
        i = int(rng.integers(len(b) + 1))
        return bytes(b[:i] + bytes(rng.integers(0, 256, int(rng.integers(1, 40)), dtype=np.uint8)) + b[i:])
    if k == 3 and len(b) >= 4:
        for _ in range(int(rng.integers(1, 4))):
            i = int(rng.integers(len(b) // 4)) * 4
            b[i:i + 4] = struct.pack("<f", rng.choice([0, 1, 2, -1, math.nan, math.inf, 1e30, 1e9, 0.5, 3e38]))
        return bytes(b)
    for _ in range(int(rng.integers(1, 20))):
        b[int(rng.integers(len(b)))] = int(rng.integers(256))
    return bytes(b)


def tarcase(c, d, R, rng):
    path, meta = snap.make(rng, d, c["rel"], steps=int(rng.integers(1, 5)), nseg=18, start=0)
    core.must_ok(core.run2([c["relplot"], "--tar", *[x for x in plot_opts(rng) if x not in ("b", "bx")][:0], "-G", "-S", "-B", "-V", "--res-hi", "12", "--res-lo", "12", "-x", "-1,2", "-y", "-1,1", path, "o.tar"], d), "vvplot")
    base = open(d + "/o.tar", "rb").read()
    for it in range(c["n"]):
        if rng.uniform() < .35:
            b = flip(rng, base)
            what = "archive with bytes changed"
        else:
            out = io.BytesIO()
            t = tarfile.open(fileobj=io.BytesIO(base))
            w = tarfile.open(fileobj=out, mode="w", format=tarfile.USTAR_FORMAT)
            mem = t.getmembers()
            hit = int(rng.integers(len(mem)))
            for i, m in enumerate(mem):
                q = t.extractfile(m).read()
                if i == hit:
                    k = int(rng.integers(5))
                    what = "%s of %s" % (("no", "damage", "damage", "rename", "second copy")[k], m.name)
                    if k == 0:
                        continue
                    if k in (1, 2):
                        q = flip(rng, q)
                    if k == 3:
                        m.name = str(rng.choice(["x", "map_streamfunction", "map_vorticity", "plot.gp", "vorts", "a" * 90]))
                    if k == 4:
                        m.size = len(q); w.addfile(m, io.BytesIO(q)); q = flip(rng, q)
                m.size = len(q)
                w.addfile(m, io.BytesIO(q))
            w.close()
            b = out.getvalue()
        open(d + "/m.tar", "wb").write(b)
        keep = d + "/keep%d.tar" % it
        shutil.copy(d + "/m.tar", keep)
        nv = len(R.viol)
        o = ["--tar", "m2.tar"] if rng.uniform() < .7 else ["--png", "m2.png"]
        run(c, R, "archive", "vvplot", [o[0], "m.tar", o[1]], d, what, timeout=60)
        if len(R.viol) == nv:
            os.unlink(keep)
        R.case("tar|" + what, 0)
    R.sample = what


# -------------------------------------------------------------------- fields

def fieldcase(c, d, R, rng):
    """--load-field: a field that is none is refused, a valid one is passed on unchanged."""
    path, meta = snap.make(rng, d, c["rel"], steps=2, nseg=18, start=0)
    what = ["-S", "--ref-S", "o"] if rng.uniform() < .5 else ["-Ux"]
    name = "map_streamfunction" if what[0] == "-S" else "map_velocity_x"
    win = ["-x", "-1,2", "-y", "-1,1", "--res-hi", str(int(rng.integers(3, 14))), "--res-lo", str(int(rng.integers(3, 14)))]
    core.must_ok(core.run2([c["relplot"], "--tar", *what, *win, path, "o.tar"], d), "vvplot")
    base = tarfile.open(d + "/o.tar").extractfile(name).read()
    w = int(struct.unpack("<f", base[:4])[0])
    for it in range(c["n"]):
        k = int(rng.integers(7))
        b, bad = base, False
        if k == 1:
            b = flip(rng, base)
        elif k == 2:                                    # cut within a row
            n = int(rng.integers(len(base)))
            b, bad = base[:n], n % (4 * (w + 1)) != 0 or n < 12 * (w + 1)
        elif k == 3:                                    # the column count is off
            v = float(rng.choice([0, 1, -1, .5, math.nan, math.inf, -math.inf, 1e30, w + .5, 2 ** 31, 2 ** 32 + 2, 4e9, len(base) // 4]))
            b, bad = struct.pack("<f", v) + base[4:], True
        elif k == 4:                                    # the spacing is off
            a = np.frombuffer(base, "<f4").copy().reshape(-1, w + 1)
            if rng.uniform() < .5: a[0, -1] = a[0, 1] + (a[0, -1] - a[0, 1]) * float(rng.choice([0, -1, 2, .5, math.nan, math.inf, 1e30]))
            else: a[-1, 0] = a[1, 0] + (a[-1, 0] - a[1, 0]) * float(rng.choice([0, -1, 2, .5, math.nan, math.inf, 1e30]))
            b, bad = a.tobytes(), True
        elif k == 5:
            b, bad = bytes(rng.integers(0, 256, int(rng.integers(0, 40)), dtype=np.uint8)), True
            bad = len(b) < 36 or len(b) % 4 != 0
        elif k == 6:                                    # special values among the data
            a = np.frombuffer(base, "<f4").copy().reshape(-1, w + 1)
            for _ in range(int(rng.integers(1, 5))):
                a[1 + int(rng.integers(len(a) - 1)), 1 + int(rng.integers(w))] = rng.choice([math.nan, math.inf, -math.inf, 3e38, -3e38])
            b = a.tobytes()
        open(d + "/f.bin", "wb").write(b)
        nv = len(R.viol)
        desc = "field of %d bytes (%s)" % (len(b), ("whole", "bytes changed", "cut", "column count", "spacing", "noise", "special values")[k])
        if os.path.exists(d + "/m.tar"):
            os.unlink(d + "/m.tar")
        r = run(c, R, "field", "vvplot", ["--tar", *what, *win, "--load-field", "f.bin", path, "m.tar"], d, desc)
        if not r.timeout and len(R.viol) == nv:
            if bad:
                R.count("fields that are none")
                if r.rc == 0:
                    R.bad("accepted:field", "%s: plotted with exit code 0" % desc)
            elif k == 0:
                got = tarfile.open(d + "/m.tar").extractfile(name).read() if r.rc == 0 else None
                R.count("valid fields")
                if got != base:
                    R.bad("field:changed", "a valid field comes out changed or is refused: exit code %d, %s" % (r.rc, r.err[-300:]))
        if len(R.viol) > nv:
            shutil.copy(d + "/f.bin", d + "/keep%d.bin" % it)
        R.case("field|%s|%d" % (what[0], k), 0)


# ------------------------------------------------------------ text and binary

def garbage(rng, n):
    w = ["1", "0", "-1", "nan", "inf", "1e999", "-1e999", "1e-999", "x", ",", "1,2", "0x10", "#", "\t", "\n", "\n", "\r", " ", "+", "--1", "1.2.3", "999999999999999999999", "\0", "\xff", "i", "1 1 1\n", ".5 .5\n"]
    s = "".join(str(rng.choice(w)) + str(rng.choice([" ", " ", "\n", ""])) for _ in range(n))
    return s.encode("latin1")


def textcase(c, d, R, rng):
    for it in range(c["n"]):
        n = int(rng.integers(3, 30))
        pts = scen.polygon(rng, n, 1.0)[::-1]
        good = "".join("%r %r %d\n" % (x, y, i % 2) for i, (x, y) in enumerate(pts)).encode()
        k = int(rng.integers(5))
        b = [lambda: garbage(rng, int(rng.integers(0, 60))), lambda: flip(rng, good), lambda: flip(rng, good), lambda: good[:int(rng.integers(len(good)))],
             lambda: bytes(rng.integers(0, 256, int(rng.integers(0, 400)), dtype=np.uint8))][k]()
        open(d + "/f", "wb").write(b)
        keep = d + "/keep%d" % it
        open(keep, "wb").write(b)
        k2 = int(rng.integers(6))
        fin = 'S.re=100; S.inf_vx="1"; S.dt="1/20"; S.finish=.1; S.dt_save="1/20"; S.caption="g"\n'
        lua = ['local ok, b = pcall(load_body, "f"); if ok and b then S.body_list:insert(b); b:move_r({1,1}); b:get_moi_cofm(); %s simulate() else io.stderr:write(tostring(b)) os.exit(4) end' % fin,
               'S.vort_list:load("f"); for i, o in ipairs(S.vort_list) do local t = o:tostring() end S:XStreamfunction({1,1}) S:save("q.h5")',
               'S.vort_list:load_bin("f"); for i, o in ipairs(S.vort_list) do local t = o:tostring() end S:save("q.h5")',
               fin + 'S.vort_list:load("f"); simulate()', 'S:load("f") S:save("q.h5")', fin + 'S.body_list:insert(gen_cylinder{R=.5, N=20}) simulate()'][k2]
        open(d + "/g.lua", "w").write(lua)
        a = ["--sensors", "f", "g.lua"] if k2 == 5 else ["g.lua"]
        nv = len(R.viol)
        run(c, R, ("body file", "list", "binary list", "list, run", "snapshot that is not one", "sensors")[k2], "vvflow", a, d, "file of %d bytes: %r" % (len(b), b[:60]), timeout=60)
        if rng.uniform() < .3:
            run(c, R, "text", str(rng.choice(["vvxtract", "vvplot", "vvflow"])), ["f", "out"], d, "file of %d bytes: %r" % (len(b), b[:60]))
        if len(R.viol) == nv:
            os.unlink(keep)
        R.case("text|%d|%d" % (k, k2), 0)


# ---------------------------------------------------------- the old format

def v13(rng):
    """A snapshot of the old binary format, whole or damaged."""
    S = lambda s: struct.pack("<i", len(s)) + s.encode()
    D = lambda *a: struct.pack("<%dd" % len(a), *a)
    T = lambda n, q: struct.pack("<iI", n, q)
    L = lambda k: struct.pack("<q", k) + b"".join(D(*rng.normal(size=3)) for _ in range(k))
    n = int(rng.integers(12, 30))
    head = b"v: 1.3  " + b"old".ljust(64, b"\0") + T(1, 20) + T(1, 20) + T(1, 10) + T(1, 10) + T(1, 10) + D(100, 1, 0, 0) + S("1") + S("0") + D(0, 0, 0, 1) + struct.pack("<q", 0)
    bd = D(0, 0, 0, 0, 0, 0) + S("") + S("sin(t)") + S("") + D(*[0] * 6) + D(math.inf, math.inf, math.inf) + D(1) + D(*[0] * 9)
    pts = scen.polygon(rng, n, .5)[::-1]
    bo = struct.pack("<q", n) + b"".join(D(x, y, 0) + struct.pack("<qq", ord("n"), ord("n")) + D(0, 0) for x, y in pts)
    parts = [("Header  ", head), ("Vortexes", L(int(rng.integers(0, 20)))), ("StrkSrc ", L(1)), ("Streak  ", L(3)), ("BData   ", bd), ("Body    ", bo)]
    k = int(rng.integers(6))
    if k == 0:
        parts = [parts[int(i)] for i in rng.permutation(len(parts))[:int(rng.integers(1, 7))]]
    tab, body = b"", b""
    for nm, p in parts:
        tab += struct.pack("<q", 1024 + len(body)) + nm.encode()
        body += p
    b = tab.ljust(1024, b"\0") + body
    if k == 1:
        b = b[:int(rng.integers(len(b)))]
    if k in (2, 3):
        b = bytearray(b)
        for _ in range(int(rng.integers(1, 5))):
            i = int(rng.integers(len(b) // 4)) * 4
            b[i:i + 4] = struct.pack("<i", int(rng.choice([0, -1, 1, 2 ** 31 - 1, -2 ** 31, 1000, 1 << 20])))
        b = bytes(b)
    if k == 4:
        b = flip(rng, b)
    return b, k


def oldcase(c, d, R, rng):
    open(d + "/read.lua", "w").write(READ)
    for it in range(c["n"]):
        b, k = v13(rng)
        open(d + "/old", "wb").write(b)
        keep = d + "/keep%d" % it
        open(keep, "wb").write(b)
        nv = len(R.viol)
        r = run(c, R, "old snapshot", "vvflow", ["read.lua", "old"], d, "old snapshot, %s" % ("parts left out", "cut", "fields changed", "fields changed", "bytes changed", "whole")[k])
        if k == 1 and not r.timeout and not R.viol and r.rc == 0 and b:
            R.bad("accepted:old", "a snapshot of the old format cut to %d bytes is loaded" % len(b))
        if k == 5 and not R.viol and (r.timeout or r.rc):
            R.bad("old:refused", "a whole snapshot of the old format is refused: %s" % r.err[-500:])
        if len(R.viol) == nv:
            os.unlink(keep)
        R.case("old|%d" % k, 0)


# ------------------------------------------------------------------ options

def optcase(c, d, R, rng):
    path, meta = snap.make(rng, d, c["rel"], steps=2, nseg=18, start=0)
    shutil.copy(path, d + "/a.h5")
    core.must_ok(core.run2([c["relplot"], "--tar", "-B", "-S", "--res-lo", "8", "-x", "-1,2", "-y", "-1,1", "a.h5", "a.tar"], d), "vvplot")
    open(d + "/ok.lua", "w").write('print("hello", arg and #arg)')
    W = ["", "1", "-1", "0", "nan", "inf", "-inf", "1e999", "1e-320", "0,0", "-1,1", "1,-1", "nan,1", "0,nan", "nan,nan", "inf,1", "1,2,3", "1,2,0", "0,1,1e-30", "0,1,-1", ",", "x", "0x0", "1x1", "10x", "x10", "-5x5", "99999999999x9",
         "o", "b", "f", "bx", "by", "s", "q", "a.h5", "a.tar", "nope", "ok.lua", "out.png", "out.tar", "/", ".", "nodir/x.png", "--", "-", "%s", "é"]
    P = ["-x", "-y", "--size", "-B", "-V", "--V", "-S", "--S", "-P", "--P", "-G", "--G", "-Ux", "-Uy", "--Ux", "--Uy", "--png", "--tar", "--eps", "--ref-xy", "--ref-S", "--ref-P", "--gray", "--no-gray", "--colorbox", "--no-colorbox",
         "--timelabel", "--holder", "--no-holder", "--axes", "--no-axes", "--spring", "--res-hi", "--res-lo", "-h", "-v", "--help", "--version", "--bogus", "-Z", "-U", "-Uz", "--title", "--load-field", "--save-field"]
    F = ["--sensors", "-s", "--progress", "--no-progress", "--profile", "--no-profile", "-h", "-v", "--bogus", "-Z", "-"]
    X = ["-i", "-l", "--info", "--list", "-h", "-v", "--bogus", "-Z"]
    pick = lambda x: x[int(rng.integers(len(x)))]
    for it in range(c["n"]):
        tool = pick(["vvplot"] * 6 + ["vvflow", "vvxtract"])
        opts = {"vvplot": P, "vvflow": F, "vvxtract": X}[tool]
        a = []
        for _ in range(int(rng.integers(0, 6))):
            a.append(pick(opts))
            if a[-1] in ("-x", "-y", "--size", "--S", "--P", "--G", "--V", "--Ux", "--Uy", "--eps", "--ref-xy", "--ref-S", "--ref-P", "--res-hi", "--res-lo", "--title", "--load-field", "--save-field", "--sensors", "-s") or rng.uniform() < .1:
                if rng.uniform() < .95:
                    a.append(pick(W))
        if rng.uniform() < .85:
            a += {"vvplot": [pick(["a.h5", "a.h5", "a.tar"]), pick(["out.png", "out.tar", "out", "."])], "vvflow": ["ok.lua"], "vvxtract": ["a.h5"] + [pick(["vort", "body00", "nope", "/", ""])] * int(rng.integers(0, 2))}[tool]
        if tool == "vvplot":
            a += ["--res-hi", "12", "--res-lo", "12"] if rng.uniform() < .8 else []
        run(c, R, "options", tool, a, d, "%s %s" % (tool, " ".join(repr(x) for x in a)), timeout=120, inp=b"")
        R.case("%s|%s" % (tool, "|".join(x for x in a if x.startswith("-"))), 0)
    R.sample = "%s %s" % (tool, " ".join(a))


# ------------------------------------------------------------------- scripts

FUZZ = """
math.randomseed(%d)
local R = math.random
local function pick(t) return t[R(#t)] end
local objs = {}
local names = {%s}
local gens = {gen_cylinder, gen_semicyl, gen_roundrect, gen_ellipse, gen_plate, gen_parallelogram, gen_savonius, gen_chamber_gpj, gen_chamber_box, gen_gis, gen_body, load_body}
local G = {} for k, v in pairs(_G) do if type(v) == "function" and (k:match("^gen_") or k == "load_body") then G[#G+1] = v end end
local keys = {"R","N","dl","Rx","Ry","L","H","d","D","h","R1","R2","dln","dls","x","y","Rl","w","r"}
local function gentable() local t = {} for _, k in ipairs(keys) do if R() < .7 then t[k] = pick{1, .5, 2, 12, 30, 0, -1, .01, 0/0, 1/0, 90, 45, 1e-9, "a", "3"} end end return t end
local function value(depth)
  local k = R(16)
  if k == 1 then return nil elseif k == 2 then return R() < .5
  elseif k <= 5 then return pick{0, 1, -1, 2, .5, 1e300, -1e300, 1/0, -1/0, 0/0, 2^31, 2^53, -2^63, 1e-320, 3, 10}
  elseif k <= 7 then return pick{"", "x", "1", "1/2", "1/0", "-1/2", "a/b", "return t", "t", "error()", "nan", ("z"):rep(400), "sin(t)", "f", "nope", "\\0\\1"}
  elseif k <= 10 then local t = {} for i = 1, R(5) do t[i] = depth > 2 and 1 or value(depth+1) end return t
  elseif k == 11 then return {R(), R()} elseif k == 12 then return {R(), R(), R()}
  elseif k == 13 then return gentable()
  elseif k == 14 then return pick{print, math.sin, coroutine.create(function() end)}
  elseif #objs > 0 then return pick(objs) end
  return S
end
objs[1] = S
for _, n in ipairs{"body_list", "vort_list", "sink_list", "streak_source_list", "streak_domain_list", "inf_vx", "gravity"} do objs[#objs+1] = S[n] end
objs[#objs+1] = gen_cylinder{R=1, N=20}
local stable = {} for i, o in ipairs(objs) do stable[i] = o end
for step = 1, %d do
  local k = R(12)
  local ok, r
  local o = pick(objs)
  if k <= 3 then ok, r = pcall(function() return o[pick(names)] end)
  elseif k <= 5 then ok, r = pcall(function() o[pick(names)] = value(0) end)
  elseif k <= 9 then ok, r = pcall(function() return o[pick(names)](R() < .9 and o or value(0), value(0), value(0), value(0)) end)
  elseif k == 10 then ok, r = pcall(function() return pick(G)(R() < .7 and gentable() or value(0)) end)
  elseif k == 11 then ok, r = pcall(function() local n = #o; local s = tostring(o); local f, s, i = ipairs(o); return f(s, value(0)) end)
  else ok, r = pcall(function() return o[value(0)] end) end
  -- references to particles die with their list (a known finding of C31)
  if ok and type(r) == "userdata" and not pcall(function() return r.g + 0 end) and #objs < 40 then objs[#objs+1] = r end
  if R(40) == 1 then objs = {} for i, o in ipairs(stable) do objs[i] = o end collectgarbage() end
  S.caption = "fuzz"
end
print("end")
"""
NAMES = """caption re finish inf_g inf_vx inf_vy gravity time dt dt_save dt_streak dt_profile body_list vort_list sink_list streak_source_list streak_domain_list load XStreamfunction label holder_pos
delta_pos speed collision_min collision_max spring_const spring_damping holder_vx holder_vy holder_vo holder_mo density bounce special_segment slip root move_r move_o move_d get_slen get_area get_moi_cofm get_moi_axis get_cofm
get_axis totable x y abs abs2 tostring r o d append clear load_bin insert erase eval nope""".split()


def luacase(c, d, R, rng):
    open(d + "/f", "wb").write(garbage(rng, 20))
    for it in range(c["n"]):
        names = list(NAMES) + ["append", "insert", "x", "r"]
        open(d + "/z.lua", "w").write(FUZZ % (int(rng.integers(1, 1 << 30)), ", ".join('"%s"' % n for n in names), 400))
        r = run(c, R, "script", "vvflow", ["z.lua"], d, "random calls, see z.lua", timeout=60)
        R.count("script statements", 400 if "end" in r.out else 0)
        if r.rc == 0 and "end" not in r.out:
            R.bad("script:short", "the script ended early with status 0: %s" % r.err[-500:])
        if R.viol:
            return
        R.case("lua|%d" % rng.integers(1 << 30), 0)
        b = garbage(rng, 40) if rng.uniform() < .5 else flip(rng, READ.encode())
        open(d + "/b.lua", "wb").write(b)
        R.case(None)


KINDS = {"h5": h5case, "resume": resume, "tar": tarcase, "field": fieldcase, "text": textcase, "old": oldcase, "opt": optcase, "lua": luacase}


def case(c, d, R):
    KINDS[c["kind"]](c, d, R, np.random.default_rng(c["seed"]))


def main(chk):
    b = {p: build.program(p, "asan") for p in ("vvflow", "vvplot", "vvxtract")}
    b["rel"], b["relplot"] = build.program("vvflow", "rel"), build.program("vvplot", "rel")
    C = []
    for j, (k, q, t, n) in enumerate((("h5", 96, 1500, 14), ("resume", 60, 1000, 8), ("tar", 40, 600, 14), ("text", 40, 600, 20), ("old", 16, 200, 25), ("opt", 40, 800, 20), ("lua", 60, 800, 8), ("field", 16, 300, 20))):
        C += [dict(kind=k, seed=[chk.seed, 32, j, i], n=n, **b) for i in range(chk.n(q, t))]
    only = os.environ.get("C32_ONLY")
    chk.run(case, [x for x in C if not only or x["kind"] in only.split(",")])


if __name__ == "__main__":
    core.main(main, "C32", "distinct (input kind, damage) executions of the tools on sanitizer builds")
