"""Reader for the binary traces written by monitor/vvmon.hpp."""
import struct
import numpy as np
from types import SimpleNamespace as NS

SEGF = "cx cy rx ry dlx dly g gsum fric hsum sslip _1_eps Cp Fr hconst".split()


class Cur:
    def __init__(self, a):
        self.a, self.i = a, 0

    def d(self):
        v = self.a[self.i]; self.i += 1
        return float(v)

    def n(self):
        return int(self.d())

    def v(self, k):
        v = self.a[self.i:self.i + k].copy(); self.i += k
        return v


def parse(phase, a):
    c = Cur(a)
    s = NS(phase=phase)
    s.step = c.n()
    s.time = (c.n(), c.n())
    s.dt = (c.n(), c.n())
    s.dt_save = (c.n(), c.n())
    s.dt_streak = (c.n(), c.n())
    s.finish, s.re, s.pr, s.inf_g = c.d(), c.d(), c.d(), c.d()
    s.inf_speed, s.inf_marker, s.gravity = c.v(2), c.v(2), c.v(2)
    s.collision = c.n()
    s.tree = None
    if c.n():
        t = [c.d() for _ in range(7)]
        s.tree = dict(zip("leaves near far bad badowner foreign maxcm".split(), t))
    nb, nv, nh, nsrc, nss, ns = [c.n() for _ in range(6)]
    s.bodies = []
    for _ in range(nb):
        b = NS()
        b.root = c.n()
        for k in "holder dpos kspring damping speed speed_prev cmin cmax".split():
            setattr(b, k, c.v(3))
        b.bounce, b.density = c.d(), c.d()
        b.special, b.kutta, b.hc = c.n(), c.n(), c.n()
        for k in "friction friction_prev fhydro fholder fdt_dead".split():
            setattr(b, k, c.v(3))
        b.g_dead = c.d()
        b.speed_exp = c.v(3)
        b.force_o = c.d()
        b.slip = c.n()
        b.slen, b.area = c.d(), c.d()
        b.cofm = c.v(2)
        b.moi_cofm, b.moi_axis = c.d(), c.d()
        n = c.n()
        seg = c.v(n * len(SEGF)).reshape(n, len(SEGF))
        b.n = n
        for i, k in enumerate(SEGF):
            setattr(b, k, seg[:, i])
        b.corner, b.r, b.dl = seg[:, 0:2], seg[:, 2:4], seg[:, 4:6]
        b.axis = b.holder[:2] + b.dpos[:2]
        s.bodies.append(b)
    for k, n in (("vort", nv), ("heat", nh), ("src", nsrc), ("ssrc", nss), ("streak", ns)):
        setattr(s, k, c.v(6 * n).reshape(n, 6))
    nl = c.n()
    s.leaves = None
    if nl:
        s.leaves = []
        for _ in range(nl):
            l = NS()
            l.x, l.y, l.w, l.h = c.v(4)
            l.v0, l.vn, l.s0, l.sn, l.h0, l.hn = [c.n() for _ in range(6)]
            k = c.n()
            l.segs = c.v(2 * k).astype(int).reshape(k, 2)
            k = c.n()
            l.near = c.v(k).astype(int)
            k = c.n()
            l.far = c.v(6 * k).reshape(k, 6)
            s.leaves.append(l)
    s.t = s.time[0] / s.time[1]
    s.dtf = s.dt[0] / s.dt[1]
    assert c.i == len(a), "trace record length"
    return s


def read(path):
    out = []
    with open(path, "rb") as f:
        while True:
            h = f.read(20)
            if len(h) < 20:
                break
            assert h[:4] == b"VVM1", "bad trace"
            phase = h[4:12].rstrip(b"\0").decode()
            n = struct.unpack("<Q", h[12:20])[0]
            b = f.read(8 * n)
            if len(b) < 8 * n:
                break
            out.append(parse(phase, np.frombuffer(b, dtype="<f8")))
    return out


def steps(path):
    """-> list of dict phase->state, one per step."""
    res = []
    for s in read(path):
        if not res or res[-1]["_step"] != s.step:
            res.append({"_step": s.step})
        res[-1][s.phase] = s
    return res
