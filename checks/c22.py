#!/usr/bin/env python3
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import numpy as np
from vv import build, core

# every property of the space and of each body is dumped after every operation; one line per operation
PRELUDE = r"""
local function num(x)
  if x == nil then return 'nil' end
  if type(x) ~= 'number' then return type(x) .. ':' .. tostring(x) end
  if x ~= x then return 'nan' end
  return string.format('%.17g', x)
end
local function str(x) if x == nil then return 'nil' end if type(x) ~= 'string' then return type(x) end return 's' .. x:gsub('[^%w_]', function(c) return string.format('%%%02x', c:byte()) end) end
local function vec(v) local t = v:totable() local r = {} for i = 1, #t do r[i] = num(t[i]) end return table.concat(r, ',') end
local function obj(o) return num(o.r.x) .. ',' .. num(o.r.y) .. ',' .. num(o.g) .. ',' .. num(o.v.x) .. ',' .. num(o.v.y) end
B = {}
R = {}
local lists = {'vort_list', 'sink_list', 'streak_source_list', 'streak_domain_list'}
local function bid(x)
  if x == nil then return 'nil' end
  for i = 1, NB do if B[i] == x then return 'B' .. i end end
  return 'unknown'
end
function dump(op, ok, ret)
  local t = {op, ok and 'ok' or 'error', (not ok and type(ret) ~= 'string') and 'bad-message' or '-'}
  local function add(k, v) t[#t + 1] = k .. '=' .. v end
  if ok and ret ~= nil then add('ret', type(ret) == 'number' and num(ret) or tostring(ret)) end
  add('S.caption', str(S.caption))
  for _, k in ipairs{'re', 'finish', 'inf_g', 'time', 'dt', 'dt_save', 'dt_streak', 'dt_profile'} do add('S.' .. k, num(S[k])) end
  for _, k in ipairs{'inf_vx', 'inf_vy'} do add('S.' .. k, str(S[k]:tostring())) end
  add('S.gravity', vec(S.gravity))
  for i = 1, NB do
    local b = B[i]
    local p = 'B' .. i .. '.'
    for _, k in ipairs{'holder_pos', 'delta_pos', 'speed', 'collision_min', 'collision_max', 'spring_const', 'spring_damping'} do add(p .. k, vec(b[k])) end
    for _, k in ipairs{'holder_vx', 'holder_vy', 'holder_vo', 'holder_mo'} do add(p .. k, str(b[k]:tostring())) end
    for _, k in ipairs{'density', 'bounce', 'special_segment'} do add(p .. k, num(b[k])) end
    add(p .. 'label', str(b.label))
    add(p .. 'slip', tostring(b.slip))
    add(p .. 'root', bid(b.root))
    add(p .. 'n', num(#b))
  end
  for _, k in ipairs(lists) do
    local l, r = S[k], {}
    for i = 1, #l do r[i] = obj(l[i]) end
    local n, m = 0, {}
    for i, o in ipairs(l) do n = n + 1; m[n] = obj(o) if i ~= n then m[n] = 'index' end end
    local w = {}
    for i, o in ipairs(l:totable()) do w[i] = obj(o) end
    local a = table.concat(r, ';')
    if a ~= table.concat(m, ';') then a = 'ipairs-differs' end
    if a ~= table.concat(w, ';') then a = 'totable-differs' end
    if l[0] ~= nil or l[#l + 1] ~= nil then a = 'no-end' end
    add(k, a)
  end
  local r, l = {}, S.body_list
  for i = 1, #l do r[i] = bid(l[i]) end
  local m = {}
  for i, b in ipairs(l) do m[i] = bid(b) end
  local a = table.concat(r, ';')
  if a ~= table.concat(m, ';') then a = 'ipairs-differs' end
  if l[0] ~= nil or l[#l + 1] ~= nil then a = 'no-end' end
  add('body_list', a)
  print(table.concat(t, ' '))
end
"""

OBJLISTS = ["vort_list", "sink_list", "streak_source_list", "streak_domain_list"]
VEC3 = ["holder_pos", "delta_pos", "speed", "collision_min", "collision_max", "spring_const", "spring_damping"]
EVALS = ["holder_vx", "holder_vy", "holder_vo", "holder_mo"]
TIMES = ["time", "dt", "dt_save", "dt_streak", "dt_profile"]
DBLS = ["re", "finish", "inf_g"]


def lnum(x):
    return "(0/0)" if math.isnan(x) else "(1/0)" if x == math.inf else "(-1/0)" if x == -math.inf else "%.17g" % x


def pnum(x):
    return "nan" if math.isnan(x) else "%.17g" % x


def pstr(x):
    return "s" + "".join(chr(c) if chr(c).isalnum() and c < 128 or c == 95 else "%%%02x" % c for c in x.encode())


def lstr(x):
    return "'" + "".join("\\%d" % c if c < 32 or c > 126 or c in (39, 92) else chr(c) for c in x.encode()).replace("\\", "\\") + "'"


class Prog:
    def __init__(self, rng, nb):
        self.rng, self.nb = rng, nb
        self.m = None                      # model: key -> printed text (lists: python lists)
        self.lines, self.want = [], []
        self.lists = {k: [] for k in OBJLISTS}     # of [x, y, g, vx, vy]
        self.bodies = []                   # indices in S.body_list
        self.set = {}                      # key -> text expected
        self.kinds = []
        self.refs = []                     # (lua name, key, component path)

    # ---- values
    def number(self):
        r = self.rng
        return float(r.choice([0, 1, -1, 2.5, 1e300, 1e-300, math.inf, -math.inf, math.nan, r.normal(), r.normal() * 10.0 ** r.integers(-10, 10), int(r.integers(-1000, 1000)), -0.0]))

    def good_num(self):
        x = self.number()
        if math.isfinite(x) and self.rng.uniform() < .15:
            return lstr(repr(x)), x        # a numeral
        return lnum(x), x

    def bad(self, *ok):
        pool = {"string": "'abc'", "nil": "nil", "table": "{}", "bool": "true", "func": "print", "num": "1.5", "int": "3", "S": "S", "body": "B[1]", "tvec": "S.gravity",
                "tvec3": "B[1].speed", "teval": "S.inf_vx", "list": "S.vort_list", "t1": "{1}", "t2": "{1,2}", "t3": "{1,2,3}", "t4": "{1,2,3,4}", "tx2": "{'a',1}", "tx3": "{1,2,'b'}", "tn": "{1,nil,3}",
                "numeral": "'7'"}
        keys = [k for k in pool if k not in ok and (self.nb or k not in ("body", "tvec3"))]
        return pool[str(self.rng.choice(keys))]

    def vec(self, n):
        xs = [self.good_num() for _ in range(n)]
        return "{" + ",".join(a for a, _ in xs) + "}", [x for _, x in xs]

    def time(self):
        r = self.rng
        k = int(r.integers(4))
        v, s = int(r.integers(-2**31 + 1, 2**31)) if r.uniform() < .2 else int(r.integers(-500, 500)), int(r.choice([1, 2, 3, 7, 10, 64, 1000, 2**31 - 1, 4294967295 if r.uniform() < .5 else 5]))
        if k == 0:
            x = v % 100000 / 10 ** int(r.integers(0, 4))
            return lnum(x), x
        if k == 1:
            return "{%d,%d}" % (v, s), v / s
        if k == 2:
            return "{'%d',%d}" % (v, s), v / s
        return "'%d/%d'" % (v, s), v / s

    BADTIME = ["{1}", "{1,0}", "{1.5,2}", "{1,-2}", "{1,2,3}", "{}", "'1/0'", "'abc'", "'1/2x'", "true", "nil", "1e300", "(0/0)", "(1/0)", "'1.5/2'", "{'a',1}", "{4294967296,1}", "{1,4294967296}", "S", "S.gravity", "''", "'5'",
               "'4294967297/1'", "'99999999999999999999/3'", "3e9"]

    def expr(self):
        r = self.rng
        a = round(float(r.normal()), 4)
        return str(r.choice(["%g" % a, "sin(%g*t)" % a, "%g*t+1" % a, "t^2", "step(t-(%g))" % a, "return %g" % a, "local a = 2; return a*t", "", "exp(-t)*cos(3*t)", "0.5"]))

    BADEXPR = ["'1+'", "')('", "'local'", "'return return'", "'sin('", "'a b c d'"]

    # ---- operations
    def op(self, kind, stmt, ok, updates=None, ret=None):
        """stmt runs inside a function; updates are applied to the model when it is to succeed."""
        self.kinds.append((kind, ok))
        n = len(self.want)
        self.lines.append("dump('op%d', pcall(function() %s end))" % (n, stmt))
        if ok and updates:
            updates()
        self.want.append((n, kind, stmt, ok, self.expected(ret)))

    def expected(self, ret):
        e = dict(self.set)
        for k, l in self.lists.items():
            e[k] = ";".join(",".join(pnum(x) for x in o) for o in l)
        e["body_list"] = ";".join("B%d" % i for i in self.bodies)
        if ret is not None:
            e["ret"] = ret
        return e

    def put(self, k, v):
        return lambda: self.set.__setitem__(k, v)

    def target(self):
        """-> (Lua expression, model prefix) of the space or a body, however the script gets at it."""
        r = self.rng
        i = int(r.integers(1, self.nb + 1))
        how = ["B[%d]" % i]
        if i in self.bodies:
            how.append("S.body_list[%d]" % (self.bodies.index(i) + 1))
        for j in range(1, self.nb + 1):
            if self.set.get("B%d.root" % j) == "B%d" % i:
                how.append("B[%d].root" % j)
        return str(r.choice(how)), "B%d." % i

    def step(self):
        r = self.rng
        f = [self.o_double, self.o_string, self.o_time, self.o_eval, self.o_vec, self.o_vecpart, self.o_unknown, self.o_append, self.o_append, self.o_list, self.o_elem, self.o_elem, self.o_ref, self.o_eval_at]
        if self.nb:
            f += [self.o_bvec, self.o_bvec, self.o_bvecpart, self.o_bint, self.o_slip, self.o_root, self.o_bodylist, self.o_bodylist]
        f[int(r.integers(len(f)))]()
        if r.uniform() < .05:
            self.lines.append("collectgarbage()")

    def o_double(self):
        r = self.rng
        t, p = ("S", "S.") if not self.nb or r.uniform() < .5 else self.target()
        k = str(r.choice(DBLS if t == "S" else ["density", "bounce"]))
        if r.uniform() < .25:
            return self.op("double", "%s.%s = %s" % (t, k, self.bad("num", "int", "numeral")), False)
        s, x = self.good_num()
        self.op("double", "%s.%s = %s" % (t, k, s), True, self.put(p + k, pnum(x)))

    def o_string(self):
        r = self.rng
        t, p = ("S", "S.") if not self.nb or r.uniform() < .5 else self.target()
        k = "caption" if t == "S" else "label"
        if r.uniform() < .3:
            return self.op("string", "%s.%s = %s" % (t, k, self.bad("string", "numeral")), False)
        x = str(r.choice(["abc", "", "a b", "x/y", "'q'", "\u0444", "%s%d", "0", "a" * 300, "tab\there"]))
        self.op("string", "%s.%s = %s" % (t, k, lstr(x)), True, self.put(p + k, pstr(x)))

    def o_time(self):
        k = str(self.rng.choice(TIMES))
        if self.rng.uniform() < .35:
            return self.op("time", "S.%s = %s" % (k, str(self.rng.choice(self.BADTIME))), False)
        s, x = self.time()
        self.op("time", "S.%s = %s" % (k, s), True, self.put("S." + k, ("~", x)))

    def o_eval(self):
        r = self.rng
        t, p = ("S", "S.") if not self.nb or r.uniform() < .5 else self.target()
        k = str(r.choice(["inf_vx", "inf_vy"] if t == "S" else EVALS))
        u = r.uniform()
        if u < .2:
            return self.op("eval", "%s.%s = %s" % (t, k, self.bad("string", "teval", "numeral")), False)
        if u < .35:
            return self.op("eval", "%s.%s = %s" % (t, k, str(r.choice(self.BADEXPR))), False)
        if u < .5:
            o = [("S.inf_vx", "S.inf_vx"), ("S.inf_vy", "S.inf_vy")] + [("B[%d].%s" % (i, e), "B%d.%s" % (i, e)) for i in range(1, self.nb + 1) for e in EVALS]
            a, b = o[int(r.integers(len(o)))]
            return self.op("eval-copy", "%s.%s = %s" % (t, k, a), True, self.put(p + k, self.set[b]))
        x = self.expr()
        self.op("eval", "%s.%s = %s" % (t, k, lstr(x)), True, self.put(p + k, pstr(x)))

    def o_eval_at(self):
        a = round(float(self.rng.normal()), 3)
        t = round(float(self.rng.uniform(-3, 3)), 2)
        k = "S." + str(self.rng.choice(["inf_vx", "inf_vy"]))
        self.op("eval-at", "%s = '%g*t + 2' return %s:eval(%g)" % (k, a, k, t), True, self.put(k, pstr("%g*t + 2" % a)), ("~", a * t + 2))

    def o_vec(self):
        r = self.rng
        if r.uniform() < .35:
            return self.op("vec", "S.gravity = %s" % self.bad("tvec", "t2"), False)
        if self.nb and r.uniform() < .25:
            i, k = int(r.integers(1, self.nb + 1)), str(r.choice(VEC3))
            return self.op("vec-copy", "S.gravity = B[%d].%s.r" % (i, k), True, self.put("S.gravity", ",".join(self.set["B%d.%s" % (i, k)].split(",")[:2])))
        s, x = self.vec(2)
        self.op("vec", "S.gravity = " + s, True, self.put("S.gravity", ",".join(map(pnum, x))))

    def part(self, key, i, v):
        def f():
            a = self.set[key].split(",")
            a[i] = v
            self.set[key] = ",".join(a)
        return f

    def o_vecpart(self):
        r = self.rng
        if r.uniform() < .2:
            return self.op("vec-part", "S.gravity.%s = %s" % (str(r.choice(["z", "r", "o", "abs"])), "1"), False)
        i = int(r.integers(2))
        if r.uniform() < .2:
            return self.op("vec-part", "S.gravity.%s = %s" % ("xy"[i], self.bad("num", "int", "numeral")), False)
        s, x = self.good_num()
        self.op("vec-part", "S.gravity.%s = %s" % ("xy"[i], s), True, self.part("S.gravity", i, pnum(x)))

    def o_bvec(self):
        r = self.rng
        t, p = self.target()
        k = str(r.choice(VEC3))
        if r.uniform() < .3:
            return self.op("vec3", "%s.%s = %s" % (t, k, self.bad("tvec3", "t3")), False)
        if r.uniform() < .25:
            i, q = int(r.integers(1, self.nb + 1)), str(r.choice(VEC3))
            return self.op("vec3-copy", "%s.%s = B[%d].%s" % (t, k, i, q), True, self.put(p + k, self.set["B%d.%s" % (i, q)]))
        s, x = self.vec(3)
        self.op("vec3", "%s.%s = %s" % (t, k, s), True, self.put(p + k, ",".join(map(pnum, x))))

    def o_bvecpart(self):
        r = self.rng
        t, p = self.target()
        k = str(r.choice(VEC3))
        c = int(r.integers(6))
        if c == 0:
            return self.op("vec3-part", "%s.%s.%s = 1" % (t, k, str(r.choice(["x", "y", "z", "totable", "r"]))), False)
        if c == 1:
            return self.op("vec3-part", "%s.%s.%s = %s" % (t, k, str(r.choice(["o", "d", "r.x", "r.y"])), self.bad("num", "int", "numeral")), False)
        if c == 2:
            s, x = self.vec(2)
            def f():
                self.set[p + k] = ",".join([*map(pnum, x), self.set[p + k].split(",")[2]])
            return self.op("vec3-r", "%s.%s.r = %s" % (t, k, s), True, f)
        if c == 3:
            x = round(float(r.uniform(-400, 400)), 2)
            return self.op("vec3-degree", "%s.%s.d = %s return %s.%s.d" % (t, k, lnum(x), t, k), True, self.part(p + k, 2, "~%.17g" % math.radians(x)), ("~", x))
        i = int(r.integers(3))
        s, x = self.good_num()
        self.op("vec3-part", "%s.%s.%s = %s" % (t, k, ["r.x", "r.y", "o"][i], s), True, self.part(p + k, i, pnum(x)))

    def o_bint(self):
        r = self.rng
        t, p = self.target()
        if r.uniform() < .4:
            v = str(r.choice(["2.5", "3e9", "-3e9", "2147483648", "(0/0)", "(1/0)", "'1.5'"])) if r.uniform() < .5 else self.bad("int", "numeral")
            return self.op("int", "%s.special_segment = %s" % (t, v), False)
        x = int(r.choice([0, 1, -1, 7, 2147483647, -2147483648, int(r.integers(-100, 100))]))
        s = str(r.choice(["%d" % x, "%d.0" % x, "'%d'" % x]))
        self.op("int", "%s.special_segment = %s" % (t, s), True, self.put(p + "special_segment", str(x)))

    def o_slip(self):
        t, p = self.target()
        if self.rng.uniform() < .3:
            return self.op("slip", "%s.slip = %s" % (t, self.bad("bool")), False)
        b = self.rng.uniform() < .5
        self.op("slip", "%s.slip = %s" % (t, "true" if b else "false"), True, self.put(p + "slip", "true" if b else "false"))

    def o_root(self):
        r = self.rng
        t, p = self.target()
        u = r.uniform()
        if u < .3:
            return self.op("root", "%s.root = %s" % (t, self.bad("nil", "body")), False)
        if u < .5:
            return self.op("root", "%s.root = nil" % t, True, self.put(p + "root", "nil"))
        i = int(r.integers(1, self.nb + 1))
        self.op("root", "%s.root = B[%d]" % (t, i), True, self.put(p + "root", "B%d" % i))

    def o_unknown(self):
        r = self.rng
        t = "S" if not self.nb or r.uniform() < .5 else self.target()[0]
        c = int(r.integers(8))
        if c == 0:
            return self.op("unknown", "%s.%s = 1" % (t, str(r.choice(["foo", "Re", "vort_lis", "r", ""])) if False else "foo"), False)
        if c == 1:
            return self.op("unknown", "return %s.%s" % (t, str(r.choice(["foo", "Re", "_", "holder"]))), True)
        if c == 2:
            return self.op("unknown", "S.%s = %s" % (str(r.choice(OBJLISTS + ["body_list", "load", "save"])), str(r.choice(["nil", "{}", "S.vort_list", "1"]))), False)
        if c == 3:
            return self.op("unknown", "S.%s%s = %s" % (str(r.choice(OBJLISTS + ["body_list"])), str(r.choice(["[1]", ".foo", ".append"])), str(r.choice(["nil", "{1,2,3}", "1"]))), False)
        if c == 4:
            return self.op("unknown", "return S.%s.foo" % str(r.choice(OBJLISTS + ["body_list"])), True)
        if c == 5:
            return self.op("unknown", "S.inf_vx.%s = 1" % str(r.choice(["eval", "foo"])), False)
        if c == 6:
            return self.op("unknown", "S[1] = 2" if r.uniform() < .5 else "S[{}] = 2", False)
        self.op("misuse", str(r.choice(["S.vort_list.append(1, {1,2,3})", "S.gravity.abs(1)", "S.gravity.totable({1,2})", "S.inf_vx.eval('1', 0)", "S.inf_vx:eval('x')", "S.vort_list.clear(S.body_list)", "S.body_list.insert(S.vort_list)", "S:save()",
                                        "S:load({})", "S.load('x')", "S:XStreamfunction(1)", "S:XStreamfunction({1,2,3})", "S.vort_list:load('/nonexistent')", "S.vort_list:load_bin('/nonexistent')", "return #S.gravity", "S.gravity()", "return S + 1"])), False)

    def obj(self, known=None):
        r = self.rng
        have = [(k, i) for k in OBJLISTS for i in range(len(self.lists[k]))]
        if have and r.uniform() < .3:
            k, i = have[int(r.integers(len(have)))]
            return "S.%s[%d]" % (k, i + 1), lambda: list(self.lists[k][i])
        s, x = self.vec(3)
        return s, lambda: x + [0.0, 0.0]

    def o_append(self):
        r = self.rng
        k = str(r.choice(OBJLISTS))
        a = [self.obj() for _ in range(int(r.choice([0, 1, 1, 1, 2, 3, 8])))]
        args = [x for x, _ in a]
        if r.uniform() < .25:
            args.insert(int(r.integers(len(args) + 1)), self.bad("t3", "tn" if False else "t3"))
            return self.op("append", "S.%s:append(%s)" % (k, ", ".join(args)), False)
        def f():
            self.lists[k] += [g() for _, g in a]
        self.op("append", "S.%s:append(%s)" % (k, ", ".join(args)), True, f)

    def o_list(self):
        r = self.rng
        k = str(r.choice(OBJLISTS))
        n = len(self.lists[k])
        c = int(r.integers(4))
        if c == 0 and r.uniform() < .4:
            return self.op("clear", "S.%s:clear()" % k, True, lambda: self.lists[k].clear())
        if c == 1:
            i = str(r.choice(["%d" % (n + 1), "0", "-1", "1e9", "'foo'", "%d" % (n + 5), "2^63", "-2^63", "(0/0)"]))
            return self.op("index", "return S.%s[%s]" % (k, i), True)
        if c == 2:
            return self.op("length", "return #S.%s" % k, True, None, str(n))
        if n:
            i = int(r.integers(n))
            o = self.lists[k][i]
            idx = str(r.choice(["%d" % (i + 1), "'%d'" % (i + 1), "%d.0" % (i + 1)]))
            m, x = [("g", o[2]), ("r.x", o[0]), ("r.y", o[1]), ("v.x", o[3]), ("r:abs2()", None)][int(r.integers(5))]
            with np.errstate(all="ignore"):
                if x is None:
                    x = float(np.float64(o[0]) * o[0] + np.float64(o[1]) * o[1])
            self.op("index", "return S.%s[%s].%s" % (k, idx, m), True, None, ("~", x))

    def o_elem(self):
        r = self.rng
        k = str(r.choice(OBJLISTS))
        n = len(self.lists[k])
        if not n:
            return self.o_append()
        i = int(r.integers(n))
        t = "S.%s[%d]" % (k, i + 1)
        c = int(r.integers(6))
        if c == 0:
            return self.op("elem", "%s.%s = 1" % (t, str(r.choice(["x", "foo", "r", "v", "G"]))), False)
        if c == 1:
            return self.op("elem", "%s.%s = %s" % (t, str(r.choice(["g", "r.x", "v.y"])), self.bad("num", "int", "numeral")), False)
        if c == 2:
            j, nm = [(0, "r"), (3, "v")][int(r.integers(2))]
            s, x = self.vec(2)
            def f():
                self.lists[k][i][j:j + 2] = x
            return self.op("elem", "%s.%s = %s" % (t, nm, s), True, f)
        j = int(r.integers(5))
        s, x = self.good_num()
        def f():
            self.lists[k][i][j] = x
        if r.uniform() < .3:
            return self.op("elem", "for i, o in ipairs(S.%s) do if i == %d then o.%s = %s end end" % (k, i + 1, ["r.x", "r.y", "g", "v.x", "v.y"][j], s), True, f)
        self.op("elem", "%s.%s = %s" % (t, ["r.x", "r.y", "g", "v.x", "v.y"][j], s), True, f)

    def o_ref(self):
        """References to members of the space and of live bodies are kept and used later."""
        r = self.rng
        if self.refs and r.uniform() < .7:
            nm, key, i = self.refs[int(r.integers(len(self.refs)))]
            s, x = self.good_num()
            if r.uniform() < .5:
                return self.op("ref-write", "%s = %s" % (nm, s), True, self.part(key, i, pnum(x)))
            v = self.set[key].split(",")[i]
            return self.op("ref-read", "return %s" % nm, True, None, v if v[0] != "~" else ("~", float(v[1:])))
        j = len(self.refs)
        if self.nb and r.uniform() < .6:
            t, p = self.target()
            k = str(r.choice(VEC3))
            i = int(r.integers(3))
            if i < 2:
                self.op("ref", "R[%d] = %s.%s.r" % (j, t, k), True)
                self.refs.append(("R[%d].%s" % (j, "xy"[i]), p + k, i))
            else:
                self.op("ref", "R[%d] = %s.%s" % (j, t, k), True)
                self.refs.append(("R[%d].o" % j, p + k, 2))
        else:
            i = int(r.integers(2))
            self.op("ref", "R[%d] = S.gravity" % j, True)
            self.refs.append(("R[%d].%s" % (j, "xy"[i]), "S.gravity", i))

    def o_bodylist(self):
        r = self.rng
        i = int(r.integers(1, self.nb + 1))
        c = int(r.integers(7))
        if c == 0:
            return self.op("insert", "S.body_list:insert(%s)" % self.bad("body"), False)
        if c == 1 and r.uniform() < .3:
            return self.op("bodies-clear", "S.body_list:clear()", True, lambda: self.bodies.clear())
        if c == 2:
            return self.op("bodies-index", "return S.body_list[%s]" % str(r.choice(["%d" % (len(self.bodies) + 1), "0", "'foo'", "1e9"])), True)
        if c == 3:
            return self.op("bodies-length", "return #S.body_list", True, None, str(len(self.bodies)))
        if c == 4:
            return self.op("erase", "S.body_list:erase(B[%d])" % i, i in self.bodies, lambda: self.bodies.remove(i))
        self.op("insert", "S.body_list:insert(B[%d])" % i, i not in self.bodies, lambda: self.bodies.append(i))


def close(got, want):
    if isinstance(want, tuple):
        try:
            a, b = float(got), want[1]
        except ValueError:
            return False
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b), 1e-3)
    if "~" in want and not want.startswith("s"):
        g, w = got.split(","), want.split(",")
        return len(g) == len(w) and all(close(a, ("~", float(b[1:])) if b[0] == "~" else b) for a, b in zip(g, w))
    if got == want:
        return True
    # the sign of a NaN and of zero
    g, w = got.replace(";", ",").split(","), want.replace(";", ",").split(",")
    return len(g) == len(w) and got.count(";") == want.count(";") and all(a.lstrip("-") == b.lstrip("-") and b.lstrip("-") in ("nan", "0") or a == b for a, b in zip(g, w))


def case(c, d, R):
    rng = np.random.default_rng(c["seed"])
    nb = int(rng.integers(0, 4))
    P = Prog(rng, nb)
    head = ["NB = %d" % nb]
    slips = {}
    for i in range(nb):
        if rng.uniform() < .5:
            head.append("B[%d] = gen_cylinder{R=0.5, N=%d}" % (i + 1, 5 + i))
            continue
        # a contour some segments of which slip
        fl = rng.integers(0, 2, 5 + i) if rng.uniform() < .8 else np.full(5 + i, rng.integers(2))
        if rng.uniform() < .3:
            fl[:] = 0
            fl[rng.integers(len(fl))] = 1
        if rng.uniform() < .3:
            fl = 1 - fl
        with open(os.path.join(d, "body%d" % i), "w") as f:
            for k, x in enumerate(fl):
                f.write("%.6f %.6f %d\n" % (np.cos(k), -np.sin(k), x))
        head.append("B[%d] = load_body('body%d')" % (i + 1, i))
        slips["B%d.slip" % (i + 1)] = "true" if fl.all() else "nil" if fl.any() else "false"
    head.append("dump('start', true)")
    # values at the start: the model learns them (other checks know what they should be)
    open(os.path.join(d, "start.lua"), "w").write(PRELUDE + "\n".join(head) + "\n")
    r = core.must_ok(core.run2([c["exe"], "start.lua"], d, asan=c["asan"]), "vvflow")
    P.set = dict(x.split("=", 1) for x in r.out.split("\n")[0].split(" ")[3:])
    for k, x in slips.items():
        R.count("slip flags of bodies from files")
        if P.set[k] != x:
            R.bad("slip", "slip of a body reads %s instead of %s (nil where only some segments slip)" % (P.set[k], x))
    for k in OBJLISTS + ["body_list"]:
        if P.set.pop(k):
            raise core.Inconclusive("lists are not empty at the start")
    for _ in range(c["n"]):
        P.step()
    open(os.path.join(d, "p.lua"), "w").write(PRELUDE + "\n".join(head[:-1] + P.lines) + "\n")
    r = core.run2([c["exe"], "p.lua"], d, asan=c["asan"], timeout=240)
    if core.died(r):
        return R.bad("died", core.died(r))
    if r.rc:
        return R.bad("failed", "p.lua: exit code %d, %s" % (r.rc, r.err[-300:]))
    out = r.out.split("\n")[:-1]
    if len(out) != len(P.want):
        return R.bad("output", "%d lines instead of %d" % (len(out), len(P.want)))
    for l, (n, kind, stmt, ok, want) in zip(out, P.want):
        f = l.split(" ")
        R.evals += 1
        R.case("%s|%s" % (kind, ok), 0)
        if f[0] != "op%d" % n:
            return R.bad("output", "line %d is %s" % (n, l[:100]))
        if (f[1] == "ok") != ok:
            return R.bad("accepted" if f[1] == "ok" else "refused", "op %d '%s': %s" % (n, stmt, "is accepted" if f[1] == "ok" else "raises an error"))
        if f[2] != "-":
            R.bad("message", "op %d '%s': the error has no message" % (n, stmt))
        got = dict(x.split("=", 1) for x in f[3:])
        if got.keys() != want.keys():
            return R.bad("value", "op %d '%s': returns %s, expected %s" % (n, stmt, got.get("ret"), want.get("ret")))
        for k in want:
            if not close(got[k], want[k]):
                return R.bad("value" if k == "ret" or k.split(".")[-1] in stmt else "unrelated", "op %d '%s': %s is %s, expected %s" % (n, stmt, k, got[k][:200], str(want[k])[:200]))
    R.sample = "%d operations on %d bodies, e.g. %s" % (c["n"], nb, P.want[-1][2])


def main(chk):
    rel, asan = build.program("vvflow", "rel"), build.program("vvflow", "asan")
    chk.run(case, [dict(seed=[chk.seed, 22, i], n=60, exe=asan if i % 4 == 0 else rel, asan=i % 4 == 0) for i in range(chk.n(400, 6000))])


if __name__ == "__main__":
    core.main(main, "C22", "kinds of operation, valid and invalid, compared with the object model")
