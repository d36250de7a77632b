"""Check framework: case generation bookkeeping, verdicts, evidence, replays.

Exit codes: 0 held on everything explored (known findings are printed),
1 violation (with a VIOLATION line), 2 the check itself failed.
"""
import ctypes
import fnmatch
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool
from types import SimpleNamespace as NS

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
import numpy as np  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Inconclusive(Exception):
    pass


class Viol(Exception):
    """Raised inside a case: (key, message)."""

    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg = key, msg


def load_known(pid):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


class Res:
    """Result of one case."""

    def __init__(self):
        self.viol = []       # (key, msg)
        self.counts = {}
        self.sigs = []       # signatures of distinct non-trivial evaluations
        self.evals = 0
        self.sample = None
        self.inconclusive = []
        self.keep = None     # dir with replay files

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def maxi(self, k, v):
        self.counts["max:" + k] = max(self.counts.get("max:" + k, 0), float(v))

    def bad(self, key, msg):
        if len(self.viol) < 20:
            self.viol.append((key, msg))

    def case(self, sig, n=1):
        """n oracle evaluations on the non-trivial case `sig`."""
        self.evals += n
        if sig is not None:
            self.sigs.append(str(sig))


def _worker(args):
    fn, case, base, idx = args
    d = os.path.join(base, "c%05d" % idx)
    os.makedirs(d)
    res = Res()
    try:
        fn(case, d, res)
    except Viol as v:
        res.bad(v.key, v.msg)
    except Inconclusive as e:
        res.inconclusive.append(str(e))
    except Exception:
        res.inconclusive.append("HARNESS " + traceback.format_exc())
    if res.viol:
        res.keep = d
    else:
        shutil.rmtree(d, ignore_errors=True)
    return res


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=(), min_distinct=2):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.min_distinct = min_distinct
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.viol = []
        self.counts = {}
        self.sigs = set()
        self.evals = 0
        self.samples = []
        self.inconclusive = []
        self.tmp = tempfile.mkdtemp(prefix="vv_%s_" % pid)
        self.idx = 0
        self.exe = {}
        rp = os.path.join(VERIF, "replays", pid)
        shutil.rmtree(rp, ignore_errors=True)
        self.rp = rp

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *k):
        return np.random.default_rng([self.seed, zlib.crc32(self.pid.encode()), *k])

    def merge(self, r):
        for k, v in r.counts.items():
            if k.startswith("max:"):
                self.counts[k] = max(self.counts.get(k, 0), v)
            else:
                self.counts[k] = self.counts.get(k, 0) + v
        self.sigs.update(r.sigs)
        self.evals += r.evals
        if r.sample is not None and len(self.samples) < 6:
            self.samples.append(r.sample)
        self.inconclusive += r.inconclusive
        for key, msg in r.viol:
            self.viol.append((key, msg, r.keep))

    def run(self, fn, cases, workers=8):
        """Run fn(case, dir, Res) for every case in a process pool."""
        jobs = []
        for c in cases:
            jobs.append((fn, c, self.tmp, self.idx))
            self.idx += 1
        if not jobs:
            return
        got, ex = {}, ProcessPoolExecutor(workers)
        try:
            fs = {ex.submit(_worker, j): i for i, j in enumerate(jobs)}
            left = set(fs)
            while left:
                done, left = wait(left, timeout=5, return_when=FIRST_COMPLETED)
                for f in done:
                    got[fs[f]] = f.result()
                # a violation is an answer: do not wait for what hangs
                if time.time() - self.t0 > self.n(300, 3000) and left and self.real([v for r in got.values() for v in r.viol]):
                    self.counts["cases not waited for"] = self.counts.get("cases not waited for", 0) + len(left)
                    for q in list(ex._processes.values()):
                        q.kill()
                    break
        except BrokenProcessPool:
            raise RuntimeError("a checker worker died")
        finally:
            ex.shutdown(wait=True, cancel_futures=True)
        for i in sorted(got):
            self.merge(got[i])

    def real(self, viol):
        """Those of the violations that are not listed as known."""
        known = load_known(self.pid)
        return [v for v in viol if not any(fnmatch.fnmatch(v[0], pat) for pat, _ in known)]

    def bad(self, key, msg, keep=None):
        self.viol.append((key, msg, keep))

    def finish(self):
        known = load_known(self.pid)
        hit, real = set(), []
        for key, msg, keep in self.viol:
            for pat, txt in known:
                if fnmatch.fnmatch(key, pat):
                    hit.add((pat, txt))
                    break
            else:
                real.append((key, msg, keep))
        harness = [i for i in self.inconclusive if i.startswith("HARNESS")]
        rc = 0
        for pat, txt in sorted(hit):
            print(f"KNOWN-FINDING: property={self.pid} {txt}")
        seen = {}
        for key, msg, keep in real:
            if key in seen:
                seen[key] += 1
                continue
            seen[key] = 1
            d = os.path.join(self.rp, re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:80])
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "violation.json"), "w") as f:
                json.dump({"property": self.pid, "key": key, "message": msg, "seed": self.seed, "tier": self.tier,
                           "cmd": " ".join(sys.argv)}, f, indent=1)
            if keep and os.path.isdir(keep):
                tot = 0
                for root, _, fs in os.walk(keep):
                    for fn in sorted(fs):
                        p = os.path.join(root, fn)
                        sz = os.path.getsize(p)
                        if os.path.islink(p) or tot + sz > 8 << 20:
                            continue
                        tot += sz
                        q = os.path.join(d, os.path.relpath(p, keep))
                        os.makedirs(os.path.dirname(q), exist_ok=True)
                        shutil.copy(p, q)
            print(f"VIOLATION property={self.pid} replay={d}")
            print(f"  {key}: {msg}"[:2000])
            rc = 1
        shutil.rmtree(self.tmp, ignore_errors=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": int(self.evals), "distinct_nontrivial": len(self.sigs), "rule": self.rule,
                           "samples": self.samples or ["none"],
                           "monitors": {k.replace("max:", "max "): v for k, v in sorted(self.counts.items())},
                           "inconclusive": len(self.inconclusive)},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for i in self.inconclusive[:5]:
            print("inconclusive:", i, file=sys.stderr)
        if rc == 0:
            if harness:
                print("check error: the harness failed", file=sys.stderr)
                return 2
            if len(self.sigs) < self.min_distinct:
                print("check error: too little was observed (%d)" % len(self.sigs), file=sys.stderr)
                return 2
            if len(self.inconclusive) > max(3, 0.3 * self.idx):
                print("check error: too many inconclusive cases", file=sys.stderr)
                return 2
        print(f"{self.pid}: evals={self.evals} distinct={len(self.sigs)} viol={len(real)} "
              f"inconcl={len(self.inconclusive)} wall={time.time()-self.t0:.1f}s")
        return rc


def main(fn, *a, **kw):
    """Entry point of a check script."""
    chk = None
    try:
        chk = Check(*a, **kw)
        fn(chk)
        rc = chk.finish()
    except Exception:
        traceback.print_exc()
        if chk:
            shutil.rmtree(chk.tmp, ignore_errors=True)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


# ---------------------------------------------------------------- processes

_LIBC = ctypes.CDLL(None)


def run(cmd, cwd, env=None, timeout=120, inp=None, mem_gb=6, asan=False):
    """-> NS(rc, out, err, timeout). Negative rc: killed by that signal."""
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": str(cwd), "LC_ALL": "C", "OMP_NUM_THREADS": "1", "TZ": "UTC",
         "OPENBLAS_NUM_THREADS": "1"}
    e.update(env or {})

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
        if not asan:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        os.setpgrp()
        _LIBC.prctl(1, signal.SIGKILL)     # PR_SET_PDEATHSIG

    p = subprocess.Popen([str(c) for c in cmd], cwd=str(cwd), env=e, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    to = False
    try:
        out, err = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    return NS(rc=p.returncode, out=out.decode("utf8", "replace"), err=err.decode("utf8", "replace"), rawout=out, timeout=to)


def run2(cmd, cwd, **kw):
    """As run, but a time-out is repeated once before it is believed."""
    r = run(cmd, cwd, **kw)
    if r.timeout:
        t = kw.get("timeout", 120)
        kw["timeout"] = min(2 * t, max(t, 300))
        r = run(cmd, cwd, **kw)
    return r


SAN = re.compile(r"(ERROR: AddressSanitizer: \S+|runtime error: [^\n]{0,100}|Assertion '[^\n]{0,100}' failed|WARNING: ThreadSanitizer: [^\n(]*)")


def died(r):
    """Why a run is a crash/hang of the program under test, or None."""
    if r.timeout:
        return "hang"
    m = SAN.search(r.err)
    if m:
        return m.group(1)
    if r.rc < 0:
        return "signal %d" % -r.rc
    return None


def must_ok(r, what="run"):
    d = died(r)
    if d:
        raise Viol("crash:%s:%s" % (what, re.sub(r"[^A-Za-z0-9]+", "-", d)[:60]), f"{what} died: {d}; stderr: {r.err[-1500:]}")
    if r.rc != 0:
        raise Viol("fail:%s" % what, f"{what} exited with {r.rc}; stderr: {r.err[-1500:]}")
    return r


def rel(a, b, floor=1e-300):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.max(np.abs(a - b) / np.maximum(np.maximum(np.abs(a), np.abs(b)), floor)) if a.size else 0.0
