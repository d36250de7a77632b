"""Run a scenario under the observation monitor and give its trace."""
import os
from . import core, scen, trace


def run(exe, sc, d, phases="", tree=0, tail="simulate()\n", args=(), env=None, timeout=120, ok=True, name="s.lua", input=None):
    """-> (steps, process result).  The trace is removed after parsing unless the case fails."""
    if sc is not None:
        scen.write(sc, d, tail, name)
    tr = os.path.join(d, "trace.bin")
    if os.path.exists(tr):
        os.unlink(tr)
    e = {"VVMON_TRACE": tr, "VVMON_PHASES": phases}
    if tree:
        e["VVMON_TREE"] = str(tree)
    e.update(env or {})
    r = core.run2([exe, *args, input or name], d, env=e, timeout=timeout)
    if ok:
        core.must_ok(r, "vvflow")
    st = trace.steps(tr) if os.path.exists(tr) else []
    if os.path.exists(tr):
        os.unlink(tr)
    return st, r
