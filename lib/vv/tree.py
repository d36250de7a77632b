"""HDF5 files and result directories as flat dictionaries, to compare bit for bit."""
import glob, os
import numpy as np
from . import h5

SKIP = {"time_local", "git_rev", "git_info", "git_diff"}


def flat(n, p="", out=None):
    out = {} if out is None else out
    if isinstance(n, h5.NamedType):
        return out
    for k, v in n.attrs.items():
        if k not in SKIP:
            out[p + "@" + k] = v if isinstance(v, (str, type(None))) else np.asarray(v).tobytes()
    if isinstance(n, h5.Dataset):
        a = np.asarray(n.data)
        out[p] = (str(a.dtype), a.shape, a.tobytes())
    for k, v in getattr(n, "children", {}).items():
        flat(v, p + "/" + k, out)
    return out


def results(d):
    """The snapshots and the step log a run left behind."""
    out = {}
    for f in sorted(glob.glob(glob.escape(d) + "/results_*/*") + glob.glob(glob.escape(d) + "/stepdata_*")):
        q = os.path.relpath(f, d)
        out[q] = True
        for k, v in flat(h5.read(f)).items():
            out[q + ":" + k] = v
    return out


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
