"""What the drivers share: recording executions of the real code as traces.

Runs under the repository's own interpreter, with /repo/src first on the path.
Only the public interface of pylattica is used here.
"""
import json
import os
import random
import shutil
import signal
import tempfile
import time


class CaseTimeout(BaseException):
    pass


def _alarm(_sig, _frm):
    raise CaseTimeout()


def cv(v):
    """Canonical text of an opaque value."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return json.dumps(v)
    if type(v).__module__ == "numpy":
        v = v.tolist()
    try:
        return json.dumps(v, sort_keys=True)
    except (TypeError, ValueError):
        return "repr:" + repr(v)


def cid(i):
    """Canonical text of a site ID."""
    if isinstance(i, bool):
        return "bool:" + str(i)
    if isinstance(i, str):
        return "str:" + i
    try:
        if int(i) == i:
            return str(int(i))
    except (TypeError, ValueError):
        pass
    return "obj:" + repr(i)


def ckey(k):
    return k if isinstance(k, str) else "key:" + repr(k)


def cmap(m):
    """Canonical form of one map of state values."""
    return {ckey(k): cv(v) for k, v in m.items()}


def proj(state):
    """Content of a SimulationState, read through its public accessors."""
    return {
        "s": {cid(i): cmap(state.get_site_state(i)) for i in state.site_ids()},
        "g": cmap(state.get_general_state() or {}),
    }


def cupd(sites=None, general=None):
    """Normal form of a batch of updates."""
    return {
        "s": {cid(i): cmap(u) for i, u in (sites or {}).items()},
        "g": cmap(general or {}),
    }


def call(fn, *a, **k):
    """(value, "") or (None, name of the exception)."""
    try:
        return fn(*a, **k), ""
    except Exception as e:  # noqa: BLE001 - whatever the code under test raises is data
        return None, type(e).__name__


class Trace:
    def __init__(self, tid, **head):
        self.d = {"id": tid, "crash": "", "ev": []}
        self.d.update(head)

    def __setitem__(self, k, v):
        self.d[k] = v

    def ev(self, op, **f):
        f["op"] = op
        f.setdefault("err", "")
        self.d["ev"].append(f)
        return f


class Ctx:
    def __init__(self, prop, tier, seed, out, scripts, scratch):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.out, self.scripts, self.scratch = out, scripts, scratch
        self.quick = tier != "thorough"
        self.rng = random.Random(f"{prop}:{seed}")
        self.limit = 120
        self.n = 0
        self.t0 = time.time()
        signal.signal(signal.SIGALRM, _alarm)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def write(self, d):
        self.out.write(json.dumps(d) + "\n")
        self.out.flush()

    def case(self, name, fn, **head):
        """Run one case; whatever it raises makes the case a crashed trace."""
        self.n += 1
        tid = f"{self.prop}-{self.n}-{name}"
        t = Trace(tid, **head)
        self.write({"begin": tid})
        # the code under test draws from the global generators
        import numpy as np

        s = self.rng.randrange(2**31)
        random.seed(s)
        np.random.seed(s)
        cwd = os.getcwd()
        signal.alarm(self.limit)
        try:
            fn(t)
        except CaseTimeout:
            t["crash"] = f"no answer in {self.limit} s"
        except Exception as e:  # noqa: BLE001
            import traceback

            t["crash"] = f"{type(e).__name__}: {e} @ " + " < ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}"
                for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])
            )
        finally:
            signal.alarm(0)
            os.chdir(cwd)
        self.write(t.d)

    def tmp(self):
        return tempfile.mkdtemp(dir=self.scratch)


def rmtree(path):
    shutil.rmtree(path, ignore_errors=True)
