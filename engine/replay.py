"""Runs recorded harness inputs against the real code.

usage: <interpreter with RAMP's dependencies> -m engine.replay JOBS.json OUT.json      (batch, used by run.py)
       <...> -m engine.replay --show REPLAY.json                                       (one recorded violation)
"""
import importlib
import io
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

from engine import conc


def setup():
    import warnings

    warnings.simplefilter("ignore")
    import numpy, pandas  # noqa

    orig = conc.patch_random()
    import multiprocessing

    multiprocessing._real_Pool = multiprocessing.Pool
    multiprocessing.Pool = conc.PoolStandIn
    import datetime as dt
    import types
    import tqdm, openpyxl, pandas.io.excel, pandas.io.json, json as _j, calendar, matplotlib  # noqa
    try:
        import plotly.express, plotly.graph_objects, matplotlib.pyplot  # noqa
    except ImportError:
        pass

    real = dt.datetime

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

        def __subclasscheck__(cls, c):
            return issubclass(c, real)

        def __call__(cls, *a, **k):
            return real(*a, **k)

    class FakeDT(real, metaclass=Meta):
        """what the code under test sees as datetime.datetime: the clock may be set"""

        _now = None

        @classmethod
        def today(cls):
            return cls._now if cls._now is not None else real.today()

        @classmethod
        def now(cls, tz=None):
            return cls._now if cls._now is not None else real.now(tz)

        fromisoformat = real.fromisoformat
        strptime = real.strptime
        combine = real.combine
        fromordinal = real.fromordinal

    class FakeDate(dt.date, metaclass=type("M", (type,), {"__instancecheck__": lambda c, x: isinstance(x, dt.date), "__subclasscheck__": lambda c, k: issubclass(k, dt.date), "__call__": lambda c, *a, **k: dt.date(*a, **k)})):
        @classmethod
        def today(cls):
            return FakeDT._now.date() if FakeDT._now is not None else dt.date.today()

        fromisoformat = dt.date.fromisoformat
        fromordinal = dt.date.fromordinal

    shim = types.ModuleType("datetime")
    shim.__dict__.update({k: v for k, v in dt.__dict__.items() if not k.startswith("__")})
    shim.datetime, shim.date = FakeDT, FakeDate
    sys.modules["datetime"] = shim
    sys.path.insert(0, REPO)
    return orig, FakeDT, real


def run_job(job, env):
    orig, FakeDT, real = env
    m = importlib.import_module("checks." + job["property"])
    import ramp.core.core  # noqa
    hs = {x["name"]: x for x in m.HARNESSES}
    opts = hs[job["harness"]]
    conc.FEED.load(job.get("draws", []), job.get("extend"))
    conc.PoolStandIn.order = [n[1] for n in job.get("notes", []) if n[0] == "completion"]
    h = conc.ConcH(job, opts)
    ins = job.get("inputs", {})
    if "__today__" in ins:
        d = real.fromordinal(int(ins["__today__"]))
        mi = int(ins.get("__now__", 0))
        FakeDT._now = real(d.year, d.month, d.day, mi // 60, mi % 60)
    else:
        FakeDT._now = None
    import builtins

    oinput = builtins.input
    builtins.input = lambda *a: str(h.lines.pop(0)) if h.lines else (_ for _ in ()).throw(conc.Diverged("input()"))
    if opts.get("real_random"):
        conc.FEED.on = False
    res = {"status": "ok", "failures": [], "obs": [], "detail": ""}
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    import random
    random.seed(20240229) if not conc.FEED.on else None
    import warnings as _w
    cwd = os.getcwd()
    sl = sys.getrecursionlimit()
    cm = _w.catch_warnings()
    cm.__enter__()
    _w.simplefilter("ignore")
    try:
        opts["fn"](h)
        if conc.FEED.on and job.get("extend") is None and conc.FEED.i != len(conc.FEED.q):
            res["status"] = "diverged"
            res["detail"] = "%d draws used of %d" % (conc.FEED.i, len(conc.FEED.q))
    except conc.Diverged as x:
        res["status"] = "diverged"
        res["detail"] = str(x)
    except conc.AssumeFailed as x:
        res["status"] = "assume"
        res["detail"] = str(x)
    except conc.Skipped as x:
        res["status"] = "skipped"
        res["detail"] = str(x)
    except (Exception, SystemExit) as x:
        res["status"] = "exc"
        res["exc"] = type(x).__name__
        res["detail"] = traceback.format_exc()[-1500:]
    finally:
        cm.__exit__(None, None, None)
        sys.setrecursionlimit(sl)
        conc.FEED.on = False
        sys.stdout, sys.stderr = so, se
        builtins.input = oinput
        os.chdir(cwd)
        FakeDT._now = None
        cl = getattr(h, "_cleanup", None)
        if cl:
            cl()
    res["failures"] = h.failures
    res["obs"] = [[n, conc.plain(v)] for n, v in h.observations]
    res["checked"] = sum(h.checked.values())
    return res


def main():
    if sys.argv[1] == "--show":
        job = json.load(open(sys.argv[2]))
        r = run_job(job, setup())
        print(json.dumps({"property": job["property"], "harness": job["harness"], "inputs": job["inputs"], "result": r}, indent=1, default=str))
        bad = bool(r["failures"]) or r["status"] == "exc"
        print("REPRODUCED" if bad else "NOT REPRODUCED")
        return 1 if bad else 0
    jobs = json.load(open(sys.argv[1]))
    env = setup()
    out = []
    t0 = time.time()
    lim = float(os.environ.get("VERIF_REPLAY_S", "300"))
    for j in jobs:
        if time.time() - t0 > lim:
            out.append({"status": "notrun", "failures": [], "obs": []})
            continue
        out.append(run_job(j, env))
    with open(sys.argv[2], "w") as f:
        json.dump(out, f, default=str)
    return 0


if __name__ == "__main__":
    sys.exit(main())
