"""Concrete twin of symh.py: runs a harness against the real code with recorded inputs and random draws.
Executed by replay.py under the interpreter that has RAMP's dependencies."""
import copy as _copy
import math as _math
import random as _random
from random import Random as _RealRandom
from fractions import Fraction

TOL = 1e-9


class Stop(BaseException):
    pass


class Diverged(Stop):
    pass


class AssumeFailed(Stop):
    pass


class Skipped(Stop):
    pass


def num(v):
    if isinstance(v, str):
        f = Fraction(v)
        return float(f)
    return v


class TooManyDraws(BaseException):
    pass


class Feed(object):
    """replaces the functions of module random by the recorded draws"""

    def __init__(self):
        self.q = []
        self.i = 0
        self.extend = None
        self.on = False
        self.used = []

    def load(self, draws, extend=None):
        self.q = draws
        self.i = 0
        self.extend = None if extend is None else _RealRandom(extend)
        self.on = True
        self.used = []
        self.limit = None

    def pop(self, kind, real, is_float):
        if self.limit is not None and kind not in ("seed", "np_seed") and len(self.used) >= self.limit:
            raise TooManyDraws()
        if self.i < len(self.q):
            k, v = self.q[self.i]
            self.i += 1
            if k != kind:
                if self.extend is None:
                    raise Diverged("draw %d is %s, expected %s" % (self.i - 1, kind, k))
                self.i = len(self.q)
                return real(self.extend)
            if v is None:
                return None
            v = num(v)
            return float(v) if is_float else int(v)
        if self.extend is not None:
            return real(self.extend)
        raise Diverged("more draws than recorded (%s)" % kind)


FEED = Feed()


def patch_random():
    r = _random
    orig = {n: getattr(r, n) for n in ("random", "uniform", "gauss", "normalvariate", "randint", "randrange", "getrandbits", "choice", "choices", "seed", "triangular", "getstate", "setstate", "shuffle", "sample")}
    F = FEED

    def rec(kind, v, *args):
        F.used.append((kind, v, list(args)))
        return v

    def random():
        return rec("random", F.pop("random", lambda g: g.random(), True)) if F.on else orig["random"]()

    def uniform(a, b):
        if not F.on:
            return orig["uniform"](a, b)
        a + b
        return rec("uniform", F.pop("uniform", lambda g: g.uniform(a, b), True), a, b)

    def gauss(mu=0.0, sigma=1.0):
        if not F.on:
            return orig["gauss"](mu, sigma)
        mu + sigma
        return rec("gauss", F.pop("gauss", lambda g: g.gauss(mu, sigma), True), mu, sigma)

    def normalvariate(mu=0.0, sigma=1.0):
        if not F.on:
            return orig["normalvariate"](mu, sigma)
        return rec("normalvariate", F.pop("normalvariate", lambda g: g.normalvariate(mu, sigma), True), mu, sigma)

    def randint(a, b):
        if not F.on:
            return orig["randint"](a, b)
        if a > b:
            raise ValueError("empty range for randrange() (%s, %s)" % (a, b))
        return rec("randint", F.pop("randint", lambda g: g.randint(a, b), False), a, b)

    def randrange(a, b=None, step=1):
        if not F.on:
            return orig["randrange"](a, b, step)
        lo, hi = (0, a) if b is None else (a, b)
        if lo >= hi:
            raise ValueError("empty range for randrange()")
        return rec("randrange", F.pop("randrange", lambda g: g.randrange(lo, hi), False), lo, hi - 1)

    def getrandbits(k):
        if not F.on:
            return orig["getrandbits"](k)
        return rec("getrandbits", F.pop("getrandbits", lambda g: g.getrandbits(k), False))

    def choice(seq):
        if not F.on:
            return orig["choice"](seq)
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[rec("choice", F.pop("choice", lambda g: g.randrange(len(seq)), False))]

    def choices(population, weights=None, cum_weights=None, k=1):
        if not F.on:
            return orig["choices"](population, weights, cum_weights=cum_weights, k=k)
        return [population[rec("choices", F.pop("choices", lambda g: g.randrange(len(population)), False))] for _ in range(k)]

    def seed(a=None, version=2):
        if not F.on:
            return orig["seed"](a, version)
        F.pop("seed", lambda g: None, False)

    def triangular(low=0.0, high=1.0, mode=None):
        if not F.on:
            return orig["triangular"](low, high, mode)
        return rec("triangular", F.pop("triangular", lambda g: g.triangular(low, high, mode), True))

    def shuffle(x):
        if not F.on:
            return orig["shuffle"](x)
        items, out = list(x), []
        while items:
            out.append(items.pop(F.pop("shuffle", lambda g: g.randrange(len(items)), False)))
        x[:] = out

    def sample(pop, k):
        if not F.on:
            return orig["sample"](pop, k)
        items, out = list(pop), []
        for _ in range(k):
            out.append(items.pop(F.pop("sample", lambda g: g.randrange(len(items)), False)))
        return out

    for f in (random, uniform, gauss, normalvariate, randint, randrange, getrandbits, choice, choices, seed, triangular, shuffle, sample):
        setattr(r, f.__name__, f)
    patch_own(r, (random, uniform, gauss, normalvariate, randint, randrange, getrandbits, choice, choices, seed, triangular, shuffle, sample))
    patch_np_random()
    return orig


def patch_own(r, functions):
    """generators of their own"""

    def make(base, system):
        class Own(base):
            def __init__(self, x=None):
                if FEED.on:
                    if x is not None and not system:
                        r.seed(x)
                else:
                    base.__init__(self, x)

        for f in functions:
            def g(self, *a, _f=f, **k):
                if not FEED.on:
                    return getattr(base, _f.__name__)(self, *a, **k)
                if system and _f.__name__ == "seed":
                    return None
                return _f(*a, **k)

            setattr(Own, f.__name__, g)
        Own.__name__ = base.__name__
        return Own

    r.Random, r.SystemRandom = make(r.Random, False), make(r.SystemRandom, True)


def patch_np_random():
    """numpy.random fed with the recorded draws"""
    import numpy
    from numpy import random as nr

    F = FEED

    class Gen(object):
        def _many(self, size, one):
            if size is None:
                return one()
            a = numpy.empty(size)
            flat = a.reshape(-1)
            for k in range(flat.size):
                flat[k] = one()
            return a

        def _draw(self, kind, make, is_float, *args):
            v = F.pop(kind, make, is_float)
            F.used.append((kind, v, list(args)))
            return v

        def seed(self, seed=None):
            F.pop("np_seed", lambda g: None, False)

        def random(self, size=None):
            return self._many(size, lambda: self._draw("np_random", lambda g: g.random(), True))

        def rand(self, *dims):
            return self.random(dims or None)

        def uniform(self, low=0.0, high=1.0, size=None):
            return self._many(size, lambda: self._draw("np_uniform", lambda g: g.uniform(low, high), True, low, high))

        def normal(self, loc=0.0, scale=1.0, size=None):
            if scale < 0:
                raise ValueError("scale < 0")
            return self._many(size, lambda: self._draw("np_normal", lambda g: g.gauss(loc, scale), True, loc, scale))

        def randn(self, *dims):
            return self.normal(size=dims or None)

        def standard_normal(self, size=None):
            return self.normal(size=size)

        def randint(self, low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            if low >= high:
                raise ValueError("low >= high")
            one = lambda: self._draw("np_randint", lambda g: g.randint(low, high - 1), False, low, high - 1)
            return one() if size is None else self._many(size, one).astype(int)

        def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
            if high is None:
                low, high = 0, low
            return self.randint(low, high + 1 if endpoint else high, size)

        def choice(self, a, size=None, replace=True, p=None):
            k = self.randint(0, a if isinstance(a, (int, numpy.integer)) else len(a), size)
            return k if isinstance(a, (int, numpy.integer)) else numpy.asarray(a)[k]

        random_sample = ranf = sample = random

    gen = Gen()
    for n in "seed random random_sample ranf sample rand uniform normal randn standard_normal randint choice".split():
        def f(*a, _n=n, _o=getattr(nr, n), **k):
            return getattr(gen, _n)(*a, **k) if F.on else _o(*a, **k)

        setattr(nr, n, f)
    for n in ("default_rng", "RandomState"):
        def mk(seed=None, _o=getattr(nr, n)):
            if not F.on:
                return _o(seed)
            if seed is not None:
                gen.seed(seed)
            return gen

        setattr(nr, n, mk)


class PoolStandIn(object):
    """multiprocessing.Pool with the semantics used by the model: chunks are pickled copies, results come back in
    the recorded completion order"""

    order = []
    workers = 0

    def __init__(self, processes=None, initializer=None, initargs=(), **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.init = (initializer, initargs) if initializer else None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def _run(self, func, it, cs, star=False):
        import pickle

        tasks = list(it)
        cs = cs or 1
        done = []
        for k in range(0, len(tasks), cs):
            try:
                f, chunk = pickle.loads(pickle.dumps((func, tasks[k:k + cs])))
            except Exception:
                f, chunk = func, _copy.deepcopy(tasks[k:k + cs])
            if self.init:
                self.init[0](*self.init[1])
            saved = None
            if not FEED.on:
                # the state of the random generator of a worker is its own
                saved = _random.getstate()
                PoolStandIn.workers += 1
                _random.seed(977 * PoolStandIn.workers)
            res = [f(*t) if star else f(t) for t in chunk]
            # the results of a chunk are sent together once all its tasks are done
            done.append(pickle.loads(pickle.dumps(res)))
            if saved is not None:
                _random.setstate(saved)
        return done

    def imap_unordered(self, func, it, chunksize=1):
        heads = [d for d in self._run(func, it, chunksize) if d]
        while heads:
            k = PoolStandIn.order.pop(0) if PoolStandIn.order else 0
            if k >= len(heads):
                k = 0
            for x in heads.pop(k):
                yield x

    def imap(self, func, it, chunksize=1):
        for d in self._run(func, it, chunksize):
            for x in d:
                yield x

    def map(self, func, it, chunksize=None):
        return list(self.imap(func, it, chunksize or 1))

    def starmap(self, func, it, chunksize=None):
        return [x for d in self._run(func, it, chunksize or 1, True) for x in d]

    def apply(self, func, args=(), kwds={}):
        return func(*args, **kwds)

    def apply_async(self, func, args=(), kwds={}, callback=None, **k):
        r = func(*args, **kwds)
        if callback:
            callback(r)

        class A(object):
            def get(self, timeout=None):
                return r

            def wait(self, *a):
                pass

            def ready(self):
                return True

        return A()


def _isf(x):
    return not isinstance(x, (bool, int)) and type(x).__name__ not in ("int64", "int32", "intc", "int8", "int16", "uint8")


def _tol(a, b):
    if _isf(a) or _isf(b):
        return TOL * max(1.0, abs(float(a)), abs(float(b)))
    return 0


class Table(object):
    """a text table as read back: rows, index, columns"""

    def __init__(self, df):
        import pandas

        self.pd = pandas
        self.df = df
        self.df.columns = [str(c) for c in df.columns]
        self.names = list(self.df.columns)
        self.n = len(df)

    def ix(self, k):
        v = self.df.index[k]
        return self.pd.Timestamp(v) if isinstance(v, str) else v

    def at(self, name, k):
        return self.df[name].iloc[k]


class ConcH(object):
    mode = "conc"

    def __init__(self, job, opts):
        import numpy
        import pandas

        self.np, self.pd = numpy, pandas
        self.job = job
        self.opts = opts
        self.inputs = job.get("inputs", {})
        self.failures = []
        self.observations = []
        self.checked = {}
        self.lines = []
        self.g = _RealRandom(job.get("extend") or 0)
        self.names = {}
        self._undo = []

    def patch(self, obj, name, value):
        self._undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def _cleanup(self):
        while self._undo:
            o, n, v = self._undo.pop()
            setattr(o, n, v)

    def text(self, x):
        return str(x)

    def program_folder(self):
        return self.scratch()

    def chdir(self, d):
        from . import scratch

        scratch.chdir(self, d)

    def module(self, name, **attrs):
        import sys
        import types

        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        sys.modules[name] = m

    def argv(self, *xs):
        import sys

        self.patch(sys, "argv", ["ramp"] + [str(x) for x in xs])

    def trials(self, n):
        return range(n if self.job.get("label") else 1)

    def each(self, name, lo, hi):
        return range(lo, hi + 1)

    def disturb(self, k):
        """puts the random generator into another state"""
        if FEED.on:
            return
        _random.seed(1000003 + 7919 * k)
        import numpy

        numpy.random.seed(1000003 + 7919 * k)

    def rng_state(self):
        return _random.getstate()

    def json(self, xs):
        import json

        return json.dumps(xs)

    def workbook(self, sheets):
        import os
        import openpyxl

        path = os.path.join(self.scratch(), "book.xlsx")
        wb = openpyxl.Workbook()
        wb.remove(wb.active)
        for n, rows in sheets.items():
            ws = wb.create_sheet(n)
            for r in rows:
                ws.append(list(r))
        wb.save(path)
        return path

    def folder(self):
        return self.scratch()

    def scratch(self):
        from . import scratch

        return scratch.make(self)

    def frame(self, times, cols):
        return self.pd.DataFrame({c: [float(x) for x in v] for c, v in cols.items()}, index=self.pd.DatetimeIndex(times))

    def capture_plots(self):
        out = []

        class Axes(object):
            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                return lambda *a, **k: None

        def plot(df, *a, **k):
            if a:
                k = dict(k, kind=a[0])
            out.append((k.pop("kind", "line"), df.copy(), k))
            return Axes()

        self.patch(self.pd.DataFrame, "plot", plot)
        return out

    def capture_csv(self):
        """tables written with to_csv are kept away from the path asked for, and read back"""
        out = []
        d = self.scratch()
        pd = self.pd

        def wrap(orig):
            def to_csv(df, path=None, *a, **k):
                import os

                if path is None:
                    return orig(df, path, *a, **k)
                if not a and not k:
                    t = df.to_frame() if not hasattr(df, "columns") else df.copy()
                    out.append((os.fspath(path), Table(t)))
                    return
                f = os.path.join(d, "%d.csv" % len(out))
                orig(df, f, *a, **k)
                out.append((os.fspath(path), Table(pd.read_csv(f, index_col=0, float_precision="round_trip", sep=k.get("sep", ",")))))

            return to_csv

        import pandas.core.generic as g

        self.patch(g.NDFrame, "to_csv", wrap(g.NDFrame.to_csv))
        return out

    def mod(self, name):
        import importlib

        return importlib.import_module(name)

    @property
    def core(self):
        return self.mod("ramp.core.core")

    @property
    def utils(self):
        return self.mod("ramp.core.utils")

    @property
    def draws(self):
        return FEED.used

    def drawn(self, kinds=None, start=0):
        return [d for d in FEED.used[start:] if kinds is None or d[0] in kinds]

    def ndraws(self):
        return len(FEED.used)

    def within_draws(self, n, f):
        """the result of f(), or None if it needs more than n random draws"""
        FEED.limit = len(FEED.used) + n
        try:
            return f()
        except TooManyDraws:
            return None
        finally:
            FEED.limit = None

    def set_input_lines(self, xs):
        self.lines[:] = xs

    def have(self, obj, *names):
        for n in names:
            if not hasattr(obj, n):
                raise Skipped(n)

    def skip(self, why):
        raise Skipped(why)

    def _get(self, name, default):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        if name in self.inputs:
            return num(self.inputs[name])
        if self.job.get("extend") is None:
            raise Diverged("input %s not recorded" % name)
        return default()

    def int(self, name, lo, hi):
        v = int(self._get(name, lambda: self.g.randint(int(lo), int(hi))))
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def real(self, name, lo, hi):
        return float(self._get(name, lambda: self.g.uniform(lo, hi)))

    def pick(self, name, opts):
        return opts[int(self._get("pick:" + name, lambda: self.g.randrange(len(opts))))]

    def flag(self, name):
        return self.pick(name, [False, True])

    def date(self, name, lo, hi, minutes=False, kind="datetime"):
        import datetime

        o = self.int(name, lo, hi)
        m = self.int(name + "_minute", 0, 1439) if minutes else 0
        d = datetime.date.fromordinal(o)
        if kind == "date":
            return d
        return datetime.datetime(d.year, d.month, d.day, m // 60, m % 60)

    def date_in_year(self, name, ylo, yhi, kind="date"):
        import datetime

        y, k = self.int(name + "_year", ylo, yhi), self.int(name + "_day", 1, 366)
        leap = self.pick(name + "_leap", [0, 1])
        b = datetime.date(y, 1, 1).toordinal() - 1
        if datetime.date(y + 1, 1, 1).toordinal() - 1 - b != 365 + leap or k > 365 + leap:
            raise AssumeFailed(name)
        d = datetime.date.fromordinal(b + k)
        return (d if kind == "date" else datetime.datetime(d.year, d.month, d.day)), y, b, 365 + leap

    def iso(self, d):
        return d.isoformat()

    def ordinal(self, d):
        return d.toordinal()

    def minute_of(self, d):
        return d.hour * 60 + d.minute

    def today(self):
        import datetime

        return datetime.datetime.today()

    def le(self, a, b):
        return bool(a <= b + _tol(a, b))

    def lt(self, a, b):
        return bool(a < b + _tol(a, b))

    def clt(self, a, b):
        """clearly less (for antecedents)"""
        return bool(a < b - _tol(a, b))

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def eq(self, a, b):
        return bool(abs(a - b) <= _tol(a, b))

    def exact(self, a, b):
        return bool(num(a) == num(b))

    def ne(self, a, b):
        return bool(a != b)

    def special(self, x):
        """not a number or infinite"""
        return bool(x != x or x in (float("inf"), -float("inf")))

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return bool((not a) or b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def mn(self, a, b):
        return min(a, b)

    def mx(self, a, b):
        return max(a, b)

    def abs(self, a):
        return abs(a)

    def floor(self, a):
        return _math.floor(a)

    def trunc(self, a):
        return int(a)

    def round(self, a):
        return round(a)

    def val(self, x):
        return bool(x)

    def conc(self, x):
        return int(x)

    def assume(self, c):
        if not c:
            raise AssumeFailed("assumption")

    def size(self, a):
        return len(a) if hasattr(a, "__len__") else a.size

    def at(self, a, i):
        return a[i]

    def list(self, xs):
        return list(xs)

    def check(self, label, cond, known=None):
        self.checked[label] = self.checked.get(label, 0) + 1
        if not bool(cond):
            kid = None
            if known is not None and bool(known[1]):
                kid = known[0]
            self.failures.append({"label": label, "known": kid})

    def fail(self, label, why=""):
        self.check(label, False)

    def obs(self, name, v):
        self.observations.append((name, v))


def plain(v):
    if v is None or isinstance(v, (bool, int, str, float)):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "item"):
        try:
            return v.item()
        except Exception:
            pass
    return type(v).__name__


def same(a, b):
    """observation of the model (rationals as text) against the real one"""
    if a is None or b is None:
        return True if a is None else a == b
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and not isinstance(b, str):
        a = float(Fraction(a))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        return abs(float(a) - float(b)) <= 1e-6 * max(1.0, abs(float(b)))
    except (TypeError, ValueError):
        return a == b
