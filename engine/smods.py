"""Environment stubs for symbolic runs: randomness, math, warnings, progress bars, process pool, dates."""
import copy as _copy
import datetime as _dt
import math as _math
import re
import types as _types

from . import expr as X
from . import sym as S
from . import snp
from .sym import SNum, SBool, Unsupported
from .expr import I, R

ZERO, ONE = X.const(0), X.const(1)


def br(n):
    return S.E.branch(n)


# ---------------------------------------------------------------- random
class Draw(object):
    __slots__ = ("kind", "args", "node", "state")

    def __init__(self, kind, args, node, state):
        self.kind, self.args, self.node, self.state = kind, args, node, state


class Rng(object):
    """Non-deterministic generator.  Each draw is a fresh variable constrained only by the documented range of
    the function.  With `stateful` the value is a function of (generator state, request), so that two runs that
    start from the same seed and make the same requests see the same values."""

    def __init__(self, name="r", stateful=False):
        self.name = name
        self.stateful = stateful
        self.state = "init"
        self.count = 0
        self.trace = S.E.draws
        self.memo = {}
        self.seeds = []

    def _fresh(self, kind, args, sort):
        key = None
        if self.stateful:
            key = (self.state, self.count, kind)
            ids = tuple(getattr(a, "id", a) for a in args)
            same = self.memo.setdefault(key, [])
            self.count += 1
            for i, _, n in same:
                if i == ids:
                    return n, True
        n = S.E.fresh(self.name + "_" + kind, sort)
        if key is not None:
            for i, old, m in same:
                # a function: equal requests have equal values
                eqs = [X.eq(x, y) if hasattr(x, "sort") else (X.TRUE if x == y else X.FALSE) for x, y in zip(args, old)]
                c = X.and_(*eqs)
                if c is not X.FALSE:
                    S.E.axiom(X.implies(c, X.eq(n, m)))
            same.append((ids, args, n))
        return n, False

    def _rec(self, kind, args, n):
        if S.E.draw_limit is not None and sum(1 for d in self.trace if d.kind not in ("seed", "np_seed")) >= S.E.draw_limit:
            raise S.TooManyDraws()
        self.trace.append(Draw(kind, args, n, self.state))
        return n

    def seed(self, a=None, version=2):
        n = None if a is None else S.node_of(a)
        key = "none" if a is None else (n.id if n is not None else repr(a))
        self.seeds.append(a)
        if a is None:
            self.state = "entropy%d" % len(self.seeds)
        else:
            self.state = "seed:%s" % key
        self.count = 0
        self.trace.append(Draw("seed", (n,), None, self.state))

    def getstate(self):
        return ("state", self.state, self.count)

    def setstate(self, st):
        self.state, self.count = st[1], st[2]

    def random(self):
        n, old = self._fresh("random", (), R)
        if not old:
            S.E.axiom(X.le(ZERO, n))
            S.E.axiom(X.lt(n, ONE))
        return SNum(self._rec("random", (), n), "f")

    def uniform(self, a, b):
        na, nb = S.node_of(a), S.node_of(b)
        if na is None or nb is None:
            raise TypeError("unsupported operand type(s) for uniform")
        if na is nb:
            n, old = self._fresh("uniform", (na, nb), R)
            if not old:
                S.E.axiom(X.eq(n, na))
            self._rec("uniform", (na, nb), n)
            return SNum(na, "f")
        if br(X.le(na, nb)):
            lo, hi = na, nb
        else:
            lo, hi = nb, na
        n, old = self._fresh("uniform", (na, nb), R)
        if not old:
            S.E.axiom(X.le(lo, n))
            if na is ZERO and lo is na:
                # 0 + b*random() never reaches b
                S.E.axiom(X.or_(X.lt(n, hi), X.le(hi, ZERO)))
            S.E.axiom(X.le(n, hi))
        return SNum(self._rec("uniform", (na, nb), n), "f")

    def _normal(self, kind, mu, sigma):
        nm, ns = S.node_of(mu), S.node_of(sigma)
        n, old = self._fresh(kind, (nm, ns), R)
        if not old:
            if X.is_const(ns):
                w = X.scale(ns, 13)
                if X.const_val(ns) < 0:
                    w = X.neg(w)
            elif br(X.le(ZERO, ns)):
                w = X.scale(ns, 13)
            else:
                w = X.scale(ns, -13)
            d = X.sub(n, nm)
            if not X.nonlinear(d) and not X.nonlinear(w):
                S.E.axiom(X.le(d, w))
                S.E.axiom(X.le(X.neg(w), d))
        return SNum(self._rec(kind, (nm, ns), n), "f")

    def gauss(self, mu=0.0, sigma=1.0):
        return self._normal("gauss", mu, sigma)

    def normalvariate(self, mu=0.0, sigma=1.0):
        return self._normal("normalvariate", mu, sigma)

    def randint(self, a, b):
        if S.kind_of(a) == "f" or S.kind_of(b) == "f":
            if not br(X.eq(X.floor(S.node_of(a)), S.node_of(a))) or not br(X.eq(X.floor(S.node_of(b)), S.node_of(b))):
                raise ValueError("non-integer arg 1 for randrange()")
        return self._ri("randint", a, b)

    def _ri(self, kind, a, b):
        na, nb = S.node_of(a), S.node_of(b)
        if not br(X.le(na, nb)):
            raise ValueError("empty range for randrange()")
        n, old = self._fresh(kind, (na, nb), I)
        if not old:
            S.E.axiom(X.le(na, n))
            S.E.axiom(X.le(n, nb))
        self._rec(kind, (na, nb), n)
        if na is nb:
            return S.mkint(na)
        return S.mkint(n)

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if step != 1:
            raise Unsupported("randrange step")
        if not br(X.lt(S.node_of(start), S.node_of(stop))):
            raise ValueError("empty range for randrange()")
        return self._ri("randrange", start, stop - 1)

    def getrandbits(self, k):
        n, old = self._fresh("getrandbits", (k,), I)
        if not old:
            S.E.axiom(X.le(ZERO, n))
            S.E.axiom(X.lt(n, X.const(2 ** k)))
        return SNum(self._rec("getrandbits", (X.const(k),), n), "i")

    def _index(self, kind, ln):
        n, old = self._fresh(kind, (ln,), I)
        if not old:
            S.E.axiom(X.le(ZERO, n))
            S.E.axiom(X.lt(n, ln))
        self._rec(kind, (ln,), n)
        return n

    def choice(self, seq):
        ln = S.node_of(slen(seq))
        if br(X.le(ln, ZERO)):
            raise IndexError("Cannot choose from an empty sequence")
        n = self._index("choice", ln)
        return seq[S.mkint(n)] if not isinstance(seq, (tuple, range)) else seq[S.E.concretize(n)]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        ln = S.node_of(slen(population))
        out = snp.PList()
        for _ in range(k):
            n = self._index("choices", ln)
            out.append(population[S.mkint(n)])
        return out

    def shuffle(self, x):
        n = len(x)
        items = list(x)
        out = []
        while items:
            k = S.E.concretize(self._index("shuffle", X.const(len(items))))
            out.append(items.pop(k))
        for k in range(n):
            x[k] = out[k]

    def sample(self, pop, k):
        items = list(pop)
        out = snp.PList()
        for _ in range(k):
            out.append(items.pop(S.E.concretize(self._index("sample", X.const(len(items))))))
        return out

    def triangular(self, low=0.0, high=1.0, mode=None):
        n, old = self._fresh("triangular", (), R)
        if not old:
            S.E.axiom(X.le(S.node_of(low), n))
            S.E.axiom(X.le(n, S.node_of(high)))
        return SNum(self._rec("triangular", (), n), "f")


RNG_FUNCS = "seed getstate setstate random uniform gauss normalvariate randint randrange getrandbits choice choices shuffle sample triangular".split()


def make_random(rng):
    m = _types.ModuleType("random")
    for f in RNG_FUNCS:
        # late binding: a harness may swap the active generator
        setattr(m, f, (lambda f: lambda *a, **k: getattr(m._rng, f)(*a, **k))(f))
    m._rng = rng

    made = []

    def Random(x=None):
        r = Rng("own", rng.stateful)
        r.trace = rng.trace
        r.memo = rng.memo
        made.append(r)
        r.state = "entropy own%d" % len(made)
        if x is not None:
            r.seed(x)
        return r

    def SystemRandom(x=None):
        # the entropy of the operating system: a seed has no effect
        r = Random()
        r.seed = lambda *a, **k: None
        return r

    m.Random = Random
    m.SystemRandom = SystemRandom

    def _missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("random.%s" % name)

    m.__getattr__ = _missing
    return m


class NpGen(object):
    """numpy.random (its own state, which random.seed does not touch) and the generators made from it"""

    def __init__(self, rng):
        self._rng = rng

    def _many(self, size, one):
        if size is None:
            return one()
        dims = [size] if not isinstance(size, (tuple, list)) else list(size)
        dims = [S.E.concretize(S.node_of(d)) for d in dims]
        n = 1
        for d in dims:
            n *= d
        a = snp.asarray([one() for _ in range(n)])
        return a if len(dims) == 1 else a.reshape(tuple(dims))

    def _draw(self, kind, f):
        r = self._rng
        n = len(r.trace)
        v = f(r)
        for d in r.trace[n:]:
            d.kind = kind
        return v

    def seed(self, seed=None):
        self._draw("np_seed", lambda r: r.seed(seed))

    def random(self, size=None):
        return self._many(size, lambda: self._draw("np_random", lambda r: r.random()))

    random_sample = ranf = sample = random

    def rand(self, *dims):
        return self.random(dims or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many(size, lambda: self._draw("np_uniform", lambda r: r.uniform(low, high)))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if br(X.lt(S.node_of(scale), ZERO)):
            raise ValueError("scale < 0")
        return self._many(size, lambda: self._draw("np_normal", lambda r: r.gauss(loc, scale)))

    def randn(self, *dims):
        return self.normal(size=dims or None)

    standard_normal = lambda self, size=None: self.normal(size=size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if not br(X.lt(S.node_of(low), S.node_of(high))):
            raise ValueError("low >= high")
        return self._many(size, lambda: self._draw("np_randint", lambda r: r.randint(low, high - 1)))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + 1 if endpoint else high, size)

    def choice(self, a, size=None, replace=True, p=None):
        if not replace:
            raise Unsupported("numpy.random.choice without replacement")
        if S.kind_of(a) in ("i", "b"):
            return self.randint(0, a, size)
        ln = slen(a)
        return self._many(size, lambda: a[self.randint(0, ln)])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("numpy.random.%s" % name)


def make_np_random(rng):
    g = Rng("npr", rng.stateful)
    g.trace = rng.trace
    main = NpGen(g)
    m = _types.ModuleType("numpy.random")
    for f in "seed random random_sample ranf sample rand uniform normal randn standard_normal randint choice".split():
        setattr(m, f, getattr(main, f))
    m._rng = g
    made = []

    def default_rng(seed=None):
        r = Rng("npg", rng.stateful)
        r.trace, r.memo = rng.trace, g.memo
        made.append(r)
        r.state = "entropy np%d" % len(made)
        if seed is not None:
            x = NpGen(r)
            x.seed(seed)
        return NpGen(r)

    m.default_rng = default_rng
    m.RandomState = default_rng

    def _missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("numpy.random.%s" % name)

    m.__getattr__ = _missing
    return m


# ---------------------------------------------------------------- builtins
def slen(x):
    f = getattr(x, "_symlen", None)
    if f is not None:
        return f()
    return len(x)


def srange(*a):
    a = [x._scalar() if isinstance(x, snp.SArr) and x.nd == 0 else x for x in a]
    for x in a:
        if S.kind_of(x) not in ("i", "b"):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    if any(isinstance(x, (SNum, SBool)) for x in a):
        ns = [S.node_of(x) for x in a]
        if all(X.is_const(n) for n in ns):
            return range(*[X.const_val(n) for n in ns])
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if isinstance(step, SNum):
            step = S.E.concretize(step.n)
        return snp.SRange(start, stop, step)
    return range(*a)


class _TM(type):
    def __instancecheck__(cls, x):
        return cls._chk(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real) if isinstance(c, type) and c is not cls else True

    def __call__(cls, *a, **k):
        return cls._mk(*a, **k)

    def __getattr__(cls, name):
        return getattr(type.__getattribute__(cls, "_real"), name)

    def __eq__(cls, o):
        return o is cls or o is type.__getattribute__(cls, "_real")

    def __hash__(cls):
        return hash(type.__getattribute__(cls, "_real"))

    def __or__(cls, o):
        import typing

        return typing.Any

    __ror__ = __or__


def _mk(name, real, chk, mk):
    return _TM(name, (object,), {"_real": real, "_chk": staticmethod(chk), "_mk": staticmethod(mk)})


def _int(x=0, *a, **k):
    if isinstance(x, (SNum, SBool)):
        return S.trunc(x)
    if isinstance(x, snp.SArr):
        return S.trunc(x._scalar())
    if isinstance(x, str):
        m = _marker(x)
        if m is not None:
            return S.trunc(m)
    return int(x, *a, **k)


def _float(x=0.0):
    if isinstance(x, snp.SArr):
        x = x._scalar()
    if isinstance(x, SBool):
        x = x._num()
    if isinstance(x, SNum):
        return S.mknum(x.n, "f") if not x.np else SNum(x.n, "f")
    if isinstance(x, str):
        m = _marker(x)
        if m is not None:
            return S.mknum(m.n, "f")
    return float(x)


def _marker(s):
    s = s.strip()
    if len(s) > 2 and s[0] == "\u27e6" and s[-1] == "\u27e7" and s[1:-1].isdigit():
        n = S._texts[int(s[1:-1])]
        return SNum(n, "i" if n.sort == I else "f")
    return None


INT = _mk("int", int, lambda x: isinstance(x, int) or (isinstance(x, SNum) and x.k == "i" and not x.np) or (isinstance(x, SBool) and not x.np), _int)
FLOAT = _mk("float", float, lambda x: isinstance(x, float) or (isinstance(x, SNum) and x.k == "f"), _float)
BOOL = _mk("bool", bool, lambda x: isinstance(x, bool) or (isinstance(x, SBool) and not x.np), lambda x=False: bool(x))
LIST = _mk("list", list, lambda x: isinstance(x, list), lambda x=(): _mklist(x))


class SymSet(object):
    """a set with symbolic numbers: members are told apart by their values"""

    __hash__ = None

    def __init__(self, xs=()):
        self.xs = []
        self.update(xs)

    def add(self, x):
        if x not in self:
            self.xs.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __contains__(self, x):
        return any(x is y or bool(x == y) for y in self.xs)

    def __len__(self):
        return len(self.xs)

    def __bool__(self):
        return bool(self.xs)

    def __iter__(self):
        return iter(list(self.xs))

    def copy(self):
        r = SymSet()
        r.xs = list(self.xs)
        return r

    def union(self, *its):
        r = self.copy()
        r.update(*its)
        return r

    def intersection(self, *its):
        r = SymSet()
        ss = [i if isinstance(i, (set, frozenset, SymSet)) else SymSet(i) for i in its]
        r.xs = [x for x in self.xs if all(_within(x, s) for s in ss)]
        return r

    def difference(self, *its):
        r = SymSet()
        ss = [i if isinstance(i, (set, frozenset, SymSet)) else SymSet(i) for i in its]
        r.xs = [x for x in self.xs if not any(_within(x, s) for s in ss)]
        return r

    def symmetric_difference(self, o):
        return self.difference(o).union(SymSet(o).difference(self))

    def issubset(self, o):
        return all(_within(x, o) for x in self.xs)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def discard(self, x):
        self.xs = [y for y in self.xs if not (x is y or bool(x == y))]

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        if not self.xs:
            raise KeyError("pop from an empty set")
        return self.xs.pop(0)

    def clear(self):
        self.xs = []

    def __or__(self, o):
        return self.union(o)

    def __ror__(self, o):
        return SymSet(o).union(self)

    def __and__(self, o):
        return self.intersection(o)

    def __rand__(self, o):
        return SymSet(o).intersection(self)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        return isinstance(o, (set, frozenset, SymSet)) and len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o


def _within(x, s):
    """membership in a set of either kind"""
    return x in s if isinstance(s, SymSet) else any(x is y or bool(x == y) for y in s)


def mkset(x=()):
    xs = x if isinstance(x, (set, frozenset, SymSet)) else list(x)
    return SymSet(xs) if any(S.is_sym(v) for v in xs) else set(xs)


SET = _mk("set", set, lambda x: isinstance(x, (set, SymSet)), mkset)


def _mklist(x):
    p = snp.PList()
    p.extend(x)
    return p


def pl(*parts):
    """list display; parts are ('e', v) or ('s', iterable)"""
    p = snp.PList()
    for k, v in parts:
        if k == "e":
            p.append(v)
        else:
            p.extend(v)
    return p


def lcomp(f, it):
    s = snp.seg_of(it)
    p = snp.PList()
    if s is not None:
        # element function must be pure: evaluated lazily per position
        p._segs = snp.LazyMap(f, s).segs()
        return p
    for x in it:
        list.append(p, f(x))
    return p


def lcat(its):
    p = snp.PList()
    for x in its:
        p.extend(x)
    return p


def make_itertools():
    import itertools
    import types

    m = types.ModuleType("itertools")
    m.__dict__.update({k: v for k, v in itertools.__dict__.items() if not k.startswith("__")})

    class chain(object):
        def __new__(cls, *its):
            its = list(its)
            if any(snp.seg_of(x) is not None for x in its):
                # a list of symbolic length (not consumed step by step)
                return lcat(its)
            return itertools.chain(*its)

        @classmethod
        def from_iterable(cls, its):
            return cls(*its)

    m.chain = chain
    return m


def _sorted(x, **k):
    return _mklist(sorted(x, **k))


def _abs(x):
    return S.sabs(x) if isinstance(x, (SNum, SBool)) else abs(x)


def _isnum_str(x):
    return x


# ---------------------------------------------------------------- math
def make_math():
    m = _types.ModuleType("math")

    def u(f):
        def g(x):
            if isinstance(x, snp.SArr):
                x = x._scalar()
            if isinstance(x, SBool):
                x = x._num()
            if isinstance(x, SNum):
                return f(x)
            return getattr(_math, g.__name__)(x)

        return g

    def reg(name, f):
        g = u(f)
        g.__name__ = name
        setattr(m, name, g)

    reg("ceil", lambda x: S.mkint(X.neg(X.floor(X.neg(x.n)))))
    reg("floor", lambda x: S.mkint(X.floor(x.n)))
    reg("trunc", S.trunc)
    reg("fabs", lambda x: _float(S.sabs(x)))
    reg("isnan", lambda x: False)
    reg("isinf", lambda x: False)
    reg("isfinite", lambda x: True)
    m.pi, m.e, m.inf, m.nan, m.tau = _math.pi, _math.e, _math.inf, _math.nan, _math.tau

    def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
        if not S.any_sym((a, b)):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = S.node_of(S.sabs(a - b))
        return br(X.le(d, S.node_of(S.pymax(S.pymax(S.sabs(a), S.sabs(b)) * rel_tol, abs_tol))))

    m.isclose = isclose
    m.fsum = lambda xs: S.pysum(xs, 0.0)

    def other(name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(_math, name)

        def g(*a, **k):
            if S.any_sym(a):
                raise Unsupported("math.%s" % name)
            return f(*a, **k)

        return g

    m.__getattr__ = other
    return m


# ---------------------------------------------------------------- warnings, tqdm, multiprocessing
def make_warnings():
    import warnings as _w

    m = _types.ModuleType("warnings")
    log = []

    def warn(message, category=None, stacklevel=1, *a, **k):
        if isinstance(message, Warning):
            category = type(message)
        log.append(category or UserWarning)

    class catch_warnings(object):
        def __init__(self, record=False, **k):
            self.record = record

        def __enter__(self):
            return []

        def __exit__(self, *a):
            return False

    m.warn = warn
    m.log = log
    m.catch_warnings = catch_warnings
    m.simplefilter = m.filterwarnings = m.resetwarnings = lambda *a, **k: None
    return m


class _Tqdm(object):
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, n=1):
        pass

    def close(self):
        pass

    set_description = set_postfix = close


def make_tqdm():
    m = _types.ModuleType("tqdm")
    m.tqdm = _Tqdm
    m.trange = lambda *a, **k: _Tqdm(srange(*a))
    m.auto = m
    return m


class Pool(object):
    """Process pool: arguments and results are copied (pickled) per chunk, results of the unordered iterator
    arrive in a solver-chosen completion order; every worker has its own random generator state."""

    rng_mod = None
    order = True  # explore completion orders

    def __init__(self, processes=None, initializer=None, initargs=(), **k):
        if initializer is not None:
            self.init = (initializer, initargs)
        else:
            self.init = None
        if processes is not None:
            n = S.node_of(processes)
            if br(X.lt(n, ONE)):
                raise ValueError("Number of processes must be at least 1")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def _chunks(self, func, it, chunksize, star=False):
        tasks = list(it)
        cs = chunksize if isinstance(chunksize, int) and chunksize else 1
        out = []
        for k in range(0, len(tasks), cs):
            out.append((func, tasks[k:k + cs]))
        return out

    def _run_chunk(self, func, chunk, star, wid=0):
        # pickling: one copy per chunk, objects shared inside it stay shared
        tasks = _copy.deepcopy(chunk)
        rnd = self.rng_mod
        saved = None
        if rnd is not None:
            saved = (rnd._rng.state, rnd._rng.count)
            k = S.E.names["!worker"] = S.E.names.get("!worker", 0) + 1
            rnd._rng.state, rnd._rng.count = "worker:%d" % k, 0
        if self.init:
            self.init[0](*self.init[1])
        res = []
        for t in tasks:
            res.append(func(*t) if star else func(t))
        # the results of a chunk are sent together once all its tasks are done
        res = _copy.deepcopy(res)
        if saved:
            rnd._rng.state, rnd._rng.count = saved
        return res

    def imap_unordered(self, func, it, chunksize=1):
        chunks = self._chunks(func, it, chunksize)
        done = [self._run_chunk(f, c, False) for f, c in chunks]
        # the chunks may be completed in any order
        heads = [list(d) for d in done if d]
        while heads:
            k = S.E.choose(len(heads), "completion") if (self.order and len(heads) > 1) else 0
            S.E.notes.append(("completion", k))
            for x in heads.pop(k):
                yield x

    def imap(self, func, it, chunksize=1):
        for f, c in self._chunks(func, it, chunksize):
            for r in self._run_chunk(f, c, False):
                yield r

    def map(self, func, it, chunksize=None):
        return snp.PList(self.imap(func, it, chunksize or 1))

    def starmap(self, func, it, chunksize=None):
        out = snp.PList()
        for f, c in self._chunks(func, it, chunksize or 1):
            out.extend(self._run_chunk(f, c, True))
        return out

    def apply(self, func, args=(), kwds={}):
        return self._run_chunk(lambda *a: func(*a, **kwds), [tuple(args)], True)[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, **k):
        r = self.apply(func, args, kwds)
        if callback:
            callback(r)

        class A(object):
            def get(self, timeout=None):
                return r

            def wait(self, *a):
                pass

            def ready(self):
                return True

        return A()

    map_async = None


def make_mp(random_mod):
    m = _types.ModuleType("multiprocessing")
    P = type("Pool", (Pool,), {"rng_mod": random_mod})
    m.Pool = P

    def cpu_count():
        n = S.E.fresh("cpus", I)
        S.E.axiom(X.le(ONE, n))
        S.E.axiom(X.le(n, X.const(64)))
        return SNum(n, "i")

    m.cpu_count = cpu_count
    m.get_context = lambda *a: m
    m.pool = m
    m.ThreadPool = P
    m.freeze_support = lambda: None

    def current_process():
        return _types.SimpleNamespace(name="MainProcess", pid=1, _identity=())

    m.current_process = current_process
    return m


# ---------------------------------------------------------------- dates
def _ord_of_year(y):
    """ordinal of the day before January 1st of year y (term)"""
    p = X.sub(y, ONE)
    r = X.scale(p, 365)
    r = X.add(r, X.idiv(p, X.const(4)))
    r = X.sub(r, X.idiv(p, X.const(100)))
    return X.add(r, X.idiv(p, X.const(400)))


def _leap(y):
    k = S.E.memo.get(("leap", y.id))
    if k is not None:
        return X.bconst(k)
    m = lambda k: X.eq(X.imod(y, X.const(k)), ZERO)
    return X.and_(m(4), X.or_(X.not_(m(100)), m(400)))


_DBM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def date_text(d):
    return "<date %s %s %s>" % (S.symtext(d.o), S.symtext(d.m), "d" if d.kind == "date" else "t")


def text_date(s, kind=None):
    """the symbolic date behind a text made by date_text, or None"""
    import re

    m = re.match("^\\s*<date (\\S+) (\\S+) (\\w)>\\s*$", s)
    if not m:
        return None
    o, mi = _marker(m.group(1)), _marker(m.group(2))
    k = kind or ("date" if m.group(3) == "d" else "datetime")
    return SDate(o.n, ZERO if k == "date" else mi.n, k)


class SDate(object):
    """symbolic date (minute resolution): o = proleptic ordinal, m = minute of the day"""

    def __init__(self, o, m=ZERO, kind="datetime", year=None, month=None):
        self.o, self.m, self.kind, self._y, self._mo = o, m, kind, year, month

    @property
    def days_in_month(self):
        if self._mo is None:
            raise Unsupported("days in an unknown month")
        return _dim(self._y, self._mo)

    daysinmonth = days_in_month

    def _t(self):
        return X.add(X.scale(self.o, 1440), self.m)

    def weekday(self):
        # the weekday of the symbolic part of the ordinal is settled once per path
        n = self.o
        if X.is_const(n):
            return (X.const_val(n) + 6) % 7
        c = n.args[0]
        base = X._poly(0, dict(n.args[1]))
        key = ("weekday", base.id)
        w = S.E.memo.get(key)
        if w is None:
            w = S.E.memo[key] = S.E.concretize(X.imod(base, X.const(7)))
        return (w + c + 6) % 7

    def isoweekday(self):
        return self.weekday() + 1

    @property
    def dayofweek(self):
        return self.weekday()

    day_of_week = dayofweek

    def toordinal(self):
        return S.mkint(self.o)

    @property
    def year(self):
        if self._y is None:
            self._y = S.E.memo.get(("year", self.o.id))
        if self._y is None:
            y = S.E.fresh("year", I)
            S.E.axiom(X.lt(_ord_of_year(y), self.o))
            S.E.axiom(X.le(self.o, _ord_of_year(X.add(y, ONE))))
            self._y = y
        v = S.mkint(self._y)
        return _Part(v, self, "y") if isinstance(v, SNum) else v

    @property
    def month(self):
        if self._mo is not None:
            return self._mo
        return _Part(SNum(X.uf("month", (self.o,), I), "i"), self, "m")

    @property
    def day(self):
        return _Part(SNum(X.uf("day", (self.o,), I), "i"), self, "d")

    @property
    def hour(self):
        return S.mkint(X.idiv(self.m, X.const(60)))

    @property
    def minute(self):
        return S.mkint(X.imod(self.m, X.const(60)))

    second = microsecond = nanosecond = 0
    tzinfo = tz = None

    @property
    def dayofyear(self):
        y = S.node_of(self.year)
        return S.mkint(X.sub(self.o, _ord_of_year(y)))

    def date(self):
        return SDate(self.o, ZERO, "date", self._y, self._mo)

    def normalize(self):
        return SDate(self.o, ZERO, self.kind, self._y, self._mo)

    def to_pydatetime(self):
        return self

    def replace(self, **k):
        if set(k) <= {"hour", "minute", "second", "microsecond"}:
            h = S.node_of(k.get("hour", self.hour))
            mi = S.node_of(k.get("minute", self.minute))
            return SDate(self.o, X.add(X.scale(h, 60), mi), self.kind, self._y, self._mo)
        if set(k) <= {"year", "month", "day"} and ("month" in k or self._mo is not None) and "day" in k:
            y = k.get("year", S.mkint(S.node_of(self.year)))
            return mkdate(self.kind, y, k.get("month", self._mo), k["day"])
        raise Unsupported("date.replace")

    def isoformat(self, *a):
        return str(self)

    def _shift(self, mins):
        n = X.add(self.m, mins)
        if X.is_const(n) and 0 <= X.const_val(n) < 1440:
            return SDate(self.o, n, self.kind)
        # split whole days off the constant part
        q = X.idiv(n, X.const(1440))
        if not X.is_const(q):
            c = n.args[0]
            items = {m: k for m, k in n.args[1]}
            if all(k % 1440 == 0 for k in items.values()):
                q = X.add(X._poly(0, {m: k // 1440 for m, k in items.items()}), X.const(c // 1440))
                return SDate(X.add(self.o, q), X.const(c % 1440), self.kind)
        return SDate(X.add(self.o, q), X.sub(n, X.scale(q, 1440)), self.kind)

    def __add__(self, d):
        t = td_minutes(d)
        if t is None:
            return NotImplemented
        r = self._shift(t)
        if self.kind == "date":
            r.m = ZERO
        return r

    __radd__ = __add__

    def __sub__(self, d):
        if isinstance(d, (SDate, _dt.date)):
            return STd(X.sub(self._t(), as_sdate(d)._t()))
        t = td_minutes(d)
        if t is None:
            return NotImplemented
        return self._shift(X.neg(t))

    def __rsub__(self, d):
        if isinstance(d, _dt.date):
            return STd(X.sub(as_sdate(d)._t(), self._t()))
        return NotImplemented

    def _c(self, o, f):
        o = as_sdate(o)
        if o is None:
            return NotImplemented
        return br(f(self._t(), o._t()))

    def __lt__(self, o):
        return self._c(o, X.lt)

    def __le__(self, o):
        return self._c(o, X.le)

    def __gt__(self, o):
        return self._c(o, lambda a, b: X.lt(b, a))

    def __ge__(self, o):
        return self._c(o, lambda a, b: X.le(b, a))

    def __eq__(self, o):
        r = self._c(o, X.eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7

    def __repr__(self):
        return date_text(self)

    def __format__(self, spec):
        return self.strftime(spec) if spec else repr(self)

    def strftime(self, f):
        if f == "%Y-%m-%d":
            return date_text(self.date())
        if f == "%Y":
            return str(self.year)
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class _Part(SNum):
    """component of a symbolic date that remembers where it comes from"""

    __slots__ = ("src", "what")

    def __init__(self, num, src, what):
        SNum.__init__(self, num.n, "i", False)
        self.src, self.what = src, what


class STd(object):
    """symbolic time difference in minutes"""

    def __init__(self, t):
        self.t = t

    @property
    def days(self):
        return S.mkint(X.idiv(self.t, X.const(1440)))

    @property
    def seconds(self):
        return S.mkint(X.scale(X.imod(self.t, X.const(1440)), 60))

    def total_seconds(self):
        return S.mknum(X.scale(self.t, 60), "f")

    def __add__(self, o):
        t = td_minutes(o)
        if t is None:
            return NotImplemented
        return STd(X.add(self.t, t))

    __radd__ = __add__

    def __sub__(self, o):
        return STd(X.sub(self.t, td_minutes(o)))

    def __neg__(self):
        return STd(X.neg(self.t))

    def __mul__(self, k):
        return STd(X.mul(self.t, S.node_of(k)))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return S.mkint(X.idiv(self.t, td_minutes(o)))

    def __truediv__(self, o):
        return S.mknum(X.rdiv(self.t, td_minutes(o)), "f")

    def _c(self, o, f):
        return br(f(self.t, td_minutes(o)))

    def __lt__(self, o):
        return self._c(o, X.lt)

    def __le__(self, o):
        return self._c(o, X.le)

    def __gt__(self, o):
        return self._c(o, lambda a, b: X.lt(b, a))

    def __ge__(self, o):
        return self._c(o, lambda a, b: X.le(b, a))

    def __eq__(self, o):
        return self._c(o, X.eq)

    def __hash__(self):
        return 9


def td_minutes(d):
    if isinstance(d, STd):
        return d.t
    if isinstance(d, _dt.timedelta):
        s = d.total_seconds()
        if s != int(s) or int(s) % 60:
            raise Unsupported("sub-minute time difference")
        return X.const(int(s) // 60)
    return None


def as_sdate(d):
    if isinstance(d, SDate):
        return d
    if isinstance(d, _dt.datetime):
        if d.second or d.microsecond:
            raise Unsupported("sub-minute date")
        return SDate(X.const(d.toordinal()), X.const(d.hour * 60 + d.minute), "datetime")
    if isinstance(d, _dt.date):
        return SDate(X.const(d.toordinal()), ZERO, "date")
    return None


def _dim(y, mo):
    """days of month mo of year y (term), settled once per path"""
    n = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo]
    return n + (1 if mo == 2 and br(_leap(y)) else 0)


def make_calendar():
    import calendar as _c

    m = _types.ModuleType("calendar")
    m.__dict__.update({k: v for k, v in _c.__dict__.items() if not k.startswith("__")})

    def isleap(y):
        return br(_leap(y.n)) if isinstance(y, SNum) else _c.isleap(y)

    def monthrange(y, mo):
        if isinstance(mo, SNum):
            mo = S.E.concretize(mo.n)
        if not isinstance(y, SNum):
            return _c.monthrange(y, mo)
        return (mkdate("date", y, mo, 1).weekday(), _dim(y.n, mo))

    m.isleap, m.monthrange = isleap, monthrange
    return m


def json_text(x, compact=False):
    if isinstance(x, (list, tuple)):
        return "[" + ("," if compact else ", ").join(json_text(v, compact) for v in x) + "]"
    if isinstance(x, SNum):
        return S.symtext(x.n)
    if isinstance(x, (SDate, _dt.date)):
        return "1704067200000"
    import json as _j

    try:
        if isinstance(x, float) and x != x:
            return "null" if compact else "NaN"
        return _j.dumps(x)
    except TypeError:
        raise Unsupported("json of %s" % type(x).__name__)


def json_loads(s):
    """json of a text that may hold symbolic numbers"""
    import json as _j

    if not isinstance(s, str):
        raise TypeError("the JSON object must be str, bytes or bytearray, not %s" % type(s).__name__)
    out = _j.loads(re.sub("\u27e6(\\d+)\u27e7", "\"\u27e6\\1\u27e7\"", s))

    def conv(x):
        if isinstance(x, list):
            return snp.PList(conv(v) for v in x)
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if isinstance(x, str) and "\u27e6" in x:
            m = _marker(x)
            if m is None:
                raise Unsupported("json text %r" % x)
            return m
        return x

    return conv(out)


def make_json():
    import json as _j

    m = _types.ModuleType("json")
    m.__dict__.update({k: v for k, v in _j.__dict__.items() if not k.startswith("__")})

    def dumps(x, **k):
        if k:
            raise Unsupported("json.dumps(%s)" % ", ".join(k))
        return json_text(x)

    def loads(s, **k):
        return json_loads(s)

    m.dumps, m.loads = dumps, loads
    return m


def mkdate(kind, y, mo, d, h=0, mi=0):
    parts = (y, mo, d)
    if all(isinstance(p, _Part) for p in parts) and y.src is mo.src is d.src:
        return SDate(y.src.o, X.const(h * 60 + mi), kind, y.src._y)
    if isinstance(y, SNum):
        mo = S.E.concretize(mo.n) if isinstance(mo, SNum) else mo
        d = S.E.concretize(d.n) if isinstance(d, SNum) else d
        h = S.E.concretize(h.n) if isinstance(h, SNum) else h
        mi = S.E.concretize(mi.n) if isinstance(mi, SNum) else mi
        if not 1 <= mo <= 12:
            raise ValueError("month must be in 1..12")
        o = X.add(_ord_of_year(y.n), X.const(_DBM[mo] + d))
        if mo > 2:
            o = X.add(o, X.ite(_leap(y.n), ONE, ZERO))
        dim = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo]
        if d < 1 or d > dim and not (mo == 2 and d == 29 and br(_leap(y.n))):
            raise ValueError("day is out of range for month")
        return SDate(o, X.const(h * 60 + mi), kind, y.n, mo)
    a = [S.E.concretize(p.n) if isinstance(p, SNum) else p for p in (y, mo, d, h, mi)]
    if kind == "date":
        return _dt.date(*a[:3])
    return _dt.datetime(*a)


def _iso_with_marker(s, kind):
    """date texts with a symbolic year, month or day"""
    import re

    if "\u27e6" not in s:
        return None
    m = re.match(r"^(\S+?)-(\S+?)-(\S+?)(?:[ T](\d+):(\d+)(?::(\d+))?)?$", s)
    if not m:
        raise Unsupported("date text %r" % s)
    ps = []
    for g in m.groups()[:3]:
        v = _marker(g)
        ps.append(int(g) if v is None else v)
    return mkdate(kind, ps[0], ps[1], ps[2], int(m.group(4) or 0), int(m.group(5) or 0))


def make_datetime():
    m = _types.ModuleType("datetime")

    def chk(kind):
        def f(x):
            if isinstance(x, SDate):
                return kind == "date" or x.kind != "date"
            return isinstance(x, _dt.date if kind == "date" else _dt.datetime)

        return f

    def fromiso(kind):
        def f(s):
            if not isinstance(s, str):
                raise TypeError("fromisoformat: argument must be str")
            d = text_date(s)
            if d is not None:
                if kind == "date" and d.m is not ZERO:
                    raise ValueError("Invalid isoformat string: %r" % s)
                return SDate(d.o, ZERO if kind == "date" else d.m, kind)
            d = _iso_with_marker(s, kind)
            if d is not None:
                return d
            return (_dt.date if kind == "date" else _dt.datetime).fromisoformat(s)

        return f

    def strptime(s, f):
        d = text_date(s, "datetime")
        if d is None:
            d = _iso_with_marker(s, "datetime")
        return _dt.datetime.strptime(s, f) if d is None else d

    def today(kind):
        def f(*a):
            o = S.E.memo.get("today")
            if o is None:
                o = S.E.fresh("today", I)
                S.E.axiom(X.le(X.const(700000), o))
                S.E.axiom(X.le(o, X.const(800000)))
                mi = S.E.fresh("now_minute", I)
                S.E.axiom(X.le(ZERO, mi))
                S.E.axiom(X.lt(mi, X.const(1440)))
                S.E.memo["today"] = o
                S.E.memo["now"] = mi
                S.E.inputs.append(("__today__", o))
                S.E.inputs.append(("__now__", mi))
            return SDate(o, ZERO if kind == "date" else S.E.memo["now"], kind)

        return f

    class M(type):
        def __instancecheck__(cls, x):
            return cls._chk(x)

        def __call__(cls, *a, **k):
            return cls._mk(*a, **k)

        def __getattr__(cls, n):
            return getattr(type.__getattribute__(cls, "_real"), n)

    def mk(kind):
        def f(year, month=None, day=None, hour=0, minute=0, second=0, *a, **k):
            return mkdate(kind, year, month, day, hour, minute)

        return f

    m.date = M("date", (object,), {"_real": _dt.date, "_chk": staticmethod(chk("date")), "_mk": staticmethod(mk("date")), "fromisoformat": staticmethod(fromiso("date")), "today": staticmethod(today("date"))})
    m.datetime = M("datetime", (object,), {"_real": _dt.datetime, "_chk": staticmethod(chk("datetime")), "_mk": staticmethod(mk("datetime")), "fromisoformat": staticmethod(fromiso("datetime")), "strptime": staticmethod(strptime), "today": staticmethod(today("datetime")), "now": staticmethod(today("datetime")),
                                           "combine": staticmethod(lambda d, t=None: SDate(as_sdate(d).o, ZERO, "datetime") if isinstance(d, SDate) else _dt.datetime.combine(d, t))})

    def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        a = (days, seconds, minutes, hours, weeks)
        if not S.any_sym(a):
            return _dt.timedelta(days=days, seconds=seconds, minutes=minutes, hours=hours, weeks=weeks)
        if S.kind_of(seconds) != "i" or seconds != 0:
            raise Unsupported("timedelta seconds")
        return STd(X.add(X.add(X.scale(S.node_of(days), 1440), S.node_of(minutes)), X.add(X.scale(S.node_of(hours), 60), X.scale(S.node_of(weeks), 10080))))

    m.timedelta = M("timedelta", (object,), {"_real": _dt.timedelta, "_chk": staticmethod(lambda x: isinstance(x, (STd, _dt.timedelta))), "_mk": staticmethod(timedelta)})
    m.time = _dt.time
    m.timezone = _dt.timezone
    m.MINYEAR, m.MAXYEAR = 1, 9999
    return m


from . import attrs as _attrs  # noqa: E402

_attrs.lacking(SDate, "date")
_attrs.lacking(STd, "delta")
