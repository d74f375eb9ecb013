"""Model of pandas frames on a time index, as RAMP's plot objects use them: a concrete index and columns of
python values (symbolic numbers, floats).  Columns of profiles may be arrays of snp.py (not expanded)."""
import builtins as _b
import datetime as _dt
import os

from . import expr as X
from . import sym as S
from . import snp
from . import spd
from .sym import SNum, SBool, Unsupported
from .spd import br

NAN, INF = float("nan"), float("inf")


def isnan(x):
    return isinstance(x, float) and not isinstance(x, SNum) and x != x


def special(x):
    return isinstance(x, float) and not isinstance(x, SNum) and (x != x or x in (INF, -INF))


def div(a, b):
    if isnan(a) or isnan(b):
        return NAN
    if special(a) or special(b):
        raise Unsupported("division of infinite values")
    if bool(b == 0):
        return NAN if bool(a == 0) else INF if bool(a > 0) else -INF
    return a / b


def arith(op, a, b):
    if op == "/":
        return div(a, b)
    if isnan(a) or isnan(b):
        return NAN
    if special(a) or special(b):
        if op == "*" and not special(b) and not isinstance(b, (SNum, SBool)):
            return a * b
        raise Unsupported("arithmetic on infinite values")
    return a + b if op == "+" else a - b if op == "-" else a * b


def _np(x):
    return SNum(x.n, x.k, True) if isinstance(x, SNum) else x


def _round(x, nd):
    if special(x):
        return x
    if isinstance(x, SNum) and x.k == "f":
        return S.sround(x, nd)
    return x if isinstance(x, (SNum, int)) else _b.round(x, nd)


def listed(x):
    """elements of a column"""
    if isinstance(x, (snp.SArr, snp.SMat)):
        if isinstance(x, snp.SMat) or x.nd == 2 or not X.is_const(x.ln):
            raise Unsupported("column contents")
        return list(x)
    return list(x)


class TIndex(spd.SIndex):
    """index of concrete labels (dates, numbers or texts)"""

    def __init__(self, labels, name=None):
        self.labels = list(labels)
        self.name = name

    n = property(lambda self: X.const(len(self.labels)))

    @property
    def dated(self):
        return _b.all(isinstance(x, _dt.datetime) for x in self.labels)

    def __len__(self):
        return len(self.labels)

    @property
    def size(self):
        return len(self.labels)

    @property
    def shape(self):
        return (len(self.labels),)

    @property
    def empty(self):
        return not self.labels

    def __iter__(self):
        return iter(self.labels)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return TIndex(self.labels[i])
        return self.labels[i]

    def to_list(self):
        return snp.PList(self.labels)

    tolist = to_list

    @property
    def values(self):
        return snp.PList(self.labels)

    @property
    def step(self):
        if not self.dated or len(self.labels) < 2:
            return None
        d = [(b - a) for a, b in zip(self.labels, self.labels[1:])]
        return d[0] if _b.all(x == d[0] for x in d) else None

    @property
    def freq(self):
        return self.step

    def equals(self, o):
        if isinstance(o, TIndex):
            return self.labels == o.labels
        if isinstance(o, spd.SIndex):
            if not X.is_const(o.n):
                raise Unsupported("comparison of indexes")
            return len(self.labels) == X.const_val(o.n) and _b.all(bool(a == b) for a, b in zip(self.labels, o))
        return self.labels == list(o)

    def __eq__(self, o):
        if isinstance(o, spd.SIndex) or isinstance(o, (list, tuple)):
            return snp.asarr([a == b for a, b in zip(self.labels, o)])
        raise Unsupported("comparison of an index")

    __hash__ = None

    def copy(self, *a, **k):
        return TIndex(self.labels, self.name)

    def __repr__(self):
        return "<index>"

    def __deepcopy__(self, m):
        return TIndex(self.labels, self.name)


def as_index(x, n=None):
    if x is None:
        return TIndex(range(n))
    if isinstance(x, spd.SIndex):
        return x
    return TIndex(x)


def rows_of(index, r):
    """positions chosen by a label selector; (positions, single)"""
    labels = list(index)
    if isinstance(r, TSeries):
        r = r._list()
    if isinstance(r, (snp.SArr,)):
        r = list(r)
    if isinstance(r, slice):
        if r.step not in (None, 1):
            raise Unsupported("strided selection")
        a, b = (_label(labels, e) for e in (r.start, r.stop))
        return [k for k, l in enumerate(labels) if (a is None or l >= a[0]) and (b is None or l <= b[1])], False
    if isinstance(r, (list, tuple)) or hasattr(r, "__iter__") and not isinstance(r, str):
        r = list(r)
        if r and _b.all(isinstance(x, (bool, SBool)) for x in r):
            if len(r) != len(labels):
                raise IndexError("Boolean index has wrong length")
            return [k for k, x in enumerate(r) if bool(x)], False
        out = []
        for x in r:
            if x not in labels:
                raise KeyError(x)
            out += [k for k, l in enumerate(labels) if l == x]
        return out, False
    a = _label(labels, r)
    ks = [k for k, l in enumerate(labels) if a[0] <= l <= a[1]] if a else []
    if not ks:
        raise KeyError(r)
    return ks, not (isinstance(r, str) and labels and isinstance(labels[0], _dt.datetime) and a[0] != a[1])


def _label(labels, x):
    """first and last instant of a label (partial dates select a range)"""
    if x is None:
        return None
    if labels and isinstance(labels[0], _dt.datetime) and isinstance(x, str):
        for f, d in (("%Y-%m-%d", _dt.timedelta(days=1)), ("%Y-%m-%d %H:%M", _dt.timedelta(minutes=1)), ("%Y-%m-%d %H:%M:%S", _dt.timedelta(0))):
            try:
                t = _dt.datetime.strptime(x, f)
            except ValueError:
                continue
            return t, t + d - _dt.timedelta(microseconds=1) if d else t
        raise Unsupported("label %r" % x)
    if isinstance(x, _dt.date) and not isinstance(x, _dt.datetime):
        x = _dt.datetime(x.year, x.month, x.day)
    return x, x


class TSeries(spd.Series):
    def __init__(self, data, index, name=None):
        self.data, self.index, self.name = data, index, name

    def _list(self):
        return listed(self.data)

    def _new(self, xs, index=None):
        return TSeries(list(xs), self.index if index is None else index, self.name)

    def _other(self, o):
        n = len(self._list())
        if isinstance(o, TSeries):
            if not as_index(self.index).equals(o.index):
                raise Unsupported("alignment of indexes")
            return o._list()
        if isinstance(o, spd.Series) or isinstance(o, (list, tuple, snp.SArr)) and not (isinstance(o, snp.SArr) and o.nd == 0):
            xs = listed(o.data if isinstance(o, spd.Series) else o)
            if len(xs) != n:
                raise ValueError("Lengths must match to compare" if False else "operands could not be broadcast together")
            return xs
        return [o] * n

    def _ar(self, op, o, rev=False):
        xs, ys = self._list(), self._other(o)
        return self._new(arith(op, b, a) if rev else arith(op, a, b) for a, b in zip(xs, ys))

    __add__ = lambda s, o: s._ar("+", o)
    __radd__ = lambda s, o: s._ar("+", o, True)
    __sub__ = lambda s, o: s._ar("-", o)
    __rsub__ = lambda s, o: s._ar("-", o, True)
    __mul__ = lambda s, o: s._ar("*", o)
    __rmul__ = lambda s, o: s._ar("*", o, True)
    __truediv__ = lambda s, o: s._ar("/", o)
    __rtruediv__ = lambda s, o: s._ar("/", o, True)
    __neg__ = lambda s: s * -1
    add, sub, mul, div, truediv = __add__, __sub__, __mul__, __truediv__, __truediv__
    multiply, subtract, divide = mul, sub, div

    def _inplace(self, r):
        if not isinstance(self.data, list):
            raise Unsupported("change of a series in place")
        if not _b.all(isinstance(x, float) or isinstance(x, SNum) and S.kind_of(x) == "f" for x in self.data):
            return TSeries(r.data, self.index, self.name)
        self.data[:] = r.data
        return self

    __iadd__ = lambda s, o: s._inplace(s + o)
    __isub__ = lambda s, o: s._inplace(s - o)
    __imul__ = lambda s, o: s._inplace(s * o)
    __itruediv__ = lambda s, o: s._inplace(s / o)

    def _cmp(self, f, o):
        return self._new(False if isnan(a) or isnan(b) else bool(f(a, b)) for a, b in zip(self._list(), self._other(o)))

    def __eq__(self, o):
        return self._cmp(lambda a, b: a == b, o)

    def __ne__(self, o):
        return self._new(not x for x in (self == o)._list())

    __hash__ = None
    __lt__ = lambda s, o: s._cmp(lambda a, b: a < b, o)
    __le__ = lambda s, o: s._cmp(lambda a, b: a <= b, o)
    __gt__ = lambda s, o: s._cmp(lambda a, b: a > b, o)
    __ge__ = lambda s, o: s._cmp(lambda a, b: a >= b, o)
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__

    def __and__(self, o):
        return self._new(a and b for a, b in zip(self._list(), self._other(o)))

    def __or__(self, o):
        return self._new(a or b for a, b in zip(self._list(), self._other(o)))

    def __invert__(self):
        return self._new(not a for a in self._list())

    def _m(self, f):
        return self._new(f(x) for x in self._list())

    def abs(self):
        return self._m(lambda x: x if isnan(x) else _b.abs(x) if not isinstance(x, SNum) else (x if bool(x >= 0) else -x))

    def round(self, decimals=0, *a, **k):
        return self._m(lambda x: _round(x, decimals))

    def copy(self, deep=True):
        return TSeries(self.data.copy() if isinstance(self.data, snp.SArr) else list(self.data), self.index, self.name)

    def __len__(self):
        return len(self._list())

    def __iter__(self):
        return iter(self._list())

    @property
    def size(self):
        return len(self._list())

    @property
    def shape(self):
        return (len(self),)

    @property
    def empty(self):
        return len(self) == 0

    @property
    def values(self):
        if isinstance(self.data, snp.SArr):
            return self.data
        return snp.asarr(list(self.data))

    def to_numpy(self, *a, **k):
        return self.values

    def items(self):
        return zip(list(self.index), self._list())

    def max(self, *a, **k):
        return agg_max(self._list())

    def min(self, *a, **k):
        return agg_min(self._list())

    def sum(self, *a, **k):
        return agg_sum(self._list())

    def mean(self, *a, **k):
        return agg_mean(self._list())

    def idxmax(self, *a, **k):
        xs = self._list()
        m = agg_max(xs)
        for l, x in zip(list(self.index), xs):
            if not isnan(x) and bool(x == m):
                return l
        raise ValueError("attempt to get argmax of an empty sequence")

    def fillna(self, value=None, **k):
        if k:
            raise Unsupported("fillna")
        return self._m(lambda x: value if isnan(x) else x)

    def replace(self, a, b):
        if not isinstance(a, (list, tuple)):
            a = [a]
        return self._m(lambda x: b if _b.any((isnan(x) and isnan(y)) or (not isnan(x) and not isnan(y) and (x is y or (special(x) or special(y)) and x == y or not special(x) and not special(y) and bool(x == y))) for y in a) else x)

    def isna(self):
        return self._m(isnan)

    isnull = isna

    def notna(self):
        return self._m(lambda x: not isnan(x))

    def to_frame(self, name=None):
        return TFrame({(self.name if name is None else name) if not (self.name is None and name is None) else 0: self.data}, self.index)

    def rename(self, name=None, **k):
        return TSeries(self.data, self.index, name)

    def sort_values(self, ascending=True, **k):
        if set(k) - {"kind", "ignore_index"}:
            raise Unsupported("sort_values")
        xs = self._list()
        o = order(xs, ascending)
        return TSeries([xs[i] for i in o], TIndex(range(len(o))) if k.get("ignore_index") else TIndex([list(self.index)[i] for i in o]), self.name)

    def reset_index(self, drop=False, **k):
        if not drop or k:
            raise Unsupported("reset_index")
        return TSeries(self.data, TIndex(range(len(self))), self.name)

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        return self.iloc[-n:] if n else self.iloc[:0]

    def resample(self, rule, **k):
        return TResampler(self, rule, k)

    @property
    def iloc(self):
        return _SLoc(self, False)

    @property
    def loc(self):
        return _SLoc(self, True)

    at = loc
    iat = iloc

    def __getitem__(self, k):
        if isinstance(k, (TSeries, _dt.datetime, str)) or isinstance(k, list):
            return self.loc[k]
        if isinstance(k, slice) and not isinstance(k.start, (str, _dt.datetime)) and not isinstance(k.stop, (str, _dt.datetime)):
            return self.iloc[k]
        if isinstance(k, int) and not as_index(self.index).dated:
            return self.loc[k]
        raise Unsupported("Series indexing")

    def plot(self, **k):
        return self.to_frame().plot(**k)


class _SLoc(object):
    def __init__(self, s, labels):
        self.s, self.labels = s, labels

    def __getitem__(self, i):
        s = self.s
        xs = s._list()
        if self.labels:
            ks, single = rows_of(s.index, i)
            if single:
                return xs[ks[0]]
        elif isinstance(i, slice):
            ks = list(range(len(xs)))[i]
        elif isinstance(i, (list, tuple)):
            ks = list(i)
        else:
            return xs[i]
        lab = list(s.index)
        return TSeries([xs[k] for k in ks], TIndex([lab[k] for k in ks]), s.name)


def order(xs, ascending=True):
    """stable order of the values (decides comparisons on the path)"""
    out = []
    for i, x in enumerate(xs):
        p = len(out)
        while p > 0:
            y = xs[out[p - 1]]
            if bool(y > x) if ascending else bool(y < x):
                p -= 1
            else:
                break
        out.insert(p, i)
    return out


def _real(xs):
    xs = [x for x in xs if not isnan(x)]
    if _b.any(special(x) for x in xs):
        raise Unsupported("aggregation of infinite values")
    return xs


def agg_max(xs):
    xs = _real(xs)
    if not xs:
        return NAN
    return _np(S.pymax(*xs) if len(xs) > 1 else xs[0])


def agg_min(xs):
    xs = _real(xs)
    if not xs:
        return NAN
    return _np(S.pymin(*xs) if len(xs) > 1 else xs[0])


def agg_sum(xs):
    r = 0
    for x in _real(xs):
        r = r + x
    return r


def agg_mean(xs):
    xs = _real(xs)
    return agg_sum(xs) / len(xs) if xs else NAN


class TResampler(object):
    def __init__(self, o, rule, k):
        ix = o.index
        if set(k) - {"axis"} or not isinstance(ix, TIndex):
            raise Unsupported("resample")
        if not ix.dated:
            raise TypeError("Only valid with DatetimeIndex, TimedeltaIndex or PeriodIndex")
        self.o = o
        st = spd._freq(rule)
        if 1440 % st:
            raise Unsupported("resample(%r)" % rule)
        self.step = _dt.timedelta(minutes=st)
        t = ix.labels
        if t != sorted(t):
            raise Unsupported("resampling of an unsorted index")
        day = _dt.datetime(t[0].year, t[0].month, t[0].day)
        self.start = day + ((t[0] - day) // self.step) * self.step
        self.groups = []
        k = (t[-1] - self.start) // self.step + 1
        if k > 400:
            raise S.PathLimit("resample")
        for g in range(k):
            a = self.start + g * self.step
            self.groups.append((a, [i for i, x in enumerate(t) if a <= x < a + self.step]))

    def _agg(self, f):
        ix = TIndex([a for a, _ in self.groups])
        one = lambda xs: [f([xs[i] for i in g]) for _, g in self.groups]
        if isinstance(self.o, TSeries):
            return TSeries(one(self.o._list()), ix, self.o.name)
        return TFrame({c: one(listed(v)) for c, v in self.o.cols.items()}, ix)

    mean = lambda s, *a, **k: s._agg(agg_mean)
    sum = lambda s, *a, **k: s._agg(agg_sum)
    max = lambda s, *a, **k: s._agg(agg_max)
    min = lambda s, *a, **k: s._agg(agg_min)
    first = lambda s, *a, **k: s._agg(lambda xs: ([x for x in xs if not isnan(x)] or [NAN])[0])
    last = lambda s, *a, **k: s._agg(lambda xs: ([x for x in xs if not isnan(x)] or [NAN])[-1])
    count = lambda s, *a, **k: s._agg(lambda xs: len(_real(xs)))

    def agg(self, f):
        if isinstance(f, str):
            return getattr(self, f)()
        raise Unsupported("resample().agg")

    aggregate = apply = agg

    def _fill(self, pick):
        t = self.o.index.labels
        ix = TIndex([a for a, _ in self.groups])
        src = [pick(t, a) for a in ix.labels]
        one = lambda xs: [NAN if i is None else xs[i] for i in src]
        if isinstance(self.o, TSeries):
            return TSeries(one(self.o._list()), ix, self.o.name)
        return TFrame({c: one(listed(v)) for c, v in self.o.cols.items()}, ix)

    def ffill(self, **k):
        return self._fill(lambda t, a: ([i for i, x in enumerate(t) if x <= a] or [None])[-1])

    def bfill(self, **k):
        return self._fill(lambda t, a: ([i for i, x in enumerate(t) if x >= a] or [None])[0])

    def asfreq(self, **k):
        return self._fill(lambda t, a: ([i for i, x in enumerate(t) if x == a] or [None])[0])

    def nearest(self, **k):
        def pick(t, a):
            best = None
            for i, x in enumerate(t):
                if best is None or abs(x - a) <= abs(t[best] - a):
                    best = i
            return best

        return self._fill(pick)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("resample().%s" % n)


class TFrame(spd.DataFrame):
    def __init__(self, cols, index):
        d = self.__dict__
        d["cols"] = {c: (v if isinstance(v, snp.SArr) else list(v)) for c, v in cols.items()}
        d["_ix"] = index
        d["raw"] = None

    # index and columns
    @property
    def index(self):
        return self._ix

    @index.setter
    def index(self, x):
        ix = as_index(x)
        if S.node_of(len(ix)) is not S.node_of(self.n):
            raise ValueError("Length mismatch: Expected axis has %s elements" % self.n)
        self.__dict__["_ix"] = ix

    @property
    def n(self):
        return len(self._ix)

    @property
    def columns(self):
        return spd.Columns(self.cols)

    @columns.setter
    def columns(self, xs):
        xs = list(xs)
        if len(xs) != len(self.cols):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self.cols), len(xs)))
        self.__dict__["cols"] = dict(zip(xs, self.cols.values()))

    @property
    def shape(self):
        return (self.n, len(self.cols))

    @property
    def empty(self):
        return self.n == 0 or not self.cols

    @property
    def values(self):
        ls = [listed(v) for v in self.cols.values()]
        if len(ls) == 1:
            a = snp.asarr(ls[0])
            return snp.SArr(a.ln, a.dt, a.c, 2)
        return Rows([[c[k] for c in ls] for k in range(self.n)])

    to_numpy = lambda self, *a, **k: self.values

    @property
    def T(self):
        ls = [listed(v) for v in self.cols.values()]
        labels = list(self.index)
        if len(set(labels)) != len(labels):
            raise Unsupported("transposing duplicate labels")
        return TFrame({labels[k]: [c[k] for c in ls] for k in range(self.n)}, TIndex(list(self.cols)))

    def transpose(self):
        return self.T

    def _col(self, c):
        return TSeries(self.cols[c], self._ix, c)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in self.cols:
            return self._col(name)
        raise Unsupported("DataFrame.%s" % name)

    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter(list(self.cols))

    keys = lambda self: self.columns

    def items(self):
        return [(c, self._col(c)) for c in self.cols]

    def __getitem__(self, k):
        if isinstance(k, (list, spd.Columns)):
            ks = list(k)
            if ks and isinstance(ks[0], (bool, SBool)):
                return self.loc[ks]
            for c in ks:
                if c not in self.cols:
                    raise KeyError("%r not in index" % c)
            return TFrame({c: self.cols[c] for c in ks}, self._ix)
        if isinstance(k, TSeries):
            return self.loc[k]
        if isinstance(k, slice):
            return self.iloc[k] if not isinstance(k.start, (str, _dt.datetime)) and not isinstance(k.stop, (str, _dt.datetime)) else self.loc[k]
        if k not in self.cols:
            raise KeyError(k)
        return self._col(k)

    def __setitem__(self, k, v):
        ks = list(k) if isinstance(k, (list, spd.Columns)) else [k]
        if isinstance(v, TFrame):
            vs = [v.cols[c] for c in v.cols]
            if not self._ix.equals(v.index):
                raise Unsupported("alignment of indexes")
        elif isinstance(v, Rows):
            vs = [[r[j] for r in v.rows] for j in range(len(ks))]
            if len(v.rows) and len(v.rows[0]) != len(ks):
                raise ValueError("Columns must be same length as key")
        elif isinstance(v, TSeries):
            if not as_index(self._ix).equals(v.index):
                raise Unsupported("alignment of indexes")
            vs = [v.data]
        elif isinstance(v, snp.SArr) and v.nd == 2:
            vs = [list(v.ravel())]
        elif isinstance(v, (list, tuple, snp.SArr, spd.Series)):
            vs = [list(v)]
        else:
            vs = [[v] * self.n] * len(ks)
        if len(vs) != len(ks):
            raise ValueError("Columns must be same length as key")
        for c, x in zip(ks, vs):
            xs = x if isinstance(x, snp.SArr) else list(x)
            if len(xs) != self.n:
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(xs), self.n))
            self.cols[c] = xs

    def _map(self, f):
        return TFrame({c: f(v) for c, v in self.cols.items()}, self._ix)

    def _ar(self, op, o, rev=False):
        if isinstance(o, TFrame):
            if list(o.cols) != list(self.cols) or not self._ix.equals(o.index):
                raise Unsupported("alignment of frames")
            return TFrame({c: self._col(c)._ar(op, o._col(c), rev).data for c in self.cols}, self._ix)
        if isinstance(o, spd.Series):
            raise Unsupported("alignment of a series with the columns")
        return self._map(lambda v: [arith(op, o, a) if rev else arith(op, a, o) for a in listed(v)])

    __add__ = lambda s, o: s._ar("+", o)
    __radd__ = lambda s, o: s._ar("+", o, True)
    __sub__ = lambda s, o: s._ar("-", o)
    __rsub__ = lambda s, o: s._ar("-", o, True)
    __mul__ = lambda s, o: s._ar("*", o)
    __rmul__ = lambda s, o: s._ar("*", o, True)
    __truediv__ = lambda s, o: s._ar("/", o)
    div = truediv = divide = __truediv__
    mul = multiply = __mul__

    def _across(self, f, axis):
        ls = [listed(v) for v in self.cols.values()]
        if axis in (1, "columns"):
            return TSeries([f([c[k] for c in ls]) for k in range(self.n)], self._ix)
        return TSeries([f(c) for c in ls], TIndex(list(self.cols)))

    def mean(self, axis=0, **k):
        return self._across(agg_mean, axis)

    def sum(self, axis=0, **k):
        return self._across(agg_sum, axis)

    def max(self, axis=0, **k):
        return self._across(agg_max, axis)

    def min(self, axis=0, **k):
        return self._across(agg_min, axis)

    def copy(self, deep=True, **k):
        return TFrame({c: v.copy() if isinstance(v, snp.SArr) else v for c, v in self.cols.items()}, self._ix) if deep else self

    def round(self, decimals=0, *a, **k):
        if not isinstance(decimals, int):
            raise Unsupported("rounding of columns")
        return self._map(lambda v: [_round(x, decimals) for x in listed(v)])

    def _inplace(self, r):
        self.__dict__["cols"] = r.cols
        return self

    __iadd__ = lambda s, o: s._inplace(s + o)
    __isub__ = lambda s, o: s._inplace(s - o)
    __imul__ = lambda s, o: s._inplace(s * o)
    __itruediv__ = lambda s, o: s._inplace(s / o)

    def fillna(self, value=None, **k):
        return self._map(lambda v: [value if isnan(x) else x for x in listed(v)])

    def isna(self):
        return self._map(lambda v: [isnan(x) for x in listed(v)])

    def _take(self, ks):
        lab = list(self._ix)
        return TFrame({c: [listed(v)[k] for k in ks] for c, v in self.cols.items()}, TIndex([lab[k] for k in ks]))

    def head(self, n=5):
        return self._take(list(range(self.n))[:n])

    def tail(self, n=5):
        return self._take(list(range(self.n))[-n:] if n else [])

    def sort_values(self, by=None, ascending=True, ignore_index=False, inplace=False, **k):
        if isinstance(by, (list, tuple)) and len(by) == 1:
            by = by[0]
        if isinstance(ascending, (list, tuple)):
            ascending = ascending[0]
        if by not in self.cols or set(k) - {"kind", "axis"} or inplace:
            raise Unsupported("sort_values")
        d = self._take(order(listed(self.cols[by]), ascending))
        if ignore_index:
            d.index = range(d.n)
        return d

    def sort_index(self, **k):
        if k:
            raise Unsupported("sort_index")
        lab = list(self._ix)
        return self._take(sorted(range(self.n), key=lambda i: lab[i]))

    def reset_index(self, drop=False, **k):
        if not drop or k:
            raise Unsupported("reset_index")
        return TFrame(self.cols, TIndex(range(self.n)))

    def set_index(self, keys, **k):
        if isinstance(keys, str) or k:
            raise Unsupported("set_index")
        return TFrame(self.cols, as_index(keys))

    def rename(self, columns=None, **k):
        if k:
            raise Unsupported("rename")
        f = columns if callable(columns) else lambda c: (columns or {}).get(c, c)
        return TFrame({f(c): v for c, v in self.cols.items()}, self._ix)

    def join(self, o, **k):
        if k or not self._ix.equals(o.index):
            raise Unsupported("join")
        d = dict(self.cols)
        d.update(o.cols)
        return TFrame(d, self._ix)

    def assign(self, **k):
        d = self.copy()
        for c, v in k.items():
            d[c] = v
        return d

    def drop(self, labels=None, axis=0, columns=None, **k):
        cs = columns if columns is not None else labels
        cs = [cs] if isinstance(cs, str) else list(cs)
        if k or (columns is None and axis not in (1, "columns")):
            raise Unsupported("drop")
        return TFrame({c: v for c, v in self.cols.items() if c not in cs}, self._ix)

    def equals(self, o):
        raise Unsupported("DataFrame.equals")


    def to_dict(self, *a, **k):
        raise Unsupported("DataFrame.to_dict")

    def groupby(self, *a, **k):
        raise Unsupported("DataFrame.groupby")

    def resample(self, rule, **k):
        return TResampler(self, rule, k)

    @property
    def loc(self):
        return _FLoc(self, True)

    @property
    def iloc(self):
        return _FLoc(self, False)

    def to_string(self, *a, **k):
        return "<frame>"

    def plot(self, *a, **k):
        if a:
            k = dict(k, kind=a[0])
        spd.FILES.plots.append((k.pop("kind", "line"), self.copy(), k))
        return Axes()

    def to_csv(self, path=None, sep=",", **k):
        if k or path is None:
            raise Unsupported("to_csv")
        spd.FILES.frames[os.path.abspath(os.fspath(path))] = ("csv", sep, self.copy())

    def to_excel(self, path, sheet_name="Sheet1", **k):
        if set(k) - {"engine"}:
            raise Unsupported("to_excel")
        if isinstance(path, ExcelWriter):
            path = path.path
        spd.FILES.frames[os.path.abspath(os.fspath(path))] = ("xlsx", sheet_name, self.copy())


class Axes(object):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class Rows(object):
    """two-dimensional values of a frame"""

    def __init__(self, rows):
        self.rows = rows

    def ravel(self, *a):
        return snp.asarr([x for r in self.rows for x in r])

    flatten = ravel

    @property
    def shape(self):
        return (len(self.rows), len(self.rows[0]) if self.rows else 0)

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.rows)

    def __getitem__(self, i):
        if isinstance(i, tuple):
            return self.rows[i[0]][i[1]]
        return self.rows[i]

    def copy(self):
        return Rows([list(r) for r in self.rows])

    @property
    def T(self):
        return Rows([list(x) for x in zip(*self.rows)])

    def tolist(self):
        return snp.PList(snp.PList(r) for r in self.rows)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("values.%s" % n)


class _FLoc(object):
    def __init__(self, d, labels):
        self.d, self.labels = d, labels

    def _rows(self, r):
        if self.labels:
            return rows_of(self.d.index, r)
        if isinstance(r, slice):
            return list(range(self.d.n))[r], False
        if isinstance(r, (list, tuple)):
            if r and isinstance(r[0], bool):
                return [i for i, b in enumerate(r) if b], False
            for i in r:
                if not -self.d.n <= i < self.d.n:
                    raise IndexError("positional indexers are out-of-bounds")
            return [i % self.d.n for i in r], False
        if not -self.d.n <= r < self.d.n:
            raise IndexError("single positional indexer is out-of-bounds")
        return [r % self.d.n], True

    def _cols(self, c):
        names = list(self.d.cols)
        if isinstance(c, slice):
            if self.labels:
                a = names.index(c.start) if c.start is not None else 0
                b = names.index(c.stop) + 1 if c.stop is not None else len(names)
                return names[a:b], False
            return names[c], False
        if isinstance(c, (list, tuple, spd.Columns)):
            c = list(c)
            if c and isinstance(c[0], bool):
                return [x for x, b in zip(names, c) if b], False
            if self.labels:
                for x in c:
                    if x not in names:
                        raise KeyError("%r not in index" % x)
                return c, False
            return [names[i] for i in c], False
        if self.labels:
            if c not in names:
                raise KeyError(c)
            return [c], True
        return [names[c]], True

    def __getitem__(self, i):
        d = self.d
        if isinstance(i, tuple):
            r, c = i
        else:
            r, c = i, slice(None)
        ks, one = self._rows(r)
        cs, onec = self._cols(c)
        if len(ks) == d.n and ks == list(range(d.n)) and not one:
            sub = TFrame({x: d.cols[x] for x in cs}, d.index)
        else:
            sub = TFrame({x: d.cols[x] for x in cs}, d.index)._take(ks)
        if one and onec:
            return listed(sub.cols[cs[0]])[0]
        if onec:
            return sub._col(cs[0])
        if one:
            return TSeries([listed(sub.cols[x])[0] for x in cs], TIndex(cs), list(sub.index)[0])
        return sub

    def __setitem__(self, i, v):
        raise Unsupported("assignment to a selection")


class ExcelWriter(object):
    def __init__(self, path, engine=None, **k):
        if k:
            raise Unsupported("ExcelWriter")
        self.path = os.fspath(path)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    save = close


def read_csv(path, index_col=None, header=0, sep=",", **k):
    f = spd.FILES.frames.get(os.path.abspath(os.fspath(path)))
    if "sheet_name" in k:
        raise TypeError("read_csv() got an unexpected keyword argument 'sheet_name'")
    if f is None:
        raise FileNotFoundError(2, "No such file or directory: %r" % path)
    dates = k.pop("parse_dates", False)
    if k or index_col != 0 or header != 0 or f[0] != "csv" or f[1] != sep:
        raise Unsupported("read_csv")
    d = f[2].copy()
    if not dates and as_index(d.index).dated:
        d.index = TIndex([str(x) for x in d.index])
    return d.rename(columns={c: str(c) for c in d.cols})


def read_excel(path, sheet_name=0, index_col=None, header=0, **k):
    f = spd.FILES.frames.get(os.path.abspath(os.fspath(path)))
    if f is None:
        return None
    if k or index_col != 0 or header != 0 or f[0] != "xlsx" or sheet_name not in (0, f[1]):
        raise Unsupported("read_excel")
    return f[2].copy()


def concat_cases(objs, axis=0, **k):
    """columns named after the keys, on the common index"""
    if axis not in (1, "columns") or k:
        raise Unsupported("concat")
    if isinstance(objs, dict):
        names, xs = list(objs), list(objs.values())
    else:
        names, xs = None, list(objs)
    cols, ix = {}, None
    for i, s in enumerate(xs):
        if isinstance(s, spd.DataFrame):
            if not isinstance(s, TFrame):
                raise Unsupported("concat")
            new = {(c if names is None else (names[i], c)): v for c, v in s.cols.items()}
        else:
            new = {(names[i] if names is not None else s.name if s.name is not None else i): s.data}
        if ix is not None and not ix.equals(s.index):
            raise Unsupported("concat of different indexes")
        ix = s.index
        cols.update(new)
    return TFrame(cols, ix)


from . import attrs as _attrs  # noqa: E402

_attrs.strict(globals())
