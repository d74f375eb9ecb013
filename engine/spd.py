"""Model of the pandas surface used by RAMP: date ranges, and frames as columns of python objects."""
import datetime as _dt
import types as _types
import json as _json
import math
import os
import re

from . import expr as X
from . import sym as S
from . import snp
from . import smods
from .sym import SNum, SBool, Unsupported
from .smods import SDate, STd, as_sdate, td_minutes
from .expr import I, R
from fractions import Fraction

ZERO, ONE = X.const(0), X.const(1)
NAN = float("nan")


def br(n):
    return S.E.branch(n)


class SIndex(object):
    """DatetimeIndex with a fixed step in minutes: start + k*step, k < n"""

    def __init__(self, start, n, step):
        self.start, self.n, self.step = start, n, step

    def _symlen(self):
        return S.mkint(self.n)

    def __len__(self):
        return S.E.concretize(self.n)

    @property
    def size(self):
        return S.mkint(self.n)

    @property
    def shape(self):
        return (S.mkint(self.n),)

    @property
    def empty(self):
        return br(X.eq(self.n, ZERO))

    def at(self, k):
        if self.step == 1440:
            return SDate(X.add(self.start.o, k), self.start.m, "datetime")
        return self.start._shift(X.scale(k, self.step))

    def __getitem__(self, i):
        if isinstance(i, slice):
            s, e, st = snp.norm_slice(i, self.n)
            if st != 1:
                raise Unsupported("strided index slice")
            return SIndex(self.at(s), X.sub(e, s), self.step)
        n = S.node_of(i)
        if br(X.lt(n, ZERO)):
            n = X.add(n, self.n)
        if br(X.lt(n, ZERO)) or not br(X.lt(n, self.n)):
            raise IndexError("index out of bounds for axis 0")
        return self.at(n)

    def __iter__(self):
        k = 0
        while br(X.lt(X.const(k), self.n)):
            yield self.at(X.const(k))
            k += 1
            if k > 400:
                raise S.PathLimit("index iteration")

    def map(self, f):
        return SeqResult([f(x) for x in self])

    def _elem(self, f):
        return SeqResult([f(x) for x in self])

    @property
    def dayofweek(self):
        return self._elem(lambda d: d.weekday())

    weekday = day_of_week = dayofweek

    def to_list(self):
        return snp.PList(self)

    tolist = to_list

    def min(self):
        return self[0]

    def max(self):
        return self[-1]

    @property
    def freq(self):
        return {1440: "D", 1: "min"}.get(self.step, "%dmin" % self.step)

    def equals(self, o):
        return isinstance(o, SIndex) and br(X.and_(X.eq(self.n, o.n), X.eq(self.start._t(), o.start._t()), X.bconst(self.step == o.step)))

    def __deepcopy__(self, m):
        return self

    def __repr__(self):
        return "<dates>"


class SeqResult(object):
    def __init__(self, xs):
        self.xs = xs

    def to_list(self):
        return snp.PList(self.xs)

    tolist = to_list

    @property
    def values(self):
        return snp.asarr(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        return snp.PList(self.xs)[i]


_STEP = {"d": 1440, "min": 1, "t": 1, "h": 60, "1d": 1440, "1h": 60, "1min": 1, "day": 1440, "w": 10080}


def _freq(f):
    if isinstance(f, (_dt.timedelta, STd)):
        return X.const_val(td_minutes(f))
    s = str(f).lower()
    if s in _STEP:
        return _STEP[s]
    d = "".join(c for c in s if c.isdigit())
    u = s[len(d):]
    if u in _STEP and s.startswith(d):
        return int(d or 1) * _STEP[u]
    raise Unsupported("frequency %r" % (f,))


def _date(x):
    if isinstance(x, str):
        return as_sdate(_parse(x))
    d = as_sdate(x)
    if d is None:
        raise Unsupported("date %r" % (x,))
    if d.kind == "date":
        d = SDate(d.o, ZERO, "datetime", d._y, d._mo)
    return d


def _parse(s):
    import re

    d = smods.text_date(s, "datetime")
    if d is not None:
        return d

    m = re.match(r"^\s*(\S+?)-(\d+)-(\d+)(?:[ T](\d+):(\d+)(?::(\d+))?)?\s*$", s)
    if not m:
        raise Unsupported("date string %r" % s)
    y = smods._marker(m.group(1))
    if y is None:
        y = int(m.group(1))
    return smods.mkdate("datetime", y, int(m.group(2)), int(m.group(3)), int(m.group(4) or 0), int(m.group(5) or 0))


def date_range(start=None, end=None, periods=None, freq=None, tz=None, normalize=False, name=None, inclusive="both", **k):
    step = 1440 if freq is None else _freq(freq)
    if freq is None and start is not None and end is not None and periods is not None:
        raise Unsupported("date_range with start, end and periods")
    if sum(x is not None for x in (start, end, periods)) < 2:
        raise ValueError("Of the four parameters: start, end, periods, and freq, exactly three must be specified")
    if start is not None:
        start = _date(start)
        if normalize:
            start = start.normalize()
    if end is not None:
        end = _date(end)
        if normalize:
            end = end.normalize()
    if periods is not None:
        if S.kind_of(periods) == "f":
            periods = S.trunc(periods)
        n = S.node_of(periods)
        if n is None:
            raise TypeError("periods must be a number")
        if br(X.lt(n, ZERO)):
            raise ValueError("Number of periods must be non-negative")
        if start is not None:
            r = SIndex(start, n, step)
        else:
            last = X.sub(n, ONE)
            st = SDate(X.sub(end.o, last), end.m, "datetime") if step == 1440 else end._shift(X.scale(last, -step))
            r = SIndex(st, n, step)
    else:
        if step % 1440 == 0 and start.m is end.m:
            d = X.sub(end.o, start.o)
            k_ = step // 1440
            cnt = X.add(d if k_ == 1 else X.idiv(d, X.const(k_)), ONE)
        else:
            d = X.sub(end._t(), start._t())
            cnt = X.add(d if step == 1 else X.idiv(d, X.const(step)), ONE)
        if br(X.lt(cnt, ONE)):
            cnt = ZERO
        r = SIndex(start, cnt, step)
    if inclusive != "both":
        if inclusive == "left" and end is not None:
            # drop the last point when it coincides with end
            if br(X.and_(X.lt(ZERO, r.n), X.eq(r.at(X.sub(r.n, ONE))._t(), end._t()))):
                r = SIndex(r.start, X.sub(r.n, ONE), step)
        else:
            raise Unsupported("inclusive=%r" % inclusive)
    return r


_UNITS = {"d": 1440, "day": 1440, "days": 1440, "h": 60, "hour": 60, "hours": 60, "m": 1, "min": 1, "minute": 1, "minutes": 1, "t": 1, "w": 10080}


def Timedelta(value=None, unit=None, **k):
    t = ZERO
    if value is not None:
        if isinstance(value, (_dt.timedelta, STd)):
            return STd(td_minutes(value))
        if isinstance(value, str):
            s = value.strip().lower()
            d = "".join(c for c in s if c.isdigit())
            u = s.replace(d, "").strip()
            if u not in _UNITS:
                raise Unsupported("Timedelta(%r)" % value)
            return STd(X.const(int(d) * _UNITS[u]))
        u = str(unit).lower() if unit is not None else None
        if u not in _UNITS:
            raise Unsupported("Timedelta unit %r" % unit)
        t = X.scale(S.node_of(value), _UNITS[u])
    for n, v in k.items():
        if n not in _UNITS:
            raise Unsupported("Timedelta(%s)" % n)
        t = X.add(t, X.scale(S.node_of(v), _UNITS[n]))
    return STd(t)


def Timestamp(*a, **k):
    if len(a) == 1:
        return _date(a[0])
    return smods.mkdate("datetime", *a)


# ---------------------------------------------------------------- frames
def _isna(v):
    return v is None or (isinstance(v, float) and v != v)


class Series(object):
    def __init__(self, data=None, index=None, name=None, dtype=None, **k):
        if isinstance(data, Series):
            data = data.data
        if isinstance(data, (SNum, int, float)) and index is not None:
            data = [data] * len(index)
        if index is not None and not isinstance(data, snp.SMat):
            a, b = S.node_of(smods.slen(data)), S.node_of(smods.slen(index))
            if br(X.not_(X.eq(a, b))):
                raise ValueError("Length of values does not match length of index")
        self.data, self.index, self.name = data, index, name

    def _list(self):
        return list(self.data)

    @property
    def values(self):
        return snp.asarr(self.data)

    def to_numpy(self, *a, **k):
        return self.values

    def _sarr(self):
        return snp.asarr(self.data)

    def __len__(self):
        return len(self.data)

    def _symlen(self):
        return smods.slen(self.data)

    def __iter__(self):
        return iter(self.data)

    def unique(self):
        out = snp.PList()
        for x in self._list():
            if not any((x is y) or (_isna(x) and _isna(y)) or x == y for y in list.__iter__(out)):
                out.append(x)
        return out

    def nunique(self):
        return len([x for x in self.unique() if not _isna(x)])

    def _m(self, f):
        return Series(snp.PList(f(x) for x in self._list()), self.index, self.name)

    def __eq__(self, o):
        return self._m(lambda x: bool(x == o))

    def __ne__(self, o):
        return self._m(lambda x: bool(x != o))

    __hash__ = None

    def __invert__(self):
        return self._m(lambda x: not x)

    def isna(self):
        return self._m(_isna)

    isnull = isna

    def notna(self):
        return self._m(lambda x: not _isna(x))

    def isin(self, vals):
        return self._m(lambda x: any(bool(x == v) for v in vals))

    def any(self):
        return any(bool(x) for x in self._list())

    def all(self):
        return all(bool(x) for x in self._list())

    def tolist(self):
        return snp.PList(self._list())

    to_list = tolist

    def fillna(self, value=None, **k):
        return self._m(lambda x: value if _isna(x) else x)

    def astype(self, t):
        return self

    def map(self, f):
        return self._m(f)

    apply = map

    def __getitem__(self, i):
        if isinstance(i, (SNum, int)):
            return snp.PList(self._list())[i]
        raise Unsupported("Series indexing")

    @property
    def iloc(self):
        return self

    def to_frame(self, name=None):
        return DataFrame({name or self.name or 0: self.data}, index=self.index)

    @property
    def size(self):
        return smods.slen(self.data)


class Columns(object):
    def __init__(self, xs):
        self.xs = list(xs)

    def isin(self, vals):
        vals = list(vals)
        return Mask([c in vals for c in self.xs])

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    def __contains__(self, c):
        return c in self.xs

    def tolist(self):
        return snp.PList(self.xs)

    to_list = tolist

    def __getitem__(self, i):
        if isinstance(i, Mask):
            return Columns([c for c, b in zip(self.xs, i.xs) if b])
        return self.xs[i]

    def difference(self, o):
        o = list(o)
        return Columns(sorted(c for c in self.xs if c not in o))

    def drop(self, o):
        o = [o] if isinstance(o, str) else list(o)
        return Columns([c for c in self.xs if c not in o])

    def __eq__(self, o):
        return list(self.xs) == list(o)

    __hash__ = None


class Mask(object):
    def __init__(self, xs):
        self.xs = xs

    def __invert__(self):
        return Mask([not x for x in self.xs])

    def __iter__(self):
        return iter(self.xs)


class DataFrame(object):
    """columns of python objects; no dtype coercion (values keep their identity)"""

    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        self.cols = {}
        self.index = index
        self.n = 0
        self.raw = None
        if data is None:
            return
        if isinstance(data, DataFrame):
            self.cols = {k: list(v) for k, v in data.cols.items()}
            self.n = data.n
            self.index = data.index if index is None else index
            self.raw = data.raw
            return
        if isinstance(data, (snp.SArr, snp.SMat)):
            self.raw = data
            self.index = index
            if index is not None:
                n = S.node_of(smods.slen(index))
                m = data.ln if isinstance(data, snp.SArr) else X.const(len(data.rows))
                if br(X.not_(X.eq(n, m))):
                    raise ValueError("Shape of passed values does not match indices")
            return
        if isinstance(data, dict):
            for k, v in data.items():
                if isinstance(v, Series):
                    v = v.data
                if isinstance(v, snp.SArr) and not X.is_const(v.ln):
                    self.raw = data
                    return
                self.cols[k] = list(v) if hasattr(v, "__iter__") and not isinstance(v, str) else [v]
            self.n = max([len(v) for v in self.cols.values()] or [0])
            return
        if isinstance(data, Series):
            data = list(data.data)
        rows = [r if isinstance(r, dict) else list(r) if hasattr(r, "__iter__") and not isinstance(r, str) else [r] for r in data]
        if rows and isinstance(rows[0], dict):
            self._records(rows)
            return
        names = list(columns) if columns is not None else list(range(len(rows[0]) if rows else 0))
        for j, c in enumerate(names):
            self.cols[c] = [r[j] for r in rows]
        self.n = len(rows)

    def _records(self, recs):
        for r in recs:
            for k in r:
                self.cols.setdefault(k, None)
        for k in self.cols:
            self.cols[k] = [r.get(k, NAN) for r in recs]
        self.n = len(recs)

    @classmethod
    def from_records(cls, recs, **k):
        d = cls()
        d._records(list(recs))
        return d

    from_dict = classmethod(lambda cls, d, **k: cls(d))

    @property
    def columns(self):
        return Columns(self.cols)

    @columns.setter
    def columns(self, xs):
        self.cols = dict(zip(list(xs), self.cols.values()))

    @property
    def shape(self):
        return (self.n, len(self.cols))

    @property
    def empty(self):
        return self.n == 0 or not self.cols

    def __len__(self):
        return self.n

    @property
    def values(self):
        if self.raw is not None:
            return self.raw if isinstance(self.raw, snp.SMat) else snp.SArr(self.raw.ln, self.raw.dt, self.raw.c, 2)
        ncol = len(self.cols)
        lst = [list(v) for v in self.cols.values()]
        if ncol == 1:
            a = snp.asarr(lst[0])
            return snp.SArr(a.ln, a.dt, a.c, 2) if isinstance(a, snp.SArr) else a
        return snp.asarr([[c[k] for c in lst] for k in range(self.n)])

    to_numpy = lambda self, *a, **k: self.values

    def __getattr__(self, name):
        if name.startswith("__") or "cols" not in self.__dict__:
            raise AttributeError(name)
        if name in self.cols:
            return Series(snp.PList(self.cols[name]), name=name)
        if name.startswith("_"):
            raise AttributeError(name)
        if name == "iloc":
            return _ILoc(self)
        if name == "loc":
            return _Loc(self)
        raise Unsupported("DataFrame.%s" % name)

    def __contains__(self, c):
        return c in self.cols

    def __iter__(self):
        return iter(list(self.cols))

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            return Series(snp.PList(self.cols[k]), name=k)
        if isinstance(k, (list, Columns)):
            d = DataFrame()
            ks = list(k)
            if ks and isinstance(ks[0], bool):
                return self._take([i for i, b in enumerate(ks) if b])
            for c in ks:
                d.cols[c] = list(self.cols[c])
            d.n = self.n
            return d
        if isinstance(k, Series):
            return self._take([i for i, b in enumerate(k._list()) if b])
        if k in self.cols:
            return Series(snp.PList(self.cols[k]), name=k)
        raise KeyError(k)

    def _take(self, idx):
        d = DataFrame()
        for c, v in self.cols.items():
            d.cols[c] = [v[i] for i in idx]
        d.n = len(idx)
        return d

    def __setitem__(self, k, v):
        if isinstance(v, DataFrame):
            if v.raw is None:
                if len(v.cols) != 1:
                    raise ValueError("Cannot set a DataFrame with multiple columns to the single column %s" % k)
                v = list(v.cols.values())[0]
            else:
                v = Series(v.raw if not isinstance(v.raw, dict) else list(v.raw.values())[0], v.index)
        if isinstance(v, Series) and isinstance(v.data, snp.SArr) and (not self.cols) and v.index is not None:
            if self.raw is None and self.n == 0:
                self.raw = {}
                self.index = v.index
            elif not isinstance(self.raw, dict) or not v.index.equals(self.index):
                raise Unsupported("column of another index")
            self.raw[k] = v.data
            return
        if self.raw is not None:
            raise Unsupported("DataFrame column")
        if isinstance(v, Series):
            v = v._list()
        if isinstance(v, (list, tuple)) or hasattr(v, "_is_sarr"):
            v = list(v)
            if self.cols and len(v) != self.n:
                raise ValueError("Length of values does not match length of index")
            self.n = len(v)
            self.cols[k] = v
        else:
            self.cols[k] = [v] * self.n

    def fillna(self, value=None, **k):
        d = DataFrame()
        d.n = self.n
        for c, v in self.cols.items():
            d.cols[c] = [value if _isna(x) else x for x in v]
        return d

    def copy(self, *a, **k):
        return DataFrame(self)

    def drop(self, labels=None, axis=0, columns=None, **k):
        cs = columns if columns is not None else labels
        cs = [cs] if isinstance(cs, str) else list(cs)
        d = DataFrame()
        d.n = self.n
        d.cols = {c: list(v) for c, v in self.cols.items() if c not in cs}
        return d

    def rename(self, columns=None, **k):
        d = DataFrame(self)
        d.cols = {(columns or {}).get(c, c): v for c, v in d.cols.items()}
        return d

    def reset_index(self, **k):
        return DataFrame(self)

    def to_dict(self, orient="dict", **k):
        if orient == "records":
            return snp.PList({c: v[i] for c, v in self.cols.items()} for i in range(self.n))
        if orient == "list":
            return {c: snp.PList(v) for c, v in self.cols.items()}
        raise Unsupported("to_dict(%r)" % orient)

    def iterrows(self):
        for i in range(self.n):
            yield i, {c: v[i] for c, v in self.cols.items()}

    def groupby(self, key, sort=True, **k):
        if not isinstance(key, str):
            raise Unsupported("groupby")
        names = list(self[key].unique())
        if sort:
            names.sort()
        return [(n, self[self[key] == n]) for n in names]

    def to_string(self, *a, **k):
        return "<frame>"

    def head(self, n=5):
        return self._take(range(min(n, self.n)))

    @property
    def T(self):
        rows = [list(v) for v in self.cols.values()]
        d = DataFrame()
        m = self.n
        for k in range(m):
            d.cols[k] = [r[k] for r in rows]
        d.n = len(rows)
        return d

    def to_json(self, orient=None, **k):
        if orient != "values":
            raise Unsupported("to_json(%r)" % orient)
        # pandas writes at most 10 decimals
        return smods.json_text([[round(v[i], 10) if type(v[i]) is float else v[i] for v in self.cols.values()] for i in range(self.n)], compact=True)

    def to_excel(self, path, sheet_name="Sheet1", index=True, engine=None, **k):
        if k:
            raise Unsupported("to_excel(%s)" % ", ".join(k))
        FILES.write_xlsx(path, self, sheet_name, index)

    def to_csv(self, path=None, **k):
        FILES.write_csv(path, self, k)

    def resample(self, rule, **k):
        return Resampler(self, rule, k)


class _ILoc(object):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, i):
        d = self.d
        if isinstance(i, tuple):
            r, c = i
            names = list(d.cols)
            if isinstance(c, slice):
                names = names[c]
                sub = d[names]
                return sub.iloc[r]
            col = d.cols[names[c]]
            if isinstance(r, slice):
                return Series(snp.PList(col[r]), name=names[c])
            return col[r]
        if isinstance(i, slice):
            return d._take(range(d.n)[i])
        return {c: v[i] for c, v in d.cols.items()}


class _Loc(object):
    def __init__(self, d):
        self.d = d

    def _rows(self, r):
        d = self.d
        if isinstance(r, slice):
            return list(range(d.n))
        if isinstance(r, Series):
            return [i for i, b in enumerate(r._list()) if b]
        if isinstance(r, (list, tuple)):
            r = list(r)
            return [i for i, b in enumerate(r) if b] if r and isinstance(r[0], bool) else r
        return [r]

    def __getitem__(self, i):
        d = self.d
        if isinstance(i, tuple):
            r, c = i
            rows = self._rows(r)
            if isinstance(c, Mask):
                c = [n for n, b in zip(d.cols, c.xs) if b]
            if isinstance(c, Series):
                c = [n for n, b in zip(d.cols, c._list()) if b]
            if isinstance(c, (list, Columns)):
                return d._take(rows)[list(c)]
            if isinstance(c, slice):
                return d._take(rows)
            if isinstance(r, int):
                return d.cols[c][r]
            return Series(snp.PList(d.cols[c][k] for k in rows), name=c)
        if isinstance(i, int):
            return {c: v[i] for c, v in d.cols.items()}
        return d._take(self._rows(i))

    def __setitem__(self, i, v):
        r, c = i if isinstance(i, tuple) else (i, None)
        rows = self._rows(r)
        if c not in self.d.cols:
            self.d.cols[c] = [NAN] * self.d.n
        for k in rows:
            self.d.cols[c][k] = v


def concat(objs, axis=0, ignore_index=False, **k):
    from . import stf

    if not isinstance(objs, dict):
        objs = [o for o in objs]
    if isinstance(objs, dict) or axis in (1, "columns") or any(isinstance(o, stf.TFrame) for o in objs):
        return stf.concat_cases(objs, axis, **k)
    if not objs:
        raise ValueError("No objects to concatenate")
    d = DataFrame()
    names = []
    for o in objs:
        for c in o.cols:
            if c not in names:
                names.append(c)
    for c in names:
        xs = []
        for o in objs:
            xs += list(o.cols[c]) if c in o.cols else [NAN] * o.n
        d.cols[c] = xs
    d.n = sum(o.n for o in objs)
    return d


class Table(object):
    """a frame as written to a text or excel file"""

    def __init__(self, df, index=True):
        self.df = df
        if df.raw is not None and not isinstance(df.raw, dict):
            raw = df.raw
            if isinstance(raw, snp.SMat):
                if raw.rows and raw.rows[0].ln is not ONE:
                    raise Unsupported("table of a matrix")
                raw = raw.reshape(-1)
            self.cols = {"0": snp.SArr(raw.ln, raw.dt, raw.c, 1)}
        else:
            self.cols = {str(k): snp.asarr(v) if isinstance(v, list) else v for k, v in (df.raw or df.cols).items()}
        self.names = list(self.cols)
        f = self.cols[self.names[0]] if self.names else None
        self.n = smods.slen(f) if f is not None else 0
        self.index = index

    def ix(self, k):
        if self.df.index is None:
            return k
        return self.df.index[k]

    def at(self, name, k):
        return self.cols[name][k]


class FS(object):
    """in-memory stand-in for files written through pandas/openpyxl"""

    def __init__(self):
        self.books = {}
        self.frames = {}
        self.plots = []
        self.csvs = []
        self.capturing = False

    def capture(self):
        self.capturing = True
        return self.csvs

    def write_xlsx(self, path, df, sheet, index):
        rows = [list(df.cols)] + [[_cell(v[i]) for v in df.cols.values()] for i in range(df.n)]
        if index:
            rows = [[None if i == 0 else i - 1] + r for i, r in enumerate(rows)]
        self.books[os.path.abspath(os.fspath(path))] = {sheet: rows}

    def write_csv(self, path, df, kw):
        if not self.capturing or path is None:
            raise Unsupported("to_csv")
        if set(kw) - {"sep", "encoding", "index_label"}:
            raise Unsupported("to_csv(%s)" % ", ".join(kw))
        self.csvs.append((os.fspath(path), Table(df)))


FILES = FS()


def _cell(v):
    """a value as it is read back from an excel cell"""
    if _isna(v) or (isinstance(v, str) and v == ""):
        return None
    if isinstance(v, float) and not isinstance(v, SNum):
        return int(v) if v == int(v) and abs(v) < 1e15 else v
    if isinstance(v, (list, tuple)):
        return smods.json_text(list(v))
    if isinstance(v, (SNum, SBool, int, str)):
        return v
    if isinstance(v, (snp.SArr, snp.SMat)):
        raise Unsupported("array in a cell")
    if isinstance(v, dict):
        raise ValueError("Cannot convert %r to Excel" % (v,))
    raise Unsupported("cell of type %s" % type(v).__name__)


class _Cell(object):
    def __init__(self, v):
        self.value = v


class Sheet(object):
    def __init__(self, rows, title=""):
        self.rows_, self.title = rows, title
        self.w = max([len(r) for r in rows] or [0])

    @property
    def max_row(self):
        return len(self.rows_)

    @property
    def max_column(self):
        return self.w

    def _v(self, r, c):
        if r < 1 or c < 1:
            raise ValueError("Row or column values must be at least 1")
        row = self.rows_[r - 1] if r <= len(self.rows_) else []
        return row[c - 1] if c <= len(row) else None

    def cell(self, row, column, value=None):
        return _Cell(self._v(row, column))

    def __getitem__(self, k):
        if isinstance(k, int):
            return tuple(_Cell(self._v(k, c + 1)) for c in range(self.w))
        cr = CellRange(k)
        return tuple(tuple(_Cell(self._v(r, c)) for r, c in row) for row in cr.rows) if ":" in k else _Cell(self._v(cr.min_row, cr.min_col))

    @property
    def values(self):
        for r in range(len(self.rows_)):
            yield tuple(self._v(r + 1, c + 1) for c in range(self.w))

    def iter_rows(self, min_row=None, max_row=None, min_col=None, max_col=None, values_only=False):
        for r in range(min_row or 1, (max_row or len(self.rows_)) + 1):
            vs = [self._v(r, c) for c in range(min_col or 1, (max_col or self.w) + 1)]
            yield tuple(vs) if values_only else tuple(_Cell(v) for v in vs)

    def iter_cols(self, min_col=None, max_col=None, min_row=None, max_row=None, values_only=False):
        for c in range(min_col or 1, (max_col or self.w) + 1):
            vs = [self._v(r, c) for r in range(min_row or 1, (max_row or len(self.rows_)) + 1)]
            yield tuple(vs) if values_only else tuple(_Cell(v) for v in vs)

    @property
    def rows(self):
        return self.iter_rows()

    @property
    def columns(self):
        return self.iter_cols()


class Book(object):
    def __init__(self, sheets):
        self.s = {k: Sheet(v, k) for k, v in sheets.items()}

    @property
    def sheetnames(self):
        return list(self.s)

    @property
    def worksheets(self):
        return list(self.s.values())

    @property
    def active(self):
        return self.worksheets[0]

    def __getitem__(self, n):
        if n not in self.s:
            raise KeyError("Worksheet %s does not exist." % n)
        return self.s[n]

    def close(self):
        pass


def load_workbook(filename=None, *a, **k):
    b = FILES.books.get(os.path.abspath(os.fspath(filename)))
    if b is None:
        raise FileNotFoundError(2, "No such file or directory: %r" % filename)
    return Book(b)


class CellRange(object):
    def __init__(self, range_string=None, min_col=None, min_row=None, max_col=None, max_row=None, title=None):
        if range_string is not None:
            if "!" in range_string:
                title, range_string = range_string.rsplit("!", 1)
                title = title.strip("'")
            m = re.match(r"^\$?([A-Za-z]{1,3})\$?(\d+)(?::\$?([A-Za-z]{1,3})\$?(\d+))?$", range_string)
            if not m:
                raise ValueError("%s is not a valid coordinate or range" % range_string)
            c1, r1, c2, r2 = m.groups()
            min_col, min_row = _colno(c1), int(r1)
            max_col, max_row = (_colno(c2), int(r2)) if c2 else (min_col, min_row)
        self.min_col, self.min_row, self.max_col, self.max_row, self.title = min_col, min_row, max_col, max_row, title
        if min_col > max_col or min_row > max_row:
            raise ValueError("{max_col} must be greater than {min_col}")

    @property
    def size(self):
        return {"columns": self.max_col + 1 - self.min_col, "rows": self.max_row + 1 - self.min_row}

    @property
    def bounds(self):
        return self.min_col, self.min_row, self.max_col, self.max_row

    @property
    def rows(self):
        for r in range(self.min_row, self.max_row + 1):
            yield [(r, c) for c in range(self.min_col, self.max_col + 1)]

    @property
    def cols(self):
        for c in range(self.min_col, self.max_col + 1):
            yield [(r, c) for r in range(self.min_row, self.max_row + 1)]

    @property
    def cells(self):
        for row in self.rows:
            for x in row:
                yield x


def _colno(s):
    n = 0
    for c in s.upper():
        n = n * 26 + ord(c) - 64
    return n


def make_openpyxl():
    m = _types.ModuleType("openpyxl")
    m.__path__ = []
    m.load_workbook = load_workbook
    out = {"openpyxl": m}
    for n in ("worksheet", "worksheet.cell_range", "utils", "reader", "reader.excel"):
        k = _types.ModuleType("openpyxl." + n)
        k.__path__ = []
        out["openpyxl." + n] = k
    out["openpyxl.worksheet.cell_range"].CellRange = CellRange
    out["openpyxl.reader.excel"].load_workbook = load_workbook
    m.worksheet, m.utils, m.reader = out["openpyxl.worksheet"], out["openpyxl.utils"], out["openpyxl.reader"]
    m.worksheet.cell_range = out["openpyxl.worksheet.cell_range"]
    m.reader.excel = out["openpyxl.reader.excel"]
    m.utils.column_index_from_string = _colno
    return out


def read_excel(io, sheet_name=0, header=0, index_col=None, engine=None, **k):
    from . import stf

    t = stf.read_excel(io, sheet_name, index_col, header, **k)
    if t is not None:
        return t
    if k or header != 0:
        raise Unsupported("read_excel")
    b = load_workbook(io)
    sh = b.worksheets[sheet_name] if isinstance(sheet_name, int) else b[sheet_name]
    rows = list(sh.values)
    d = DataFrame([[NAN if x is None else x for x in r] for r in rows[1:]], columns=list(rows[0]))
    if index_col is not None:
        d = d.drop(columns=[list(d.cols)[index_col]])
    return d


class Period(object):
    def __init__(self, d, freq=None):
        self.d = _date(d)

    def __getattr__(self, n):
        if n in ("days_in_month", "daysinmonth", "year", "month", "day", "dayofyear"):
            return getattr(self.d, n)
        raise Unsupported("Period.%s" % n)


def _addn(xs):
    r = xs[0]
    for x in xs[1:]:
        r = X.add(r, x)
    return r


class Resampler(object):
    """groups of fixed length of a frame on a time index with a finer step"""

    def __init__(self, df, rule, k):
        if k or not isinstance(df.index, SIndex) or not isinstance(df.raw if isinstance(df, DataFrame) else df.data, snp.SArr):
            raise Unsupported("resample")
        st = _freq(rule)
        ix = df.index
        if st % ix.step or 1440 % st or not X.is_const(ix.start.m) or X.const_val(ix.start.m) % st:
            raise Unsupported("resample(%r)" % rule)
        self.q = st // ix.step
        self.df, self.step = df, st
        self.arr = df.raw if isinstance(df, DataFrame) else df.data
        if br(X.not_(X.eq(X.imod(ix.n, X.const(self.q)), ZERO))):
            raise Unsupported("resample with an incomplete last group")
        self.n = X.idiv(ix.n, X.const(self.q))
        if X.is_const(ix.n):
            self.n = X.const(X.const_val(ix.n) // self.q)

    def _agg(self, f, dt="f"):
        a, q = self.arr, self.q

        def get(k):
            b = X.scale(k, q)
            return f([a.c.get(X.add(b, X.const(j))) for j in range(q)])

        r = snp.SArr(self.n, dt, snp.FnC(get), 1)
        ix = SIndex(self.df.index.start, self.n, self.step)
        return DataFrame(r, index=ix) if isinstance(self.df, DataFrame) else Series(r, index=ix)

    def mean(self):
        return self._agg(lambda xs: X.scale(_addn(xs), Fraction(1, len(xs))))

    def sum(self):
        return self._agg(lambda xs: _addn(xs), self.arr.dt)

    def max(self):
        def f(xs):
            r = xs[0]
            for x in xs[1:]:
                r = X.ite(X.le(r, x), x, r)
            return r

        return self._agg(f, self.arr.dt)

    def min(self):
        def f(xs):
            r = xs[0]
            for x in xs[1:]:
                r = X.ite(X.le(x, r), x, r)
            return r

        return self._agg(f, self.arr.dt)

    def first(self):
        return self._agg(lambda xs: xs[0], self.arr.dt)

    def last(self):
        return self._agg(lambda xs: xs[-1], self.arr.dt)


class _DatedMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SIndex) and getattr(x, "dated", True)

    def __call__(cls, data=None, **k):
        from . import stf

        if isinstance(data, SIndex):
            return data
        return stf.TIndex(data)


class _Dated(metaclass=_DatedMeta):
    pass


def make_module():
    global FILES
    FILES = FS()
    m = _types.ModuleType("pandas")
    m.DataFrame, m.Series = DataFrame, Series
    m.date_range, m.Timedelta, m.Timestamp, m.concat, m.Period = date_range, Timedelta, Timestamp, concat, Period
    m.DatetimeIndex = _Dated
    m.Index = SIndex
    m.FS = FILES
    m.read_excel = read_excel
    from . import stf

    m.read_csv, m.ExcelWriter = stf.read_csv, stf.ExcelWriter
    m.to_datetime = lambda x, **k: _date(x)
    m.isna = m.isnull = lambda x: _isna(x) if not isinstance(x, Series) else x.isna()
    m.notna = m.notnull = lambda x: not _isna(x)
    m.offsets = m.tseries = None
    m.unique = lambda x: Series(list(x)).unique()
    m.__version__ = "2.1.4"

    def _missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "read_json":
            return read_json

        def f(*a, **k):
            raise Unsupported("pandas.%s" % name)

        return f

    m.__getattr__ = _missing
    return m


def _misread(x):
    """without precise_float, pandas may miss the last bit of numbers of more than 15 digits"""
    if isinstance(x, list):
        return snp.PList(_misread(v) for v in x)
    if type(x) is float and math.isfinite(x) and float("%.15g" % x) != x:
        return math.nextafter(x, math.inf)
    return x


def read_json(s, orient=None, precise_float=False, **k):
    """a text made by to_json(orient="values") or json.dumps"""
    x = smods.json_loads(s)
    if isinstance(x, list):
        return DataFrame(x if precise_float else _misread(x))
    raise Unsupported("pandas.read_json")


from . import attrs as _attrs  # noqa: E402

_attrs.lacking(SIndex, "index")
_attrs.lacking(SeqResult, "series")
_attrs.lacking(Series, "series")
_attrs.strict(globals())
