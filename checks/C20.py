"""C20: post-processed results are faithful to the simulated profiles"""
import os
from checks.common import *
from checks.C18 import everywhere

FUNCTIONS = ["ramp.post_process.post_process.Profile_formatting", "export_series", "old_post_process"]
BOUNDS = "one to %d days of 1440 values, the value of any minute of each day symbolic over a profile with a different value in every minute; every combination of the path arguments" % t(3, 5)
OUTSIDE = "the drawings; the text format of the numbers in the csv file (pandas)"


def base(d, mi):
    return 3.0 * mi + 7000 * d


def profiles(h):
    n = h.pick("days", list(range(1, t(4, 6))))
    kind = h.pick("kind", ["list", "array"])
    p, x = [], []
    m = h.int("minute", 0, 1439)
    for d in range(n):
        row = h.np.arange(0, 1440) * 3.0 + 7000 * d
        x.append(h.real("x%d" % d, -1e6, 1e6) if h.flag("any sign") else h.real("x%d" % d, 0, 1e6))
        row[m] = x[d]
        p.append(row)
    prof = h.np.array(p) if kind == "array" else p
    return n, prof, m, x


def values(h, n, m, x):
    """(minute, values of the days at that minute)"""
    if h.flag("at the symbolic minute"):
        return m, x
    o = h.int("other", 0, 1439)
    h.assume(h.ne(o, m))
    return o, [base(d, o) for d in range(n)]


def close(h, a, b):
    return h.le(h.abs(a - b), 1e-6)


def formatting(h):
    n, prof, m, x = profiles(h)
    avg, kw, series = h.mod("ramp.post_process.post_process").Profile_formatting(prof)
    k, v = values(h, n, m, x)
    h.check("the average has a value per minute", h.eq(h.size(avg), 1440))
    h.check("minute-wise average", close(h, avg[k] * n, sum(v)))
    h.check("as many profiles in kW", len(kw) == n)
    h.check("the series has every minute of every day", h.eq(h.size(series), 1440 * n))
    for d in range(n):
        h.check("profiles in kW", close(h, kw[d][k] * 1000, v[d]))
        h.check("days in kW keep their length", h.eq(h.size(kw[d]), 1440))
        h.check("the series is the concatenation of the days", h.eq(series[d * 1440 + k], v[d]))
        h.check("the profiles are left unchanged", h.eq(prof[d][k], v[d]))
    h.obs("avg", avg[k])


FN = ["inputs/input_file_1.xlsx", "/some/where/my.village.xlsx", "case.py"]


def default(h, j, fname):
    """the default path"""
    pp = h.mod("ramp.post_process.post_process")
    r = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(pp.__file__))), "results")
    if fname is not None:
        return os.path.join(r, "output_file_%s.csv" % os.path.basename(fname).replace(".", "_"))
    return os.path.join(r, "output_file_%d.csv" % j)


def same_path(a, b):
    return os.path.abspath(a) == os.path.abspath(b)


def export(h):
    pp = h.mod("ramp.post_process.post_process")
    n = h.pick("days", [1, 2])
    m, x = h.int("minute", 0, 1440 * n - 1), h.real("x", 0, 1e6)
    s = h.np.arange(0, 1440 * n) * 3.0
    s[m] = x
    how = h.pick("path", ["ofname", "fname", "case", "ofname and fname", "ofname and case", "none"])
    of = h.pick("ofname", ["out/a.csv", "/tmp/b.csv", "out/a", "b.txt", "c.d.csv"]) if "ofname" in how else None
    fn = h.pick("fname", FN) if "fname" in how.split() and how != "ofname" else None
    j = h.pick("j", [0, 1, 12]) if "case" in how else None
    if how == "ofname":
        fn = None
    k = {}
    if j is not None:
        k["j"] = j
    if fn is not None:
        k["fname"] = fn
    if of is not None:
        k["ofname"] = of
    tables = h.capture_csv()
    pp.export_series(s, **k)
    if how == "none":
        h.check("nothing is written without a path", len(tables) == 0)
        return
    h.check("one file is written", len(tables) == 1)
    if len(tables) != 1:
        return
    path, tab = tables[0]
    h.check("the path asked for, or the default one", same_path(path, of if of is not None else default(h, j, fn)))
    table(h, tab, 1440 * n, m, x)


def table(h, tab, n, m, x):
    h.check("one column", len(tab.names) == 1)
    h.check("every value of the series", h.eq(tab.n, n))
    h.check("values in order", h.and_(h.eq(tab.at(tab.names[0], m), x), h.eq(tab.ix(m), m)))
    o = h.int("other row", 0, n - 1)
    h.assume(h.ne(o, m))
    h.check("other values in order", h.eq(tab.at(tab.names[0], o), 3.0 * o))


def whole(h):
    """old_post_process exports the concatenation of the profiles and draws them"""
    pp = h.mod("ramp.post_process.post_process")
    n, prof, m, x = profiles(h)
    drawn = []
    everywhere(h, "Profile_series_plot", lambda *a, **k: drawn.append(("series", a[0] if a else list(k.values())[0])), "ramp.post_process.post_process")
    everywhere(h, "Profile_cloud_plot", lambda *a, **k: drawn.append(("cloud", (list(a) + list(k.values())))), "ramp.post_process.post_process")
    of = h.pick("ofname", [None, "out/a.csv"])
    fn = h.pick("fname", FN[:2])
    tables = h.capture_csv()
    pp.old_post_process(prof, fn, of)
    h.check("one file is written", len(tables) == 1)
    if len(tables) != 1:
        return
    path, tab = tables[0]
    h.check("the path asked for, or the default one", same_path(path, of if of is not None else default(h, None, fn)))
    k, v = values(h, n, m, x)
    d = h.pick("day", list(range(n)))
    h.check("every value of the series", h.eq(tab.n, 1440 * n))
    h.check("values in order", h.eq(tab.at(tab.names[0], d * 1440 + k), v[d]))
    s = [a for w, a in drawn if w == "series"]
    c = [a for w, a in drawn if w == "cloud"]
    h.check("the series is drawn", len(s) == 1 and h.val(h.eq(s[0][d * 1440 + k], v[d])))
    h.check("several days are drawn on top of each other with their average", len(c) == (1 if n > 1 else 0))
    if c:
        h.check("the days drawn", h.and_(h.eq(c[0][0][d][k], v[d]), close(h, c[0][1][k] * n, sum(v))))


HARNESSES = [{"name": f.__name__, "fn": f} for f in (formatting, export, whole)]
