"""C21: plot objects keep the data they are given and report right figures"""
import datetime as dt
import os

from checks.common import *

PP = "ramp.post_process.post_process"
FUNCTIONS = ["ramp.post_process.post_process.Plot (all methods)", "ramp.core.core.UseCase.generate_daily_load_profiles (cases)"]
BOUNDS = "frames of up to eight time steps and three cases with any real values, listed time steps, resampling rules, conversions and selections; pandas frames, resampling and files are modelled (engine/stf.py) and validated on witnesses"
OUTSIDE = "longer frames, missing values, other resampling rules; the pictures drawn by matplotlib and plotly (only the data handed over is checked)"
NAMES = ["case 1", "case 2", "other"]


def times(n, step=30, start=dt.datetime(2021, 3, 1, 10, 30)):
    return [start + dt.timedelta(minutes=step * k) for k in range(n)]


def data(h, n, ncol, lo=-1000, hi=1000):
    return {NAMES[c]: [h.real("v%d_%d" % (c, k), lo, hi) for k in range(n)] for c in range(ncol)}


def plot(h, n=3, ncol=2, ts=None, lo=-1000, hi=1000):
    cols = data(h, n, ncol, lo, hi)
    ts = ts or times(n)
    return h.mod(PP).Plot(h.frame(ts, cols)), cols, ts


def same_frame(h, df, ts, cols):
    """a condition: the frame has these columns, in this order, on this index"""
    if list(df.columns) != list(cols) or len(df) != len(ts):
        return False
    if [x for x in df.index] != list(ts):
        return False
    c = []
    for n, v in cols.items():
        got = list(df[n])
        c += [near(h, a, b) for a, b in zip(got, v)]
    return h.and_(*c) if c else True


def near(h, a, b):
    if h.special(a) or h.special(b):
        return False
    return h.and_(h.le(a - b, 1e-6), h.le(b - a, 1e-6))


def resample(h):
    """one value per interval: the aggregate of the values in it, divided by the conversion"""
    n = h.pick("steps", t([5], [4, 8]))
    step, start = h.pick("index", [(30, dt.datetime(2021, 3, 1, 10, 30)), (20, dt.datetime(2021, 2, 28, 23, 20)), (60, dt.datetime(2021, 3, 1))])
    freq, minutes = h.pick("freq", [("1h", 60), ("2h", 120)] if not THOROUGH else [("1h", 60), ("2h", 120), ("3h", 180), ("1D", 1440)])
    rule = h.pick("rule", ["sum", "mean", "max", "min", "first", "last"] if THOROUGH else ["sum", "mean", "max", "first"])
    conv = h.pick("conversion", [None, 1000, 60])
    inplace = h.flag("inplace")
    p, cols, ts = plot(h, n, 2, times(n, step, start))
    kw = {} if conv is None else {"conversion": conv}
    if inplace:
        kw["inplace"] = True
    r = p.resample(freq, rule, **kw)
    if inplace:
        h.check("a resampling in place changes the object itself", r is None)
        r = p
    else:
        h.check("resampling keeps the original", same_frame(h, p.df, ts, cols))
    groups = []
    day = dt.datetime(ts[0].year, ts[0].month, ts[0].day)
    w = dt.timedelta(minutes=minutes)
    a = day + ((ts[0] - day) // w) * w
    while a <= ts[-1]:
        groups.append((a, [k for k, x in enumerate(ts) if a <= x < a + w]))
        a += w
    want = {}
    for c, v in cols.items():
        xs = []
        for _, g in groups:
            ys = [v[k] / (conv or 1) for k in g]
            if rule == "sum":
                x = sum(ys)
            elif rule == "mean":
                x = sum(ys) / len(ys)
            elif rule in ("first", "last"):
                x = ys[0 if rule == "first" else -1]
            else:
                x = ys[0]
                for y in ys[1:]:
                    x = h.mx(x, y) if rule == "max" else h.mn(x, y)
            xs.append(x)
        want[c] = xs
    h.check("each interval gets the aggregate of its values, converted", same_frame(h, r.df, [g for g, _ in groups], want))
    h.obs("first", list(r.df["case 1"])[0])


def across(h):
    """mean and sum of the cases at each time step"""
    n, ncol = 3, h.pick("cases", [1, 2, 3])
    p, cols, ts = plot(h, n, ncol)
    m, s = p.mean(), p.sum()
    tot = [sum(v[k] for v in cols.values()) for k in range(n)]
    h.check("the mean of the cases at each time step", same_frame(h, m.df, ts, {"Mean": [x / ncol for x in tot]}))
    h.check("the sum of the cases at each time step", same_frame(h, s.df, ts, {"Sum": tot}))
    h.check("mean and sum keep the original", same_frame(h, p.df, ts, cols))
    h.obs("mean", list(m.df["Mean"])[0])


def peak(h):
    """the peak is made of all the time steps where the case reaches its maximum, and of no other"""
    n = t(3, 4)
    p, cols, ts = plot(h, n, 2)
    pk = p.peak
    h.check("a peak for each case", list(pk) == list(cols))
    for c, v in cols.items():
        if c not in pk:
            continue
        s = pk[c]
        at = list(s.index)
        vals = list(s)
        top = v[0]
        for y in v[1:]:
            top = h.mx(top, y)
        for k in range(n):
            h.check("the peak hours are exactly the steps of the maximum", h.iff(ts[k] in at, h.eq(v[k], top)))
        for x in vals:
            h.check("the peak has the value of the maximum", h.eq(x, top))
    h.check("peak keeps the original", same_frame(h, p.df, ts, cols))


def error(h):
    """percent deviation from the validated data"""
    n = 2
    cols = {"case 1": [h.real("x%d" % k, -1000, 1000) for k in range(n)], "case 2": [h.pick("y%d" % k, [0.0, 40.0, -8.0, 0.25]) for k in range(n)]}
    ts = times(n)
    p = h.mod(PP).Plot(h.frame(ts, cols))
    a, b = h.pick("columns", [("case 1", "case 2"), ("case 2", "case 2")])
    er = list(p.error(a, b))
    h.check("an error for each time step", len(er) == n)
    for k, e in enumerate(er):
        x, y = cols[a][k], cols[b][k]
        if y == 0:
            if x == 0:
                h.check("no error where both are zero", near(h, e, 0))
            else:
                h.check("no finite error where only the validated value is zero", h.special(e))
            continue
        h.check("the error is the deviation in percent", near(h, e, (x - y) * (100 / y)))
    h.check("error keeps the original", same_frame(h, p.df, ts, cols))


def selections(h):
    """selecting gives exactly the selected data and keeps the original"""
    p, cols, ts = plot(h, 4, 3)
    how = h.pick("how", ["name", "names", "loc all", "loc column", "loc rows", "loc both", "iloc rows", "iloc columns", "iloc both", "head", "copy", "index", "one column", "one row", "some rows", "one value", "one column by position", "one row by position", "last row by position", "some rows by position", "one value by position"])
    rows, names = ts, list(cols)
    if how == "name":
        q, names = p["case 2"], ["case 2"]
    elif how == "names":
        q, names = p[["other", "case 1"]], ["other", "case 1"]
    elif how == "loc all":
        q = p.loc()
    elif how == "loc column":
        q, names = p.loc(columns=["case 2", "other"]), ["case 2", "other"]
    elif how == "loc rows":
        q, rows = p.loc(slice(ts[1], ts[2])), ts[1:3]
    elif how == "loc both":
        q, rows, names = p.loc(slice(None, ts[1]), ["other"]), ts[:2], ["other"]
    elif how == "iloc rows":
        q, rows = p.iloc(slice(1, 3)), ts[1:3]
    elif how == "iloc columns":
        q, names = p.iloc(columns=[2, 0]), ["other", "case 1"]
    elif how == "iloc both":
        q, rows, names = p.iloc([0, 3], slice(1, None)), [ts[0], ts[3]], names[1:]
    elif how == "one column":
        q, names = p.loc(columns="case 2"), ["case 2"]
    elif how == "one row":
        q, rows = p.loc(index=h.pick("given as", [ts[2], "2021-03-01 %02d:%02d" % (ts[2].hour, ts[2].minute)])), [ts[2]]
    elif how == "some rows":
        q, rows, names = p.loc([ts[1], ts[3]], ("other", "case 1")), [ts[1], ts[3]], ["other", "case 1"]
    elif how == "one value":
        q, rows, names = p.loc(ts[1], "other"), [ts[1]], ["other"]
    elif how == "one column by position":
        q, names = p.iloc(columns=1), names[1:2]
    elif how == "one row by position":
        q, rows = p.iloc(index=1), [ts[1]]
    elif how == "last row by position":
        q, rows = p.iloc(-1), [ts[-1]]
    elif how == "some rows by position":
        q, rows, names = p.iloc((0, 2), (1,)), [ts[0], ts[2]], names[1:2]
    elif how == "one value by position":
        q, rows, names = p.iloc(3, 2), [ts[3]], names[2:]
    elif how == "head":
        k = h.pick("rows", [1, 2, 4])
        q, rows = p.head(k), ts[:k]
    elif how == "copy":
        q = p.copy()
    else:
        q = h.mod(PP).Plot(h.frame(times(4, 15), cols), index=h.frame(ts, cols).index)
    kept = [ts.index(x) for x in rows]
    want = {c: [cols[c][k] for k in kept] for c in names}
    h.check("the selection holds exactly the selected data", same_frame(h, q.df, rows, want))
    h.check("the selection is a plot object", isinstance(q, h.mod(PP).Plot))
    h.check("columns and index of the selection", q.columns == list(names) and [x for x in q.index] == list(rows))
    # what is done to the selection does not reach the original
    what = h.pick("then", ["nothing", "add", "rename", "resample"])
    if what == "add":
        q.add_column(h.frame(rows, {"added": [float(k) for k in range(len(rows))]}))
        want["added"] = [float(k) for k in range(len(rows))]
        h.check("the added column", same_frame(h, q.df, rows, want))
    elif what == "rename":
        q.columns = ["c%d" % k for k in range(len(names))]
        h.check("the renamed columns", same_frame(h, q.df, rows, {"c%d" % k: v for k, v in enumerate(want.values())}))
    elif what == "resample":
        q.resample("1D", "sum", inplace=True)
        h.check("resampled in place", same_frame(h, q.df, [dt.datetime(2021, 3, 1)], {c: [sum(v)] for c, v in want.items()}))
    h.check("the original is kept", same_frame(h, p.df, ts, cols))


def add_column(h):
    """cases are added only on the same time steps"""
    p, cols, ts = plot(h, 3, 2)
    extra = [h.real("x%d" % k, -1000, 1000) for k in range(3)]
    kind = h.pick("kind", ["frame", "plot", "two columns", "replace", "other times", "longer", "list", "series"])
    new = {"new": extra}
    refused = kind in ("other times", "longer", "list", "series")
    ts2 = times(3, 30, dt.datetime(2021, 3, 2, 10, 30)) if kind == "other times" else times(4) if kind == "longer" else ts
    if kind == "two columns":
        new = {"b": extra, "a": [x + 1 for x in extra]}
    elif kind == "replace":
        new = {"case 1": extra}
    elif kind == "longer":
        new = {"new": extra + [1.0]}
    f = h.frame(ts2, new)
    if kind == "plot":
        f = h.mod(PP).Plot(f)
    elif kind == "list":
        f = extra
    elif kind == "series":
        f = f["new"]
    no = False
    try:
        p.add_column(f)
    except ValueError:
        no = True
    h.check("a column is refused exactly if it is no frame on the same time steps", no == refused)
    want = dict(cols)
    if not refused:
        want.update(new)
    h.check("the columns are added after the others", same_frame(h, p.df, ts, want))


def fakes(h):
    """stand-ins for the drawing libraries; returns the list of what is drawn"""
    pp = h.mod(PP)
    h.have(pp, "px", "go", "plt")
    out = h.capture_plots()
    drawn = []

    class Fig(object):
        def __init__(self):
            self.traces = []

        def update_layout(self, *a, **k):
            return self

        def add_trace(self, tr, *a, **k):
            self.traces.append(tr)
            drawn.append(("trace", tr))

        def add_subplot(self, *a, **k):
            return Ax()

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return lambda *a, **k: None

    class Ax(Fig):
        def plot(self, x, y, *a, **k):
            drawn.append(("plot", {"x": x, "y": y, "label": k.get("label")}))

    class PX(object):
        @staticmethod
        def line(df, *a, **k):
            out.append(("line", df.copy(), k))
            return Fig()

        @staticmethod
        def area(df, *a, **k):
            out.append(("area", df.copy(), k))
            return Fig()

    class GO(object):
        @staticmethod
        def Figure(*a, **k):
            return Fig()

        @staticmethod
        def Scatter(**k):
            return {"x": k["x"], "y": k["y"], "label": k.get("name")}

    class PLT(object):
        @staticmethod
        def figure(*a, **k):
            return Fig()

        @staticmethod
        def subplots(*a, **k):
            return Fig(), Ax()

    h.patch(pp, "px", PX)
    h.patch(pp, "go", GO)
    h.patch(pp, "plt", PLT)
    return out, drawn


ENGINES = ["matplotlib", "plotly", "Plotly"]


def drawing(h):
    """line, area and plain plots show the chosen cases"""
    out, _ = fakes(h)
    p, cols, ts = plot(h, 3, 3)
    kind = h.pick("kind", ["line", "area"])
    sel = h.pick("columns", [None, ["other", "case 1"], ["case 2"]])
    en = h.pick("engine", [None] + ENGINES)
    kw = {}
    if sel is not None:
        kw["columns"] = sel
    if en is not None:
        kw["engine"] = en
    getattr(p, kind)(**kw)
    h.check("one picture of the chosen kind", len(out) == 1 and out[0][0] == kind)
    if len(out) == 1:
        h.check("the picture shows exactly the chosen cases", same_frame(h, out[0][1], ts, {c: cols[c] for c in (sel or list(cols))}))
    h.check("drawing keeps the original", same_frame(h, p.df, ts, cols))
    no = False
    try:
        getattr(p, kind)(engine="other")
    except ValueError:
        no = True
    h.check("another engine is refused", no)


def duration(h):
    """the load duration curve: all the values in descending order, numbered from 1"""
    out, _ = fakes(h)
    n = t(3, 4)
    p, cols, ts = plot(h, n, 2)
    c = h.pick("column", ["case 1", "case 2"])
    p.load_duration_curve(c, engine=h.pick("engine", ["matplotlib", "plotly"]))
    h.check("one curve", len(out) == 1 and out[0][0] == "line")
    if len(out) != 1:
        return
    df = out[0][1]
    xs = list(df[c])
    h.check("numbered from 1", [int(x) for x in df.index] == list(range(1, n + 1)) and list(df.columns) == [c])
    for a, b in zip(xs, xs[1:]):
        h.check("in descending order", h.le(b, a))
    # every value as often as in the data
    for v in cols[c]:
        h.check("the values are those of the data", h.eq(sum(h.ite(h.eq(x, v), 1, 0) for x in xs), sum(h.ite(h.eq(y, v), 1, 0) for y in cols[c])))
    h.check("drawing keeps the original", same_frame(h, p.df, ts, cols))
    h.obs("first", xs[0])


def listed(x):
    """values of a trace, column by column"""
    sh = getattr(x, "shape", None)
    if sh is not None and len(sh) == 2:
        n, m = int(sh[0]), int(sh[1])
        if m == 1:
            return [list(x.ravel())]
        return [[x[k, j] for k in range(n)] for j in range(m)]
    return [list(x)]


def shadow(h):
    """the dark line is the average or the chosen case, the others are the chosen columns"""
    out, drawn = fakes(h)
    p, cols, ts = plot(h, 3, 3)
    main = h.pick("main", [None, "case 2"])
    sel = h.pick("columns", [None, "all", ["case 1", "other"], "other"])
    en = h.pick("engine", ["matplotlib", "plotly"])
    kw = {"engine": en}
    if sel is not None:
        kw["columns"] = sel
    if main:
        kw.update(main_column=main, average=False)
    p.shadow(**kw)
    want = cols[main] if main else [sum(v[k] for v in cols.values()) / 3 for k in range(3)]
    ys = [y for _, d in drawn for y in listed(d["y"])]
    names = list(cols) if sel in (None, "all") else [sel] if isinstance(sel, str) else sel
    h.check("one line for the average or chosen case and one for each shadow", len(ys) == 1 + len(names))
    if len(ys) == 1 + len(names):
        h.check("the dark line", h.and_(*[near(h, a, b) for a, b in zip(ys[0], want)]))
        h.check("its name", drawn[0][1]["label"] == (main or "Average"))
        for y, c in zip(ys[1:], names):
            h.check("the shadows are the chosen cases", h.and_(*[h.eq(a, b) for a, b in zip(y, cols[c])]))
    h.check("drawn over the time steps", all([x for x in d["x"]] == ts for _, d in drawn))
    h.check("drawing keeps the original", same_frame(h, p.df, ts, cols))
    for bad in ({"average": False}, {"average": True, "main_column": "case 1"}):
        no = False
        try:
            p.shadow(**bad)
        except ValueError:
            no = True
        h.check("contradicting options are refused", no)


def files(h):
    """written files give the same data back"""
    d = h.scratch()
    vals = {c: [h.pick("v%s%d" % (c, k), [0.0, 12.5]) if k == 0 else 10.25 * k + len(c) for k in range(3)] for c in NAMES[:2]}
    ts = times(3)
    Plot = h.mod(PP).Plot
    p = Plot(h.frame(ts, vals))
    kind = h.pick("kind", ["csv", "csv ;", "xlsx", "xlsx index", "xlsx sheet", "txt"])
    path = os.path.join(d, "res." + ("txt" if kind == "txt" else kind[:4].strip()))
    if kind.startswith("csv"):
        kw = {"sep": ";"} if kind == "csv ;" else {}
        p.to_csv(path, **kw)
        q = Plot.from_file(path, index=p.index, **kw)
    elif kind.startswith("xlsx"):
        p.to_excel(path)
        q = Plot.from_file(path, **({"index": p.index} if kind == "xlsx index" else {"sheet_name": "Sheet1"} if kind == "xlsx sheet" else {}))
    else:
        no = False
        try:
            Plot.from_file(path)
        except ValueError:
            no = True
        h.check("other formats are refused", no)
        return
    h.check("the file gives the same data back", same_frame(h, q.df, ts, vals))
    h.check("writing keeps the original", same_frame(h, p.df, ts, vals))


def cases(h):
    """one column per case, each with a generation of its own"""
    names = h.pick("cases", [["1"], ["a", "b"], [1, 2]])
    days = h.pick("days", [1, 2])
    u = user(h)
    ps = h.real("power", 1, 1000)
    appliance(h, u, name="a", number=1, power=ps, func_time=10, flat="yes", thermal_p_var=0.5, window_1=[100, 110])
    uc = h.core.UseCase(users=[u], date_start="2021-03-01", date_end="2021-03-%02d" % days)
    seen = []
    orig = h.core.UseCase.generate_daily_load_profiles

    def spy(self, *a, **k):
        r = orig(self, *a, **k)
        if k.get("cases") is None:
            seen.append(r)
        return r

    h.patch(h.core.UseCase, "generate_daily_load_profiles", spy)
    k0 = h.ndraws()
    uc.generate_daily_load_profiles()
    k1 = h.ndraws()
    del seen[:]
    res = uc.generate_daily_load_profiles(cases=names)
    h.check("each case is generated", h.ndraws() - k1 == (k1 - k0) * len(names))
    h.check("a plot object", isinstance(res, h.mod(PP).Plot))
    h.check("a column for each case", res.columns == ["case %s" % c for c in names])
    h.check("one row for each minute of the simulated days", len(res.df) == 1440 * days)
    if seen:
        h.check("one generation for each case", len(seen) == len(names))
    if len(seen) == len(names):
        m = h.int("minute", 0, 1440 * days - 1)
        for c, r in zip(names, seen):
            h.check("each case has its own generation", h.eq(res.df["case %s" % c].values[m], r[m]))
    h.obs("n", len(res.df))


HARNESSES = [{"name": f.__name__, "fn": f} for f in (resample, across, peak, error, selections, add_column, drawing, duration, shadow, files, cases)]
