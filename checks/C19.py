"""C19: yearly simulation with monthly files covers the year once"""
import os
from checks.common import *
from checks.C18 import jan1, everywhere

FUNCTIONS = ["ramp.cli.main (yearly profile)", "ramp.ramp_run.run_usecase", "ramp.core.core.UseCase.initialize"]
BOUNDS = "all years from 1950 to 2100, twelve input files with names in numeric order (other files in the folder), any value at any minute of the first and last days of each month over a profile with a different value in every minute, every minute and hour of the year"
OUTSIDE = "several years with monthly files (RAMP refuses folders then); the generation of each month's profiles (C10, C12)"
NAMES = ["file_%d", "%02d", "input 2 month_%d"]
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def folder(h, names, extra=()):
    d = os.path.join(h.scratch(), "inputs")
    os.mkdir(d)
    for f in list(reversed(names[1::2])) + names[0::2] + list(extra):
        open(os.path.join(d, f), "w").close()
    return d


def run(h, argv, profile):
    core = h.core
    h.mod("ramp.ramp_run")
    cli = h.mod("ramp.cli")
    runs, posts = [], []

    def load(uc, filename):
        runs.append({"file": filename, "uc": uc, "gens": 0})
        u = core.User("u", 1, 0)
        u.add_appliance(number=1, power=10.0, func_time=60, fixed="yes", flat="yes", window_1=[0, 60], name="a")
        uc.add_user(u)

    def gen(uc, *a, **k):
        for i, r in enumerate(runs):
            if r["uc"] is uc:
                r["gens"] += 1
                r["n"], r["days"], r["parallel"] = uc.num_days, uc.days, bool(uc.parallel_processing)
                return profile(i, h.conc(uc.num_days))
        raise AssertionError("generation without an input file")

    h.patch(core.UseCase, "load", load)
    h.patch(core.UseCase, "generate_daily_load_profiles", gen)
    if hasattr(core.UseCase, "calc_peak_time_range"):
        h.patch(core.UseCase, "calc_peak_time_range", lambda *a, **k: h.np.arange(600, 660))
    everywhere(h, "old_post_process", lambda *a, **k: posts.append(a), "ramp.post_process.post_process", "ramp.ramp_run")
    h.argv(*argv)
    tables = h.capture_csv()
    cli.main()
    return runs, posts, tables


def base(i, d, mi):
    """value of the profiles at minute mi of day d of month i"""
    return 100000 * i + 1440 * d + mi


def leap_year(h):
    """any year, and whether it is a leap year"""
    d, y, b, n = h.date_in_year("any", 1950, 2100)
    return y, b + 1, n


def setup(h, month, minute, x, where):
    def profile(i, n):
        rows = [h.np.arange(base(i, d, 0), base(i, d, 0) + 1440) * 1.0 for d in range(n)]
        if i == month:
            d = 0 if where == "first" else n - 1
            rows[d][minute] = x
        return h.np.array(rows)

    return profile


def name(h):
    return h.pick("names", NAMES)


def start(h, where=("first", "last"), names=True):
    y, j1, ylen = leap_year(h)
    pat = name(h) if names else NAMES[0]
    names = [(pat + ".xlsx") % (i + 1) for i in range(12)]
    d = folder(h, names, ["notes.txt", "old_1.csv"] if h.flag("other files") else [])
    month = h.pick("month", list(range(12)))
    pos = h.pick("day of the month", where)
    minute, x = h.int("minute", 0, 1439), h.real("x", 0, 2000000)
    dims = [28 + (ylen - 365) if i == 1 else DIM[i] for i in range(12)]
    day = sum(dims[:month]) + (0 if pos == "first" else dims[month] - 1)
    return y, j1, ylen, d, names, month, pos, minute, x, dims, day


def minutes(h):
    """the calendar of each run, and every minute of the written series"""
    y, j1, ylen, d, names, month, pos, minute, x, dims, day = start(h)
    p = ["-p"] if h.flag("parallel") else []
    runs, posts, tables = run(h, ["-i", d, "-y", h.text(y)] + p, setup(h, month, minute, x, pos))
    h.check("twelve runs, one per file", len(runs) == 12 and all(r["gens"] == 1 for r in runs))
    if len(runs) != 12:
        return
    h.check("files are used in numeric order", [os.path.basename(r["file"]) for r in runs] == names)
    h.check("in the folder given", all(os.path.dirname(r["file"]) == d for r in runs))
    r = runs[month]
    h.check("each month is simulated over its calendar days", h.and_(h.eq(r["n"], dims[month]), h.eq(h.ordinal(r["days"][0]), j1 + sum(dims[:month]))))
    h.check("parallel only on demand", r["parallel"] == bool(p))
    h.check("monthly results are not written on their own", not posts)
    h.check("two tables are written", len(tables) == 2)
    if len(tables) != 2:
        return
    here = os.path.abspath(os.path.curdir)
    h.check("files written", sorted(f for f, _ in tables) == [os.path.join(here, "yearly_profile_%s_resolution.csv" % s) for s in ("hourly", "min")])
    tm = [b for f, b in tables if f.endswith("min_resolution.csv")][0]
    h.check("one column", len(tm.names) == 1)
    h.check("one row per minute of the year", h.eq(tm.n, ylen * 1440))
    k = day * 1440 + minute
    ix = tm.ix(k)
    h.check("the time index is that of the minute", h.and_(h.eq(h.ordinal(ix), j1 + day), h.eq(h.minute_of(ix), minute)))
    h.check("the value simulated at a minute is written at that minute", h.eq(tm.at(tm.names[0], k), x))
    o = h.int("other", 0, 1439)
    h.assume(h.ne(o, minute))
    h.check("so are the values of the other minutes of the day", h.eq(tm.at(tm.names[0], day * 1440 + o), base(month, 0 if pos == "first" else dims[month] - 1, o)))


def hourly(h):
    y, j1, ylen, d, names, month, pos, minute, x, dims, day = start(h, ("first",), False)
    hour = h.pick("hour", t([0, 13, 23], list(range(24))))
    h.assume(h.and_(h.le(hour * 60, minute), h.lt(minute, hour * 60 + 60)) if h.flag("inside") else h.or_(h.lt(minute, hour * 60), h.le(hour * 60 + 60, minute)))
    out = os.path.join(os.path.dirname(d), "res")
    if h.flag("folder exists"):
        os.mkdir(out)
    runs, posts, tables = run(h, ["-i", d, "-y", h.text(y), "-o", out], setup(h, month, minute, x, "first"))
    h.check("two tables are written", len(tables) == 2)
    if len(tables) != 2:
        return
    h.check("in the folder asked for", sorted(f for f, _ in tables) == [os.path.join(out, "yearly_profile_%s_resolution.csv" % s) for s in ("hourly", "min")])
    th = [b for f, b in tables if f.endswith("hourly_resolution.csv")][0]
    h.check("mean, max and min of each hour", sorted(th.names) == ["max", "mean", "min"])
    h.check("one row per hour of the year", h.eq(th.n, ylen * 24))
    k = day * 24 + hour
    ix = th.ix(k)
    h.check("the time index is that of the hour", h.and_(h.eq(h.ordinal(ix), j1 + day), h.eq(h.minute_of(ix), hour * 60)))
    lo = base(month, 0, hour * 60)
    if h.val(h.and_(h.le(hour * 60, minute), h.lt(minute, hour * 60 + 60))):
        b = lo + (minute - hour * 60)
        mean = (sum(range(lo, lo + 60)) - b + x) / 60
        mx = h.mx(x, h.ite(h.eq(b, lo + 59), lo + 58, lo + 59))
        mi = h.mn(x, h.ite(h.eq(b, lo), lo + 1, lo))
    else:
        mean, mx, mi = lo + 29.5, lo + 59, lo
    h.check("mean of the hour", h.le(h.abs(th.at("mean", k) - mean), 1e-6))
    h.check("maximum of the hour", h.eq(th.at("max", k), mx))
    h.check("minimum of the hour", h.eq(th.at("min", k), mi))


def refused(h):
    y = h.int("year", 1950, 2100)
    n = h.pick("files", [0, 1, 11, 13])
    ext = h.pick("extra", ["", "txt"])
    names = ["f_%d.xlsx" % (i + 1) for i in range(n)]
    d = folder(h, names, ["x_%d.txt" % i for i in range(12 - n)] if ext else [])
    done = []
    try:
        done, posts, tables = run(h, ["-i", d, "-y", h.text(y)], lambda i, n: h.np.zeros((n, 1440)))
        ok = False
    except ValueError:
        ok = True
    h.check("a folder without exactly twelve input files is refused", ok)
    h.check("nothing is simulated", not done)


HARNESSES = [{"name": "minutes", "fn": minutes, "witness": 2}, {"name": "hourly", "fn": hourly, "witness": 2}, {"name": "refused", "fn": refused}]
