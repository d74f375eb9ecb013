"""C12: the simulated calendar is the requested one"""
from checks.common import *

FUNCTIONS = ["ramp.core.core.UseCase.__init__", "UseCase.date_start", "UseCase.date_end", "UseCase.initialize", "UseCase.num_days", "UseCase.datetimeindex", "UseCase.is_initialized"]
BOUNDS = "any start and end dates between 1950 and 2100 (text, date and time objects), up to %d days, every day and every minute of the time index, up to three successive initialisations" % t(400, 2000)
OUTSIDE = "start dates with a time of the day; dates interrupted by a change of the clock (RAMP has no time zones)"
LO, HI = 711858, 766600
MAXN = t(400, 2000)


def give(h, d, how=None):
    how = how or h.pick("given as", ["text", "datetime"])
    return h.iso(d) if how == "text" else d


def calendar(h, uc, first, n, label):
    h.check(label + "the number of days is the requested one", h.and_(h.eq(uc.num_days, n), h.eq(h.size(uc.days), n)))
    k = h.int("day", 0, MAXN)
    h.assume(h.lt(k, n))
    h.check(label + "the days are consecutive from the first one", h.and_(h.eq(h.ordinal(uc.days[k]), first + k), h.eq(h.minute_of(uc.days[k]), 0)))
    idx = uc.datetimeindex
    h.check(label + "the time index has one entry per minute", h.eq(h.size(idx), 1440 * n))
    m = h.int("minute", 0, 1439)
    x = idx[k * 1440 + m]
    h.check(label + "the time index covers exactly the days", h.and_(h.eq(h.ordinal(x), first + k), h.eq(h.minute_of(x), m)))
    h.check(label + "the use case is initialised", uc.is_initialized is True)
    h.obs("first", h.ordinal(uc.days[0]))
    h.obs("n", uc.num_days)


def both(h):
    """start and end date"""
    s, e = h.date("start", LO, HI), h.date("end", LO, HI + MAXN)
    n = h.ordinal(e) - h.ordinal(s) + 1
    h.assume(h.and_(h.le(1, n), h.le(n, MAXN)))
    how = h.pick("how", ["construction", "setters", "again"])
    if how == "setters":
        uc = h.core.UseCase()
        uc.date_start = give(h, s)
        uc.date_end = give(h, e, "text")
        if h.flag("explicit"):
            uc.initialize()
    else:
        uc = h.core.UseCase(date_start=give(h, s), date_end=give(h, e, "datetime"))
        if how == "again":
            uc.initialize()
    calendar(h, uc, h.ordinal(s), n, "start and end: ")


def conflict(h):
    """num_days wins over the end date"""
    s, e = h.date("start", LO, HI), h.date("end", LO, HI + MAXN)
    n = h.ordinal(e) - h.ordinal(s) + 1
    h.assume(h.and_(h.le(1, n), h.le(n, MAXN)))
    k = h.int("num_days", 1, MAXN)
    if h.flag("at construction"):
        uc = h.core.UseCase(date_start=give(h, s), date_end=give(h, e))
        uc.initialize(num_days=k, force=True)
    else:
        uc = h.core.UseCase(date_start=s)
        uc.date_end = e
        uc.initialize(num_days=k)
    calendar(h, uc, h.ordinal(s), k, "conflict: ")


def unforced(h):
    """without force an initialised use case stays as it is"""
    s = h.date("start", LO, HI)
    n, k = h.int("num_days", 1, MAXN), h.int("other", 1, MAXN)
    uc = h.core.UseCase(date_start=give(h, s))
    uc.initialize(num_days=n)
    if h.flag("other start"):
        uc.date_start = h.date("start2", LO, HI)
    uc.initialize(num_days=k)
    calendar(h, uc, h.ordinal(s), n, "unforced: ")


def start_only(h):
    s = h.date("start", LO, HI)
    n = h.int("num_days", 1, MAXN)
    uc = h.core.UseCase(date_start=give(h, s))
    _init(h, uc, n)
    calendar(h, uc, h.ordinal(s), n, "start only: ")


def _init(h, uc, n):
    """number of days as an argument, or asked for"""
    if h.flag("asked"):
        h.set_input_lines([n])
        uc.initialize()
    else:
        uc.initialize(num_days=n)


def end_only(h):
    e = h.date("end", LO + MAXN, HI)
    n = h.int("num_days", 1, MAXN)
    if h.flag("setter"):
        uc = h.core.UseCase()
        uc.date_end = give(h, e)
    else:
        uc = h.core.UseCase(date_end=give(h, e))
    _init(h, uc, n)
    calendar(h, uc, h.ordinal(e) - n + 1, n, "end only: ")


def no_date(h):
    n = h.int("num_days", 1, MAXN)
    now = h.today()
    uc = h.core.UseCase()
    _init(h, uc, n)
    calendar(h, uc, h.ordinal(now), n, "today: ")


def forced(h):
    """forced initialisations follow the current dates"""
    s, e = h.date("start", LO, HI), h.date("end", LO, HI + MAXN)
    n = h.ordinal(e) - h.ordinal(s) + 1
    h.assume(h.and_(h.le(1, n), h.le(n, MAXN)))
    first = h.pick("first", ["both", "start and days", "today"])
    k = h.int("num_days", 1, MAXN)
    if first == "both":
        uc = h.core.UseCase(date_start=s, date_end=e)
    elif first == "start and days":
        uc = h.core.UseCase(date_start=s)
        uc.initialize(num_days=k)
    else:
        uc = h.core.UseCase()
        uc.initialize(num_days=k)
    s2 = h.date("start2", LO, HI)
    then = h.pick("then", ["both", "start", "days", "start and days", "end"])
    if then == "both":
        e2 = h.date("end2", LO, HI + MAXN)
        n2 = h.ordinal(e2) - h.ordinal(s2) + 1
        h.assume(h.and_(h.le(1, n2), h.le(n2, MAXN)))
        uc.date_start, uc.date_end = give(h, s2, "text"), give(h, e2, "datetime")
        uc.initialize(force=True)
        calendar(h, uc, h.ordinal(s2), n2, "forced, new dates: ")
    elif then == "start":
        uc.date_start = s2
        if first == "both":
            h.assume(h.and_(h.le(h.ordinal(s2), h.ordinal(e)), h.lt(h.ordinal(e) - h.ordinal(s2), MAXN)))
            want = h.ordinal(e) - h.ordinal(s2) + 1
        else:
            want = k
        uc.initialize(force=True)
        calendar(h, uc, h.ordinal(s2), want, "forced, new start: ")
    elif then == "end":
        h.assume(first == "both")
        e2 = h.date("end2", LO, HI + MAXN)
        n2 = h.ordinal(e2) - h.ordinal(s) + 1
        h.assume(h.and_(h.le(1, n2), h.le(n2, MAXN)))
        uc.date_end = e2
        uc.initialize(force=True)
        calendar(h, uc, h.ordinal(s), n2, "forced, new end: ")
    else:
        k2 = h.int("num_days2", 1, MAXN)
        if then == "start and days":
            uc.date_start = s2
            want = h.ordinal(s2)
        else:
            want = h.ordinal(s) if first != "today" else h.ordinal(h.today())
        uc.initialize(num_days=k2, force=True)
        calendar(h, uc, want, k2, "forced, new number of days: ")


def profiles(h):
    """one row of the results per day"""
    s = h.date("start", LO, HI)
    n = h.pick("num_days", [1, 2, 5])
    u = user(h)
    appliance(h, u, number=1, power=10.0, func_time=5, flat="yes", window_1=[100, 200])
    uc = h.core.UseCase(users=[u], date_start=s)
    uc.initialize(num_days=n)
    p = uc.generate_daily_load_profiles(flat=False)
    h.check("one row per simulated day", h.eq(p.shape[0], n))
    calendar(h, uc, h.ordinal(s), n, "after a generation: ")


def given_days(h):
    """the days handed to the generation are the simulated ones, if none were declared"""
    s = h.date("start", LO, HI)
    n = h.pick("num_days", [1, 2, 5])
    u = user(h)
    appliance(h, u, number=1, power=10.0, func_time=5, flat="yes", window_1=[100, 200])
    uc = h.core.UseCase(users=[u], parallel_processing=h.pick("parallel", [False, True]))
    days = h.pd.date_range(start=s, periods=n)
    how = h.pick("how", ["rows", "flat", "cases", "parallel"])
    m = h.int("minute_of_day", 0, 1439)
    d = h.pick("day_of_results", list(range(n)))
    load = h.ite(h.and_(h.le(100, m), h.lt(m, 200)), 10, 0)
    if how == "rows":
        p = uc.generate_daily_load_profiles(days=days, flat=False)
        h.check("one row per given day", h.and_(h.eq(p.shape[0], n), h.eq(p[d, m], load)))
    elif how == "flat":
        p = uc.generate_daily_load_profiles(days=days)
        h.check("one row per given day", h.and_(h.eq(h.size(p), 1440 * n), h.eq(p[d * 1440 + m], load)))
    elif how == "cases":
        p = uc.generate_daily_load_profiles(days=days, cases=["a", "b"])
        h.check("one row per given day", h.eq(h.size(p.index), 1440 * n))
    else:
        p = uc.generate_daily_load_profiles_parallel(days=days, flat=False)
        h.check("one row per given day", h.and_(h.eq(p.shape[0], n), h.eq(p[d, m], load)))
    calendar(h, uc, h.ordinal(s), n, "given days: ")


HARNESSES = [{"name": f.__name__, "fn": f} for f in (both, conflict, unforced, start_only, end_only, no_date, forced, profiles, given_days)]
