"""C27: day types follow the calendar"""
from checks.common import *

FUNCTIONS = ["ramp.core.utils.get_day_type", "yearly_pattern", "ramp.core.core.UseCase.generate_daily_load_profiles", "UseCase.generate_daily_load_profiles_parallel", "UseCase.initialize"]
BOUNDS = "dates from 1950 to 2150 as text, date and datetime; any year from %d to %d and any day of it; simulations of one to four days" % t((2000, 2027), (1970, 2120))
OUTSIDE = "other centuries"
LO, HI = 711858, 785272  # 1950-01-01, 2150-12-31


def weekend(h, o):
    """ordinal 1 is a Monday"""
    return h.le(5, (o + 6) % 7)


def verdict(h, v, o):
    h.check("Saturdays and Sundays are weekend days, the others week days", h.eq(v, h.ite(weekend(h, o), 1, 0)))
    h.obs("type", v)


def of_datetime(h):
    d = h.date("day", LO, HI, minutes=h.flag("with a time"))
    verdict(h, h.utils.get_day_type(d), h.ordinal(d))


def of_date(h):
    d = h.date("day", LO, HI, kind="date")
    verdict(h, h.utils.get_day_type(d), h.ordinal(d))


def of_text(h):
    d = h.date("day", LO, HI, kind="date")
    verdict(h, h.utils.get_day_type(h.iso(d)), h.ordinal(d))


def jan1(y):
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 + 1


def pattern(h):
    y = h.int("year", *t((2000, 2027), (1970, 2120)))
    p = h.utils.yearly_pattern(y)
    o = jan1(y)
    n = jan1(y + 1) - o
    h.check("one value per day of the year", h.eq(h.size(p), n))
    k = h.int("k", 0, 365)
    h.assume(h.lt(k, n))
    h.check("the pattern of a year holds the type of each of its days", h.eq(h.at(p, k), h.ite(weekend(h, o + k), 1, 0)))
    h.obs("type", h.at(p, k))


def default_pattern(h):
    p = h.utils.yearly_pattern()
    h.check("the default pattern has 365 days", h.eq(h.size(p), 365))
    k = h.int("k", 0, 364)
    h.check("the default pattern starts on a Monday", h.eq(h.at(p, k), h.ite(h.le(5, k % 7), 1, 0)))
    h.obs("type", h.at(p, k))


def simulation(h, parallel=False):
    """the simulation uses the type of the simulated day"""
    d = h.date("start", LO, HI)
    n = h.pick("days", t([1, 3], [1, 2, 4]))
    wd = h.pick("wd_we_type", [0, 1, 2])
    u = user(h)
    appliance(h, u, number=1, power=10.0, func_time=5, flat="yes", wd_we_type=wd, window_1=[300, 400])
    uc = h.core.UseCase(users=[u], date_start=d, parallel_processing=parallel)
    uc.initialize(num_days=n)
    prof = uc.generate_daily_load_profiles(flat=False)
    o = h.ordinal(d)
    for k in range(n):
        on = h.eq(prof[k][350], 10)
        we = weekend(h, o + k)
        want = we if wd == 1 else h.not_(we) if wd == 0 else True
        h.check("an appliance is used on the days of its day type", h.and_(h.iff(on, want), h.or_(on, h.eq(prof[k][350], 0))))
        h.obs("load", prof[k][350])


def simulation_parallel(h):
    simulation(h, True)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (of_datetime, of_date, of_text, pattern, default_pattern, simulation, simulation_parallel)]
