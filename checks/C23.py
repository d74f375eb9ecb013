"""C23: a power series too short for the simulated days is refused"""
from checks.common import *

FUNCTIONS = ["ramp.core.core.Appliance.check_power_values", "UseCase.initialize", "UseCase.__init__", "UseCase.generate_daily_load_profiles", "User.add_appliance", "User.num_days"]
BOUNDS = "power series of any length up to 400 and any number of days up to 400 for the validation; up to four days with any powers for the values used, any day of up to 800 for one series"
OUTSIDE = "longer series; more than two appliances with a series"


def series(h, n, name="p"):
    """a power series of n (symbolic) values"""
    return h.pd.DataFrame(h.np.arange(n) * 1.0)


def order(h, make, ndays, dates):
    """builds the use case in one of the possible orders, initialises it; returns (refused, use case, appliance)"""
    when = h.pick("order", ["appliance first", "user first", "use case first", "after another one"])
    u = user(h)
    u2 = user(h, user_name="v")
    u2.add_appliance(name="const", power=3.0, number=1, func_time=5, window_1=[0, 100])
    kw = {}
    refused = False
    a = None
    try:
        if when == "appliance first":
            a = make(u)
            uc = h.core.UseCase(users=[u2, u], **kw)
        elif when == "user first":
            uc = h.core.UseCase(users=[u, u2], **kw)
            a = make(u)
        elif when == "use case first":
            uc = h.core.UseCase(**kw)
            uc.add_user(u2)
            uc.add_user(u)
            a = make(u)
        else:
            uc = h.core.UseCase(users=[u2], **kw)
            uc.date_start = "2021-03-01"
            uc.initialize(num_days=1)
            uc.add_user(u)
            a = make(u)
            uc.initialize(num_days=ndays, force=True)
            return False, uc, a
        uc.date_start = "2021-03-01"
        uc.initialize(num_days=ndays)
    except ValueError as x:
        if "power" not in str(x):
            raise
        return True, None, a
    return False, uc, a


def lengths(h):
    """refused exactly if shorter than the number of days"""
    n = h.int("values", 1, 400)
    nd = h.int("days", 1, 400)
    no, uc, a = order(h, lambda u: u.add_appliance(name="a", number=1, func_time=5, power=series(h, n), window_1=[0, 100]), nd, None)
    h.check("a series is refused exactly if it is shorter than the simulated days", h.iff(no, h.lt(n, nd)))
    h.obs("refused", no)
    if not no:
        h.check("the series keeps its length", h.eq(h.size(a.power), n))


def with_dates(h):
    """the days come from the start and end dates"""
    n = h.int("values", 1, 40)
    d = h.date("start", 730000, 740000)
    k = h.int("length", 1, 40)
    e = h.date("end", 730000, 740040)
    h.assume(h.eq(h.ordinal(e) - h.ordinal(d) + 1, k))
    late = h.flag("added afterwards")
    u = user(h)
    if not late:
        u.add_appliance(name="a", number=1, func_time=5, power=series(h, n), window_1=[0, 100])
    no = False
    try:
        uc = h.core.UseCase(users=[u], date_start=d, date_end=e)
        if late:
            u.add_appliance(name="a", number=1, func_time=5, power=series(h, n), window_1=[0, 100])
            uc.initialize(force=True)
    except ValueError as x:
        if "power" not in str(x):
            raise
        no = True
    h.check("a series is refused exactly if it is shorter than the simulated days", h.iff(no, h.lt(n, k)))
    h.obs("refused", no)


def constant(h):
    """a constant power is extended with the same value"""
    p = h.pick("zero", [False, True])
    p = 0 if p else h.real("power", 0, 1000)
    nd = h.int("days", 1, 1500)
    no, uc, a = order(h, lambda u: u.add_appliance(name="a", number=1, func_time=5, power=p, window_1=[0, 100]), nd, None)
    h.check("a constant power is never refused", not no)
    if no:
        return
    h.check("a constant power covers the simulated days", h.le(nd, h.size(a.power)))
    k = h.int("day", 0, 1499)
    h.assume(h.lt(k, nd))
    h.check("with the same value", h.eq(a.power[k], p))
    h.obs("power", a.power[k])


def second(h):
    """every appliance is checked: the series of the second or third one is the short one"""
    ns = [h.pick("values%d" % k, [1, 3, 4, 6]) for k in range(3)]
    nd = h.int("days", 1, 7)
    same_user = h.flag("same user")
    u, v = user(h), user(h, user_name="v")
    for k in range(3):
        (u if same_user or k == 0 else v).add_appliance(name="a%d" % k, number=1, func_time=5, power=h.pd.DataFrame([1.5 * k + j for j in range(ns[k])]), window_1=[0, 100])
    uc = h.core.UseCase(users=[u, v], date_start="2021-03-01")
    no = False
    try:
        uc.initialize(num_days=nd)
    except ValueError as x:
        if "power" not in str(x):
            raise
        no = True
    h.check("refused exactly if one of the series is too short", h.iff(no, h.or_(*[h.lt(n, nd) for n in ns])))
    h.obs("refused", no)


def values(h, parallel=False):
    """day d uses the d-th value"""
    nd = h.pick("days", [1, 2, 3] if parallel else [1, 2, 4])
    more = h.pick("more values", [0, 1])
    ps = [h.real("power%d" % k, 1, 1000) for k in range(nd + more)]
    c = h.real("constant", 1, 1000)
    flat = h.pick("flat", ["yes", "no"])

    def make(u):
        u.add_appliance(name="c", number=1, func_time=1, func_cycle=1, fixed="yes", flat="yes", power=c, window_1=[500, 510])
        return u.add_appliance(name="a", number=1, func_time=10, func_cycle=10, fixed="yes", flat=flat, power=h.pd.DataFrame(ps), window_1=[100, 111])

    when = h.pick("order", ["before", "after"])
    u = user(h)
    if when == "before":
        make(u)
    uc = h.core.UseCase(users=[u], date_start="2021-03-01", parallel_processing=parallel)
    if when == "after":
        make(u)
    uc.initialize(num_days=nd)
    prof = uc.generate_daily_load_profiles(flat=False)
    for d in range(nd):
        h.check("day d uses the d-th value of the series", h.eq(prof[d][105], ps[d]))
        h.check("day d uses the constant power", h.eq(prof[d][505], c))
        h.obs("load", prof[d][105])


def values_parallel(h):
    values(h, True)


def any_day(h):
    """day d of a long simulation uses the d-th value"""
    n = h.int("values", 1, 800)
    d = h.int("day", 0, 799)
    h.assume(h.lt(d, n))
    u = user(h, num_users=1)
    u.add_appliance(name="a", number=1, func_time=10, func_cycle=10, fixed="yes", flat=h.pick("flat", ["yes", "no"]), power=h.pd.DataFrame(h.np.arange(n) + 1.0), window_1=[100, 111])
    prof = u.generate_aggregated_load_profile(d, h.np.arange(600, 700), 0)
    h.check("day d uses the d-th value of the series", h.eq(prof[105], d + 1.0))
    h.obs("load", prof[105])


def added(h):
    """appliances and users added after the use case was initialised are checked when profiles are generated"""
    n = h.int("values", 1, 6)
    k = h.pick("days", [1, 3])
    par = h.flag("parallel")
    how = h.pick("added", ["appliance", "user", "user, then appliance", "between generations"])
    uc = h.core.UseCase(date_start="2021-03-01", date_end="2021-03-%02d" % k, parallel_processing=par)
    c = user(h, user_name="c")
    c.add_appliance(name="c", power=3.0, number=1, func_time=5, flat="yes", window_1=[0, 100])
    u = user(h, user_name="u", num_users=1)
    if how in ("appliance", "between generations"):
        uc.add_user([c, u])
    elif how == "user, then appliance":
        uc.add_user(u)
    if how == "between generations":
        uc.generate_daily_load_profiles()
    u.add_appliance(name="a", number=1, func_time=5, flat="yes", power=series(h, n), window_1=[100, 200])
    if how == "user":
        uc.add_user(u)
    no = False
    try:
        uc.generate_daily_load_profiles()
    except ValueError as x:
        if "power" not in str(x):
            raise
        no = True
    h.check("a series is refused exactly if it is shorter than the simulated days", h.iff(no, h.lt(n, k)))
    h.obs("refused", no)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (lengths, with_dates, constant, second, values, values_parallel, any_day, added)]
