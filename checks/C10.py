"""C10: totals: every user, every instance, every appliance counted exactly once"""
from checks.common import *

FUNCTIONS = FUNCTIONS + ["ramp.core.core.UseCase.generate_daily_load_profiles", "UseCase.initialize", "User.generate_aggregated_load_profile", "User.generate_single_load_profile"]
BOUNDS = "up to two users with zero to three instances and up to two appliances each, one to three days, any powers (one per day) and windows, any minute; repeated generations"
OUTSIDE = "more users, appliances and days; the layout of the results of `cases` (pandas and plot objects)"


def build(h, parallel=False, maxu=3):
    """users with flat appliances, whose load is known"""
    nd = h.pick("days", [1, 2, 3] if maxu > 1 else [1, 2])
    shape = h.pick("appliances", [(1, 1), (2, 1), (1, 0), (0, 2), (2, 2)])
    nums = [h.pick("num_users%d" % k, [0, 1, 2] + ([3] if maxu > 2 and k == 0 else [])) for k in range(2)]
    us, parts = [], []
    for k in range(2):
        u = user(h, user_name="u%d" % k, num_users=nums[k])
        us.append(u)
        for j in range(shape[k]):
            ps = [h.real("power%d_%d_%d" % (k, j, d), 1, 100) for d in range(nd)]
            s, e = sym_window(h, "w%d_%d" % (k, j), 0, 1440, 10) if k + j == 0 and shape == (1, 1) and nd == 2 else (100 * (k + j), 100 * (k + j) + 150)
            n = 1 + j
            appliance(h, u, name="a%d%d" % (k, j), number=n, power=h.pd.DataFrame(ps), func_time=5, flat="yes", window_1=[s, e])
            parts.append((nums[k] * n, ps, s, e))
    uc = h.core.UseCase(users=us, date_start="2021-03-01", parallel_processing=parallel)
    uc.initialize(num_days=nd)
    return nd, us, parts, uc


def expected(h, parts, d, m):
    v = 0
    for n, ps, s, e in parts:
        v = v + h.ite(h.and_(h.le(s, m), h.lt(m, e)), n * ps[d], 0)
    return v


def verdict(h, prof, flat, nd, parts, label):
    if flat:
        h.check(label + "the flat result has the minutes of all days", h.eq(h.size(prof), nd * 1440))
    else:
        h.check(label + "the result has one row of 1440 minutes per day", h.and_(h.eq(prof.shape[0], nd), h.eq(prof.shape[1], 1440)))
    m = h.int(label + "minute", 0, 1439)
    for d in range(nd):
        v = prof[d * 1440 + m] if flat else prof[d][m]
        h.check(label + "the load of each day is the sum over users, instances and appliances", h.eq(v, expected(h, parts, d, m)))
        h.obs("v", v)


def totals(h, parallel=False):
    nd, us, parts, uc = build(h, parallel, 3 if not parallel else 2)
    flat = h.flag("flat")
    verdict(h, uc.generate_daily_load_profiles(flat=flat), flat, nd, parts, "")


def repeated(h):
    """a second generation does not see the first one"""
    nd, us, parts, uc = build(h, False, 1)
    uc.generate_daily_load_profiles()
    if h.flag("one user in between"):
        us[0].generate_aggregated_load_profile(nd - 1, uc.peak_time_range, 1)
    verdict(h, uc.generate_daily_load_profiles(flat=False), False, nd, parts, "again: ")


def record(h, calls):
    """records the daily profile of each appliance simulated"""
    cls = h.core.Appliance
    orig = cls.generate_load_profile

    def generate_load_profile(self, *a, **k):
        r = orig(self, *a, **k)
        calls.append((self, a[0] if a else k.get("prof_i"), 1 * self.daily_use))
        return r

    cls.generate_load_profile = generate_load_profile
    return lambda: setattr(cls, "generate_load_profile", orig)


def random_loads(h):
    """every instance of every user is simulated on its own and counted once"""
    nums = [h.pick("num_users%d" % k, [0, 1, 2]) for k in range(2)]
    h.assume(sum(nums) > 0)
    nd = h.pick("days", [1, 2])
    us = []
    for k in range(2):
        u = user(h, user_name="u%d" % k, num_users=nums[k], user_preference=2 * k)
        us.append(u)
        p = h.real("power%d" % k, 1, 100)
        appliance(h, u, name="a", number=1, power=p, func_time=5, flat="yes", occasional_use=0.5, window_1=[100 + 50 * k, 300])
        if k == 1:
            appliance(h, u, name="b", number=2, power=h.real("powerb", 1, 100), func_time=5, flat="yes", occasional_use=1, pref_index=1, window_1=[200, 290])
    uc = h.core.UseCase(users=us, date_start="2021-03-01")
    uc.initialize(num_days=nd)
    calls = []
    undo = record(h, calls)
    k0 = h.ndraws()
    try:
        prof = uc.generate_daily_load_profiles(flat=False)
    finally:
        undo()
    m = h.int("minute", 0, 1439)
    for d in range(nd):
        mine = [c for c in calls if c[1] == d]
        for k, u in enumerate(us):
            for a in u.App_list:
                h.check("every appliance is simulated once per instance and day", sum(1 for c in mine if c[0] is a) == nums[k])
        v = 0
        for c in mine:
            v = v + c[2][m]
        h.check("the load of a day is the sum of its simulations", h.eq(prof[d][m], v))
        h.obs("v", prof[d][m])


def one_user(h):
    """aggregated and single profiles of a user"""
    n = h.pick("num_users", [0, 1, 3])
    ps = [h.real("power%d" % k, 1, 100) for k in range(3)]
    u = user(h, num_users=n)
    s, e = sym_window(h, "w1", minlen=10)
    appliance(h, u, name="a", number=1, power=h.pd.DataFrame(ps), func_time=5, flat="yes", window_1=[s, e])
    appliance(h, u, name="b", number=2, power=h.pd.DataFrame(ps[::-1]), func_time=5, flat="yes", window_1=[200, 400])
    d = h.pick("day", [0, 2])
    peak = h.np.arange(600, 700)
    m = h.int("minute", 0, 1439)
    one = h.ite(h.and_(h.le(s, m), h.lt(m, e)), ps[d], 0) + h.ite(h.and_(h.le(200, m), h.lt(m, 400)), 2 * ps[2 - d], 0)
    h.check("the profile of an instance is the sum of its appliances", h.eq(u.generate_single_load_profile(d, peak, 0)[m], one))
    for again in range(2):
        r = u.generate_aggregated_load_profile(d, peak, 0)
        h.check("the profile of a user is the sum of its instances", h.and_(h.eq(r[m], n * one), h.eq(u.load[m], n * one)))
        h.obs("v", r[m])


def same_names(h, parallel=False):
    """users, and appliances, that have the same name or the same values are all counted"""
    us, parts = [], []
    names = h.pick("names", ["same users", "same appliances", "no names", "same everything"])
    x = h.real("power", 1, 100)
    for k in range(2):
        u = user(h, user_name="" if names == "no names" else "u" if names in ("same users", "same everything") else "u%d" % k, num_users=1)
        us.append(u)
        for j in range(2):
            s, e = (100, 200) if names == "same everything" else (100 * (2 * k + j), 100 * (2 * k + j) + 150)
            p = x if names == "same everything" else h.real("power%d_%d" % (k, j), 1, 100)
            if names == "same everything" and j:
                continue
            appliance(h, u, name="a" if names in ("same appliances", "same everything") else "" if names == "no names" else "a%d" % j, number=1, power=p, func_time=5, flat="yes", window_1=[s, e])
            parts.append((1, [p] * 2, s, e))
    nd = h.pick("days", [1, 2])
    uc = h.core.UseCase(users=us, date_start="2021-03-01", parallel_processing=parallel)
    uc.initialize(num_days=nd)
    verdict(h, uc.generate_daily_load_profiles(flat=False), False, nd, parts, "same names: ")


def own_days(h, parallel=False):
    """appliances that are not flat use the power of their day as well"""
    nd = h.pick("days", [2, 3])
    n = h.pick("number", [1, 2])
    u = user(h, num_users=h.pick("num_users", [1, 2]))
    ps = [h.real("power%d" % d, 1, 100) for d in range(nd)]
    # always in use at minute 105
    appliance(h, u, name="a", number=n, power=h.pd.DataFrame(ps), func_time=9, func_cycle=9, fixed="yes", window_1=[100, 110])
    uc = h.core.UseCase(users=[u], date_start="2021-03-01", parallel_processing=parallel)
    uc.initialize(num_days=nd)
    prof = uc.generate_daily_load_profiles(flat=False)
    for d in range(nd):
        h.check("every day uses the power of the day", h.eq(prof[d][105], u.num_users * n * ps[d]))
        h.obs("v", prof[d][105])


def nothing(h, parallel=False):
    """users without instances or appliances, no user at all"""
    us = [user(h, num_users=h.pick("num_users", [0, 2])) for _ in range(h.pick("users", [0, 1, 2]))]
    if us and h.flag("appliance of a user without instances"):
        us[0].num_users = 0
        appliance(h, us[0], number=1, power=10.0, func_time=5, flat="yes", window_1=[100, 200])
    nd = h.pick("days", [1, 2])
    uc = h.core.UseCase(users=us, date_start="2021-03-01", parallel_processing=parallel)
    uc.initialize(num_days=nd)
    flat = h.flag("flat")
    verdict(h, uc.generate_daily_load_profiles(flat=flat), flat, nd, [], "nothing to simulate: ")


def idle_days(h, parallel=False):
    """days without any load keep their place"""
    nd = h.pick("days", [2, 3])
    start = h.pick("start", ["2021-03-05", "2021-03-07"])
    kind = h.pick("day type of the appliances", [0, 1])
    n = h.pick("num_users", [1, 2])
    u = user(h, num_users=n)
    ps = [h.real("power%d" % d, 1, 100) for d in range(nd)]
    appliance(h, u, name="a", number=1, power=h.pd.DataFrame(ps), func_time=9, flat="yes", wd_we_type=kind, window_1=[100, 110])
    uc = h.core.UseCase(users=[u], date_start=start, parallel_processing=parallel)
    uc.initialize(num_days=nd)
    flat = h.flag("flat")
    prof = uc.generate_daily_load_profiles(flat=flat)
    on = {"2021-03-05": [0, 1, 1], "2021-03-07": [1, 0, 0]}[start]
    m = h.int("minute", 0, 1439)
    for d in range(nd):
        want = h.ite(h.and_(h.le(100, m), h.lt(m, 110)), n * ps[d], 0) if on[d] == kind else 0
        v = prof[d * 1440 + m] if flat else prof[d][m]
        h.check("a day without load keeps its place", h.eq(v, want))
        h.obs("v", v)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (totals, repeated, random_loads, one_user, same_names, own_days, idle_days, nothing)]
