"""C11: parallel processing gives the same totals as sequential processing"""
from checks.common import *
from checks import C10

FUNCTIONS = C10.FUNCTIONS + ["ramp.core.core.UseCase.generate_daily_load_profiles_parallel", "single_appliance_daily_load_profile", "User.draw_daily_preference"]
BOUNDS = "two users with up to two instances and two appliances each, one to three days (up to %d tasks), every order in which the results of the worker chunks can arrive; any powers" % t(16, 24)
OUTSIDE = "more tasks; failures of worker processes; the operating system's process pool itself (replaced by a pool that copies tasks and results and completes them in every order)"
LIMIT = t(16, 24)


def totals(h):
    nd = h.pick("days", [1, 2, 3])
    shape = h.pick("appliances", [(1, 1), (2, 1), (1, 0), (2, 2)])
    nums = [h.pick("num_users%d" % k, [0, 1, 2]) for k in range(2)]
    h.assume(nd * sum(a * b for a, b in zip(shape, nums)) <= LIMIT)
    us, parts = [], []
    for k in range(2):
        u = user(h, user_name="u%d" % k, num_users=nums[k])
        us.append(u)
        for j in range(shape[k]):
            ps = [h.real("power%d_%d_%d" % (k, j, d), 1, 100) for d in range(nd)]
            s, e = (100 * (k + j), 100 * (k + j) + 150)
            appliance(h, u, name="a%d%d" % (k, j), number=1 + j, power=h.pd.DataFrame(ps), func_time=5, flat="yes", window_1=[s, e])
            parts.append((nums[k] * (1 + j), ps, s, e))
    uc = h.core.UseCase(users=us, date_start="2021-03-01", parallel_processing=True)
    uc.initialize(num_days=nd)
    flat = h.flag("flat")
    how = h.pick("method", ["generate_daily_load_profiles", "generate_daily_load_profiles_parallel"])
    C10.verdict(h, getattr(uc, how)(flat=flat), flat, nd, parts, "parallel: ")


def preferences(h):
    """every instance of a user draws its preference of the day, all its appliances share it"""
    up = h.pick("user_preference", [1, 2, 3])
    n = h.pick("num_users", [1, 2])
    nd = h.pick("days", [1, 2] if n == 1 else [1])
    u = user(h, num_users=n, user_preference=up)
    p = h.real("power", 1, 100)
    for k in range(up):
        appliance(h, u, name="a%d" % k, number=1, power=p, func_time=5, flat="yes", pref_index=k + 1, window_1=[100, 200])
    v = user(h, num_users=1)
    appliance(h, v, name="b", number=1, power=2 * p, func_time=5, flat="yes", window_1=[300, 400])
    uc = h.core.UseCase(users=[u, v], date_start="2021-03-01", parallel_processing=True)
    uc.initialize(num_days=nd)
    prof = uc.generate_daily_load_profiles(flat=False)
    for d in range(nd):
        h.check("each instance uses the appliances of exactly one preference", h.eq(prof[d][150], n * p))
        h.check("users without preference use the appliances without preference", h.eq(prof[d][350], 2 * p))
        h.obs("v", prof[d][150])


def conditions(h):
    """occasional use and day types apply to each task"""
    wd = h.pick("wd_we_type", [0, 1, 2])
    occ = h.pick("occasional_use", [0, 0.5, 1])
    nd = h.pick("days", [1, 2])
    d0 = h.date("start", 737791, 737797)
    u = user(h, num_users=h.pick("num_users", [1, 2]))
    appliance(h, u, name="a", number=1, power=10.0, func_time=5, flat="yes", occasional_use=occ, wd_we_type=wd, window_1=[100, 200])
    uc = h.core.UseCase(users=[u], date_start=d0, parallel_processing=True)
    uc.initialize(num_days=nd)
    calls = []
    undo = C10.record(h, calls)
    k0 = h.ndraws()
    try:
        prof = uc.generate_daily_load_profiles(flat=False)
    finally:
        undo()
    draws = h.drawn(("uniform", "random"), k0)
    for d in range(nd):
        mine = [c for c in calls if c[1] == d]
        h.check("one task per instance and day", len(mine) == u.num_users)
        v = 0
        for c in mine:
            v = v + c[2][150]
        h.check("the load of a day is the sum of its tasks", h.eq(prof[d][150], v))
        we = h.le(5, (h.ordinal(d0) + d + 6) % 7)
        allowed = we if wd == 1 else h.not_(we) if wd == 0 else True
        h.check("an appliance of another day type is not used", h.implies(h.not_(allowed), h.eq(prof[d][150], 0)))
        if occ == 1:
            h.check("an appliance always used is used by all", h.implies(allowed, h.eq(prof[d][150], 10.0 * u.num_users)))
        h.obs("v", prof[d][150])


def after(h):
    """sequential and parallel generations one after the other"""
    first = h.flag("parallel first")
    u = user(h, num_users=2, user_preference=1)
    v = user(h, num_users=1)
    p = [h.real("p%d" % k, 1, 100) for k in range(2)]
    q = h.real("q", 1, 100)
    appliance(h, u, name="a", number=1, power=h.pd.DataFrame(p), func_time=5, flat="yes", pref_index=h.pick("pref_index", [0, 1]), window_1=[100, 200])
    appliance(h, v, name="b", number=2, power=q, func_time=5, flat="yes", window_1=[150, 300])
    uc = h.core.UseCase(users=[u, v], date_start="2021-03-01")
    uc.initialize(num_days=2)
    parts = [(2, p, 100, 200), (2, [q, q], 150, 300)]
    for par in ([True, False] if first else [False, True]):
        uc.parallel_processing = par
        C10.verdict(h, uc.generate_daily_load_profiles(flat=False), False, 2, parts, "in parallel: " if par else "in sequence: ")


def nothing(h):
    C10.nothing(h, True)


def same_names(h):
    C10.same_names(h, True)


def own_days(h):
    C10.own_days(h, True)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (totals, preferences, conditions, after, same_names, own_days, nothing)]
