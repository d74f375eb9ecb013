"""C30: profiles of users can be generated without a use case, or before it is initialised"""
from checks.common import *
from checks.C09 import verdict, NORMAL
from checks.C28 import kind_of, same

FUNCTIONS = FUNCTIONS + ["ramp.core.core.User.generate_single_load_profile", "User.generate_aggregated_load_profile", "User.draw_daily_preference", "UseCase.__init__", "UseCase.add_user", "UseCase.calc_peak_time_range"]
BOUNDS = "users with one or two appliances (symbolic windows, powers, day) outside a use case, in one that is not initialised, or in an initialised one; up to three users of one kind; several profiles in a row"
OUTSIDE = "more than three users of a kind; more than two users in the use case"


def simple(h, u, name, power, s, e, **k):
    return appliance(h, u, name=name, number=1, power=power, func_time=1, func_cycle=1, fixed="yes", flat="yes", window_1=[s, e], **k)


def setup(h, state):
    """a user of two symbolic appliances (and another user) in the given state; (user, use case or None, parts of the theoretical maximum)"""
    s, e = sym_window(h, "w", minlen=3)
    s2, e2 = sym_window(h, "v", minlen=3)
    p = h.pick("power", [10.0, 20.0])
    u = user(h, num_users=h.pick("num_users", [1, 3]))
    n = u.num_users
    simple(h, u, "a", p, s, e)
    parts = [(p * n * 0.001, [(s, e)])]
    if state == "no use case":
        simple(h, u, "b", 10.0, s2, e2)
        return u, None, parts + [(10.0 * n * 0.001, [(s2, e2)])]
    v = user(h, user_name="v", num_users=2)
    simple(h, v, "b", 10.0, s2, e2)
    parts.append((0.02, [(s2, e2)]))
    if state == "one after the other":
        uc = h.core.UseCase()
        uc.add_user(u)
        uc.add_user(v)
    else:
        uc = h.core.UseCase(users=[u, v])
    if state == "initialised":
        uc.date_start = "2021-03-01"
        uc.initialize(num_days=2)
    return u, uc, parts


def peak(h):
    """the peak range that is used when none is given: that of the use case of the user, drawn once"""
    state = h.pick("state", ["no use case", "users at once", "one after the other", "initialised"])
    how = h.pick("how", ["single", "aggregated"])
    k0 = h.ndraws()
    u, uc, parts = setup(h, state)
    rng = []
    orig = h.core.Appliance.generate_load_profile

    def record(app, prof_i, peak_time_range, day_type, power):
        rng.append(peak_time_range)
        return orig(app, prof_i, peak_time_range, day_type, power)

    h.patch(h.core.Appliance, "generate_load_profile", record)
    gen = u.generate_single_load_profile if how == "single" else u.generate_aggregated_load_profile
    gen(prof_i=0)
    verdict(h, rng[0], k0, parts, 0.15)
    if uc is None:
        uc = u.usecase
        h.check("a default use case holds the user", uc is not None and len(uc.users) == 1 and uc.users[0] is u)
    else:
        h.check("the user stays in its use case", u.usecase is uc and len(uc.users) == 2 and uc.users[0] is u)
    gen(prof_i=1)
    for r in rng[1:]:
        h.check("all profiles use the same peak range", h.and_(h.eq(h.size(r), h.size(rng[0])), h.eq(r[0], rng[0][0]), h.eq(r[-1], rng[0][-1])))
    h.check("which is the one of the use case", h.and_(h.eq(uc.peak_time_range[0], rng[0][0]), h.eq(uc.peak_time_range[-1], rng[0][-1])))


def given(h):
    """a peak range that is given is the one that is used: no use case is needed or changed"""
    state = h.pick("state", ["no use case", "users at once", "initialised"])
    how = h.pick("how", ["single", "aggregated"])
    lo = h.int("peak start", 0, 1400)
    n = h.int("peak length", 1, 40)
    u, uc, parts = setup(h, state)
    old = None if state != "initialised" else (uc.peak_time_range[0], uc.peak_time_range[-1])
    rng = []
    orig = h.core.Appliance.generate_load_profile

    def record(app, prof_i, peak_time_range, day_type, power):
        rng.append(peak_time_range)
        return orig(app, prof_i, peak_time_range, day_type, power)

    h.patch(h.core.Appliance, "generate_load_profile", record)
    pk = h.np.arange(lo, lo + n)
    (u.generate_single_load_profile if how == "single" else u.generate_aggregated_load_profile)(0, pk, 0)
    for r in rng:
        h.check("the given peak range is used", h.and_(h.eq(h.size(r), n), h.eq(r[0], lo), h.eq(r[-1], lo + n - 1)))
    h.check("every appliance of every user is simulated", len(rng) == len(u.App_list) * (1 if how == "single" else u.num_users))
    if uc is None:
        h.check("no use case is made up", u.usecase is None)
    elif old is None:
        h.check("the use case stays uninitialised", uc.peak_time_range is None)
    else:
        h.check("the peak range of the use case is kept", h.and_(h.eq(uc.peak_time_range[0], old[0]), h.eq(uc.peak_time_range[-1], old[1])))


def profile(h):
    """what is generated: every appliance of the user on, on the requested day"""
    state = h.pick("state", ["no use case", "users at once", "one after the other", "initialised"])
    how = h.pick("how", ["single", "aggregated"])
    n = h.pick("num_users", [1, 2, 3])
    d = h.pick("day", [0, 1, 3])
    ty = h.pick("day type", [0, 1])
    p = h.real("power", 1, 100)
    qs = [h.real("power of day %d" % k, 1, 100) for k in range(4)]
    u = user(h, num_users=n)
    late = h.flag("declared late")
    v = user(h, user_name="v")
    simple(h, v, "x", 50.0, 800, 810)
    if not late:
        appliance(h, u, name="a", number=1, power=p, func_time=6, func_cycle=6, fixed="yes", flat="yes", window_1=[100, 107])
        appliance(h, u, name="b", number=1, power=h.pd.DataFrame(qs), func_time=6, func_cycle=6, fixed="yes", flat="yes", window_1=[200, 207], wd_we_type=h.pick("type", [0, 1, 2]))
    if state == "users at once":
        h.core.UseCase(users=[u, v])
    elif state == "one after the other":
        uc = h.core.UseCase()
        uc.add_user([u, v])
    elif state == "initialised":
        uc = h.core.UseCase(users=[v, u], date_start="2021-03-01")
        uc.initialize(num_days=4)
    if late:
        appliance(h, u, name="a", number=1, power=p, func_time=6, func_cycle=6, fixed="yes", flat="yes", window_1=[100, 107])
        appliance(h, u, name="b", number=1, power=h.pd.DataFrame(qs), func_time=6, func_cycle=6, fixed="yes", flat="yes", window_1=[200, 207], wd_we_type=h.pick("type", [0, 1, 2]))
    we = u.App_list[1].wd_we_type
    f = u.generate_single_load_profile if how == "single" else u.generate_aggregated_load_profile
    m = h.int("minute", 0, 1439)
    for k in range(2):
        y = f(prof_i=d, day_type=ty)
        c = 1 if how == "single" else n
        w = h.ite(h.and_(h.le(100, m), h.lt(m, 107)), c * p, 0)
        if we in (2, ty):
            w = w + h.ite(h.and_(h.le(200, m), h.lt(m, 207)), c * qs[d], 0)
        h.check("a day has 1440 minutes", h.eq(h.size(y), 1440))
        h.check("the profile is the sum of the appliances of the requested day and users", h.eq(y[m], w))
        h.obs("load", y[m])


def no_appliances(h):
    """a user without appliances uses nothing"""
    state = h.pick("state", ["no use case", "alone", "users at once"])
    u = user(h, num_users=h.pick("num_users", [0, 1, 2]))
    v = user(h, user_name="v")
    simple(h, v, "x", 50.0, 800, 810)
    if state == "alone":
        h.core.UseCase(users=[u])
    elif state == "users at once":
        h.core.UseCase(users=[u, v])
    y = u.generate_aggregated_load_profile() if h.flag("aggregated") else u.generate_single_load_profile()
    m = h.int("minute", 0, 1439)
    h.check("a user without appliances has an empty day", h.and_(h.eq(h.size(y), 1440), h.eq(y[m], 0)))


def composed(h):
    """the day of a user is the sum of the days of its single users, in the order they are drawn"""
    kind = h.pick("kind", ["plain", "occasional", "window", "cycle", "preference", "series"])
    n = h.pick("num_users", [2, 3] if kind in ("plain", "occasional", "series") else [2])
    ty = h.pick("day type", [0, 1])
    for k in h.trials(20):
        u = user(h, num_users=n, user_preference=2 if kind == "preference" else 0)
        kind_of(h, u, kind)
        pk = h.np.arange(95, 105)
        h.disturb(3 * k + 1)
        a = h.np.array(u.generate_aggregated_load_profile(2, pk, ty))
        h.disturb(3 * k + 1)
        b = h.np.zeros(1440)
        for j in range(n):
            b = b + u.generate_single_load_profile(2, pk, ty)
        same(h, "the day of the users is the sum of the days of single users", a, b)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (peak, given, profile, no_appliances)] + [dict(name="composed", fn=composed, stateful_rng=True, real_random=True)]
