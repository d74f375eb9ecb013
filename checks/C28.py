"""C28: each generated day is independent of what was generated before"""
from checks.common import *
from checks.C17 import small

FUNCTIONS = FUNCTIONS + ["ramp.core.core.UseCase.generate_daily_load_profiles", "UseCase.generate_daily_load_profiles_parallel", "User.generate_aggregated_load_profile", "User.generate_single_load_profile", "User.draw_daily_preference"]
BOUNDS = "appliances of ten kinds (plain, varied, occasional, random windows, one and three duty cycles, non-continuous cycle, several units, power series, preferences); one day generated on fresh objects and once more, from the same state of the random generator, after one other day (another date, day type, power), another appliance, user or use case; draws are an uninterpreted function of the state of the generator, the number of earlier draws and the request"
OUTSIDE = "more than one day in between (two for use cases); use cases changed in between"


def kind_of(h, u, kind):
    if kind == "not continuous":
        appliance(h, u, name="a", number=1, power=10.0, func_time=t(3, 4), func_cycle=2, fixed="yes", fixed_cycle=1, continuous_duty_cycle=0, window_1=[100, t(104, 106)], p_11=20.0, t_11=2, p_12=5.0, t_12=1, cw11=[0, 1440], r_c1=0.2)
    elif kind == "series":
        appliance(h, u, name="a", number=1, power=h.pd.DataFrame([h.real("p%d" % d, 1, 100) for d in range(4)]), func_time=6, func_cycle=6, thermal_p_var=0.2, window_1=[100, 112])
    else:
        small(h, u, kind)


KINDS = ["plain", "varied", "occasional", "window", "cycle", "three cycles", "many", "preference", "not continuous", "series"]
SHORT = ["occasional", "window", "series"]


def same(h, label, a, b):
    h.check(label, h.and_(*[h.eq(a[m], b[m]) for m in h.each("minute", 0, 1439)]))


def user_day(h):
    """the day of a user, before and after another day was generated"""
    kind = h.pick("kind", KINDS)
    other = h.pick("in between", ["another day", "the same day"] if kind in SHORT else ["another day"])
    day = h.pick("day", [0, 2])
    for k in h.trials(30):
        u = user(h, num_users=1, user_preference=2 if kind == "preference" else 0)
        kind_of(h, u, kind)
        peak = h.np.arange(95, 105)
        h.disturb(3 * k + 1)
        a = u.generate_aggregated_load_profile(day, peak, 0)
        a0 = h.np.array(a)
        h.disturb(3 * k + 2)
        if other == "another day":
            u.generate_aggregated_load_profile(3 - day, h.np.arange(500, 600), 1)
        else:
            u.generate_aggregated_load_profile(day, peak, 0)
        same(h, "a profile is not changed by later generations", a0, a)
        h.disturb(3 * k + 1)
        b = u.generate_aggregated_load_profile(day, peak, 0)
        same(h, "the day does not depend on the day generated before", a0, b)


def appliance_day(h):
    """the same for one appliance, asked directly"""
    kind = h.pick("kind", ["occasional", "window", "cycle", "three cycles", "series", "plain"])
    for k in h.trials(30):
        u = user(h, num_users=1)
        kind_of(h, u, kind)
        app = u.App_list[0]
        peak = h.np.arange(95, 105)
        p, q = app.power[1], app.power[3]
        h.disturb(3 * k + 1)
        app.generate_load_profile(1, peak, 0, p)
        a0 = h.np.array(app.daily_use)
        h.disturb(3 * k + 2)
        app.generate_load_profile(3, h.np.arange(300, 400), 1, q)
        h.disturb(3 * k + 1)
        app.generate_load_profile(1, peak, 0, p)
        same(h, "the day does not depend on the day generated before", a0, app.daily_use)


def unused_between(h):
    """a day on which the appliance is not used leaves nothing behind, and is not filled by the day before"""
    flat = h.pick("flat", ["yes", "no"])
    wd = h.pick("wd_we_type", [0, 1])
    u = user(h, num_users=1)
    p = h.real("power", 1, 100)
    appliance(h, u, name="a", number=1, power=p, func_time=6, func_cycle=6, fixed="yes", flat=flat, wd_we_type=wd, window_1=[100, 107])
    peak = h.np.arange(95, 105)
    days = [h.pick("type of day %d" % d, [0, 1]) for d in range(3)]
    for d, ty in enumerate(days):
        v = u.generate_aggregated_load_profile(d, peak, ty)
        m = h.int("minute", 0, 1439)
        if ty != wd:
            h.check("an unused day is empty", h.eq(v[m], 0))
        elif flat == "yes":
            h.check("a used day is that of a fresh appliance", h.eq(v[m], h.ite(h.and_(h.le(100, m), h.lt(m, 107)), p, 0)))
        else:
            h.check("a used day is used", h.le(6 * p, h.np.sum(v)))


def other_objects(h):
    """generating the day of another appliance, user or use case in between changes nothing"""
    kind = h.pick("kind", SHORT + ["cycle", "preference"])
    what = h.pick("in between", ["user with the same declarations", "another user of the use case", "another use case"])
    for k in h.trials(30):
        u = user(h, num_users=1, user_preference=2 if kind == "preference" else 0)
        kind_of(h, u, kind)
        v = user(h, user_name="u" if what == "user with the same declarations" else "v", num_users=1, user_preference=2 if kind == "preference" else 0)
        kind_of(h, v, kind if what == "user with the same declarations" else "occasional")
        if what == "another user of the use case":
            h.core.UseCase(users=[u, v])
        elif what == "another use case":
            h.core.UseCase(name="1", users=[u])
            h.core.UseCase(name="2", users=[v])
        peak = h.np.arange(95, 105)
        h.disturb(3 * k + 1)
        a0 = h.np.array(u.generate_aggregated_load_profile(0, peak, 0))
        h.disturb(3 * k + 2)
        v.generate_aggregated_load_profile(1, peak, 1)
        h.disturb(3 * k + 1)
        b = u.generate_aggregated_load_profile(0, peak, 0)
        same(h, "the day does not depend on what other objects generated", a0, b)


def use_cases(h):
    """generating a use case again, after itself or another one, from the same state of the generator"""
    kind = h.pick("kind", ["occasional", "window", "preference"])
    par = h.pick("parallel", [False, True])
    days = 1 if kind != "occasional" else h.pick("days", [1, 2])
    between = h.pick("in between", ["nothing", "itself", "another one"])
    for k in h.trials(30):
        ucs = []
        for i in range(2):
            u = user(h, user_name="u%d" % i, num_users=1, user_preference=2 if kind == "preference" else 0)
            kind_of(h, u, kind if i == 0 else "occasional")
            ucs.append(h.core.UseCase(name=str(i), users=[u], date_start="2021-03-05", date_end="2021-03-%02d" % (4 + days), parallel_processing=par and i == 0, random_seed=5))
        h.disturb(3 * k + 1)
        a = ucs[0].generate_daily_load_profiles(flat=False)
        a0 = [h.np.array(a[d]) for d in range(days)]
        h.disturb(3 * k + 2)
        if between == "itself":
            ucs[0].generate_daily_load_profiles()
        elif between == "another one":
            ucs[1].generate_daily_load_profiles()
        for d in range(days):
            same(h, "profiles returned before are not changed", a0[d], a[d])
        h.disturb(3 * k + 1)
        b = ucs[0].generate_daily_load_profiles(flat=False)
        for d in range(days):
            same(h, "a repeated generation gives the same days", a0[d], b[d])


HARNESSES = [dict(name=f.__name__, fn=f, stateful_rng=True, real_random=True) for f in (user_day, appliance_day, other_objects, use_cases)] + [{"name": "unused_between", "fn": unused_between}]
