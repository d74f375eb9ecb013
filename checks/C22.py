"""C22: every documented configuration generates a day"""
from checks.common import *

FUNCTIONS = FUNCTIONS + ["ramp.core.core.Appliance.maximum_profile", "User.maximum_profile", "User.generate_single_load_profile", "User.generate_aggregated_load_profile", "UseCase.initialize", "UseCase.calc_peak_time_range", "UseCase.generate_daily_load_profiles"]
BOUNDS = "func_time in the listed values (0, 1, a few minutes, 1440 when flat), any func_cycle, windows anywhere in the day, variabilities 0 to 1, number from 0 to 3, up to two days, two users and two appliances per use case"
OUTSIDE = "days with more than 4 switch-on events, or more random draws than listed per harness"


def ends(h, use):
    h.check("a day has 1440 minutes", h.eq(h.size(use), 1440))
    v = use[h.int("minute", 0, 1439)]
    h.check("the load is a number that is not negative", h.le(0, v))
    h.obs("load", v)


def day(h, app, power, draws, peak=(0, 1440), day_type=0):
    """a day of the appliance; None if it is refused with the documented error or cut short"""
    def go():
        try:
            return generate(h, app, power, peak=peak, day_type=day_type)
        except ValueError as x:
            if "func_cycle" in str(x) and "too large" in str(x):
                return "refused"
            raise

    use = h.within_draws(draws, go)
    if use is None:
        return None
    if isinstance(use, str):
        return "refused"
    ends(h, use)
    return use


def zeros(h):
    """values at the lower and upper ends of their ranges, windows at the limits of the day"""
    ft = h.pick("func_time", [0, 1, 3])
    fc = h.pick("func_cycle", t([0, 3], [0, 1, 2, 3, 4, 1439, 1440]))
    num = h.pick("number", [0, 1, 2])
    v = h.pick("variabilities", t([(0, 0), (1, 1)], [(0, 0), (0, 1), (1, 0), (1, 1)]))
    v = {"random_var_w": v[0], "time_fraction_random_variability": v[1]}
    s, e = sym_window(h, "w1", 0, 1440, 0)
    h.assume(h.le(ft, e - s))
    app = appliance(h, number=num, power=h.real("power", 0, 1000), func_time=ft, func_cycle=fc, fixed=h.pick("fixed", ["yes", "no"]) if num == 2 else "no", window_1=[s, e],
                    occasional_use=h.pick("occasional_use", [0, 0.5, 1]), thermal_p_var=h.pick("thermal_p_var", t([1], [0, 1])), **v)
    day(h, app, 10.0, t(14, 18))


def any_conditions(h):
    """symbolic occasional use, preference, day type and peak range"""
    s, e = sym_window(h, "w1", 0, 1440, 4)
    u = user(h, user_preference=h.int("user_preference", 0, 3))
    app = appliance(h, u, number=h.pick("number", [1, 3]), power=10.0, func_time=4, func_cycle=h.int("func_cycle", 3, 4), window_1=[s, e], occasional_use=h.real("occasional_use", 0, 1),
                    pref_index=h.int("pref_index", 0, 3), wd_we_type=h.int("wd_we_type", 0, 2), thermal_p_var=h.real("thermal_p_var", 0, 1))
    u.rand_daily_pref = h.int("preference of the day", 0, 3)
    p0 = h.int("peak_start", 0, 1439)
    p1 = h.int("peak_end", 1, 1440)
    h.assume(h.lt(p0, p1))
    day(h, app, h.real("power", 0, 1e6), t(14, 18), peak=(p0, p1), day_type=h.pick("day_type", [0, 1]))


def flat(h):
    nw = h.pick("num_windows", [1, 2, 3])
    ws = [sym_window(h, "w%d" % (k + 1), 0, 1440, 0) for k in range(nw)]
    num = h.int("number", 0, 20)
    ft = h.pick("func_time", [0, 1, 1440])
    h.assume(h.le(ft, sum(e - s for s, e in ws)))
    app = appliance(h, number=num, power=h.real("power", 0, 1000), num_windows=nw, func_time=ft, func_cycle=h.pick("func_cycle", [0, 1, 1440]), flat="yes", random_var_w=h.pick("random_var_w", t([0, 0.35, 1], [0, 0.1, 0.35, 0.5, 1])),
                    **{"window_%d" % (k + 1): list(ws[k]) for k in range(nw)})
    app.check_power_values(2) if hasattr(app, "check_power_values") else None
    day(h, app, 10.0, 12)


def windows(h):
    """two or three windows, empty and overlapping ones included, with full variability"""
    nw = h.pick("num_windows", t([2], [2, 3]))
    ws = [sym_window(h, "w%d" % (k + 1), 0, 1440, 0) for k in range(nw)]
    ft = 3
    h.assume(h.le(ft, sum(e - s for s, e in ws)))
    app = appliance(h, number=1, power=5.0, num_windows=nw, func_time=ft, func_cycle=h.pick("func_cycle", t([2], [1, 2, 3])), random_var_w=h.pick("random_var_w", t([1], [0, 0.5, 1])), fixed="yes",
                    **{"window_%d" % (k + 1): list(ws[k]) for k in range(nw)})
    day(h, app, 5.0, t(15, 20))


def stuck(h, app, cws, fc):
    """no free spot that can hold an event meets the window of a cycle"""
    h.have(app, "free_spots")
    meets = []
    for s in app.free_spots:
        for lo, hi in cws:
            meets.append(h.and_(h.le(max(fc, 1), s.stop - s.start), h.le(lo, s.stop - 1), h.le(s.start, hi)))
    return h.not_(h.or_(*meets)) if meets else True


def cycles(h):
    """duty cycles whose windows cover the windows of use, or not"""
    nc = h.pick("fixed_cycle", t([1, 2], [1, 2, 3]))
    fc = h.pick("func_cycle", t([3], [1, 2, 3]))
    ft = 4
    n = h.pick("window length", t([6], [5, 6, 8]))
    s = h.int("w1_start", 1, 1400)
    rv = h.pick("random_var_w", t([0.5] if nc == 1 else [0], [0, 0.5]))
    k1, k2 = h.int("cw_start", 0, 1440), h.int("cw_end", 0, 1440)
    h.assume(h.le(k1, k2))
    pars = {}
    for c in range(1, nc + 1):
        slot = h.pick("slot", [1, 2]) if c == 1 else 1
        pars["cw%d%d" % (c, slot)] = [k1, k2] if c == 1 else [0, 0]
        pars["cw%d%d" % (c, 3 - slot)] = [0, 0]
        pars.update({"p_%d1" % c: 20.0, "t_%d1" % c: 1, "p_%d2" % c: 30.0, "t_%d2" % c: 2, "r_c%d" % c: 0})
    cont = h.pick("continuous_duty_cycle", t([1] if nc == 1 else [0], [0, 1]))
    app = appliance(h, number=1, power=9.0, func_time=ft, func_cycle=fc, fixed="yes", fixed_cycle=nc, continuous_duty_cycle=cont, window_1=[s, s + n], random_var_w=rv, **pars)
    if day(h, app, 9.0, t(18, 24) if nc == 1 else t(20, 28)) is None:
        h.check("generation ends when the remaining free time meets no cycle window", h.not_(stuck(h, app, [(k1, k2), (0, 0)], fc)))


def short_cycles(h):
    """phases of the cycle which may vanish"""
    t1, t2 = h.pick("t_11", [0, 1]), h.pick("t_12", [0, 1])
    rc = h.pick("r_c1", [0, 0.5, 1])
    nc = h.pick("fixed_cycle", [1, 3])
    fc = h.pick("func_cycle", [1, 3] if nc == 1 else t([3], [1, 3]))
    s = h.int("w1_start", 1, 1400)
    pars = dict(p_11=20.0, t_11=t1, p_12=30.0, t_12=t2, r_c1=rc, cw11=[0, 1440])
    app = appliance(h, number=1, power=9.0, func_time=3, func_cycle=fc, fixed="yes", fixed_cycle=nc, continuous_duty_cycle=h.pick("continuous_duty_cycle", [0, 1]), thermal_p_var=h.pick("thermal_p_var", t([1], [0, 1])), window_1=[s, s + 5], **pars)
    day(h, app, 9.0, 24)


SCENES = {
    # users as (num_users, appliances as (number, power)), days, peak enlargement
    "no user": ([], 1, 0.15),
    "no user, two days": ([], 2, 0),
    "no appliance": ([(1, [])], 2, 1),
    "nobody": ([(0, [(1, 20.0)])], 1, 0.15),
    "nobody, two days": ([(0, [(1, 20.0)])], 2, 1),
    "nothing": ([(1, [(0, 20.0)])], 1, 0),
    "no power": ([(1, [(1, 0)])], 2, 0),
    "two of a user": ([(2, [(1, 20.0)])], 1, 1),
    "nobody and somebody": ([(0, [(1, 20.0)]), (1, [(2, 10.0)])], 1, 0),
    "nothing and something": ([(1, [(0, 0)]), (1, [(1, 20.0)])], 1, 1),
    "an empty user among others": ([(1, []), (1, [(1, 20.0)])], 1, 0.15),
    "two appliances": ([(1, [(1, 20.0), (1, 0)])], 1, 0.15),
}


HEAVY = ("two of a user",)


def usecases(h):
    """use cases without users, users without appliances, nobody, nothing, no power"""
    spec, days, enl = SCENES[h.pick("use case", [k for k in sorted(SCENES) if THOROUGH or k not in HEAVY])]
    us = []
    for k, (nu, apps) in enumerate(spec):
        u = h.core.User(user_name="u%d" % k, num_users=nu, user_preference=3 if k else 0)
        for j, (num, power) in enumerate(apps):
            s = h.int("w%d%d_start" % (k, j), 0, 1438) if (k, j) == (0, 0) or THOROUGH else 601
            u.add_appliance(name="a%d" % j, number=num, power=power, func_time=1, func_cycle=1, fixed="yes", window_1=[s, s + 2])
        us.append(u)
    if h.pick("initialized by", ["number of days", "dates"]) == "number of days":
        uc = h.core.UseCase(users=us, peak_enlarge=enl)
        uc.initialize(num_days=days)
    else:
        if days == 2:
            return
        y = h.date_in_year("first day", 2019, 2025, "date")[0]
        uc = h.core.UseCase(users=us, peak_enlarge=enl, date_start=h.iso(y), date_end=h.iso(y))
        uc.initialize()
    p = h.within_draws(60, lambda: uc.generate_daily_load_profiles())
    if p is None:
        return
    h.check("every day is generated", h.eq(h.size(p), days * 1440))
    m = h.int("minute", 0, days * 1440 - 1)
    v = p[m]
    h.check("the load is a number that is not negative", h.le(0, v))
    h.obs("load", v)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (zeros, any_conditions, flat, windows, cycles, short_cycles, usecases)]
