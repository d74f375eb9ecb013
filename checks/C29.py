"""C29: simulating does not change what was declared"""
from checks.common import *
from checks.C28 import kind_of, KINDS

FUNCTIONS = FUNCTIONS + ["ramp.core.core.UseCase.__init__", "UseCase.initialize", "UseCase.calc_peak_time_range", "UseCase.generate_daily_load_profiles", "UseCase.generate_daily_load_profiles_parallel", "User.generate_aggregated_load_profile", "User.generate_single_load_profile", "User.maximum_profile"]
BOUNDS = "appliances of ten kinds with every declared parameter compared before and after, one or two users and appliances; up to two generations of up to three days, in sequence or in parallel, any outcome of every random draw; lists and peak ranges handed over by the caller compared too"
OUTSIDE = "more than two appliances; lists which the caller changes after handing them over (the appliances keep the caller's own objects)"


def value(h, v):
    return [v[0], v[1]] if vector(v) else v


def snapshot(h, app):
    d = {k: value(h, getattr(app, k)) for k in DECLARED if k != "power"}
    n = h.conc(h.size(app.power))
    d["power"] = (n, [app.power[k] for k in sorted(set([0, 1, 2, 3, n - 1])) if k < n])
    return d


def unchanged(h, app, d):
    for k in DECLARED:
        if k == "power":
            n, ps = d[k]
            m = h.conc(h.size(app.power))
            # only a constant power may be extended, with the same value
            h.check("the power is kept", m >= n and h.and_(*[h.eq(app.power[j], p) for j, p in enumerate(ps[:4]) if j < n]))
            if m > n:
                h.check("only a constant power is extended", h.and_(*[h.eq(p, ps[0]) for p in ps] + [h.eq(app.power[m - 1], ps[0])]))
        else:
            h.check("a declared parameter is kept: " + k, same_value(h, d[k], value(h, getattr(app, k))))


def user_snapshot(h, u):
    return (u.user_name, u.num_users, u.user_preference, list(u.App_list), [snapshot(h, a) for a in u.App_list])


def user_unchanged(h, u, s):
    h.check("a user keeps its name, number and preference", u.user_name == s[0] and h.and_(h.eq(u.num_users, s[1]), h.eq(u.user_preference, s[2])))
    h.check("a user keeps its appliances, in order", len(u.App_list) == len(s[3]) and all(a is b for a, b in zip(u.App_list, s[3])))
    for a, d in zip(s[3], s[4]):
        unchanged(h, a, d)
        h.check("an appliance keeps its user", a.user is u)


def one_user(h):
    """a user generating one day or two, alone or aggregated"""
    kind = h.pick("kind", KINDS)
    how = h.pick("how", ["aggregated", "single", "appliance"])
    u = user(h, num_users=h.pick("num_users", [1, 2]) if how == "aggregated" and kind in ("window", "cycle") else 1, user_preference=2 if kind == "preference" else 0)
    kind_of(h, u, kind)
    s = user_snapshot(h, u)
    lo = h.pick("peak", [95, 500])
    peak = h.np.arange(lo, lo + 10)
    if how == "aggregated":
        u.generate_aggregated_load_profile(1, peak, 0)
    elif how == "single":
        u.generate_single_load_profile(1, peak, 0)
    else:
        u.App_list[0].generate_load_profile(1, peak, 0, u.App_list[0].power[1])
    user_unchanged(h, u, s)
    h.check("the given peak range is kept", h.and_(h.eq(h.size(peak), 10), h.eq(peak[0], lo), h.eq(peak[9], lo + 9)))


def declared(h):
    """any declared values: a day is generated for every appliance the documentation allows to be declared"""
    v = declared_values(h, strings=h.pick("fixed and flat", [("yes", "yes"), ("yes", "no")]), nw=h.pick("num_windows", t([1, 2], [1, 2, 3])), ncyc=h.pick("cycles", t([0, 3], [0, 1, 2, 3])))
    ws = [v["window_%d" % k] for k in (1, 2, 3) if "window_%d" % k in v]
    for a, b in zip(ws, ws[1:]):
        h.assume(h.le(a[1], b[0]))
    v["fixed_cycle"] = 0
    v["occasional_use"] = 1
    v["func_cycle"] = v["func_time"]
    u = user(h, user_preference=0)
    a = u.add_appliance(**v)
    s = user_snapshot(h, u)
    if v["fixed"] == "yes" and v["flat"] == "yes":
        try:
            u.generate_single_load_profile(0, h.np.arange(600, 700), h.pick("day type", [0, 1]))
        except ValueError as x:
            # documented: the varied time of use does not fit in the windows
            if "func_cycle" not in str(x):
                raise
        user_unchanged(h, u, s)
    else:
        uc = h.core.UseCase(users=[u])
        uc.calc_peak_time_range()
        h.np.array(u.maximum_profile)
        user_unchanged(h, u, s)
        uc.date_start = "2021-03-01"
        n = h.int("days", 1, 400)
        uc.initialize(num_days=n)
        uc.initialize(num_days=h.pick("more days", [2, 500]), force=True)
        user_unchanged(h, u, s)


def cycles(h):
    """duty cycles of varied powers and durations, one to three of them"""
    n = h.pick("cycles", [1, 2, 3])
    var = h.pick("varied", ["powers", "durations", "both"])
    v = {}
    for k in range(1, n + 1):
        for j in (1, 2):
            v["p_%d%d" % (k, j)] = h.real("p_%d%d" % (k, j), 1, 1000)
            v["t_%d%d" % (k, j)] = 2 if n < 3 or var == "powers" else 1
            v["cw%d%d" % (k, j)] = [100, 105] if k == n else [10 * k, 10 * k + 5]
        v["r_c%d" % k] = 0.5 if var != "powers" and k == n else 0
    u = user(h)
    appliance(h, u, number=1, power=5.0, func_time=4, func_cycle=4, fixed="yes", fixed_cycle=n, thermal_p_var=0 if var == "durations" else h.pick("thermal_p_var", [0.2, 1]), continuous_duty_cycle=h.pick("continuous", [1, 0]), window_1=[100, 105], **v)
    s = user_snapshot(h, u)
    how = h.pick("how", ["single", "twice"] if n < 3 and var == "powers" else ["single"])
    for _ in range(2 if how == "twice" else 1):
        u.generate_single_load_profile(0, h.np.arange(95, 105), 0)
        user_unchanged(h, u, s)


def use_case(h):
    """a use case of two users: everything declared is the same after its profiles were generated"""
    kind = h.pick("kind", ["plain", "window", "occasional", "preference", "series"])
    par = h.flag("parallel")
    shape = h.pick("days and generations", [(1, False)] if kind == "window" else t([(1, False), (1, True)], [(1, False), (2, False), (1, True)]) if kind == "preference" else [(1, False), (2, False), (1, True)])
    days, again = shape
    us = []
    for i in range(2):
        u = user(h, user_name="u%d" % i, num_users=1, user_preference=2 if kind == "preference" else 0)
        if i == 0:
            kind_of(h, u, kind)
        else:
            appliance(h, u, name="b", number=2, power=h.real("b power", 1, 50), func_time=5, func_cycle=5, fixed="yes", flat="yes", window_1=[300, 306])
        us.append(u)
    given = list(us)
    uc = h.core.UseCase(name="case", users=us, date_start="2021-03-05", date_end="2021-03-%02d" % (4 + days), parallel_processing=par, random_seed=5 if par else None)
    seed, en = uc.random_seed, uc.peak_enlarge
    ss = [user_snapshot(h, u) for u in given]
    d0 = [h.iso(d) for d in uc.days]
    uc.generate_daily_load_profiles(flat=not again)
    if again:
        uc.generate_daily_load_profiles()
    h.check("the list of users handed over is kept", len(us) == 2 and us[0] is given[0] and us[1] is given[1])
    h.check("the use case keeps its users", len(uc.users) == 2 and uc.users[0] is given[0] and uc.users[1] is given[1])
    h.check("the use case keeps its name, seed and processing", uc.name == "case" and uc.random_seed == seed and uc.parallel_processing == par)
    h.check("the use case keeps the declared enlargement of the peak", h.eq(uc.peak_enlarge, en))
    h.check("the use case keeps its days", h.eq(uc.num_days, days) and len(uc.days) == len(d0) and all(h.iso(d) == e for d, e in zip(uc.days, d0)))
    h.check("the use case keeps its dates", h.iso(h.core.UseCase(date_start=uc.date_start, date_end=uc.date_end).days[0]) == d0[0])
    for u, s in zip(given, ss):
        user_unchanged(h, u, s)


def arguments(h):
    """lists handed over by the caller are not changed and not shared between appliances"""
    s, e = sym_window(h, "w", minlen=8)
    c, d = sym_window(h, "cw")
    w, cw = [s, e], [c, d]
    # the same objects are used for two appliances
    u = user(h, num_users=1)
    kw = dict(number=1, power=10.0, func_time=4, func_cycle=4, random_var_w=h.pick("variability", [0, 0.25]), fixed="yes", flat="yes")
    a = u.add_appliance(name="a", window_1=w, fixed_cycle=1, p_11=1.0, t_11=1, p_12=2.0, t_12=1, cw11=cw, cw12=cw, r_c1=0, **kw)
    b = u.add_appliance(name="b", window_1=w, fixed_cycle=1, p_11=1.0, t_11=1, p_12=2.0, t_12=1, cw11=cw, cw12=cw, r_c1=0, **kw)
    sa, sb = snapshot(h, a), snapshot(h, b)
    what = h.pick("then", ["redeclare windows", "redeclare cycle", "maximum profile"])
    x, y = sym_window(h, "v", minlen=8)
    if what == "redeclare windows":
        a.windows(window_1=[x, y], random_var_w=0)
        unchanged(h, b, sb)
    elif what == "redeclare cycle":
        a.specific_cycle_1(p_11=7.0, t_11=2, p_12=3.0, t_12=2, cw11=[x, y], cw12=[x, y])
        unchanged(h, b, sb)
    else:
        h.np.array(u.maximum_profile)
        unchanged(h, a, sa)
        unchanged(h, b, sb)
    h.check("the list of the caller is kept", len(w) == 2 and len(cw) == 2 and h.and_(h.eq(w[0], s), h.eq(w[1], e), h.eq(cw[0], c), h.eq(cw[1], d)))


def fresh_defaults(h):
    """an appliance declared after others were simulated starts from the documented defaults"""
    b0 = snapshot(h, user(h).add_appliance(name="b"))
    u = user(h, num_users=1)
    a = u.add_appliance(name="a", number=1, power=5.0, func_time=30)
    kind = h.pick("first", ["windows", "default windows", "window", "cycle", "three cycles"])
    if kind == "windows":
        a.windows(window_1=list(sym_window(h, "w", minlen=30)))
        a.window_1[0] = h.int("changed", 0, 5)
    elif kind == "default windows":
        a.windows()
        a.window_1[1] = h.int("changed", 1300, 1439)
        a.window_2[0] = h.int("changed too", 1, 5)
        a.cw11[0] = h.int("changed cycle", 1, 5)
    else:
        kind_of(h, u, kind)
        if kind in ("window", "cycle"):
            u.App_list[1].generate_load_profile(0, h.np.arange(95, 105), 0, 10.0)
    b = user(h).add_appliance(name="b")
    unchanged(h, b, b0)
    for k, v in DEFAULTS.items():
        if k not in ("name", "power"):
            h.check("documented default: " + k, same_value(h, v, value(h, getattr(b, k))))
    b.windows()
    h.check("default: the whole day", same_value(h, [0, 1440], value(h, b.window_1)))
    h.check("no power", h.eq(b.power[0], 0))


HARNESSES = [{"name": f.__name__, "fn": f} for f in (cycles, one_user, declared, use_case, arguments, fresh_defaults)]
