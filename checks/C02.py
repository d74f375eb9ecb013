"""C02: the load of an appliance in any minute is bounded by number times power"""
from checks.common import *

BOUNDS = "any power (real, 1..1000), number up to 6 (3 with power variability), one or two switch-on events, any minute, windows with symbolic limits"
OUTSIDE = "more appliances of one kind, more switch-on events per day, other values of thermal_p_var than the listed ones"
OFF = 0.001
EPS = 1e-6


def levels(h, v, p, number, var):
    """v is the load of 1..number appliances of power p"""
    out = []
    for k in range(1, number + 1):
        if var:
            out.append(h.and_(h.le(k * p * (1 - var) - EPS, v), h.le(v, k * p * (1 + var) + EPS)))
        else:
            out.append(h.eq(v, k * p))
    return h.or_(*out)


def day(h, u, app, d, dt=0):
    try:
        u.generate_single_load_profile(d, h.np.arange(500, 700), dt)
    except ValueError as x:
        if "func_cycle" in str(x):
            return None
        raise
    return app.daily_use


def verdict(h, use, p, number, var):
    t = h.int("minute", 0, 1439)
    v = use[t]
    h.check("load is 0, the placeholder, or that of 1..number appliances", h.or_(h.eq(v, 0), h.eq(v, OFF), levels(h, v, p, number, var)))
    h.obs("load", v)


def fixed_power(h):
    """all appliances together; any power, changing from day to day"""
    n = h.pick("number", t([1, 4], [1, 2, 4, 7]))
    d = h.pick("day", [0, 1, 2])
    ps = [h.real("power%d" % k, 1, 1000) for k in range(3)]
    s, e = sym_window(h, "w1", minlen=20)
    ft = h.pick("func_time", t([5], [5, 9]))
    fc = h.int("func_cycle", 3, 5)
    u = user(h)
    app = appliance(h, u, number=n, power=h.pd.DataFrame(ps), func_time=ft, func_cycle=fc, fixed="yes", window_1=[s, e])
    use = day(h, u, app, d)
    if use is None:
        return
    tt = h.int("minute", 0, 1439)
    v = use[tt]
    h.check("the load of a fixed appliance is number times the power of the day", h.or_(h.eq(v, 0), h.eq(v, OFF), h.eq(v, n * ps[d])))
    h.obs("load", v)


def coincidence(h):
    n = h.pick("number", t([1, 3, 6], [1, 2, 3, 4, 6, 10, 20]))
    s, e = sym_window(h, "w1", minlen=20)
    fc = 4
    u = user(h)
    app = appliance(h, u, number=n, power=7.0, func_time=h.pick("func_time", [4, 6]), func_cycle=fc, window_1=[s, e])
    use = day(h, u, app, 0)
    if use is not None:
        verdict(h, use, 7.0, n, 0)


def variability(h):
    n = h.pick("number", t([1, 3], [1, 2, 3, 5]))
    var = h.pick("thermal_p_var", t([0.2, 1], [0.1, 0.2, 0.5, 1]))
    fixed = h.pick("fixed", ["no", "yes"])
    s, e = sym_window(h, "w1", 400, 800, 20)
    u = user(h)
    d = h.pick("day", [0, 1, 2] if n == 3 and fixed == "no" else [1])
    ps = [8.0, 32.0, 300.0]
    app = appliance(h, u, number=n, power=h.pd.DataFrame(ps), func_time=4, func_cycle=4, thermal_p_var=var, fixed=fixed, window_1=[s, e])
    use = day(h, u, app, d)
    if use is not None:
        verdict(h, use, ps[d], n, var)


def flat(h):
    n = h.pick("number", [1, 3])
    w = h.pick("random_var_w", [0, 0.2])
    d = h.pick("day", [0, 1])
    ps = [h.real("power%d" % k, 1, 1000) for k in range(2)]
    s, e = sym_window(h, "w1", minlen=20)
    s2, e2 = sym_window(h, "w2", minlen=10)
    h.assume(h.le(e, s2))
    u = user(h)
    app = appliance(h, u, number=n, power=h.pd.DataFrame(ps), num_windows=2, func_time=4, flat="yes", window_1=[s, e], window_2=[s2, e2], random_var_w=w)
    use = day(h, u, app, d)
    if use is None:
        return
    tt = h.int("minute", 0, 1439)
    v = use[tt]
    full = n * ps[d]
    h.check("a flat appliance is off or at full power", h.or_(h.eq(v, 0), h.eq(v, full)))
    for a, b in ((s, e), (s2, e2)):
        r = h.trunc(w * (b - a)) if w else 0
        h.check("a flat appliance is on in its windows", h.implies(h.and_(h.le(a + r, tt), h.lt(tt, b - r)), h.eq(v, full)))
    h.obs("load", v)


HARNESSES = [
    {"name": "fixed_power", "fn": fixed_power},
    {"name": "coincidence", "fn": coincidence},
    {"name": "variability", "fn": variability},
    {"name": "flat", "fn": flat},
]
