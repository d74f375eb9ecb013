"""C08: an appliance is used exactly on the days its conditions allow"""
from checks.common import *

BOUNDS = "all preferences 0..3, day types, wd_we_type 0..2, any occasional_use in [0,1], func_time 0 or not, two consecutive days"
OUTSIDE = "more than two consecutive days"


def conditions(h, flat):
    up = h.pick("user_preference", [0, 1, 2, 3])
    pi = h.pick("pref_index", [0, 1, 2, 3])
    wd = h.pick("wd_we_type", [0, 1, 2])
    dt = h.pick("day_type", [0, 1])
    ft = h.pick("func_time", [0, 5])
    occ = h.real("occasional_use", 0, 1)
    u = user(h, user_preference=up)
    app = appliance(h, u, number=2, power=10.0, func_time=ft, func_cycle=5, fixed="yes", flat=flat, occasional_use=occ, pref_index=pi, wd_we_type=wd, window_1=[300, 400])
    days = h.pick("days before", [0, 1])
    peak = h.np.arange(600, 700)
    for _ in range(days):
        u.generate_single_load_profile(0, peak, 1 - dt)
    k0 = h.ndraws()
    load = u.generate_single_load_profile(1, peak, dt)
    use = app.daily_use
    used = h.np.sum(use) > 1
    h.obs("sum", h.np.sum(load))
    tt = h.int("minute", 0, 1439)
    h.check("the user's day is the appliance's day", h.eq(load[tt], use[tt]))
    h.check("an unused day is all zeros", h.or_(used, h.eq(use[tt], 0)))
    allowed = [wd in (dt, 2), ft != 0]
    if up == 0:
        h.check("without preferences only appliances of every preference are used", h.implies(used, pi == 0))
        allowed.append(pi == 0)
    else:
        prefs = h.drawn(("randint", "randrange", "choice"), k0)
        h.check("the preference of the day is drawn", len(prefs) > 0)
        kind, pref, args = prefs[0]
        if kind == "choice":
            pref = pref + 1
        h.check("the preference of the day is one of the user's", h.and_(h.le(1, pref), h.le(pref, up)))
        if kind != "choice":
            h.check("all the user's preferences can be drawn", h.and_(h.eq(args[0], 1), h.eq(args[1], up)))
        allowed.append(h.or_(pi == 0, h.eq(pref, pi)))
    ok = h.and_(*allowed)
    h.check("used only if the day type, preference and func_time allow it", h.implies(used, ok))
    us = h.drawn(("uniform", "random"), k0)
    if us:
        x = us[0][1]
        h.check("used only if the occasional-use draw allows it", h.implies(used, h.le(x, occ)))
        h.check("used if all conditions hold", h.implies(h.and_(ok, h.lt(x, occ)), used))
    else:
        h.check("the occasional use is drawn when the other conditions hold", h.not_(ok))


def not_flat(h):
    conditions(h, "no")


def flat(h):
    conditions(h, "yes")


def shared(h):
    """all appliances of a user see the same preference on a day"""
    up = h.pick("user_preference", [2, 3])
    u = user(h, user_preference=up)
    apps = [appliance(h, u, number=1, power=10.0 + k, func_time=5, flat="yes", pref_index=k, window_1=[300, 400], name="a%d" % k) for k in range(up + 1)]
    for d in range(2):
        k0 = h.ndraws()
        load = u.generate_single_load_profile(d, h.np.arange(600, 700), 0)
        v = load[350]
        h.check("exactly the appliances of one preference, and those of every preference, are used", h.or_(*[h.eq(v, 10.0 + 10.0 + k) for k in range(1, up + 1)]))
        h.obs("v", v)


def of_another(h):
    """an appliance created for, or shared with, another user follows the preference of the user that is simulated"""
    p1, p2 = h.pick("preferences", [(3, 2), (0, 2), (2, 0), (1, 3)])
    pi = h.pick("pref_index", [0, 1, 2])
    how = h.pick("how", ["created for the other one", "owned by both", "owned by both, added before"])
    flat = h.pick("flat", ["yes", "no"])
    u, v = user(h, user_name="u", user_preference=p1), user(h, user_name="v", user_preference=p2)
    app = h.core.Appliance(u, number=1, power=10.0, func_time=5, func_cycle=5, fixed="yes", flat=flat, pref_index=pi, name="a")
    if how == "created for the other one":
        v.add_appliance(app)
        app.windows(window_1=[300, 400])
    elif how == "owned by both":
        app.windows(window_1=[300, 400])
        v.add_appliance(app)
    else:
        v.add_appliance(app)
        u.add_appliance(app)
        app.windows(window_1=[300, 400])
    whole = h.pick("simulated", ["users", "use case"])
    peak = h.np.arange(600, 700)
    for w in [v, u, v] if how != "created for the other one" else [v, v]:
        other = u if w is v else v
        other.draw_daily_preference() if h.have(other, "draw_daily_preference") else None
        k0 = h.ndraws()
        if whole == "users":
            load = w.generate_single_load_profile(0, peak, 0)
        else:
            load = w.generate_aggregated_load_profile(0, peak, 0)
        prefs = h.drawn(("randint", "randrange"), k0)[:1] if w.user_preference else []
        used = h.np.sum(load) > 1
        ok = pi == 0
        if prefs:
            ok = h.or_(ok, h.eq(prefs[0][1], pi))
        h.check("an appliance follows the preference of the user it is simulated for", h.iff(used, ok))
        h.obs("sum", h.np.sum(load))


HARNESSES = [{"name": "not_flat", "fn": not_flat}, {"name": "flat", "fn": flat}, {"name": "shared", "fn": shared}, {"name": "of_another", "fn": of_another}]
