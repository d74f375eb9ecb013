"""C07: coincident switch-on stays between 1 and number and follows its rule"""
from checks.common import *

BOUNDS = "numbers of appliances up to 8 (quick) or 40 (thorough), every value of the draws; one event anywhere, any peak range; two or three events anywhere, the last one cut to the remaining time, any peak range of two minutes"
OUTSIDE = "larger numbers of appliances"
NORMAL = ("gauss", "normalvariate")
UNIF = ("uniform", "random")


def numbers():
    return t([0, 1, 2, 3, 5, 8], [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 25, 40])


def direct(h):
    n = h.pick("number", numbers())
    inside = h.flag("inside peak")
    fixed = h.pick("fixed", ["no", "yes"])
    app = appliance(h, number=n, power=5.0, func_time=4, fixed=fixed, window_1=[0, 1440])
    h.have(app, "calc_coincident_switch_on")
    k0 = h.ndraws()
    c = app.calc_coincident_switch_on(inside)
    h.obs("coincidence", c)
    if n == 0:
        h.check("no appliance, no coincidence", h.eq(c, 0))
        return
    h.check("coincidence is a whole number", h.eq(h.floor(c), c))
    h.check("coincidence between 1 and number", h.and_(h.le(1, c), h.le(c, n)))
    if fixed == "yes":
        h.check("fixed appliances are switched on together", h.eq(c, n))
        return
    if inside:
        ds = h.drawn(NORMAL, k0)
        h.check("the peak coincidence is drawn from a normal law", len(ds) > 0)
        if not ds:
            return
        kind, g, args = ds[-1]
        h.check("mean and deviation are the documented shares of number", h.and_(h.eq(args[0], 0.5 * n), h.eq(args[1], 0.25 * n)))
        h.check("the drawn value is rounded up and clamped", h.and_(h.or_(h.le(g, c), h.eq(c, n)), h.or_(h.lt(c - 1, g), h.eq(c, 1))))
    else:
        ds = h.drawn(UNIF, k0)
        h.check("the off-peak share is drawn from a uniform law", len(ds) > 0)
        if not ds:
            return
        kind, u, args = ds[-1]
        h.check("off peak the coincidence follows the drawn share of the appliances", h.and_(h.le((c - 1) - 1e-9, u * n), h.le(u * n, c + 1e-9)))
        if kind == "uniform":
            h.check("the share covers all appliances", h.and_(h.eq(args[0], 0), h.le(h.abs(args[1] * n - (n - 0.5)), 1e-9)))


def one_event(h):
    """the rule used is that of the event's position relative to the peak range"""
    n = h.pick("number", [2, 4])
    fc = h.pick("func_cycle", [3])
    s, e = sym_window(h, "w1", minlen=10)
    pa = h.int("peak_start", 0, 1400)
    pn = h.int("peak_len", 2, 200)
    h.assume(h.le(pa + pn, 1440))
    app = appliance(h, number=n, power=10.0, func_time=fc, func_cycle=fc, window_1=[s, e])
    k0 = h.ndraws()
    app.generate_load_profile(0, h.np.arange(pa, pa + pn), 0, 10.0)
    use = app.daily_use
    first = h.int("on", 0, 1439)
    h.assume(h.lt(1, use[first]))
    h.assume(h.or_(h.eq(first, 0), h.le(use[h.mx(first - 1, 0)], 1)))
    touches = h.and_(h.lt(first, pa + pn), h.le(pa, first + fc - 1))
    normal = len(h.drawn(NORMAL, k0)) > 0
    h.check("an event touching the peak range uses the peak rule, any other the off-peak rule", h.iff(touches, normal))
    if normal:
        g = h.drawn(NORMAL, k0)[-1][1]
        c = use[first]
        h.check("the load of the event is the coincidence times the power", h.and_(h.or_(h.le(g * 10, c), h.eq(c, 10 * n)), h.or_(h.lt(c, g * 10 + 10), h.eq(c, 10))))
    h.obs("on", use[first])


def several(h):
    """the rule of each event, the last one being cut to the remaining time"""
    n = h.pick("number", [2, 4])
    fc, ft = h.pick("times", t([(3, 5), (4, 6)], [(3, 5), (4, 6), (3, 7), (5, 9)]))
    s, e = sym_window(h, "w1", minlen=20)
    # the shortest peak range
    pa = h.int("peak_start", 0, 1438)
    app = appliance(h, number=n, power=10.0, func_time=ft, func_cycle=fc, window_1=[s, e])
    k0 = h.ndraws()
    app.generate_load_profile(0, h.np.arange(pa, pa + 2), 0, 10.0)
    use = app.daily_use
    normal = len(h.drawn(NORMAL, k0))
    touched = h.or_(h.lt(1, use[pa]), h.lt(1, use[pa + 1]))
    h.check("the peak rule is used if and only if one of the events is in the peak range", h.iff(touched, normal > 0))
    both = h.and_(h.lt(1, use[pa]), h.lt(1, use[pa + 1]))
    h.check("each event in the peak range uses the peak rule once", h.implies(h.or_(both, h.not_(touched)), normal <= 2))
    h.obs("in use", use[pa])


HARNESSES = [{"name": "direct", "fn": direct}, {"name": "one_event", "fn": one_event}, {"name": "several", "fn": several}]
