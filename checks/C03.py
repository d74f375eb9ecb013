"""C03: the daily time of use is what was declared, up to its variability"""
from checks.common import *

BOUNDS = "func_time up to 12 minutes in generated days (any up to 1440 for the drawn total), func_cycle at least a third of it, one or two windows with room, variability in the listed values"
OUTSIDE = "generated days with more than 4 switch-on events"
EPS = 1e-6


def on_time(h, v, lo, hi, ft, fc, room):
    """bounds of the randomised total"""
    h.check("total is at least func_cycle", h.le(fc, v))
    h.check("total is at most 99% of the randomised windows", h.le(v, room * 0.99 + EPS))
    h.check("total is at most func_time times (1 + variability), or func_cycle", h.or_(h.le(v, hi), h.le(v, fc)))
    h.check("total is at least func_time times (1 - variability) unless the windows are too short", h.or_(h.le(lo, v), h.lt(room * 0.99 - 1 - EPS, v)))


def drawn_total(h):
    var = h.pick("variability", t([0, 0.25, 0.5, 1], [0, 0.1, 0.2, 0.25, 0.5, 0.75, 0.9, 1]))
    ft = h.pick("func_time", t([1, 7, 60, 240, 1440], [1, 2, 3, 7, 15, 60, 61, 240, 720, 1333, 1440]))
    fc = h.int("func_cycle", 0, 1440)
    ws = [sym_window(h, "w%d" % k, minlen=0) for k in (1, 2, 3)]
    app = appliance(h, power=5.0, number=1, func_time=ft, func_cycle=fc, time_fraction_random_variability=var, window_1=[0, 1440])
    h.have(app, "rand_total_time_of_use")
    try:
        v = app.rand_total_time_of_use(*[h.list(w) for w in ws])
    except ValueError as x:
        room = sum(e - s for s, e in ws)
        h.check("refused only if func_cycle does not fit", h.lt(room * 0.99 - 1 - EPS, fc))
        return
    room = sum(e - s for s, e in ws)
    on_time(h, v, h.trunc(ft * (1 - var)), ft * (1 + var) + EPS, ft, fc, room)
    h.obs("total", v)


def spend(h, app, room, ft, fc, var, peak=(600, 700)):
    """generate a day and compare the minutes in use with the drawn total"""
    h.have(app, "rand_total_time_of_use")
    got = []
    orig = app.rand_total_time_of_use

    def rec(*a, **k):
        got.append(orig(*a, **k))
        return got[-1]

    app.rand_total_time_of_use = rec
    try:
        use = generate(h, app, 10.0, peak=peak)
    except ValueError as x:
        if "func_cycle" in str(x):
            return
        raise
    on = h.np.sum(use > 0.01)
    h.check("the minutes in use equal the drawn total", h.eq(on, got[-1]))
    h.check("minutes in use within func_time and its variability", h.and_(h.le(h.mn(h.trunc(ft * (1 - var)), h.trunc(room * 0.99)), on), h.or_(h.le(on, ft * (1 + var) + EPS), h.le(on, fc))))
    h.obs("on", on)


def one_window(h):
    var = h.pick("variability", t([0, 0.5], [0, 0.2, 0.5, 1]))
    ft = h.pick("func_time", t([8], [8, 12]))
    fc = h.int("func_cycle", t(6, 4), 8)
    s, e = sym_window(h, "w1", 0, 1440, 120)
    app = appliance(h, number=2, power=10.0, func_time=ft, func_cycle=fc, fixed="yes", time_fraction_random_variability=var, window_1=[s, e])
    spend(h, app, e - s, ft, fc, var, peak=(0, 1440))


def two_windows(h):
    ft = 9
    fc = h.int("func_cycle", t(5, 3), 6)
    s, e = sym_window(h, "w1", 0, 1440, 60)
    s2, e2 = sym_window(h, "w2", 0, 1440, 60)
    order = h.pick("order", ["first before", "first after", "overlap"])
    if order == "first before":
        h.assume(h.le(e, s2))
    elif order == "first after":
        h.assume(h.le(e2, s))
    else:
        h.assume(h.and_(h.le(s, s2), h.lt(s2, e), h.le(e, e2)))
    app = appliance(h, number=1, power=10.0, func_time=ft, func_cycle=fc, num_windows=2, window_1=[s, e], window_2=[s2, e2])
    spend(h, app, 120, ft, fc, 0, peak=(0, 1440))


def tight(h):
    """windows with little room: never more than the total"""
    s = h.int("w1_start", 0, 1400)
    n = h.int("w1_len", 6, t(10, 12))
    ft = h.pick("func_time", t([6], [6, 9]))
    h.assume(h.le(ft, n))
    fc = h.int("func_cycle", 2, 6)
    app = appliance(h, number=1, power=10.0, func_time=ft, func_cycle=fc, fixed="yes", window_1=[s, s + n])
    h.have(app, "rand_total_time_of_use")
    try:
        use = generate(h, app, 10.0, peak=(0, 1440))
    except ValueError as x:
        if "func_cycle" in str(x):
            return
        raise
    on = h.np.sum(use > 0.01)
    h.check("never more minutes in use than the total", h.le(on, h.mx(ft, fc)))
    h.check("an event takes place", h.le(h.mn(fc, ft), on))
    h.obs("on", on)


HARNESSES = [
    {"name": "drawn_total", "fn": drawn_total},
    {"name": "one_window", "fn": one_window},
    {"name": "two_windows", "fn": two_windows},
    {"name": "tight", "fn": tight},
]
