"""C05: every switch-on event lasts at least func_cycle and fits its free spot"""
from checks.common import *

BOUNDS = "any one to three disjoint free spots of the day, any func_cycle from 0 to 1440 and requested time; events of generated days with symbolic window"
OUTSIDE = "more than three free spots; free spots that overlap"


def direct(h):
    n = h.pick("spots", [0, 1, 2, 3])
    cyc = h.pick("cycles", [0, 1])
    fc = h.int("func_cycle", 0, 1440)
    rt = h.int("rand_time", 1, 1440)
    h.assume(h.le(fc, rt))
    spots, last = [], None
    for k in range(n):
        a = h.int("spot%d_start" % k, 0, 1439)
        b = h.int("spot%d_stop" % k, 1, 1440)
        h.assume(h.lt(a, b))
        if last is not None:
            h.assume(h.le(last, a))
        last = b
        spots.append((a, b))
    kw = {}
    if cyc:
        kw = dict(fixed_cycle=1, p_11=10, t_11=5, p_12=1, t_12=5, cw11=[0, 1440], continuous_duty_cycle=1)
    app = appliance(h, number=1, power=10.0, func_time=4, func_cycle=fc, window_1=[0, 1440], **kw)
    h.have(app, "rand_switch_on_window", "free_spots")
    app.free_spots = h.list([slice(a, b, None) for a, b in spots])
    r = app.rand_switch_on_window(rt)
    need = h.mx(fc, 1)
    if r is None:
        for a, b in spots:
            h.check("no event only if no free spot can hold one", h.lt(b - a, need))
        h.obs("event", None)
        return
    size = h.size(r)
    first, last = r[0], r[-1]
    h.check("the event lasts at least func_cycle", h.le(need, size))
    h.check("the event is not longer than requested", h.le(size, rt))
    h.check("the event is a contiguous run", h.eq(last - first + 1, size))
    k = h.int("position", 0, 1439)
    h.assume(h.lt(k, size))
    h.check("the event is a contiguous run", h.eq(r[k], first + k))
    h.check("the event lies inside one free spot", h.or_(*[h.and_(h.le(a, first), h.lt(last, b)) for a, b in spots]))
    h.obs("event", [first, last])


def generated(h):
    """every run of minutes in use is made of events of at least func_cycle, but the last event of the day"""
    s, e = sym_window(h, "w1", minlen=40)
    fc = h.int("func_cycle", 3, 5)
    app = appliance(h, number=1, power=10.0, func_time=5, func_cycle=fc, fixed="yes", window_1=[s, e])
    got = []
    h.have(app, "rand_switch_on_window")
    orig = app.rand_switch_on_window

    def rec(*a, **k):
        r = orig(*a, **k)
        got.append(r)
        return r

    app.rand_switch_on_window = rec
    use = generate(h, app, 10.0)
    for r in got:
        if r is None:
            continue
        h.check("every event lasts at least func_cycle", h.le(fc, h.size(r)))
        h.check("events lie in the window", h.and_(h.le(s, r[0]), h.lt(r[-1], e)))
    v = use[got[0][0]]
    h.check("the first event is switched on", h.eq(v, 10))
    h.obs("v", v)


HARNESSES = [
    {"name": "direct", "fn": direct},
    {"name": "generated", "fn": generated},
]
