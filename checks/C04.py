"""C04: switch-on events of a day never overlap; free time accounts for them"""
from checks.common import *

BOUNDS = "one to three windows, overlapping or not, random_var_w in the listed values, up to 4 events, any minute"
OUTSIDE = "more than 4 switch-on events per day"
OFF = 0.001


def account(h, app, use):
    h.have(app, "free_spots")
    spots = app.free_spots
    tt = h.int("minute", 0, 1439)
    v = use[tt]
    inside = [h.and_(h.le(s.start, tt), h.lt(tt, s.stop)) for s in spots]
    h.check("a minute is free exactly if it lies in a window and no event took it", h.iff(h.or_(*inside) if inside else False, h.eq(v, OFF)))
    for k, s in enumerate(spots):
        h.check("free spots are not empty", h.lt(s.start, s.stop))
        if k:
            h.check("free spots are ordered and disjoint", h.le(spots[k - 1].stop, s.start))
    h.obs("load", v)
    h.obs("spots", len(spots))


def run(h, app, peak=(600, 700)):
    try:
        use = generate(h, app, 10.0, peak=peak)
    except ValueError as x:
        if "func_cycle" in str(x):
            return
        raise
    account(h, app, use)


def one_window(h):
    w = h.pick("random_var_w", t([0, 0.5], [0, 0.1, 0.5, 1]))
    fc = h.int("func_cycle", t(3, 2), 6)
    s, e = sym_window(h, "w1", minlen=6)
    app = appliance(h, number=2, power=10.0, func_time=6, func_cycle=fc, fixed="yes", window_1=[s, e], random_var_w=w)
    run(h, app)


def two_windows(h):
    w = h.pick("random_var_w", t([0], [0, 0.25]))
    fc = h.int("func_cycle", 4, 6)
    s, e = sym_window(h, "w1", minlen=6)
    s2, e2 = sym_window(h, "w2", minlen=6)
    app = appliance(h, number=1, power=10.0, func_time=8, func_cycle=fc, fixed="yes", num_windows=2, window_1=[s, e], window_2=[s2, e2], random_var_w=w)
    run(h, app)


def three_windows(h):
    fc = 3
    ws = [sym_window(h, "w%d" % k, minlen=3) for k in (1, 2, 3)]
    app = appliance(h, number=1, power=10.0, func_time=3, func_cycle=fc, fixed="yes", num_windows=3, window_1=list(ws[0]), window_2=list(ws[1]), window_3=list(ws[2]))
    run(h, app)


def split(h):
    """bookkeeping of one event in up to three free spots, through a short day"""
    n = h.int("w1_len", 8, t(11, 16))
    s = h.int("w1_start", 0, 1400)
    fc = h.int("func_cycle", t(2, 1), 3)
    app = appliance(h, number=1, power=10.0, func_time=t(6, 8), func_cycle=fc, fixed="yes", window_1=[s, s + n])
    run(h, app)


HARNESSES = [
    {"name": "one_window", "fn": one_window},
    {"name": "two_windows", "fn": two_windows},
    {"name": "three_windows", "fn": three_windows},
    {"name": "split", "fn": split},
]
