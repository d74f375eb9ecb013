"""C01: an appliance consumes only inside its windows of use of the day"""
from checks.common import *

BOUNDS = "one to three windows anywhere in the day (symbolic limits), window variability in the listed values, up to 3 switch-on events, any minute"
OUTSIDE = "more than 3 switch-on events per day, other values of random_var_w"


def in_reach(h, t, wins, w):
    """minute t can belong to a randomised window"""
    cs = []
    for s, e in wins:
        v = h.trunc(w * (e - s)) if w else 0
        cs.append(h.and_(h.le(s - v, t), h.lt(t, e + v)))
    return h.or_(*cs)


def one_window(h):
    w = h.pick("random_var_w", t([0, 0.1, 0.3, 0.5, 1], [0, 0.05, 0.1, 0.25, 0.3, 0.35, 0.5, 0.6, 0.75, 1]))
    flat = h.pick("flat", ["no", "yes"])
    s, e = sym_window(h, "w1")
    ft = h.pick("func_time", [6])
    fc = h.int("func_cycle", 3, 6)
    h.assume(h.le(ft, e - s))
    app = appliance(h, number=2, power=10.0, func_time=ft, func_cycle=fc, fixed="yes", flat=flat, window_1=[s, e], num_windows=1, random_var_w=w)
    use = run(h, app)
    if use is None:
        return
    verdict(h, use, [(s, e)], w)


def run(h, app):
    try:
        return generate(h, app, 10.0)
    except ValueError as x:
        # documented: the randomised windows of this day are too short for func_cycle
        if "func_cycle" in str(x):
            return None
        raise


def verdict(h, use, wins, w):
    t = h.int("minute", 0, 1439)
    h.check("profile covers the 1440 minutes of the day", h.eq(h.size(use), 1440))
    v = use[t]
    h.check("no load outside the randomised windows", h.or_(in_reach(h, t, wins, w), h.eq(v, 0)))
    h.check("load is never negative", h.le(0, v))
    h.obs("load", v)


def two_windows(h):
    w = h.pick("random_var_w", t([0, 0.2], [0, 0.1, 0.2, 0.5]))
    flat = h.pick("flat", ["no", "yes"])
    s1, e1 = sym_window(h, "w1")
    s2, e2 = sym_window(h, "w2")
    h.assume(h.le(e1, s2))
    fc = 4
    h.assume(h.le(4, e1 - s1 + e2 - s2))
    app = appliance(h, number=1, power=10.0, func_time=4, func_cycle=fc, fixed="yes", flat=flat, window_1=[s1, e1], window_2=[s2, e2], num_windows=2, random_var_w=w)
    use = run(h, app)
    if use is not None:
        verdict(h, use, [(s1, e1), (s2, e2)], w)


def three_windows(h):
    w = h.pick("random_var_w", t([0], [0, 0.2]))
    flat = h.pick("flat", ["no", "yes"])
    s1, e1 = sym_window(h, "w1", 0, 400)
    s2, e2 = sym_window(h, "w2", 400, 900)
    s3, e3 = sym_window(h, "w3", 900, 1440)
    app = appliance(h, number=1, power=10.0, func_time=3, func_cycle=3, fixed="yes", flat=flat, window_1=[s1, e1], window_2=[s2, e2], window_3=[s3, e3], num_windows=3, random_var_w=w)
    use = run(h, app)
    if use is not None:
        verdict(h, use, [(s1, e1), (s2, e2), (s3, e3)], w)


def default_window(h):
    """no window declared: the whole day"""
    u = user(h)
    app = appliance(h, u, number=1, power=10.0, func_time=5, func_cycle=5, fixed="yes", random_var_w=0.1)
    use = run(h, app)
    if use is not None:
        verdict(h, use, [(0, 1440)], 0)


HARNESSES = [
    {"name": "one_window", "fn": one_window},
    {"name": "two_windows", "fn": two_windows},
    {"name": "three_windows", "fn": three_windows},
    {"name": "default_window", "fn": default_window},
]
