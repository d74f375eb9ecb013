"""C06: duty cycles: the cycle declared for the event's time of day is consumed"""
from checks.common import *

BOUNDS = "one to three cycles with phases of 0 to 4 minutes, events of up to 12 minutes anywhere in the window, any powers; variability of powers and durations in the listed values"
OUTSIDE = "longer phases, more events per day; events that touch a cycle window only in its excluded last minute"
EPS = 1e-6


def start_of(h, use, lo=0.01):
    """a minute at which the appliance is switched on"""
    s = h.int("on", 0, 1439)
    h.assume(h.lt(lo, use[s]))
    prev = use[h.mx(s - 1, 0)]
    h.assume(h.or_(h.eq(s, 0), h.le(prev, lo)))
    return s


def phase(h, k, segs):
    """value of a cycle given as [(length, power)...] at position k of a repeating cycle"""
    total = sum(a for a, _ in segs)
    k = k % total
    for a, p in segs:
        if k < a:
            return p
        k -= a


def one_cycle(h):
    """one event, consumed as the cycle repeated"""
    t1 = h.pick("t_11", t([1, 3], [0, 1, 2, 3, 4]))
    t2 = h.pick("t_12", t([0, 2], [0, 1, 2, 4]))
    if t1 + t2 == 0:
        return
    n = h.pick("number", [1, 3])
    p1 = h.real("p_11", 1, 500)
    p2 = h.real("p_12", 1, 500)
    fc = h.pick("func_cycle", t([4, 7], [4, 7, 12]))
    s, e = sym_window(h, "w1", minlen=30)
    app = appliance(h, number=n, power=9.0, func_time=fc, func_cycle=fc, fixed="yes", fixed_cycle=1, window_1=[s, e], p_11=p1, t_11=t1, p_12=p2, t_12=t2, cw11=[0, 1440])
    use = generate(h, app, 9.0)
    on = start_of(h, use)
    for k in range(fc):
        h.check("the event consumes the declared cycle", h.eq(use[h.mn(on + k, 1439)], n * phase(h, k, [(t1, p1), (t2, p2)])))
    h.obs("first", use[on])


def by_window(h):
    """the cycle of the window that contains the event"""
    nc = h.pick("cycles", [2])
    fc = 4
    s1, e1 = sym_window(h, "cw1", 1, 700, 30)
    s2, e2 = sym_window(h, "cw2", 701, 1440, 30)
    second = h.pick("declared as", [0, 1])
    p = [h.real("p%d" % k, 1, 500) for k in range(4)]
    cw1 = dict(cw12=[s1, e1], cw11=[1439, 1440]) if second else dict(cw11=[s1, e1], cw12=[1439, 1440])
    cw2 = dict(cw22=[s2, e2], cw21=[1439, 1440]) if second else dict(cw21=[s2, e2], cw22=[1439, 1440])
    swap = h.pick("cycle 1 later in the day", [0, 1])
    if swap:
        cw1, cw2 = {k.replace("cw2", "cw1"): v for k, v in cw2.items()}, {k.replace("cw1", "cw2"): v for k, v in cw1.items()}
    # the window of use follows the cycle windows, so that an event always meets one of them
    app = appliance(h, number=2, power=9.0, func_time=fc, func_cycle=fc, fixed="yes", fixed_cycle=2, num_windows=2, window_1=[s1, e1], window_2=[s2, e2],
                    p_11=p[0], t_11=2, p_12=p[1], t_12=1, p_21=p[2], t_21=1, p_22=p[3], t_22=2, **dict(cw1, **cw2))
    use = generate(h, app, 9.0)
    on = start_of(h, use)
    h.assume(h.lt(on + fc, 1438))
    seqs = [[(2, p[0]), (1, p[1])], [(1, p[2]), (2, p[3])]]
    if swap:
        seqs.reverse()
    in1 = h.and_(h.le(s1, on), h.le(on + fc, e1))
    in2 = h.and_(h.le(s2, on), h.le(on + fc, e2))
    h.check("the event takes place in one of the windows", h.or_(in1, in2))
    for k in range(fc):
        v = use[on + k]
        h.check("an event inside the window of a cycle consumes that cycle", h.and_(h.implies(in1, h.eq(v, 2 * phase(h, k, seqs[0]))), h.implies(in2, h.eq(v, 2 * phase(h, k, seqs[1])))))
    h.obs("on", use[on])


def third_cycle(h):
    """with three cycles each one may be consumed in either order of its phases"""
    which = h.pick("which", [1, 2, 3])
    slot = h.pick("slot", [1, 2])
    n = h.pick("number", t([1, 3] if slot == 1 else [1], [1, 3]))
    fc = 4
    s, e = sym_window(h, "w1", 10, 1400, 20)
    cw = {"cw11": [1438, 1439], "cw12": [1438, 1439], "cw21": [1438, 1439], "cw22": [1438, 1439], "cw31": [1438, 1439], "cw32": [1438, 1439]}
    cw["cw%d%d" % (which, slot)] = [s, e]
    pars = {}
    for c in (1, 2, 3):
        pars.update({"p_%d1" % c: 10.0 * c, "t_%d1" % c: 1 if c != 2 else 2, "p_%d2" % c: 10.0 * c + 5, "t_%d2" % c: 2 if c != 3 else 1, "r_c%d" % c: 0})
    pars.update(cw)
    app = appliance(h, number=n, power=9.0, func_time=fc, func_cycle=fc, fixed="yes", fixed_cycle=3, window_1=[s, e], **pars)
    use = generate(h, app, 9.0)
    on = start_of(h, use)
    a = [(pars["t_%d1" % which], n * pars["p_%d1" % which]), (pars["t_%d2" % which], n * pars["p_%d2" % which])]
    b = list(reversed(a))
    xs = [use[on + k] for k in range(fc)]
    h.check("the event consumes its cycle in one of the two orders", h.or_(h.and_(*[h.eq(x, phase(h, k, a)) for k, x in enumerate(xs)]), h.and_(*[h.eq(x, phase(h, k, b)) for k, x in enumerate(xs)])))
    h.obs("on", xs[0])


def units(h):
    """appliances that are not used together: one to number of them consume the cycle of the event"""
    which = h.pick("which", [1, 2, 3])
    n = h.pick("number", t([3], [2, 3, 5]))
    fc = 3
    s, e = sym_window(h, "w1", 10, 1400, 20)
    pars = {"cw%d%d" % (c, k): [1438, 1439] for c in (1, 2, 3) for k in (1, 2)}
    pars["cw%d%d" % (which, 1)] = [s, e]
    for c in (1, 2, 3):
        pars.update({"p_%d1" % c: 16.0 * c, "t_%d1" % c: 2, "p_%d2" % c: 16.0 * c, "t_%d2" % c: 1, "r_c%d" % c: 0})
    app = appliance(h, number=n, power=9.0, func_time=fc, func_cycle=fc, fixed="no", fixed_cycle=3, window_1=[s, e], **pars)
    use = generate(h, app, 9.0)
    on = start_of(h, use)
    v = use[on]
    h.check("one to number appliances consume the cycle", h.or_(*[h.eq(v, k * 16.0 * which) for k in range(1, n + 1)]))
    h.check("all minutes of the event have the same number of appliances", h.and_(*[h.eq(use[on + k], v) for k in range(1, fc)]))
    # all of them together are within reach
    h.obs("v", v)


def variability(h):
    """powers vary by at most thermal_p_var, durations by at most r_c"""
    var = h.pick("thermal_p_var", t([0, 0.25], [0, 0.1, 0.25, 1]))
    rc = h.pick("r_c1", t([0, 0.5], [0, 0.1, 0.25, 0.5, 1]))
    t1, t2 = h.pick("t_11", [2, 4]), h.pick("t_12", [2])
    p1, p2 = 8.0, 200.0
    fc = 8
    s, e = sym_window(h, "w1", 10, 1400, 30)
    n = h.pick("number", [1, 2])
    app = appliance(h, number=n, power=9.0, func_time=fc, func_cycle=fc, fixed="yes", fixed_cycle=1, thermal_p_var=var, window_1=[s, e], p_11=p1, t_11=t1, p_12=p2, t_12=t2, r_c1=rc, cw11=[0, 1440])
    use = generate(h, app, 9.0)
    hi1 = int(t1 * (1 + rc))
    on = h.int("on", 0, 1430)
    h.assume(h.lt(OFF + EPS, use[on]))
    v = use[on]
    near = lambda p: h.and_(h.le(n * p * (1 - var) - EPS, v), h.le(v, n * p * (1 + var) + EPS))
    h.check("a minute in use consumes one of the two powers of the cycle within the declared variability", h.or_(near(p1), near(p2)))
    if var == 0:
        # runs of the first phase are never longer than its longest duration
        h.assume(h.eq(v, n * p1))
        h.check("a phase is not longer than its duration allows", h.not_(h.and_(*[h.eq(use[on + k], n * p1) for k in range(hi1 + 1)])))
    h.obs("on", v)


OFF = 0.001


def not_continuous(h):
    """a non-continuous cycle is not repeated within an event"""
    t1, t2 = h.pick("t_11", t([1, 2], [1, 2, 3])), h.pick("t_12", [2])
    L = t1 + t2
    fc = h.pick("func_cycle", t([5, 7], [4, 5, 7, 9]))
    slack = h.pick("slack", [1, 2])
    cont = h.pick("continuous_duty_cycle", [0, 1])
    nc, which = h.pick("cycles", [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)] if t1 == 1 and slack == 1 else [(1, 1)])
    s = h.int("w1_start", 0, 1420)
    pars = {}
    for c in range(1, nc + 1):
        if c == which:
            pars.update({"p_%d1" % c: 20.0, "t_%d1" % c: t1, "p_%d2" % c: 30.0, "t_%d2" % c: t2, "cw%d1" % c: [0, 1435], "cw%d2" % c: [1438, 1439]})
        else:
            pars.update({"p_%d1" % c: 50.0 + c, "t_%d1" % c: c, "p_%d2" % c: 60.0 + c, "t_%d2" % c: 3 * c, "cw%d1" % c: [1438, 1439], "cw%d2" % c: [1438, 1439]})
    h.assume(h.le(s + fc + slack, 1434))
    app = appliance(h, number=1, power=9.0, func_time=fc, func_cycle=fc, fixed="yes", fixed_cycle=nc, continuous_duty_cycle=cont, window_1=[s, s + fc + slack], **pars)
    if slack >= L:
        return
    use = generate(h, app, 9.0)
    first = start_of(h, use)
    dur = min(fc, L) if cont == 0 else fc
    other = h.int("minute", 0, 1439)
    h.check("the event lasts one cycle, or func_cycle if the cycle is continuous", h.iff(h.lt(0.01, use[other]), h.and_(h.le(first, other), h.lt(other, first + dur))))
    segs = [(t1, 20.0), (t2, 30.0)]
    orders = [segs] if nc < 3 else [segs, segs[::-1]]
    h.check("the event starts with the first phase of the cycle", h.or_(*[h.and_(*[h.eq(use[h.mn(first + k, 1439)], phase(h, k, o)) for k in range(dur)]) for o in orders]))
    h.obs("v", use[other])


def meets(h):
    """an event that meets the windows of cycles in at least one minute consumes the first of these cycles"""
    fc = h.pick("func_cycle", t([4], [2, 4, 9]))
    pair = h.pick("cycles met", t([(1, 1), (2, 2), (3, 3), (2, 3)], [(1, 1), (2, 2), (3, 3), (1, 2), (2, 3), (1, 3)]))
    slot = h.pick("slot", [1, 2])
    # exactly one switch-on event fits in the windows of use: it fills the first window
    s = h.int("w1_start", 0, 1000)
    pars = {"cw%d%d" % (c, k): [1439, 1440] for c in (1, 2, 3) for k in (1, 2)}
    for n, c in enumerate(sorted(set(pair))):
        a = h.int("cw%d start" % c, 0, 1400)
        b = h.int("cw%d end" % c, 0, 1400)
        h.assume(h.and_(h.lt(a, b), h.lt(a, s + fc), h.lt(s, b)))
        pars["cw%d%d" % (c, slot if n == 0 else 3 - slot)] = [a, b]
    for c in (1, 2, 3):
        pars.update({"p_%d1" % c: 10.0 * c, "t_%d1" % c: 1, "p_%d2" % c: 10.0 * c, "t_%d2" % c: 1, "r_c%d" % c: 0})
    app = appliance(h, number=1, power=9.0, func_time=fc, func_cycle=fc, fixed="yes", fixed_cycle=3, num_windows=2, window_1=[s, s + fc], window_2=[1400, 1400 + fc - 1], **pars)
    use = generate(h, app, 9.0)
    m = h.int("minute", 0, 1439)
    on = h.and_(h.le(s, m), h.lt(m, s + fc))
    h.check("an event that meets the windows of cycles consumes the first of these cycles", h.implies(on, h.eq(use[m], 10.0 * min(pair))))
    h.obs("v", use[m])


def own_variability(h):
    """the phases of a cycle vary by the variability declared for this cycle"""
    nc = h.pick("cycles", [1, 2, 3])
    which = h.pick("which", [1, 2, 3])
    if which > nc:
        return
    own = h.pick("own variability", t([0, 0.5], [0, 0.25, 0.5, 1]))
    other = h.pick("variability of the others", [0, 0.5])
    if own == other and not THOROUGH:
        return
    # exactly one switch-on event fits in the windows of use: it fills the first window
    fc = 10
    s = 100
    pars = {"cw%d%d" % (c, k): [1438, 1439] for c in (1, 2, 3) for k in (1, 2)}
    pars["cw%d1" % which] = [s, s + 40]
    for c in (1, 2, 3):
        pars.update({"p_%d1" % c: 10.0 * c, "t_%d1" % c: 4 if c == which else 8, "p_%d2" % c: 10.0 * c + 5, "t_%d2" % c: 2 if c == which else 6, "r_c%d" % c: own if c == which else other})
    app = appliance(h, number=1, power=9.0, func_time=fc, func_cycle=fc, fixed="yes", fixed_cycle=nc, num_windows=2, window_1=[s, s + fc], window_2=[1400, 1400 + fc - 1], **pars)
    use = generate(h, app, 9.0)
    on = s
    first = use[on]
    for p, tt, p2 in ((10.0 * which, 4, 10.0 * which + 5), (10.0 * which + 5, 2, 10.0 * which)):
        lo, hi = int(tt * (1 - own)), int(tt * (1 + own))
        here = h.eq(first, p)
        h.check("a phase of the cycle lasts as long as its own variability allows (at least)", h.implies(here, h.and_(*[h.eq(use[on + k], p) for k in range(lo)] or [True])))
        if own < 1:
            h.check("a phase of the cycle lasts as long as its own variability allows (at most)", h.implies(here, h.not_(h.and_(*[h.eq(use[on + k], p) for k in range(hi + 1)]))))
    h.check("the event starts with a phase of its cycle", h.or_(h.eq(first, 10.0 * which), h.eq(first, 10.0 * which + 5)))
    h.obs("first", first)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (one_cycle, by_window, third_cycle, units, variability, not_continuous, meets, own_variability)]
