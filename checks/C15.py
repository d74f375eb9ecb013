"""C15: appliances are equal exactly when all declared parameters are equal"""
from checks.common import *

FUNCTIONS = ["ramp.core.core.Appliance.__eq__", "User._add_appliance_instance", "User.add_appliance", "Appliance.__init__", "Appliance.windows", "Appliance.specific_cycle_1..3"]
BOUNDS = "two appliances differing in any one or any two declared parameters with any pair of values, windows given as lists, tuples or arrays, constant powers and series of one to four values"
OUTSIDE = "joint differences of more than two parameters; longer series"

BASE = dict(number=2, power=10.0, num_windows=2, func_time=30, time_fraction_random_variability=0.1, func_cycle=5, fixed="no", fixed_cycle=2, continuous_duty_cycle=1, occasional_use=0.5, flat="no",
            thermal_p_var=0.2, pref_index=1, wd_we_type=2, name="app", window_1=[100, 200], window_2=[300, 400], window_3=[500, 500], random_var_w=0.25,
            p_11=1, t_11=2, cw11=[100, 150], p_12=3, t_12=4, cw12=[150, 200], r_c1=0.1, p_21=5, t_21=6, cw21=[300, 310], p_22=7, t_22=8, cw22=[310, 400], r_c2=0.2,
            p_31=9, t_31=10, cw31=[0, 10], p_32=11, t_32=12, cw32=[20, 30], r_c3=0.3)
INTS = {"number": (0, 50), "num_windows": (1, 3), "func_time": (1, 100), "func_cycle": (0, 100), "fixed_cycle": (0, 3), "continuous_duty_cycle": (0, 1), "pref_index": (0, 3), "wd_we_type": (0, 2),
        "t_11": (0, 20), "t_12": (0, 20), "t_21": (0, 20), "t_22": (0, 20), "t_31": (0, 20), "t_32": (0, 20)}
TEXTS = {"fixed": ["no", "yes"], "flat": ["no", "yes"], "name": ["app", "App", "app 2"]}


def two(h, k, tag):
    """two values for parameter k and the condition that they are equal"""
    if k in INTS:
        a, b = h.int("a_" + tag, *INTS[k]), h.int("b_" + tag, *INTS[k])
        return a, b, h.exact(a, b)
    if k in TEXTS:
        a, b = h.pick("a_" + tag, TEXTS[k]), h.pick("b_" + tag, TEXTS[k])
        return a, b, a == b
    if k.startswith(("window_", "cw")):
        s1, e1 = sym_window(h, "a_" + tag, 0, 1440, 100 if k != "window_3" else 0)
        s2, e2 = sym_window(h, "b_" + tag, 0, 1440, 100 if k != "window_3" else 0)
        return [s1, e1], [s2, e2], h.and_(h.exact(s1, s2), h.exact(e1, e2))
    if k == "random_var_w":
        a, b = h.pick("a_" + tag, [0, 0.1, 0.25, 1]), h.pick("b_" + tag, [0, 0.1, 0.25, 1])
        return a, b, a == b
    hi = 1 if k in ("time_fraction_random_variability", "occasional_use", "thermal_p_var", "r_c1", "r_c2", "r_c3") else 1000
    a, b = h.real("a_" + tag, 0, hi), h.real("b_" + tag, 0, hi)
    return a, b, h.exact(a, b)


def verdict(h, va, vb, same):
    a = user(h).add_appliance(**va)
    b = user(h).add_appliance(**vb)
    r = bool(a == b)
    h.check("equal exactly if all parameters are equal", h.iff(r, same))
    h.check("the comparison is symmetric", bool(b == a) == r)
    h.check("an appliance equals itself", bool(a == a))
    h.check("!= is the opposite", bool(a != b) != r)
    h.obs("equal", r)


def single(h):
    k = h.pick("parameter", list(BASE))
    x, y, same = two(h, k, "v")
    verdict(h, dict(BASE, **{k: x}), dict(BASE, **{k: y}), same)


PAIRS = [(a, b) for i, a in enumerate(BASE) for b in list(BASE)[i + 1:]]


def joint(h):
    """two parameters differ, values exchanged included"""
    a, b = h.pick("parameters", PAIRS)
    x1, y1, s1 = two(h, a, "v")
    x2, y2, s2 = two(h, b, "w")
    verdict(h, dict(BASE, **{a: x1, b: x2}), dict(BASE, **{a: y1, b: y2}), h.and_(s1, s2))


def kinds(h):
    """the way windows are given does not matter"""
    k = h.pick("parameter", ["window_1", "window_2", "window_3", "cw11", "cw12", "cw21", "cw22", "cw31", "cw32"])
    x, y, same = two(h, k, "v")
    mk = h.pick("as", ["array", "tuple"])
    y = h.np.array(y) if mk == "array" else tuple(y)
    verdict(h, dict(BASE, **{k: x}), dict(BASE, **{k: y}), same)


def series(h):
    """power series"""
    n, m = h.pick("n", [1, 2, 3, 4]), h.pick("m", [1, 2, 3, 4])
    x = [h.real("x%d" % k, 0, 10) for k in range(n)]
    y = [h.real("y%d" % k, 0, 10) for k in range(m)]
    if n == m:
        same = h.and_(*[h.exact(a, b) for a, b in zip(x, y)])
    else:
        # series of different lengths are equal only if they are the same constant
        same = h.and_(*[h.exact(a, x[0]) for a in x + y])
    verdict(h, dict(BASE, power=h.pd.DataFrame(x)), dict(BASE, power=h.pd.DataFrame(y)), same)


def series_and_constant(h):
    n = h.pick("n", [1, 2, 3])
    x = [h.real("x%d" % k, 0, 10) for k in range(n)]
    c = h.real("c", 0, 10)
    same = h.and_(*[h.exact(a, c) for a in x])
    verdict(h, dict(BASE, power=h.pd.DataFrame(x)), dict(BASE, power=c), same)


def once(h):
    """an appliance equal to one the user owns is not added twice, a different one is"""
    k = h.pick("parameter", list(BASE))
    x, y, same = two(h, k, "v")
    u = user(h)
    a = u.add_appliance(**dict(BASE, **{k: x}))
    how = h.pick("how", ["keywords", "object", "objects"])
    if how == "keywords":
        b = u.add_appliance(**dict(BASE, **{k: y}))
    else:
        b = user(h).add_appliance(**dict(BASE, **{k: y}))
        if how == "object":
            u.add_appliance(b)
        else:
            u.add_appliance(a, b, b)
    n = len(u.App_list)
    h.check("an equal appliance is not added twice", h.implies(same, n == 1))
    h.check("a different appliance is added", h.implies(h.not_(same), n == 2 and u.App_list[-1] is b))
    h.check("the first appliance stays", u.App_list[0] is a)
    h.obs("n", n)


def third(h):
    """compared with every appliance the user owns"""
    n = [h.int("number%d" % k, 1, 5) for k in range(3)]
    u = user(h)
    for k in range(3):
        u.add_appliance(**dict(BASE, number=n[k]))
    distinct = 1 + h.ite(h.exact(n[1], n[0]), 0, 1) + h.ite(h.or_(h.exact(n[2], n[0]), h.exact(n[2], n[1])), 0, 1)
    h.check("the user owns each different appliance once", h.exact(len(u.App_list), distinct))
    h.obs("n", len(u.App_list))


def others(h):
    """anything else is different"""
    a = user(h).add_appliance(**BASE)
    x = h.pick("other", [None, 1, "app", [1]])
    h.check("an appliance differs from other objects", not bool(a == x))
    h.obs("r", True)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (single, joint, kinds, series, series_and_constant, once, third, others)]
