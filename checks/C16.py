"""C16: inconsistent windows and parameters are refused"""
from checks.common import *

FUNCTIONS = ["ramp.core.core.Appliance.windows", "User.add_appliance", "User._add_appliance_instance", "UseCase.add_user", "UseCase.peak_enlarge", "Appliance.__init__"]
BOUNDS = "any window limits within the day, any func_time, one to three windows, every subset of windows given, lists, tuples and arrays"
OUTSIDE = "windows whose end is before their start, limits outside the day"


def refused(h, exc, f):
    """(refused, result)"""
    try:
        return False, f()
    except exc:
        return True, None


def errors(h):
    return h.mod("ramp.errors_logs.errors")


def windows(h):
    n = h.pick("num_windows", [1, 2, 3])
    given = [h.flag("window_%d given" % k) for k in (1, 2, 3)]
    kind = h.pick("kind", ["list", "array", "tuple"])
    ft = h.int("func_time", 0, 1500)
    w = h.pick("random_var_w", [0, 0.3, 1])
    ws, kw = [], {}
    for k in range(3):
        s, e = sym_window(h, "w%d" % (k + 1), minlen=0)
        ws.append((s, e))
        if given[k]:
            v = [s, e]
            kw["window_%d" % (k + 1)] = v if kind == "list" else tuple(v) if kind == "tuple" else h.np.array(v)
    route = h.pick("route", ["windows", "add_appliance", "positional"])
    u = user(h)
    if route == "add_appliance":
        if not any(given):
            return
        no, a = refused(h, errors(h).InvalidWindow, lambda: u.add_appliance(name="a", power=5.0, num_windows=n, func_time=ft, random_var_w=w, **kw))
    else:
        a = u.add_appliance(name="a", power=5.0, num_windows=n, func_time=ft)
        if route == "windows":
            no, _ = refused(h, errors(h).InvalidWindow, lambda: a.windows(random_var_w=w, **kw))
        else:
            no, _ = refused(h, errors(h).InvalidWindow, lambda: a.windows(kw.get("window_1"), kw.get("window_2"), w, kw.get("window_3")))
    miss = (n >= 2 and not given[1]) or (n >= 3 and not given[2])
    tot = 0
    for k in range(n):
        tot = tot + ((ws[k][1] - ws[k][0]) if given[k] else 1440 if k == 0 else 0)
    bad = h.or_(miss, h.lt(tot, ft))
    h.check("fewer windows than declared, or too short ones, are refused", h.implies(bad, no))
    h.check("any other declaration is accepted", h.implies(no, bad))
    h.obs("refused", no)
    if no:
        return
    for k in range(3):
        got = getattr(a, "window_%d" % (k + 1))
        want = ws[k] if given[k] else (0, 1440) if k == 0 else (0, 0)
        h.check("windows are stored unchanged, the whole day by default", same_value(h, got, list(want)))
    h.check("the variability is stored unchanged", h.eq(a.random_var_w, w))
    h.check("the user owns the appliance", len(u.App_list) == 1 and u.App_list[0] is a)


def again(h):
    """windows declared again are checked and replaced"""
    ft = h.int("func_time", 1, 300)
    s, e = sym_window(h, "w1", minlen=0)
    u = user(h)
    a = u.add_appliance(name="a", power=5.0, num_windows=1, func_time=ft, window_1=[0, 600])
    no, _ = refused(h, errors(h).InvalidWindow, lambda: a.windows([s, e]))
    h.check("refused exactly if too short", h.iff(no, h.lt(e - s, ft)))
    if not no:
        h.check("the new window replaces the old one", same_value(h, a.window_1, [s, e]))
    h.check("owned once", len(u.App_list) == 1)
    h.obs("refused", no)


def strangers(h):
    """only users and appliances can be added"""
    x = h.pick("object", [None, 3, "user", "object", 2.5])
    u, v = user(h), user(h, user_name="v")
    uc = h.core.UseCase()
    how = h.pick("how", ["alone", "in a list", "nested"])
    if x == "object":
        x = u.add_appliance(name="a")
    arg = x if how == "alone" else [u, x] if how == "in a list" else [u, [v, x]]
    no, _ = refused(h, errors(h).InvalidType, lambda: uc.add_user(arg))
    h.check("what is not a user is refused", no)
    h.check("what is not a user is not added", all(a is u or a is v for a in uc.users))
    no, _ = refused(h, errors(h).InvalidType, lambda: h.core.UseCase(users=[u, x]))
    h.check("what is not a user is refused at construction", no)
    y = h.pick("appliance", [None, 3, "a", u])
    a, b = h.core.Appliance(u, name="x"), h.core.Appliance(u, name="y")
    order = h.pick("order", [0, 1])
    no, _ = refused(h, TypeError, lambda: u.add_appliance(*((a, y, b) if order else (a, b, y))))
    h.check("what is not an appliance is refused", no)
    h.check("what is not an appliance is not added", all(isinstance(p, h.core.Appliance) for p in u.App_list))
    h.obs("refused", no)


def users(h):
    """users are added in order, alone, in lists, nested"""
    us = [user(h, user_name="u%d" % k) for k in range(4)]
    how = h.pick("how", ["alone", "list", "nested", "construction", "mixed"])
    if how == "construction":
        uc = h.core.UseCase(users=list(us))
    elif how == "mixed":
        uc = h.core.UseCase(users=us[:2])
        uc.add_user(us[2])
        uc.add_user([us[3]])
    else:
        uc = h.core.UseCase()
        if how == "alone":
            for x in us:
                uc.add_user(x)
        else:
            uc.add_user(list(us) if how == "list" else [us[0], [us[1], [us[2]]], us[3]])
    h.check("all the users are added, in order", len(uc.users) == 4 and all(a is b for a, b in zip(uc.users, us)))
    h.check("the users know their use case", all(x.usecase is uc for x in us))
    h.obs("n", len(uc.users))


def peak(h):
    """the peak enlargement is a float, not negative"""
    u = user(h)
    u.add_appliance(name="a", power=5.0, func_time=5, window_1=[100, 200])
    uc = h.core.UseCase(users=[u])
    x = h.real("peak_enlarge", -2, 2)

    def put(v):
        uc.peak_enlarge = v

    no, _ = refused(h, ValueError, lambda: put(x))
    h.check("a negative enlargement is refused", h.iff(no, h.not_(h.le(0, x))))
    h.check("the enlargement is stored unless refused", h.eq(uc.peak_enlarge, 0.15 if no else x))
    no, _ = refused(h, TypeError, lambda: put(h.pick("wrong", [1, "0.1", None])))
    h.check("anything but a float is refused", no)
    h.obs("v", uc.peak_enlarge)


def power(h):
    """a power which is neither a number, a frame nor a text is refused"""
    x = h.pick("power", [None, [1, 2], {"a": 1}, (5,)])
    u = user(h)
    no, _ = refused(h, ValueError, lambda: u.add_appliance(name="a", power=x))
    h.check("a power of another kind is refused", no)
    h.check("and the appliance is not added", len(u.App_list) == 0)
    h.obs("refused", no)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (windows, again, strangers, users, peak, power)]
