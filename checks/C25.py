"""C25: all routes to create an appliance are equivalent"""
from checks.common import *

FUNCTIONS = ["ramp.core.core.User.add_appliance", "User.Appliance", "User._add_appliance_instance", "Appliance.__init__", "Appliance.windows", "Appliance.specific_cycle", "Appliance.specific_cycle_1..3", "Appliance.cycle_behaviour", "Appliance.__eq__"]
BOUNDS = "every declared parameter symbolic (documented ranges), all numbers of windows, zero to three duty cycles, %s splits between positional and keyword arguments, users owning up to two other appliances" % t("six", "all")
OUTSIDE = "values outside the documented ranges; power series (C13, C15)"


def verdict(h, u, app, v, label, nother=0, skip=()):
    own = [a for a in u.App_list if a is app]
    h.check(label + ": the user owns the appliance exactly once", len(own) == 1 and len(u.App_list) == nother + 1)
    h.check(label + ": the appliance belongs to the user", app.user is u)
    for k in DECLARED:
        if k not in v or k in skip:
            continue
        if k == "power":
            d = h.int("day", 0, 365)
            h.check(label + ": power has the declared value every day", h.and_(h.le(366, h.size(app.power)), h.eq(app.power[d], v[k])))
        else:
            h.check(label + ": every parameter has the declared value", same_value(h, getattr(app, k), v[k]))
    h.obs("number", app.number)


def _others(h, u, n):
    for k in range(n):
        u.add_appliance(name="other%d" % k, number=k + 1, power=5.0, func_time=3, window_1=[10, 50])


def _few(h, ncyc):
    """few symbolic values (the appliance is compared with those the user owns)"""
    s, e = sym_window(h, "w1", minlen=20)
    v = {"number": h.int("number", 0, 50), "power": h.real("power", 0, 10000), "num_windows": 1, "func_time": h.int("func_time", 1, 20), "window_1": [s, e], "name": h.pick("name", ["app", "other0"])}
    for c in range(ncyc):
        for k in CYCLES[c]:
            v[k] = h.int(k, 0, 20) if k == "t_11" else [30 * c, 30 * c + 20] if k.startswith("cw") else 3 * c + 1 if k.startswith(("p_", "t_")) else 0.5
    return v


def _new(h, others, v):
    """not the same appliance as one of those the user owned before"""
    return all(bool(h.not_(h.and_(v["name"] == a.name, h.eq(v["number"], a.number), h.eq(v["power"], a.power[0]), h.eq(v["func_time"], a.func_time), same_value(h, v["window_1"], a.window_1)))) for a in others)


def keywords(h):
    nc = h.pick("cycles", [0, 1, 3])
    no = h.pick("others", [0, 2])
    v = _few(h, nc) if no else declared_values(h, strings=h.pick("strings", [("yes", "no"), ("no", "yes")]), ncyc=nc)
    u = user(h, num_users=2)
    _others(h, u, no)
    app = u.add_appliance(**v)
    if no and not _new(h, u.App_list[:no], v):
        return
    verdict(h, u, app, v, "keywords", no)


def positional(h):
    """leading arguments given by position in the documented order, the others by keyword"""
    n = h.pick("positional", t([1, 2, 4, 8, 12, 15], list(range(1, 16))))
    v = declared_values(h, strings=h.pick("strings", [("yes", "no"), ("no", "yes")]), nw=h.pick("nw", [1, 3]), ncyc=1)
    u = user(h)
    w = dict(v)
    args = [w.pop(k) for k in ARGS[:n]]
    app = u.add_appliance(*args, **w)
    verdict(h, u, app, v, "positional")


def legacy(h):
    """the deprecated call, windows and cycles declared afterwards"""
    kw = h.flag("keywords")
    first = h.flag("user first")
    nc = h.pick("cycles", [0, 1, 3])
    v = declared_values(h, strings=h.pick("strings", [("yes", "no"), ("no", "yes")]), ncyc=nc)
    v["continuous_duty_cycle"] = 1
    u = user(h)
    names = [k for k in ARGS if k != "continuous_duty_cycle"]
    if kw:
        app = u.Appliance(*([u] if first else []), **{("thermal_P_var" if k == "thermal_p_var" else k): v[k] for k in names})
    else:
        app = u.Appliance(*([u] if first else []), *[v[k] for k in names])
    _declare(h, app, v, nc)
    verdict(h, u, app, v, "legacy call")


def _declare(h, app, v, nc):
    app.windows(**{k: v[k] for k in WINDOWS if k in v})
    how = h.pick("declare cycles", ["separate windows", "with windows", "by number"]) if nc else ""
    for c in range(nc):
        d = {k: v[k] for k in CYCLES[c]}
        cw = {k: d[k] for k in d if k.startswith("cw")}
        if how == "separate windows":
            d = {k: d[k] for k in d if k not in cw}
        if how == "by number":
            app.specific_cycle(c + 1, **d)
        else:
            getattr(app, "specific_cycle_%d" % (c + 1))(**d)
    if how == "separate windows":
        app.cycle_behaviour(**{k: v[k] for c in range(nc) for k in CYCLES[c] if k.startswith("cw")})


def as_object(h):
    """an appliance object declared on its own and added to the user"""
    nc = h.pick("cycles", [0, 1, 3])
    add = h.pick("added", ["before", "after", "both"])
    no = h.pick("others", [0, 1])
    v = _few(h, nc) if no else declared_values(h, strings=h.pick("strings", [("yes", "no"), ("no", "yes")]), nw=h.pick("nw", [1, 2]), ncyc=nc)
    u = user(h)
    _others(h, u, no)
    if not no and h.flag("by position"):
        app = h.core.Appliance(u, *[v[k] for k in ARGS])
    else:
        app = h.core.Appliance(u, **{k: v[k] for k in ARGS if k in v})
    if add in ("before", "both"):
        u.add_appliance(app)
    if no and not _new(h, u.App_list[:no], v):
        return
    _declare(h, app, v, nc)
    if add in ("after", "both"):
        u.add_appliance(app)
    verdict(h, u, app, v, "object", no)


def of_another(h):
    """an appliance object created for one user and added to another one"""
    nc = h.pick("cycles", [0, 1])
    add = h.pick("added", ["before", "after", "both"])
    n1, n2 = h.pick("others", [(0, 0), (1, 0), (0, 1)])
    v = _few(h, nc)
    v["name"] = "app"
    u, w = user(h, user_name="u"), user(h, user_name="w")
    _others(h, u, n1)
    _others(h, w, n2)
    app = h.core.Appliance(u, **{k: v[k] for k in ARGS if k in v})
    if add in ("before", "both"):
        w.add_appliance(app)
    _declare(h, app, v, nc)
    if add in ("after", "both"):
        w.add_appliance(app)
    verdict(h, w, app, v, "object of another user", n2)
    mine = [a for a in u.App_list if a is app]
    h.check("the other user owns the appliance only if it was completed for it", len(mine) == (1 if add == "after" else 0) and len(u.App_list) == n1 + len(mine))


def equal_routes(h):
    """the appliance created by another route compares equal"""
    nc = h.pick("cycles", [0, 1, 3])
    v = declared_values(h, strings=h.pick("strings", [("yes", "no"), ("no", "yes")]), nw=h.pick("nw", [1, 2]), ncyc=nc)
    v["continuous_duty_cycle"] = 1
    a = user(h).add_appliance(**v)
    u = user(h)
    b = u.Appliance(**{("thermal_P_var" if k == "thermal_p_var" else k): v[k] for k in ARGS if k != "continuous_duty_cycle"})
    _declare(h, b, v, nc)
    h.check("the appliances of two routes compare equal", h.and_(a == b, b == a))
    h.obs("eq", bool(a == b))


def defaults(h):
    """omitted parameters have their documented default"""
    route = h.pick("route", ["keywords", "legacy", "object"])
    u = user(h)
    if route == "keywords":
        a = u.add_appliance()
        b = u.add_appliance(number=2)
    elif route == "legacy":
        a = u.Appliance()
        b = u.Appliance(number=2)
    else:
        a, b = h.core.Appliance(u), h.core.Appliance(u, number=2)
        u.add_appliance(a, b)
    for k in DEFAULTS:
        if k == "power":
            d = h.int("day", 0, 365)
            h.check("the default power is 0", h.eq(a.power[d], 0))
        else:
            h.check("omitted parameters have their documented default", same_value(h, getattr(a, k), DEFAULTS[k]))
    h.check("both appliances are owned once, in order", len(u.App_list) == 2 and u.App_list[0] is a and u.App_list[1] is b)
    h.check("appliances without a name are numbered", a.name == "appliance_1" and b.name == "appliance_2")
    h.obs("names", [a.name, b.name])


def whole_day(h):
    """windows() without a window"""
    ft = h.int("func_time", 0, 1440)
    u = user(h)
    a = u.add_appliance(name="x", number=1, power=1.0, func_time=ft)
    a.windows()
    h.check("the whole day is the default window", h.and_(h.eq(a.window_1[0], 0), h.eq(a.window_1[1], 1440)))
    h.check("owned once", len(u.App_list) == 1)
    h.obs("w", a.window_1[1])


def one_cycle_windows(h):
    """with one duty cycle and no cycle window declared, the cycle applies in the appliance's windows"""
    nw = h.pick("nw", [1, 2])
    v = declared_values(h, nw=nw, ncyc=0)
    v["fixed_cycle"] = 1
    u = user(h)
    if h.flag("afterwards"):
        a = u.add_appliance(**{k: v[k] for k in v if k not in WINDOWS})
        a.windows(**{k: v[k] for k in v if k in WINDOWS})
        a.specific_cycle_1(p_11=5, t_11=10, p_12=2, t_12=3)
    else:
        a = u.add_appliance(p_11=5, t_11=10, p_12=2, t_12=3, **v)
    h.check("the cycle windows are the windows of use", h.and_(same_value(h, a.cw11, v["window_1"]), same_value(h, a.cw12, v["window_2"] if nw == 2 else [0, 0])))
    h.check("the cycle has the declared values", h.and_(h.eq(a.p_11, 5), h.eq(a.t_11, 10), h.eq(a.p_12, 2), h.eq(a.t_12, 3)))
    h.obs("cw", a.cw11[0])


def cycle_windows_left_out(h):
    """with several duty cycles, windows of the cycles that are not declared have their default"""
    nc = h.pick("cycles", [2, 3])
    v = declared_values(h, nw=h.pick("nw", [1, 2]), ncyc=nc)
    v["continuous_duty_cycle"], v["fixed_cycle"] = 1, nc
    left = h.pick("left out", ["second windows", "windows of the last cycle", "windows of the first cycle", "all"])
    cws = [k for c in range(nc) for k in CYCLES[c] if k.startswith("cw")]
    out = cws[1::2] if left == "second windows" else cws[-2:] if left == "windows of the last cycle" else cws[:2] if left == "windows of the first cycle" else cws
    for k in out:
        del v[k]
    u = user(h)
    route = h.pick("route", ["keywords", "legacy", "object"])
    if route == "keywords":
        a = u.add_appliance(**v)
    else:
        w = {k: v[k] for k in ARGS if k in v and k != "continuous_duty_cycle"}
        if route == "object":
            a = h.core.Appliance(u, **w)
            u.add_appliance(a)
        else:
            a = u.Appliance(**{("thermal_P_var" if k == "thermal_p_var" else k): w[k] for k in w})
        a.windows(**{k: v[k] for k in WINDOWS if k in v})
        for c in range(nc):
            a.specific_cycle(c + 1, **{k: v[k] for k in CYCLES[c] if k in v and not k.startswith("cw")})
        a.cycle_behaviour(**{k: v[k] for k in cws if k in v})
    for k in out:
        h.check(route + ": windows of cycles that are left out have their default", same_value(h, getattr(a, k), [0, 0]))
    verdict(h, u, a, v, route)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (keywords, positional, legacy, as_object, of_another, equal_routes, defaults, whole_day, one_cycle_windows, cycle_windows_left_out)]
