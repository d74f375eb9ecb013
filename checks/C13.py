"""C13: saving and loading a use case loses nothing"""
from checks.common import *

FUNCTIONS = ["ramp.core.core.UseCase.save", "User.save", "Appliance.save", "ramp.core.utils.read_input_file", "UseCase.load", "User.__init__", "User.add_appliance", "Appliance.__init__", "Appliance.windows", "Appliance.specific_cycle_1/2/3", "Appliance.cycle_behaviour", "Appliance.__eq__"]
BOUNDS = "every declared parameter symbolic within its documented range, one to three windows, with or without each of the three duty cycles, constant power or a series of 366 values with up to three symbolic values anywhere, or of numbers with up to 17 digits; up to three users with up to two appliances"
OUTSIDE = "series of another length than 366 (an input file refuses them); empty names and users with the same name; numbers that need more than 16 digits (xlsx)"


LONG = [round(100.0 + k / 7, 3) for k in range(366)]
LONG[0], LONG[17], LONG[200], LONG[365] = 7.5047201477090875, 1 / 3, 1.8086497263791745, 2 / 3


def roundtrip(h, uc):
    path = h.folder() + "/usecase"
    uc.save(path)
    new = h.core.UseCase()
    new.load(path + ".xlsx")
    return new


def power(h, kind, series, a, b):
    if kind == "series":
        k = h.int("kp", 0, 365)
        h.check("the power series is kept", h.and_(h.eq(h.size(b.power), 366), h.le(h.abs(a.power[k] - b.power[k]), 1e-6)))
        for j, x in series.items():
            h.check("the power series is kept", h.le(h.abs(b.power[j] - x), 1e-6))
    else:
        k = h.int("kp", 0, 365)
        h.check("the power is kept", h.eq(b.power[k], a.power[0]))
        b.check_power_values(700)
        h.check("a constant power stays constant", h.eq(b.power[699], a.power[0]))


def sameapp(h, a, b):
    for k in DECLARED:
        if k != "power":
            h.check("value of " + k, same_value(h, getattr(a, k), getattr(b, k)))


def build(h, u, v, cyc):
    app = u.add_appliance(**{k: x for k, x in v.items() if k in ARGS})
    app.windows(*[v.get(w) for w in ("window_1", "window_2", "window_3")][:0] or [v["window_1"]], **{k: v[k] for k in ("window_2", "window_3", "random_var_w") if k in v})
    for c in range(cyc):
        names = CYCLES[c]
        f = getattr(app, "specific_cycle_%d" % (c + 1))
        f(**{k: v[k] for k in names if k in v and not k.startswith("cw")})
    if cyc:
        app.cycle_behaviour(**{k: v[k] for c in range(cyc) for k in CYCLES[c] if k.startswith("cw")})
    return app


def making(h, kind, v):
    if kind == "series":
        import math

        xs = [100.0 + k for k in range(366)]
        sym = {}
        shape = h.pick("series", ["varied", "flat but one", "same ends"])
        if shape != "varied":
            xs = [100.0] * 366
        for j in [0, 365] if shape == "varied" else [h.pick("odd one", [1, 200, 365])] if shape == "flat but one" else [17]:
            xs[j] = h.real("p%d" % j, 0, 1000)
            sym[j] = xs[j]
        if shape == "flat but one" or shape == "same ends":
            j = list(sym)[0]
            h.assume(h.ne(sym[j], 100.0))
        v["power"] = h.pd.DataFrame(xs)
        return sym
    if h.flag("whole power"):
        v["power"] = h.int("powerint", 0, 10000)
    return {}


def single(h):
    cyc = h.pick("cycles", [0, 1, 2, 3])
    v = declared_values(h, ncyc=cyc, strings=h.pick("strings", [("yes", "no"), ("no", "yes")]))
    v["fixed_cycle"] = cyc
    kind = h.pick("power", ["constant", "series"])
    sym = making(h, kind, v)
    u = h.core.User("household", h.int("num_users", 0, 50), h.int("preference", 0, 3))
    uc = h.core.UseCase(users=[u])
    app = build(h, u, v, cyc)
    h.check("the appliance is owned", len(u.App_list) == 1)
    new = roundtrip(h, uc)
    h.check("one user", len(new.users) == 1 and len(new.users[0].App_list) == 1)
    n = new.users[0]
    h.check("name of the user", n.user_name == "household")
    h.check("number of users", h.eq(n.num_users, u.num_users))
    h.check("preference", h.eq(n.user_preference, u.user_preference))
    b = n.App_list[0]
    sameapp(h, app, b)
    power(h, kind, sym, app, b)


def equal(h):
    """the loaded appliance compares equal to the original"""
    cyc = h.pick("cycles", [0, 2])
    v = declared_values(h, nw=h.pick("windows", [1, 3]), ncyc=cyc)
    v["fixed_cycle"] = cyc
    kind = h.pick("power", ["constant", "series", "long decimals"])
    if kind == "long decimals":
        v["power"] = h.pd.DataFrame(LONG)
    else:
        making(h, kind, v)
    u = h.core.User("household", 2, 1)
    uc = h.core.UseCase(users=[u])
    app = build(h, u, v, cyc)
    b = roundtrip(h, uc).users[0].App_list[0]
    h.check("the loaded appliance equals the original", h.and_(app == b, b == app))
    h.check("and does not differ from it", not (app != b))


def defaults(h):
    """parameters that were not given"""
    u = h.core.User("household")
    uc = h.core.UseCase(users=[u])
    how = h.pick("how", ["none", "number", "window"])
    if how == "none":
        app = u.add_appliance(name="a")
    elif how == "number":
        app = u.add_appliance(number=h.int("number", 0, 9), power=h.real("power", 0, 100), name="a")
    else:
        s, e = sym_window(h, "w")
        app = u.add_appliance(name="a", power=h.int("power", 0, 100), window_1=[s, e])
    new = roundtrip(h, uc)
    b = new.users[0].App_list[0]
    sameapp(h, app, b)
    power(h, "constant", {}, app, b)


def several(h):
    counts = h.pick("appliances", [[1], [2], [1, 2], [2, 1], [1, 2, 1]])
    nu = len(counts)
    same = h.flag("same appliance names")
    names = h.pick("names", [["c", "a", "b"], ["a", "b", "c"], ["user 2", "user 10", "user 1"]])
    users, apps = [], []
    for i in range(nu):
        u = h.core.User(names[i], h.int("num_users%d" % i, 0, 20), h.int("pref%d" % i, 0, 3))
        users.append(u)
        for j in range(counts[i]):
            a = u.add_appliance(number=h.int("n%d_%d" % (i, j), 0, 9), power=h.real("p%d_%d" % (i, j), 0, 100) if (i + j) % 2 else h.int("q%d_%d" % (i, j), 0, 100), func_time=h.int("t%d_%d" % (i, j), 1, 60),
                                name=["z", "y"][j] + ("" if same else str(i)), window_1=[0, 600], window_2=[700, 800 + i], num_windows=2, wd_we_type=h.int("w%d_%d" % (i, j), 0, 2) if i == 0 else 2)
            apps.append(a)
    h.assume(sum(len(u.App_list) for u in users) == len(apps))
    series = h.flag("one series")
    uc = h.core.UseCase(users=users)
    if series:
        app = users[0].add_appliance(power=h.pd.DataFrame([1.0 * k for k in range(366)]), func_time=5, window_1=[0, 100], name="s")
        apps.insert(len(users[0].App_list) - 1, app)
    new = roundtrip(h, uc)
    h.check("the same users in the same order", [u.user_name for u in new.users] == names[:nu])
    got = []
    for u, n in zip(users, new.users):
        h.check("numbers and preferences", h.and_(h.eq(u.num_users, n.num_users), h.eq(u.user_preference, n.user_preference)))
        h.check("appliances belong to their user", len(u.App_list) == len(n.App_list))
        got += n.App_list
    h.check("the same appliances", len(got) == len(apps))
    want = [a for u in users for a in u.App_list]
    for a, b in zip(want, got):
        for k in ("number", "func_time", "name", "num_windows", "window_1", "window_2", "wd_we_type"):
            h.check("value of " + k, same_value(h, getattr(a, k), getattr(b, k)))
        k = h.int("kp", 0, 365)
        h.check("the power is kept", h.eq(a.power[k if a.name == "s" else 0], b.power[k]))


def frame(h):
    """the table returned without a file name has one row per appliance"""
    u, w = h.core.User("u", 2, 1), h.core.User("w", 3, 0)
    x = [h.real("x%d" % i, 0, 10) for i in range(3)]
    s, e = sym_window(h, "w")
    for i, o in enumerate((u, u, w)):
        o.add_appliance(power=x[i], func_time=1, window_1=[s, e], name="n%d" % i)
    uc = h.core.UseCase(users=[u, w])
    d = h.pick("how", [uc.save, uc.export_to_dataframe])()
    h.check("one row per appliance", len(d) == 3)
    for i in range(3):
        r = d.iloc[i]
        h.check("values of the row", h.and_(r["user_name"] == "uuw"[i], r["name"] == "n%d" % i, h.eq(r["num_users"], [2, 2, 3][i]), h.eq(r["power"], x[i]), h.eq(r["window_1_start"], s), h.eq(r["window_1_end"], e)))


def shared(h):
    """an appliance created for another user, or shared by two, is saved under the users that own it"""
    how = h.pick("how", ["created for the other one", "owned by both"])
    u, v = h.core.User("u", h.int("num u", 0, 9), h.int("pref u", 0, 3)), h.core.User("v", h.int("num v", 0, 9), h.int("pref v", 0, 3))
    s, e = sym_window(h, "w", minlen=5)
    b = u.add_appliance(name="b", number=h.int("number b", 0, 9), power=3.0, func_time=5, window_1=[100, 200])
    c = v.add_appliance(name="c", number=h.int("number c", 0, 9), power=4.0, func_time=5, window_1=[100, 200])
    app = h.core.Appliance(u, number=h.int("number", 0, 9), power=h.real("power", 0, 100), func_time=5, name="a")
    if how == "owned by both":
        app.windows(window_1=[s, e])
        v.add_appliance(app)
        want = [[b, app], [c, app]]
    else:
        v.add_appliance(app)
        app.windows(window_1=[s, e])
        want = [[b], [c, app]]
    what = h.pick("saved", ["use case", "users"])
    users = h.pick("order", [[0, 1], [1, 0]])
    us = [(u, v)[k] for k in users]
    if what == "use case":
        new = [roundtrip(h, h.core.UseCase(users=us))]
    else:
        h.core.UseCase(users=us)
        new = []
        for w in us:
            path = h.folder() + "/" + w.user_name
            w.save(path)
            n = h.core.UseCase()
            n.load(path + ".xlsx")
            new.append(n)
    got = [w for n in new for w in n.users]
    h.check("the same users in the same order", [w.user_name for w in got] == [w.user_name for w in us])
    for k, w in zip(users, got):
        h.check("numbers and preferences", h.and_(h.eq((u, v)[k].num_users, w.num_users), h.eq((u, v)[k].user_preference, w.user_preference)))
        h.check("the appliances of the user", [a.name for a in w.App_list] == [a.name for a in want[k]])
        for a, x in zip(want[k], w.App_list):
            sameapp(h, a, x)
            h.check("the power is kept", h.eq(x.power[5], a.power[0]))
            h.check("a loaded appliance belongs to its user", x.user is w)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (single, equal, defaults, several, frame, shared)]
