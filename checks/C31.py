"""C31: users are equal exactly when they are declared alike"""
from checks.common import *

FUNCTIONS = ["ramp.core.core.User.__eq__", "User.__init__", "User.add_appliance", "Appliance.__eq__", "Appliance.__init__", "UseCase.add_user"]
BOUNDS = "two users of any number and preference, with names of a set of spellings (equal ones included), each without or with up to two appliances of symbolic number, power, time of use and window; users inside and outside use cases; objects which are no users"
OUTSIDE = "more than two appliances per user; names outside the set; appliances differing in other parameters (C15 decides the equality of appliances)"
KNOWN = "users-of-different-appliances"

NAMES = ["", "u", "U", "u ", "household", "High income"]


def declared(h, tag, names=NAMES):
    return {"user_name": h.pick(tag + "_name", names), "num_users": h.int(tag + "_num", 0, 1000), "user_preference": h.int(tag + "_pref", 0, 3)}


def alike(h, a, b):
    return h.and_(a["user_name"] == b["user_name"], h.exact(a["num_users"], b["num_users"]), h.exact(a["user_preference"], b["user_preference"]))


def verdict(h, a, b, same, differ=None):
    """differ: the declarations agree but the appliances do not (a recorded finding)"""
    known = None if differ is None else (KNOWN, differ)
    r, s = bool(a == b), bool(b == a)
    h.check("users are equal exactly if they are declared alike", h.iff(r, same), known=known)
    h.check("the comparison is symmetric", r == s)
    h.check("!= is the opposite", bool(a != b) != r)
    h.check("a user equals itself", bool(a == a) and bool(b == b))
    h.obs("equal", r)


def attributes(h):
    va, vb = declared(h, "a"), declared(h, "b")
    a, b = h.core.User(**va), h.core.User(**vb)
    if h.pick("in a use case", [False, True]):
        uc = h.core.UseCase(name="uc")
        uc.add_user(a)
    if h.pick("history", [False, True]):
        # what happened to a user so far is not declared
        a.rand_daily_pref = h.int("rand_daily_pref", 0, 3)
        a.load = h.np.zeros(1440)
    verdict(h, a, b, alike(h, va, vb))


def one_differs(h):
    """same appliances, one attribute differs"""
    va = declared(h, "a", ["u"])
    vb = dict(va)
    k = h.pick("attribute", ["user_name", "num_users", "user_preference", "none"])
    if k != "none":
        vb[k] = declared(h, "b", ["v"])[k]
    a, b = h.core.User(**va), h.core.User(**vb)
    n = h.pick("n", [1, 2])
    for i in range(n):
        p = {"name": "app%d" % i, "number": h.int("n%d" % i, 0, 5), "power": h.real("p%d" % i, 0, 1000), "func_time": h.int("t%d" % i, 1, 100), "window_1": [0, h.int("w%d" % i, 200, 1440)]}
        a.add_appliance(**p)
        b.add_appliance(**p)
    verdict(h, a, b, alike(h, va, vb))


def appliances(h):
    """same attributes, any appliances"""
    v = declared(h, "a", ["u"])
    a, b = h.core.User(**v), h.core.User(**v)
    n = h.pick("n", [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 2)])
    one = {}
    for u, m, tag in ((a, n[0], "a"), (b, n[1], "b")):
        one[tag] = []
        for i in range(m):
            p = {"name": "app%d" % i, "number": h.int("%s_n%d" % (tag, i), 0, 5), "power": h.real("%s_p%d" % (tag, i), 0, 1000)}
            u.add_appliance(func_time=20, window_1=[0, 1440], **p)
            one[tag].append(p)
    same = n[0] == n[1]
    for p, q in zip(one["a"], one["b"]):
        same = h.and_(same, h.exact(p["number"], q["number"]), h.exact(p["power"], q["power"]))
    verdict(h, a, b, same, differ=h.not_(same))


def no_user(h):
    """a user is not equal to something else"""
    a = h.core.User(**declared(h, "a", ["u"]))
    k = h.pick("other", ["number", "name", "None", "use case", "appliance"])
    o = {"number": h.int("other_number", 0, 5), "name": "u", "None": None, "use case": h.core.UseCase(name="u")}.get(k)
    if k == "appliance":
        o = a.add_appliance(name="u", number=1, power=1.0)
    h.check("a user equals only users", not bool(a == o))
    h.obs("equal", bool(a == o))


HARNESSES = [
    {"name": "attributes", "fn": attributes, "wit": 6},
    {"name": "one_differs", "fn": one_differs, "wit": 6},
    {"name": "appliances", "fn": appliances, "wit": 6},
    {"name": "no_user", "fn": no_user, "wit": 6},
]
