"""C26: random variation helpers stay within their declared bounds"""
from checks.common import *

FUNCTIONS = ["ramp.core.utils.random_variation", "duty_cycle", "random_choice"]
BOUNDS = "any norm, power and duration (reals and integers up to 1440), the listed variabilities (and any variability in [0,1] with the listed norms), every value drawn"
OUTSIDE = "products of a symbolic variability with a symbolic norm (one of the two is always listed)"
VARS = t([0, 0.1, 0.5, 1, 1.0], [0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.9, 1, 1.0])
EPS = 1e-6
UNI = ("uniform", "random", "triangular")


def _bounds(h, v, norm, var, tol=EPS):
    h.check("the varied value is within the declared bounds", h.and_(h.le((1 - var) * norm - tol, v), h.le(v, (1 + var) * norm + tol)))


def variation(h):
    """listed variability, any norm"""
    var = h.pick("var", VARS)
    norm = h.real("norm", 0, 10000)
    k0 = h.ndraws()
    v = h.utils.random_variation(var, norm)
    _bounds(h, v, norm, var)
    ds = h.drawn(UNI, k0)
    h.check("one value is drawn", len(ds) == 1)
    if len(ds) == 1 and ds[0][0] == "uniform":
        a, b = ds[0][2]
        lo, hi = h.mn(a, b), h.mx(a, b)
        f = ds[0][1]
        h.check("the drawn range is the declared one", h.or_(h.and_(h.le(h.abs(lo - (1 - var)), EPS), h.le(h.abs(hi - (1 + var)), EPS), h.le(h.abs(v - norm * f), EPS)),
                                                            h.and_(h.le(h.abs(lo - (1 - var) * norm), EPS), h.le(h.abs(hi - (1 + var) * norm), EPS), h.le(h.abs(v - f), EPS)),
                                                            h.and_(h.le(h.abs(lo + var), EPS), h.le(h.abs(hi - var), EPS), h.le(h.abs(v - norm * (1 + f)), EPS))))
    if var == 0:
        h.check("without variability nothing changes", h.le(h.abs(v - norm), EPS))
    h.obs("v", v)


def variation_of_one(h):
    """any variability, listed norms (the default one included)"""
    var = h.real("var", 0, 1)
    norm = h.pick("norm", [None, 1, 2.5, 100])
    v = h.utils.random_variation(var) if norm is None else h.utils.random_variation(var=var, norm=norm)
    _bounds(h, v, 1 if norm is None else norm, var)
    h.obs("v", v)


def _runs(h, arr, t1, p1, t2, p2, var, k):
    """arr is p1 for a length in the bounds of t1, then p2 for one in the bounds of t2; k: any position"""
    n = h.size(arr)
    lo1, hi1 = (1 - var) * t1, (1 + var) * t1
    lo2, hi2 = (1 - var) * t2, (1 + var) * t2
    return n, (lo1, hi1, lo2, hi2)


def _lens(h, ds):
    return [d[1] for d in ds if d[0] in UNI]


def duty(h):
    var = h.pick("var", VARS)
    t1 = h.pick("t1", t([0, 1, 7, 30], [0, 1, 2, 7, 13, 30, 120]))
    t2 = h.pick("t2", t([0, 5, 40], [0, 1, 5, 9, 40]))
    p1 = h.real("p1", 0, 1000)
    p2 = h.real("p2", 0, 1000)
    h.assume(h.clt(p1, p2) if h.flag("increasing") else h.clt(p2, p1))
    arr = h.utils.duty_cycle(var=var, t1=t1, p1=p1, t2=t2, p2=p2)
    n = h.size(arr)
    h.obs("n", n)
    h.check("the duration of the cycle is within the declared bounds", h.and_(h.lt((1 - var) * (t1 + t2) - 2 - EPS, n), h.le(n, (1 + var) * (t1 + t2) + EPS)))
    if var == 0:
        h.check("without variability the durations are the declared ones", h.eq(n, t1 + t2))
    k = h.int("k", 0, 200)
    h.assume(h.lt(k, n))
    v = arr[k]
    h.check("the cycle holds only its two powers", h.or_(h.eq(v, p1), h.eq(v, p2)))
    h.check("the first power comes first", h.implies(h.lt(k, (1 - var) * t1 - 1 - EPS), h.eq(v, p1)))
    h.check("the first power lasts no longer than its varied duration", h.implies(h.le((1 + var) * t1 + EPS, k), h.eq(v, p2)))
    h.check("the second power lasts no longer than its varied duration", h.implies(h.lt(k, n - (1 + var) * t2 - EPS), h.eq(v, p1)))
    j = h.int("j", 0, 200)
    h.assume(h.and_(h.le(k, j), h.lt(j, n)))
    h.check("the second power is not followed by the first", h.implies(h.eq(v, p2), h.eq(arr[j], p2)))
    h.obs("v", v)


def duty_any_durations(h):
    """any durations"""
    var = h.pick("var", [0, 0.5, 1])
    t1 = h.int("t1", 0, 300)
    t2 = h.int("t2", 0, 300)
    arr = h.utils.duty_cycle(var, t1, 3.0, t2, 5.0)
    n = h.size(arr)
    h.obs("n", n)
    h.check("the duration of the cycle is within the declared bounds", h.and_(h.lt((1 - var) * (t1 + t2) - 2 - EPS, n), h.le(n, (1 + var) * (t1 + t2) + EPS)))
    k = h.int("k", 0, 600)
    h.assume(h.lt(k, n))
    h.check("the first power comes first, then the second", h.and_(h.implies(h.lt(k, (1 - var) * t1 - 1 - EPS), h.eq(arr[k], 3.0)), h.implies(h.le((1 + var) * t1 + EPS, k), h.eq(arr[k], 5.0))))
    h.obs("v", arr[k])


def choice(h):
    """a randomly chosen cycle is one of the two orders, both can be chosen, each power keeps its duration"""
    var = h.pick("var", [0, 0.3, 1])
    t1 = h.pick("t1", t([3, 10], [1, 3, 10, 25]))
    t2 = h.pick("t2", t([5], [5, 10, 12]))
    p1 = h.real("p1", 1, 1000)
    p2 = h.real("p2", 1, 1000)
    h.assume(h.clt(p1, p2) if h.flag("increasing") else h.clt(p2, p1))
    k0 = h.ndraws()
    arr = h.utils.random_choice(var, t1=t1, p1=p1, t2=t2, p2=p2)
    n = h.size(arr)
    h.obs("n", n)
    h.check("the duration of the cycle is within the declared bounds", h.and_(h.lt((1 - var) * (t1 + t2) - 2 - EPS, n), h.le(n, (1 + var) * (t1 + t2) + EPS)))
    ch = h.drawn(("choice", "randint", "randrange", "choices", "getrandbits"), k0)
    h.check("the order is drawn", len(ch) == 1)
    k = h.int("k", 0, 200)
    h.assume(h.lt(k, n))
    v = arr[k]
    a = h.and_(h.implies(h.lt(k, (1 - var) * t1 - 1 - EPS), h.eq(v, p1)), h.implies(h.le((1 + var) * t1 + EPS, k), h.eq(v, p2)))
    b = h.and_(h.implies(h.lt(k, (1 - var) * t2 - 1 - EPS), h.eq(v, p2)), h.implies(h.le((1 + var) * t2 + EPS, k), h.eq(v, p1)))
    if len(ch) == 1 and ch[0][0] == "choice":
        h.check("the chosen cycle is the drawn order", h.and_(h.implies(h.eq(ch[0][1], 0), a), h.implies(h.eq(ch[0][1], 1), b)))
    h.check("the chosen cycle is one of the two orders", h.and_(h.or_(h.eq(v, p1), h.eq(v, p2)), h.or_(a, b)))
    if var == 0:
        same = h.or_(h.eq(arr[0], p1), h.eq(arr[0], p2))
        h.check("both orders have the declared durations", h.and_(same, h.implies(h.eq(arr[0], p1), h.eq(v, h.ite(h.lt(k, t1), p1, p2))), h.implies(h.eq(arr[0], p2), h.eq(v, h.ite(h.lt(k, t2), p2, p1)))))
    h.obs("v", v)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (variation, variation_of_one, duty, duty_any_durations, choice)]
