"""C09: the peak time range is centred on the theoretical maximum and stable"""
from checks.common import *

FUNCTIONS = FUNCTIONS + ["ramp.core.core.UseCase.calc_peak_time_range", "User.maximum_profile", "Appliance.maximum_profile", "UseCase.initialize", "UseCase.generate_daily_load_profiles"]
BOUNDS = "up to three appliances of one or two users with symbolic windows (up to three windows in all), symbolic power, listed numbers, up to 1000 users of two kinds and listed peak enlargements; profiles generated before or not"
OUTSIDE = "more windows; sums of more than three appliances"
NORMAL = ("gauss", "normalvariate")


def inwin(h, x, ws):
    return h.or_(*[h.and_(h.le(s, x), h.lt(x, e)) for s, e in ws])


def total(h, x, parts):
    """theoretical maximum at minute x; parts: (weight, windows)"""
    v = 0
    for wgt, ws in parts:
        v = v + h.ite(inwin(h, x, ws), wgt, 0)
    return v


def verdict(h, rng, k0, parts, enlarge, last=False):
    ds = h.drawn(NORMAL, k0)
    if last:
        ds = ds[-2:]
    h.check("the peak time is drawn from a normal law", len(ds) >= 1)
    if not ds:
        return
    kind, val, args = ds[0]
    mu, sigma = args[0], args[1]
    lo, n = rng[0], h.size(rng)
    hi = rng[-1]
    h.check("the range is a contiguous run of minutes", h.eq(hi - lo + 1, n))
    pt = h.round(val)
    h.check("the range holds the drawn peak time and at least one minute before it", h.and_(h.le(lo, pt - 1), h.le(pt, hi)))
    h.check("the range is enlarged alike on both sides", h.eq(pt - lo, hi + 1 - pt))
    if len(ds) > 1:
        g = ds[1][1]
        d = h.abs(pt - g)
        r = pt - lo
        h.check("the range is enlarged by the drawn distance, at least one minute", h.or_(h.and_(h.le(d, r + 0.5), h.le(r - 0.5, d)), h.and_(h.eq(r, 1), h.le(d, 1))))
        h.check("the enlargement is drawn around the peak time with the declared share", h.and_(h.le(h.abs(ds[1][2][0] - pt), 1e-6), h.le(h.abs(ds[1][2][1] - enlarge * pt), 1e-6)))
    # x: any minute of the theoretical maximum, first and last one included
    x = h.int("x", 0, 1439)
    vx = total(h, x, parts)
    cand = [0] + [s for _, ws in parts for s, e in ws] + [e for _, ws in parts for s, e in ws]
    mx = h.and_(*[h.or_(h.lt(1439, c), h.le(total(h, c, parts), vx)) for c in cand])
    first = h.and_(mx, h.or_(h.eq(x, 0), h.clt(total(h, h.mx(x - 1, 0), parts), vx)))
    # no maximum before the first candidate / after the last one
    early = h.and_(*[h.or_(h.le(x, c), h.lt(1439, c), h.clt(total(h, c, parts), vx)) for c in cand])
    lastc = [e - 1 for _, ws in parts for s, e in ws] + [1439] + [s - 1 for _, ws in parts for s, e in ws]
    late = h.and_(*[h.or_(h.le(c, x), h.lt(c, 0), h.clt(total(h, h.mx(c, 0), parts), vx)) for c in lastc])
    h.check("the mean of the peak time is not before the first maximum", h.implies(h.and_(first, early), h.le(x, mu)))
    h.check("the mean of the peak time is not after the last maximum", h.implies(h.and_(mx, late), h.le(mu, x)))
    f = h.int("first", 0, 1439)
    h.obs("lo", lo)
    h.obs("hi", hi)


def users_of(h, nusers, napps, windows):
    us, parts = [], []
    k = 0
    for i in range(nusers):
        nu = h.pick("num_users", t([1, 2], [1, 2, 3]))
        u = user(h, user_name="u%d" % i, num_users=nu)
        us.append(u)
        for j in range(napps):
            nw = windows[k % len(windows)]
            ws = []
            for q in range(nw):
                ws.append(sym_window(h, "w%d_%d" % (k, q)))
            for a, b in zip(ws, ws[1:]):
                h.assume(h.le(a[1], b[0]))
            p = h.pick("power", t([10.0, 20.0], [10.0, 20.0, 45.0]))
            n = h.pick("number", t([1, 2], [1, 2]))
            appliance(h, u, name="a%d" % k, number=n, power=p, func_time=1, num_windows=nw, **{"window_%d" % (q + 1): list(w) for q, w in enumerate(ws)})
            parts.append((p * n * nu * 0.001, ws))
            k += 1
    return us, parts


def one(h):
    us, parts = users_of(h, 1, 1, [h.pick("windows", [1, 2, 3])])
    uc = h.core.UseCase(users=us)
    en = h.pick("peak_enlarge", [0.15, 0.5])
    k0 = h.ndraws()
    uc.peak_enlarge = en
    verdict(h, uc.peak_time_range, k0, parts, en)


def two_appliances(h):
    us, parts = users_of(h, 1, 2, [1, 1])
    uc = h.core.UseCase(users=us)
    k0 = h.ndraws()
    verdict(h, uc.calc_peak_time_range(), k0, parts, 0.15)


def two_users(h):
    us, parts = users_of(h, 2, 1, [1])
    uc = h.core.UseCase(users=us)
    k0 = h.ndraws()
    verdict(h, uc.calc_peak_time_range(), k0, parts, 0.15)


def series(h):
    """a varying power counts with its mean over the declared series"""
    ps = [h.real("power%d" % k, 1, 50) for k in range(4)]
    s, e = sym_window(h, "w1")
    s2, e2 = sym_window(h, "w2")
    u = user(h, num_users=1)
    appliance(h, u, name="a", number=1, power=h.pd.DataFrame(ps), func_time=1, window_1=[s, e])
    appliance(h, u, name="b", number=1, power=20.0, func_time=1, window_1=[s2, e2])
    uc = h.core.UseCase(users=[u])
    k0 = h.ndraws()
    verdict(h, uc.calc_peak_time_range(), k0, [(sum(ps) / 4 * 0.001, [(s, e)]), (0.02, [(s2, e2)])], 0.15)


def stable(h):
    """not changed by profiles generated before"""
    occ = h.pick("occasional_use", [0, 1])
    flat = h.pick("flat", ["no", "yes"])
    s, e = sym_window(h, "w1", 10, 1400, 10) if flat == "yes" else (700, 712)
    u = user(h, num_users=1)
    appliance(h, u, name="a", number=1, power=10.0, func_time=3, func_cycle=3, fixed="yes", flat=flat, occasional_use=occ, window_1=[s, e])
    appliance(h, u, name="b", number=2, power=10.0, func_time=3, func_cycle=3, fixed="yes", flat="yes", window_1=[300, 500])
    uc = h.core.UseCase(users=[u])
    k0 = h.ndraws()
    r0 = uc.calc_peak_time_range()
    a0 = h.drawn(NORMAL, k0)[0][2]
    u.generate_aggregated_load_profile(0, h.np.arange(600, 700), 0)
    k1 = h.ndraws()
    r1 = uc.calc_peak_time_range()
    a1 = h.drawn(NORMAL, k1)[0][2]
    h.check("the peak law does not depend on the profiles generated before", h.and_(h.eq(a0[0], a1[0]), h.eq(a0[1], a1[1])))
    h.obs("mu", a1[0])


def weights(h):
    """every user, every instance of a user and every appliance counts"""
    parts, us = [], []
    for i in range(2):
        nu = h.int("num_users%d" % i, 0, 1000)
        p = h.pick("power%d" % i, t([10.0, 37.5], [0.5, 10.0, 37.5, 2000.0]))
        n = h.pick("number%d" % i, t([1, 30], [1, 12, 30]))
        u = user(h, user_name="u%d" % i, num_users=nu)
        s, e = sym_window(h, "w%d" % i)
        if i:
            h.assume(h.le(parts[0][1][0][1], s))
        appliance(h, u, name="a%d" % i, number=n, power=p, func_time=1, window_1=[s, e])
        us.append(u)
        parts.append((nu * (p * n * 0.001), [(s, e)]))
    uc = h.core.UseCase(users=us)
    k0 = h.ndraws()
    verdict(h, uc.calc_peak_time_range(), k0, parts, 0.15)


def added(h):
    """users and appliances added after the use case was initialised count for the profiles generated from then on"""
    par = h.pick("parallel", [False, True])
    s, e = (500, 600) if par or t(True, False) else sym_window(h, "w", minlen=5)
    s2, e2 = (300, 900) if par else sym_window(h, "v", minlen=5)
    uc = h.core.UseCase(date_start="2021-03-01", date_end="2021-03-02" if par else "2021-03-01", parallel_processing=par)
    u = user(h, user_name="u")
    appliance(h, u, name="a", number=1, power=10.0, func_time=1, flat="yes", window_1=[s, e])
    parts = [(0.01, [(s, e)])]
    k0 = h.ndraws()
    if h.flag("generated between"):
        uc.add_user(u)
        uc.generate_daily_load_profiles()
        k0 = h.ndraws()
    more = h.pick("added", ["appliance", "user"])
    v = u if more == "appliance" else user(h, user_name="v", num_users=2)
    appliance(h, v, name="b", number=1, power=20.0, func_time=1, flat="yes", window_1=[s2, e2])
    for x in (u, v):
        if not any(y is x for y in uc.users):
            uc.add_user(x)
    parts.append((0.02 if v is u else 0.04, [(s2, e2)]))
    uc.generate_daily_load_profiles()
    verdict(h, uc.peak_time_range, k0, parts, 0.15, last=True)
    k1 = h.ndraws()
    r = uc.peak_time_range
    uc.generate_daily_load_profiles()
    h.check("the range stays the same while nothing is added", h.and_(h.eq(r[0], uc.peak_time_range[0]), h.eq(h.size(r), h.size(uc.peak_time_range))))


def loaded(h):
    """users loaded from a file after the use case was initialised count"""
    s = h.pick("start", [0, 300, 1200])
    e = s + h.pick("length", [10, 100])
    u = user(h, user_name="u")
    appliance(h, u, name="a", number=1, power=10.0, func_time=1, flat="yes", window_1=[s, e])
    f = h.folder() + "/file"
    h.core.UseCase(users=[u]).save(f)
    uc = h.core.UseCase(date_start="2021-03-01", date_end="2021-03-02")
    k0 = h.ndraws()
    uc.load(f + ".xlsx")
    uc.generate_daily_load_profiles()
    verdict(h, uc.peak_time_range, k0, [(0.01, [(s, e)])], 0.15, last=True)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (one, two_appliances, two_users, weights, series, stable, added, loaded)]
