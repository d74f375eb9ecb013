"""C17: a random seed makes the result reproducible"""
from checks.common import *

FUNCTIONS = ["ramp.core.core.UseCase.__init__", "UseCase.initialize", "UseCase.generate_daily_load_profiles", "UseCase.generate_daily_load_profiles_parallel", "single_appliance_daily_load_profile", "UseCase.calc_peak_time_range", "User.generate_aggregated_load_profile", "User.draw_daily_preference", "Appliance.generate_load_profile and everything below it", "ramp.core.utils.random_variation", "random_choice", "duty_cycle"]
BOUNDS = "any integer seed, two use cases built alike from different states of the random generator, one or two users with one or two appliances and up to two days; draws are an uninterpreted function of the seed, the number of earlier draws and the request; all orders of completion of the workers in both runs"
OUTSIDE = "seeds that are not integers; differences of rounding between orders of summation (sums are exact here); changing the use case between construction and generation"


def small(h, u, kind):
    """appliances that make random decisions"""
    if kind == "plain":
        appliance(h, u, name="a", number=2, power=10.0, func_time=6, func_cycle=6, window_1=[100, 112])
    elif kind == "varied":
        appliance(h, u, name="a", number=1, power=10.0, func_time=8, func_cycle=8, time_fraction_random_variability=0.5, thermal_p_var=0.2, window_1=[100, 112])
    elif kind == "occasional":
        appliance(h, u, name="a", number=1, power=10.0, func_time=8, flat="yes", occasional_use=0.5, thermal_p_var=0.3, window_1=[100, 112])
    elif kind == "window":
        appliance(h, u, name="a", number=1, power=10.0, func_time=8, flat="yes", window_1=[100, 120], random_var_w=0.2)
    elif kind == "cycle":
        appliance(h, u, name="a", number=1, power=10.0, func_time=6, func_cycle=6, fixed="yes", fixed_cycle=1, window_1=[100, 112], p_11=20.0, t_11=2, p_12=5.0, t_12=4, cw11=[0, 1440], r_c1=0.2)
    elif kind == "three cycles":
        pars = {}
        for c in (1, 2, 3):
            pars.update({"p_%d1" % c: 20.0 * c, "t_%d1" % c: 2, "p_%d2" % c: 5.0, "t_%d2" % c: 4, "cw%d1" % c: [0, 1440] if c == 2 else [1438, 1439], "cw%d2" % c: [1438, 1439]})
        appliance(h, u, name="a", number=1, power=10.0, func_time=6, func_cycle=6, fixed="yes", fixed_cycle=3, window_1=[100, 108], **pars)
    elif kind == "many":
        appliance(h, u, name="a", number=4, power=10.0, func_time=6, func_cycle=6, window_1=[100, 108])
    elif kind == "preference":
        appliance(h, u, name="a", number=1, power=10.0, func_time=8, flat="yes", pref_index=1, thermal_p_var=0.1, window_1=[100, 112])
        appliance(h, u, name="b", number=1, power=30.0, func_time=8, flat="yes", pref_index=2, window_1=[100, 112])


KINDS = ["plain", "varied", "occasional", "window", "cycle", "three cycles", "many", "preference"]


def build(h, kind, n, days, seed, parallel, how):
    u = h.core.User("u", n, 2 if kind == "preference" else 0)
    small(h, u, kind)
    kw = {"random_seed": seed, "parallel_processing": parallel}
    if how == "dates":
        uc = h.core.UseCase(users=[u], date_start="2021-03-01", date_end="2021-03-%02d" % days, **kw)
    elif how == "users first":
        uc = h.core.UseCase(users=[u], date_start="2021-03-01", **kw)
        uc.initialize(num_days=days)
    else:
        uc = h.core.UseCase(date_start="2021-03-01", **kw)
        uc.add_user(u)
        uc.initialize(num_days=days)
    return uc


def compare(h, kind, n, days, parallel, how, shape="days"):
    seed = h.pick("seed kind", ["zero", "any"])
    seed = 0 if seed == "zero" else h.int("seed", -5, 2 ** 40)
    for k in h.trials(30):
        h.disturb(1 + 2 * k)
        a = build(h, kind, n, days, seed if k == 0 else k, parallel, how)
        pa = a.generate_daily_load_profiles(flat=False)
        h.disturb(2 + 2 * k)
        b = build(h, kind, n, days, seed if k == 0 else k, parallel, how)
        pb = b.generate_daily_load_profiles(flat=False)
        for d in h.each("day", 0, days - 1):
            same = [h.eq(pa[d][m], pb[d][m]) for m in h.each("minute", 0, 1439)]
            h.check("the same seed gives the same profiles", h.and_(*same))
        h.check("the same seed gives the same peak time range", h.and_(h.eq(a.peak_time_range[0], b.peak_time_range[0]), h.eq(h.size(a.peak_time_range), h.size(b.peak_time_range))))


def sequential(h):
    kind = h.pick("kind", KINDS)
    two = h.pick("size", [(1, 1), (2, 1), (1, 2), (2, 2)]) if kind in ("occasional", "window", "preference") else (1, 1)
    compare(h, kind, two[0], two[1], False, h.pick("how", ["dates", "users first", "users later"]))


def parallel(h):
    kind = h.pick("kind", ["varied", "occasional", "window", "preference", "cycle", "three cycles"])
    two = h.pick("size", [(1, 1), (2, 1), (1, 2)]) if kind in ("occasional", "window", "preference") else (1, 1)
    compare(h, kind, two[0], two[1], True, h.pick("how", ["dates", "users later"]))


def chunks(h):
    """more tasks than a worker takes at once, completed in any order"""
    n = h.pick("num_users", [5, 6] if t(0, 1) else [5])
    compare(h, "window", n, 1, True, "users later")


def unseeded(h):
    """without a seed the generator is left alone"""
    h.disturb(1)
    before = h.rng_state()
    u = h.core.User("u")
    small(h, u, "plain")
    kw = {} if h.flag("default") else {"random_seed": None}
    h.core.UseCase(users=[u] if h.flag("with users") else None, **kw)
    h.check("the generator is left alone without a seed", h.rng_state() == before)
    h.core.UseCase(random_seed=7)
    h.check("a seed sets the generator", h.rng_state() != before)


def flags(stateful=True):
    return {"stateful_rng": stateful, "real_random": True}


HARNESSES = [dict(name=f.__name__, fn=f, **flags()) for f in (sequential, parallel, chunks, unseeded)]
