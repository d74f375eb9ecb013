"""Helpers shared by the harnesses (must run both under the symbolic engine and on the real code)."""
import os

TIER = os.environ.get("VERIF_TIER_NOW", "quick")
THOROUGH = TIER == "thorough"

FUNCTIONS = [
    "ramp.core.core.User.add_appliance", "ramp.core.core.Appliance.__init__", "Appliance.windows", "Appliance.calc_rand_window",
    "Appliance.rand_total_time_of_use", "Appliance.rand_switch_on_window", "Appliance.calc_coincident_switch_on",
    "Appliance.update_daily_use", "Appliance.update_available_time_for_switch_on_events", "Appliance.assign_random_cycles",
    "Appliance.generate_load_profile", "ramp.core.utils.random_variation", "duty_cycle", "random_choice", "range_within_window",
    "within_peak_time_window",
]


def t(q, th):
    """bound for the quick and for the thorough tier"""
    return th if THOROUGH else q


def user(h, **k):
    k.setdefault("user_name", "u")
    return h.core.User(**k)


def appliance(h, u=None, **k):
    """an appliance of a fresh user, created through the public interface"""
    if u is None:
        u = user(h)
    k.setdefault("name", "a")
    return u.add_appliance(**k)


def generate(h, app, power, prof_i=0, day_type=0, peak=(600, 700)):
    """one daily profile of the appliance; documented configuration errors are not failures"""
    rng = h.np.arange(peak[0], peak[1])
    app.generate_load_profile(prof_i, rng, day_type, power)
    return app.daily_use


def sym_window(h, name, lo=0, hi=1440, minlen=1):
    s = h.int(name + "_start", lo, hi)
    e = h.int(name + "_end", lo, hi)
    h.assume(h.le(s + minlen, e))
    return s, e


ARGS = ("number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
        "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "name")
WINDOWS = ("window_1", "window_2", "window_3", "random_var_w")
CYCLES = (("p_11", "t_11", "cw11", "p_12", "t_12", "cw12", "r_c1"), ("p_21", "t_21", "cw21", "p_22", "t_22", "cw22", "r_c2"), ("p_31", "t_31", "cw31", "p_32", "t_32", "cw32", "r_c3"))
DECLARED = ARGS + WINDOWS + CYCLES[0] + CYCLES[1] + CYCLES[2]
DEFAULTS = {"number": 1, "power": 0, "num_windows": 1, "func_time": 0, "time_fraction_random_variability": 0, "func_cycle": 1, "fixed": "no", "fixed_cycle": 0,
            "continuous_duty_cycle": 1, "occasional_use": 1, "flat": "no", "thermal_p_var": 0, "pref_index": 0, "wd_we_type": 2, "random_var_w": 0}


def declared_values(h, prefix="", strings=("yes", "no"), nw=None, ncyc=3):
    """a value for every declared parameter of an appliance: symbolic numbers within the documented ranges"""
    p = prefix
    v = {"number": h.int(p + "number", 0, 50), "power": h.real(p + "power", 0, 10000)}
    n = nw if nw is not None else h.pick(p + "num_windows", [1, 2, 3])
    v["num_windows"] = n
    ws = [sym_window(h, p + "w%d" % (k + 1)) for k in range(3)]
    ft = h.int(p + "func_time", 1, 1440)
    tot = 0
    for s, e in ws[:n]:
        tot = tot + (e - s)
    h.assume(h.le(ft, tot))
    v["func_time"] = ft
    v["time_fraction_random_variability"] = h.real(p + "tfrv", 0, 1)
    v["func_cycle"] = h.int(p + "func_cycle", 0, 1440)
    v["fixed"], v["flat"] = strings
    v["fixed_cycle"] = h.int(p + "fixed_cycle", 0, 3)
    v["continuous_duty_cycle"] = h.int(p + "continuous", 0, 1)
    v["occasional_use"] = h.real(p + "occasional_use", 0, 1)
    v["thermal_p_var"] = h.real(p + "thermal_p_var", 0, 1)
    v["pref_index"] = h.int(p + "pref_index", 0, 3)
    v["wd_we_type"] = h.int(p + "wd_we_type", 0, 2)
    v["name"] = "app"
    for k in range(n):
        v["window_%d" % (k + 1)] = list(ws[k])
    v["random_var_w"] = h.pick(p + "random_var_w", [0, 0.25])
    for c in range(ncyc):
        for k in CYCLES[c]:
            if k.startswith("p_"):
                v[k] = h.real(p + k, 0, 5000)
            elif k.startswith("t_"):
                v[k] = h.int(p + k, 0, 30)
            elif k.startswith("cw"):
                v[k] = list(sym_window(h, p + k))
            else:
                v[k] = h.real(p + k, 0, 1)
    return v


def vector(x):
    return isinstance(x, (list, tuple)) or len(getattr(x, "shape", ())) == 1


def same_value(h, a, b):
    """values of a declared parameter: number, text or window"""
    if isinstance(a, str) or isinstance(b, str):
        return a is not None and isinstance(a, str) and isinstance(b, str) and a == b
    if vector(a) or vector(b):
        if not (vector(a) and vector(b)):
            return False
        if h.conc(h.size(a)) != 2 or h.conc(h.size(b)) != 2:
            return False
        return h.and_(h.eq(a[0], b[0]), h.eq(a[1], b[1]))
    return h.eq(a, b)
