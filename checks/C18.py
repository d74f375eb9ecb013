"""C18: the command line simulates what its options say"""
from checks.common import *

FUNCTIONS = ["ramp.cli.main", "ramp.cli.parser", "ramp.ramp_run.run_usecase", "ramp.core.core.UseCase.__init__", "UseCase.initialize", "UseCase.days", "UseCase.generate_daily_load_profiles"]
BOUNDS = "one to three input files; every combination of the options -i -o -n -y --start-date --end-date -p; any dates between 1950 and 2100 and any years, numbers of days up to 400 (each a symbolic value); complete generations of up to two days"
OUTSIDE = "-n combined with both dates or with -y (RAMP ignores it); input files written in Python; reading the input files (C13, C14) and writing the results (C20)"
LO, HI = 711858, 766600
MAXN = 400
FILES = ["data/a_1.xlsx", "b.xlsx", "/c/d_3.xlsx"]
OUTS = ["out/x.csv", "y.csv", "z_3.csv"]


def everywhere(h, name, value, *mods):
    """replace a function wherever it is visible under its name"""
    orig = getattr(h.mod(mods[0]), name)
    for m in mods:
        m = h.mod(m)
        if getattr(m, name, None) is orig:
            h.patch(m, name, value)


def run(h, argv, generate=True, power=None):
    """main() with the given command line; what was simulated and handed on, in order"""
    runs, order = [], []
    core = h.core
    rr = h.mod("ramp.ramp_run")
    cli = h.mod("ramp.cli")

    def load(uc, filename):
        r = {"file": filename, "uc": uc, "gens": 0}
        runs.append(r)
        u = core.User("u%d" % len(runs), 1, 0)
        app = u.add_appliance(number=1, power=(power or [10.0, 20.0, 30.0])[len(runs) - 1], func_time=60, fixed="yes", flat="yes", window_1=[0, 60], name="a")
        uc.add_user(u)

    real_gen = core.UseCase.generate_daily_load_profiles

    def gen(uc, *a, **k):
        for r in runs:
            if r["uc"] is uc:
                r["gens"] += 1
                r["flat"] = a[0] if a else k.get("flat", True)
                r["n"] = uc.num_days
                r["days"] = uc.days
                r["parallel"] = bool(uc.parallel_processing)
                r["result"] = real_gen(uc, *a, **k) if generate else h.np.zeros((1, 1440))
                return r["result"]
        raise AssertionError("generation without an input file")

    def post(Profiles_list, fname=None, ofname=None):
        for r in runs:
            if r.get("result") is Profiles_list:
                r["post"] = r.get("post", 0) + 1
                r["pfile"], r["out"] = fname, ofname
                order.append(r)
                return
        raise AssertionError("other profiles than those generated are processed")

    h.patch(core.UseCase, "load", load)
    if not generate and hasattr(core.UseCase, "calc_peak_time_range"):

        def peak(uc, *a, **k):
            uc.peaked_with = len(uc.users)
            return h.np.arange(600, 660)

        h.patch(core.UseCase, "calc_peak_time_range", peak)
    h.patch(core.UseCase, "generate_daily_load_profiles", gen)
    everywhere(h, "old_post_process", post, "ramp.post_process.post_process", "ramp.ramp_run")
    h.argv(*argv)
    cli.main()
    return runs


def files(h, n=None):
    n = n or h.pick("files", [1, 2, 3])
    outs = h.pick("outputs", ["none", "one"] + (["each"] if n > 1 else []))
    a = ["-i"] + FILES[:n]
    if outs != "none":
        a += ["-o"] + OUTS[:1 if outs == "one" else n]
    want = [None] * n if outs == "none" else [OUTS[0]] * n if outs == "one" else OUTS[:n]
    return n, a, want


def par(h):
    return ["-p"] if h.flag("parallel") else []


def judge(h, runs, n, want, first, count, parallel):
    """runs are those of the n files; first(i), count(i): calendar of run i"""
    h.check("one run per input file", len(runs) == n)
    if len(runs) != n:
        return
    for i, r in enumerate(runs):
        h.check("files are simulated in order", r["file"] == FILES[i])
        h.check("each file is simulated once", r["gens"] == 1)
        if r["gens"] != 1:
            return
        h.check("profiles are handed on once, with their own input and output", r.get("post") == 1 and r.get("pfile") == FILES[i] and r.get("out") == want[i])
        h.check("number of days", h.and_(h.eq(r["n"], count(i)), h.eq(h.size(r["days"]), count(i))))
        h.check("first day", h.eq(h.ordinal(r["days"][0]), first(i)))
        h.check("last day", h.eq(h.ordinal(r["days"][-1]), first(i) + count(i) - 1))
        h.check("parallel only on demand", r["parallel"] == parallel)
        h.check("the peak time range is that of the users of the file", getattr(r["uc"], "peaked_with", 1) == 1)
        h.obs("n", r["n"])


def jan1(h, y):
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 + 1


def dates(h):
    given = h.pick("dates", ["both", "start", "end"])
    n, a, want = files(h)
    p = par(h)
    args = []
    if given == "both":
        s, e = h.date("start", LO, HI, kind="date"), h.date("end", LO, HI, kind="date")
        args += ["--start-date", h.iso(s), "--end-date", h.iso(e)]
        first = h.ordinal(s)
        cnt = h.ordinal(e) - first + 1
        h.assume(h.le(1, cnt))
    else:
        d, y, b, m = h.date_in_year("date", 1950, 2100)
        args += ["--%s-date" % given, h.iso(d)]
        first = h.ordinal(d) if given == "start" else b + 1
        cnt = (b + m if given == "start" else h.ordinal(d)) - first + 1
    runs = run(h, a + args + p, generate=False)
    judge(h, runs, n, want, lambda i: first, lambda i: cnt, bool(p))


def numbers(h):
    given = h.pick("dates", ["none", "start", "end"])
    n, a, want = files(h)
    p = par(h)
    ks = [h.int("n%d" % i, 1, MAXN) for i in range(n if h.pick("numbers", ["shared", "each"]) == "each" else 1)]
    args = ["-n"] + [h.text(k) for k in ks]
    if len(ks) == 1:
        ks = ks * n
    if given == "start":
        s = h.date("start", LO, HI, kind="date")
        args += ["--start-date", h.iso(s)]
        first = lambda i: h.ordinal(s)
    elif given == "end":
        e = h.date("end", LO + MAXN, HI, kind="date")
        args += ["--end-date", h.iso(e)]
        first = lambda i: h.ordinal(e) - ks[i] + 1
    else:
        now = h.today()
        first = lambda i: h.ordinal(now)
    runs = run(h, a + args + p, generate=False)
    judge(h, runs, n, want, first, lambda i: ks[i], bool(p))


def asked(h):
    """without any length, it is asked for"""
    n, a, want = files(h, h.pick("files", [1, 2]))
    ks = [h.int("n%d" % i, 1, MAXN) for i in range(n)]
    h.set_input_lines(list(ks))
    now = h.today()
    runs = run(h, a, generate=False)
    judge(h, runs, n, want, lambda i: h.ordinal(now), lambda i: ks[i], False)


def years(h):
    y = h.int("year", 1950, 2100)
    args = ["-y", h.text(y)]
    last = y
    if h.flag("two years"):
        last = h.int("last", 1950, 2100)
        h.assume(h.le(y, last))
        if h.flag("three years"):
            mid = h.int("mid", 1950, 2100)
            h.assume(h.and_(h.le(y, mid), h.le(mid, last)))
            args.append(h.text(mid))
        args.append(h.text(last))
    n, a, want = files(h)
    p = par(h)
    runs = run(h, a + args + p, generate=False)
    judge(h, runs, n, want, lambda i: jan1(h, y), lambda i: jan1(h, last + 1) - jan1(h, y), bool(p))


def refused(h):
    why = h.pick("why", ["numbers", "outputs", "year and start", "year and end"])
    n = h.pick("files", [1, 2, 3])
    a = ["-i"] + FILES[:n]
    s = h.date("start", LO, HI, kind="date")
    if why == "numbers":
        k = h.pick("given", [2, 3])
        h.assume(k != n)
        a += ["-n"] + [h.text(h.int("n%d" % i, 1, MAXN)) for i in range(k)]
    elif why == "outputs":
        k = h.pick("given", [2, 3])
        h.assume(k != n)
        a += ["-n", "1", "-o"] + OUTS[:k]
    else:
        a += ["-y", h.text(h.int("year", 1950, 2100)), "--start-date" if why == "year and start" else "--end-date", h.iso(s)]
        if h.flag("with -n"):
            a += ["-n", h.text(h.int("n0", 1, MAXN))]
    done = []
    try:
        done = run(h, a, generate=False)
        ok = False
    except ValueError:
        ok = True
    h.check("refused: " + why, ok)
    h.check("nothing is simulated", not done)


def nothing(h):
    runs = run(h, h.pick("options", [[], ["-n", "2"], ["-y", "2020"], ["-o", "x.csv"], ["-p"]]), generate=False)
    h.check("nothing is simulated without an input file", not runs)


def complete(h):
    """complete runs: the profiles handed on are those of the file's users, one row per day"""
    n = h.pick("files", [1, 2])
    p = par(h)
    powers = [h.real("power%d" % i, 1, 100) for i in range(n)]
    k = h.pick("days", [1, 2])
    args = ["-n", str(k)]
    if h.flag("start"):
        args += ["--start-date", h.iso(h.date("start", LO, HI, kind="date"))]
    runs = run(h, ["-i"] + FILES[:n] + args + p, power=powers)
    h.check("one run per input file", len(runs) == n)
    for i, r in enumerate(runs):
        res = r["result"]
        h.check("one row per day", res.shape[0] == k and res.shape[1] == 1440)
        d = h.pick("day", list(range(k)))
        h.check("the profile is that of the file's users", h.and_(h.eq(res[d][10], powers[i]), h.eq(res[d][700], 0)))
        h.check("handed on once", r.get("post") == 1)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (dates, numbers, asked, years, refused, nothing, complete)]
