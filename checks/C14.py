"""C14: power series in input files are read faithfully or refused"""
from checks.common import *

FUNCTIONS = ["ramp.core.utils.read_input_file", "ramp.core.core.UseCase.load", "Appliance.__init__", "Appliance.windows"]
BOUNDS = "input files with one or two appliances whose power is a number, a JSON array or a range of cells of another sheet; lengths 0, 1, 2 and 364 to 368, one to four columns, ranges starting anywhere in the upper left corner of the sheet; the values at any three positions (first and last included) symbolic in a series with a different value at every position; every position of the series checked; numbers of up to 17 digits"
OUTSIDE = "empty cells and texts inside a range; ranges of a sheet that does not exist; formulas other than a plain reference; the excel file format itself (openpyxl)"
HEAD = ["user_name", "num_users", "user_preference", "name", "number", "power", "num_windows", "func_time", "func_cycle", "window_1_start", "window_1_end"]


DIGITS = (7.5047201477090875, 1 / 3, 1.8086497263791745, 2 / 3)


def row(power, name="a", user_name="u"):
    return [user_name, 1, 0, name, 1, power, 1, 60, 10, 0, 1440]


def series(h, n):
    """n values: those at up to three positions are symbolic"""
    v = [10.0 + 0.5 * k for k in range(n)]
    pos = [k for k in (0, h.pick("position", [1, 150, 300]), n - 1) if 0 <= k < n]
    for k in sorted(set(pos)):
        v[k] = h.real("v%d" % k, 0, 10000)
    return v


def col(c):
    return "ABCDEFGH"[c]


def load(h, power, sheets=None, extra=None):
    rows = [HEAD]
    if extra == "before":
        rows.append(row(77.0, "other"))
    rows.append(row(power))
    if extra == "after":
        rows.append(row(77.0, "other"))
    d = {"data": rows}
    d.update(sheets or {})
    path = h.workbook(d)
    uc = h.core.UseCase()
    uc.load(path)
    apps = uc.users[0].App_list
    h.check("every appliance is read", len(apps) == len(rows) - 1)
    app = [a for a in apps if a.name == "a"]
    h.check("the appliance is read once", len(app) == 1)
    other = [a for a in apps if a.name == "other"]
    for a in other:
        k = h.int("kother", 0, 365)
        h.check("the other appliance keeps its own power", h.eq(a.power[k], 77.0))
    return app[0] if app else None


def faithful(h, app, v):
    h.check("as many values as given", h.eq(h.size(app.power), len(v)))
    k = h.int("k", 0, len(v) - 1)
    sym = [j for j in range(len(v)) if not isinstance(v[j], float) or h.mode == "conc" and v[j] != 10.0 + 0.5 * j]
    for j in sym:
        h.check("the values given", h.le(h.abs(app.power[j] - v[j]), 1e-6))
        h.assume(h.ne(k, j))
    h.check("the values given", h.le(h.abs(app.power[k] - (10.0 + 0.5 * k)), 1e-6))
    h.check("the series is not a constant", app.name == "a")


def number(h):
    x = h.real("power", 0, 10000) if h.flag("real") else h.int("powerint", 0, 10000)
    app = load(h, x, extra=h.pick("other", [None, "before", "after"]))
    k = h.int("k", 0, 365)
    h.check("a number is a constant power", h.eq(app.power[k], x))
    app.check_power_values(500)
    h.check("a constant power is extended", h.and_(h.le(500, h.size(app.power)), h.eq(app.power[499], x)))


def array(h):
    n = h.pick("length", [0, 1, 2, 364, 365, 366, 367, 368, 732])
    v = series(h, n)
    text = h.json(v)
    text = h.pick("text", [text, " " + text + " ", text.replace(", ", ",")])
    expect(h, n == 366, v, text, None)


def pairs(h):
    """a JSON array of timestamps and values"""
    n = h.pick("length", [364, 365, 366, 367])
    v = series(h, n)
    expect(h, n == 366, v, h.json([[1000 * k, x] for k, x in enumerate(v)]), None)


def expect(h, good, v, power, sheets):
    try:
        app = load(h, power, sheets, h.pick("other", [None, "before", "after"]))
    except ValueError:
        h.check("a series of 366 values is accepted", not good)
        return
    h.check("another length or width is refused", good)
    if good:
        faithful(h, app, v)


def cells(h):
    n = h.pick("rows", [1, 364, 365, 366, 367, 368])
    w = h.pick("columns", [1, 2, 3, 4])
    c0, r0 = h.pick("corner", [(0, 1), (1, 2), (2, 5)])
    name = h.pick("sheet", ["Sheet2", "ts 1"])
    v = series(h, n)
    rows = [["x"] * 7 for _ in range(r0 - 1)]
    for k in range(n):
        r = [5555.0] * 8
        for c in range(w):
            r[c0 + c] = 1000.0 * k + c if c < w - 1 else v[k]
        rows.append(r)
    rows.append([6666.0] * 8)
    dol = "$" if h.flag("absolute") else ""
    rng = "%s%s%s%d:%s%s%s%d" % (dol, col(c0), dol, r0, dol, col(c0 + w - 1), dol, r0 + n - 1)
    ref = "=" + (name if " " not in name else "'%s'" % name) + "!" + rng
    expect(h, n == 366 and w <= 2, v, ref, {name: rows})


def dated(h):
    """timestamps and values"""
    import datetime

    v = series(h, 366)
    rows = [[datetime.datetime(2020, 1, 1) + datetime.timedelta(days=k), v[k]] for k in range(366)]
    expect(h, True, v, "=Sheet2!A1:B366", {"Sheet2": rows})


def digits(h):
    """numbers with up to 17 digits are read exactly"""
    how = h.pick("how", ["array", "pairs", "one column", "two columns"])
    v = [round(100.0 + k / 7, 3) for k in range(366)]
    for k, x in zip((0, 17, 200, 365), DIGITS):
        v[k] = x
    sheets = None
    if how == "array":
        power = h.json(v)
    elif how == "pairs":
        power = h.json([[1000 * k, x] for k, x in enumerate(v)])
    else:
        # excel keeps 15 digits
        v = [float("%.15g" % x) for x in v]
        power = "=Sheet2!A1:%s366" % ("A" if how == "one column" else "B")
        sheets = {"Sheet2": [[x] if how == "one column" else [1000 * k, x] for k, x in enumerate(v)]}
    app = load(h, power, sheets)
    k = h.int("k", 0, 365)
    for j, x in enumerate(v):
        h.check("the values given, to the last digit", h.or_(h.ne(k, j), h.not_(h.ne(app.power[j], x))))


def texts(h):
    """texts that are neither an array nor a range"""
    bad = h.pick("text", ["abc", "100", "12.5", "null", "true", "{}", '{"a": 1}', '"abc"', "[1, 2", "1, 2, 3", "[]", "=", "=A1:A366", "=Sheet2!", "=Sheet2!nonsense", "nan"])
    try:
        load(h, bad, {"Sheet2": [[1.0]] * 366})
        ok = False
    except ValueError:
        ok = True
    h.check("any other text is refused with a ValueError", ok)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (number, array, pairs, cells, dated, digits, texts)]
