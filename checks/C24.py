"""C24: converting a legacy python input file preserves users and appliances"""
from checks.common import *
import os

FUNCTIONS = ["ramp.ramp_convert_old_input_files.convert_old_user_input_file", "cli", "ramp.core.core.UseCase.save", "UseCase.load", "User.Appliance", "User.add_appliance", "Appliance.windows", "Appliance.specific_cycle_1/2/3", "Appliance.cycle_behaviour"]
BOUNDS = "legacy files with one to three users of one to three appliances in every legacy style of declaration; every declared value symbolic; every combination of import statement, place of the file and of the result, suffix and naming; files converted once or twice, one or several at a time"
OUTSIDE = "input files with control flow of their own beyond loops over appliances; files that import other local files"


HEAD = {
    "old": "from core import User, np\n",
    "two": "from core import User\nfrom core import np\n",
    "comment": "from core import User, np\n# formerly: from core import *\n",
    "guarded": "try:\n    from core import User, np\nexcept ImportError:\n    User = None\n",
    "package": "from ramp.core.core import User\nimport numpy as np\n",
}


def declared(h, k, cycles=0):
    """symbolic values of one appliance"""
    p = "a%d_" % k
    w1, w2 = sym_window(h, p + "w1"), sym_window(h, p + "w2")
    ft = h.int(p + "func_time", 1, 1440)
    h.assume(h.le(ft, (w1[1] - w1[0]) + (w2[1] - w2[0])))
    v = {"n": h.int(p + "number", 0, 50), "P": h.int(p + "power", 0, 10000), "t": ft, "r_t": h.real(p + "r_t", 0, 1), "c": h.int(p + "func_cycle", 0, 600), "oc": h.real(p + "occasional", 0, 1),
         "pv": h.real(p + "p_var", 0, 1), "pref": h.int(p + "pref", 0, 3), "wd": h.int(p + "wd", 0, 2), "w1": list(w1), "w2": list(w2), "rw": h.pick("random_var_w", [0, 0.35])}
    for c in range(cycles):
        for x in ("p1", "p2"):
            v["%s_%d" % (x, c)] = h.int(p + "%s_%d" % (x, c), 0, 3000)
        for x in ("t1", "t2"):
            v["%s_%d" % (x, c)] = h.int(p + "%s_%d" % (x, c), 0, 30)
        v["r_%d" % c] = h.real(p + "r_%d" % c, 0, 1)
        for x in ("cw1", "cw2"):
            v["%s_%d" % (x, c)] = list(sym_window(h, p + "%s_%d" % (x, c)))
    return v


def lines(var, user, k, cycles=0, style="legacy", name=None):
    """the statements that declare appliance k"""
    nm = ", name = '%s'" % name if name else ""
    d = "V[%d]" % k
    if style.startswith("legacy"):
        s = "%s = %s.Appliance(%s%s['n'], %s['P'], 2, %s['t'], %s['r_t'], %s['c'], fixed = 'yes', fixed_cycle = %d, occasional_use = %s['oc'], flat = 'no', thermal_P_var = %s['pv'], pref_index = %s['pref'], wd_we_type = %s['wd']%s)\n" % (
            var, user, user + ", " if style == "legacy, user first" else "", d, d, d, d, d, cycles, d, d, d, d, nm)
    else:
        s = "%s = %s.add_appliance(%s['n'], %s['P'], num_windows=2, func_time=%s['t'], time_fraction_random_variability=%s['r_t'], func_cycle=%s['c'], fixed='yes', fixed_cycle=%d, occasional_use=%s['oc'], thermal_p_var=%s['pv'], pref_index=%s['pref'], wd_we_type=%s['wd']%s)\n" % (
            var, user, d, d, d, d, d, cycles, d, d, d, d, nm)
    s += "%s.windows(%s['w1'], %s['w2'], %s['rw'])\n" % (var, d, d, d)
    for c in range(cycles):
        s += "%s.specific_cycle_%d(%s['p1_%d'], %s['t1_%d'], %s['p2_%d'], %s['t2_%d'], %s['r_%d'])\n" % (var, c + 1, d, c, d, c, d, c, d, c, d, c)
    if cycles:
        s += "%s.cycle_behaviour(%s)\n" % (var, ", ".join("%s['cw1_%d'], %s['cw2_%d']" % (d, c, d, c) for c in range(cycles)))
    return s


def right(h, b, v, name, cycles=0):
    """the loaded appliance has the declared values"""
    h.check("name of the appliance", b.name == name)
    for k, x in (("number", v["n"]), ("func_time", v["t"]), ("time_fraction_random_variability", v["r_t"]), ("func_cycle", v["c"]), ("occasional_use", v["oc"]), ("thermal_p_var", v["pv"]),
                 ("pref_index", v["pref"]), ("wd_we_type", v["wd"]), ("window_1", v["w1"]), ("window_2", v["w2"]), ("random_var_w", v["rw"]), ("fixed", "yes"), ("flat", "no"), ("fixed_cycle", cycles), ("num_windows", 2)):
        h.check("value of " + k, same_value(h, getattr(b, k), x))
    k = h.int("kp", 0, 365)
    h.check("the power", h.eq(b.power[k], v["P"]))
    for c in range(cycles):
        p1, t1, cw1, p2, t2, cw2, r = CYCLES[c]
        for n, x in ((p1, "p1"), (t1, "t1"), (p2, "p2"), (t2, "t2"), (r, "r"), (cw1, "cw1"), (cw2, "cw2")):
            h.check("value of " + n, same_value(h, getattr(b, n), v["%s_%d" % (x, c)]))


def convert(h, *a, **k):
    return h.mod("ramp.ramp_convert_old_input_files").convert_old_user_input_file(*a, **k)


def write(folder, name, text):
    p = os.path.join(folder, name)
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    with open(p, "w") as f:
        f.write(text)
    return p


def loaded(h, path):
    uc = h.core.UseCase()
    uc.load(path)
    return uc.users


def read(path):
    with open(path) as f:
        return f.read()


def appliances(h):
    """every declared value of an appliance"""
    cycles = h.pick("cycles", [0, 1, 3])
    v = declared(h, 0, cycles)
    nu, pref = h.int("num_users", 0, 50), h.int("preference", 0, 3)
    h.module("vlegacy", V=[v], NU=nu, PREF=pref)
    d = h.program_folder()
    style = h.pick("style", ["legacy", "legacy, user first", "keywords"])
    p = write(d, "vapp_one.py", HEAD["old"] + "from vlegacy import V, NU, PREF\nUser_list = []\nHI = User('high income', NU, PREF)\nUser_list.append(HI)\n" + lines("HI_lamp", "HI", 0, cycles, style))
    h.chdir(d)
    convert(h, "vapp_one.py")
    us = loaded(h, os.path.join(d, "vapp_one.xlsx"))
    h.check("one user with one appliance", len(us) == 1 and len(us[0].App_list) == 1)
    h.check("the user", h.and_(us[0].user_name == "high income", h.eq(us[0].num_users, nu), h.eq(us[0].user_preference, pref)))
    right(h, us[0].App_list[0], v, "HI_lamp", cycles)


def names(h):
    """names of the appliances: of the variable, or the declared one"""
    vs = [declared(h, 0), {"n": 1, "P": 5, "t": 10, "r_t": 0, "c": 1, "oc": 1, "pv": 0, "pref": 0, "wd": 2, "w1": [0, 600], "w2": [700, 800], "rw": 0}]
    h.module("vlegacy", V=vs)
    keep = h.pick("keep", [None, True, False])
    given = h.flag("names given")
    d = h.program_folder()
    p = write(d, "vnames.py", HEAD[h.pick("import", sorted(HEAD))] + "from vlegacy import V\nUser_list = []\nA = User('a', 1)\nB = User('b', 2)\nUser_list += [B, A]\n" + lines("first", "A", 0, 0, "legacy", "one" if given else None) + lines("second", "B", 1, 0, "legacy", "two" if given else None)
              + ("" if h.flag("last line complete") else "print('done')").rstrip("\n"))
    h.chdir(d)
    k = {} if keep is None else {"keep_names": keep}
    convert(h, "vnames.py", **k)
    if h.flag("twice"):
        convert(h, "vnames.py", **k)
    us = loaded(h, os.path.join(d, "vnames.xlsx"))
    h.check("the users of User_list in its order", [u.user_name for u in us] == ["b", "a"] and [len(u.App_list) for u in us] == [1, 1])
    h.check("numbers of the users", h.and_(h.eq(us[0].num_users, 2), h.eq(us[1].num_users, 1)))
    if keep is False and not given:
        names = [us[1].App_list[0].name, us[0].App_list[0].name]
    else:
        names = ["one", "two"] if keep is False else ["first", "second"]
    right(h, us[1].App_list[0], vs[0], names[0])
    right(h, us[0].App_list[0], vs[1], names[1])


def places(h):
    """where the file and the result are"""
    v = declared(h, 0)
    h.module("vlegacy", V=[v])
    d = h.program_folder()
    os.mkdir(os.path.join(d, "out"))
    os.mkdir(os.path.join(d, "work"))
    sub = h.pick("folder of the file", ["", "inputs", "inputs.pyramp", os.path.join("a", "b")])
    base = h.pick("file", ["vplace.py", "v.place.py", "vplace-2.py"])
    p = write(d, os.path.join(sub, base), HEAD["package"] + "from vlegacy import V\nA = User('a', 1)\nUser_list = [A]\n" + lines("lamp", "A", 0))
    how = h.pick("path", ["relative", "absolute", "other folder"])
    if how == "relative":
        h.chdir(d)
        p = os.path.join(sub, base)
    elif how == "other folder":
        h.chdir(os.path.join(d, "work"))
        p = os.path.join("..", sub, base)
    else:
        h.chdir(d)
    out = h.pick("output", [None, "out"])
    suffix = h.pick("suffix", [None, "_new"])
    k = {}
    if out:
        k["output_path"] = os.path.join(d, out)
    if suffix is not None:
        k["suffix"] = suffix
    convert(h, p, **k)
    us = loaded(h, os.path.join(d, out or sub, base[:-3] + (suffix or "") + ".xlsx"))
    h.check("one user with one appliance", len(us) == 1 and len(us[0].App_list) == 1)
    right(h, us[0].App_list[0], v, "lamp")


def several(h):
    """users of several appliances; appliances declared in loops"""
    counts = h.pick("appliances", [[1, 2], [3], [2, 1, 1]])
    n = sum(counts)
    vs = [{"n": h.int("n%d" % k, 0, 50), "P": h.int("P%d" % k, 0, 500), "t": 10 + k, "r_t": 0, "c": 1, "oc": 1, "pv": 0, "pref": 0, "wd": h.int("wd%d" % k, 0, 2), "w1": list(sym_window(h, "w%d" % k, minlen=40)), "w2": [700, 800], "rw": 0} for k in range(n)]
    h.module("vlegacy", V=vs)
    t = HEAD["old"] + "from vlegacy import V\nUser_list = []\n"
    for i in range(len(counts)):
        t += "U%d = User(user_name='user %d', num_users=%d)\nUser_list.append(U%d)\n" % (i, 9 - i, i + 1, i)
    k = 0
    loop = h.flag("loop")
    want = []
    for i, c in enumerate(counts):
        if loop:
            t += "for k in range(%d, %d):\n" % (k, k + c) + "".join("    " + x + "\n" for x in lines("app", "U%d" % i, 0, 0, "legacy").replace("V[0]", "V[k]").replace("wd_we_type", "name='x%d' % k, wd_we_type").splitlines())
            want += [(i, k + j, "x%d" % (k + j)) for j in range(c)]
            k += c
        else:
            for j in range(c):
                t += lines("app_%s%d" % ("zyx"[j], i), "U%d" % i, k)
                want.append((i, k, "app_%s%d" % ("zyx"[j], i)))
                k += 1
    h.assume(h.and_(*[h.ne(vs[i]["P"], vs[j]["P"]) for i in range(n) for j in range(i)]))
    d = h.program_folder()
    write(d, "vmany.py", t)
    h.chdir(d)
    if loop:
        convert(h, "vmany.py", keep_names=False)
    else:
        convert(h, "vmany.py")
    us = loaded(h, os.path.join(d, "vmany.xlsx"))
    h.check("the users in their order", [u.user_name for u in us] == ["user %d" % (9 - i) for i in range(len(counts))])
    h.check("their appliances", [len(u.App_list) for u in us] == counts)
    for i, u in enumerate(us):
        h.check("number of users", h.eq(u.num_users, i + 1))
        for (a, kk, nm), b in zip([w for w in want if w[0] == i], u.App_list):
            right(h, b, vs[kk], nm)


def command_line(h):
    """the command ramp_convert with one or several files"""
    v = [declared(h, 0), {"n": h.int("n1", 0, 50), "P": h.int("P1", 0, 500), "t": 10, "r_t": 0, "c": 1, "oc": 1, "pv": 0, "pref": 0, "wd": 2, "w1": [0, 600], "w2": [700, 800], "rw": 0}]
    h.module("vlegacy", V=v)
    d = h.program_folder()
    for i, f in enumerate((os.path.join("x", "vone.py"), os.path.join("y", h.pick("second file", ["vtwo.py", "vone.py"])))):
        p = write(d, f, HEAD["old"] + "from vlegacy import V\nA = User('a%d', 1)\nUser_list = [A]\n" % i + lines("lamp%d" % i, "A", i))
        if i == 0:
            files = [f]
        else:
            files.append(f)
    files = files[: h.pick("files", [1, 2])]
    os.mkdir(os.path.join(d, "out"))
    h.chdir(d)
    same = len(files) == 2 and os.path.basename(files[0]) == os.path.basename(files[1])
    out = None if same else h.pick("output", [None, "out"])
    suffix = h.pick("suffix", [None, "_s"])
    h.argv("-i", *(files + (["-o", out] if out else []) + (["--suffix", suffix] if suffix else [])))
    h.mod("ramp.ramp_convert_old_input_files").cli()
    for i, f in enumerate(files):
        us = loaded(h, os.path.join(d, out or os.path.dirname(f), os.path.basename(f)[:-3] + (suffix or "") + ".xlsx"))
        h.check("the user of the file", len(us) == 1 and us[0].user_name == "a%d" % i and len(us[0].App_list) == 1)
        right(h, us[0].App_list[0], v[i], "lamp%d" % i)


def program(h):
    """the program itself still declares the same"""
    v = declared(h, 0)
    h.module("vlegacy", V=[v])
    d = h.program_folder()
    text = HEAD[h.pick("import", ["old", "package"])] + "from vlegacy import V\nA = User('a', 1)\nUser_list = [A]\n" + lines("lamp", "A", 0)
    p = write(d, "vprog.py", text)
    h.chdir(d)
    keep = h.flag("keep")
    convert(h, "vprog.py", keep_names=keep)
    t = read(p)
    h.check("the statements of the file are kept", t.startswith(text.replace("from core import", "from ramp.core.core import")))
    h.check("nothing is added without need", keep or len(t) == len(text.replace("from core import", "from ramp.core.core import")))
    convert(h, "vprog.py", keep_names=keep)
    h.check("a second conversion changes nothing", read(p) == t)


HARNESSES = [{"name": f.__name__, "fn": f} for f in (appliances, names, places, several, command_line, program)]
