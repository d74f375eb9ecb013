"""Harness interface for symbolic runs (the concrete twin is conc.py)."""
from fractions import Fraction

from . import expr as X
from . import sym as S
from . import snp
from .sym import SNum, SBool


class Skip(S.EngineSignal):
    """the harness does not apply to this tree (a private helper is absent, ...)"""


def _n(x):
    n = S.node_of(x)
    if n is None:
        if isinstance(x, snp.SArr) and x.nd == 0:
            return x.c.get(X.const(0))
        raise S.Unsupported("harness comparison with %s" % type(x).__name__)
    return n


def _b(c):
    if isinstance(c, (bool, SBool)):
        return S.bnode_of(c)
    n = S.bnode_of(c)
    if n is None:
        raise S.Unsupported("harness condition of type %s" % type(c).__name__)
    return n


class SymH(object):
    mode = "sym"

    def __init__(self, world):
        self.w = world
        self.np = world.np
        self.pd = world.pd
        self.result = None
        self.observations = []
        self.checked = {}
        self.known_hits = []
        self.ces = []
        self.max_ce = {}
        self.inprefix_only = True
        self._undo = []

    # ---- modules and environment
    def mod(self, name):
        return self.w.load(name)

    @property
    def core(self):
        return self.w.load("ramp.core.core")

    @property
    def utils(self):
        return self.w.load("ramp.core.utils")

    @property
    def draws(self):
        return S.E.draws

    def drawn(self, kinds=None, start=0):
        """random draws made so far: (kind, value, arguments)"""
        num = lambda n: S.mknum(n, "i" if n.sort == X.I else "f")
        return [(d.kind, num(d.node), [num(a) for a in d.args]) for d in S.E.draws[start:] if d.node is not None and (kinds is None or d.kind in kinds)]

    def ndraws(self):
        return len(S.E.draws)

    def within_draws(self, n, f):
        """the result of f(), or None if it needs more than n random draws"""
        S.E.draw_limit = sum(1 for d in S.E.draws if d.kind not in ("seed", "np_seed")) + n
        try:
            return f()
        except S.TooManyDraws:
            return None
        finally:
            S.E.draw_limit = None

    def set_input_lines(self, xs):
        self.w.inputs[:] = xs

    def have(self, obj, *names):
        for n in names:
            if not hasattr(obj, n):
                raise Skip("%s is gone" % n)

    def skip(self, why):
        raise Skip(why)

    # ---- inputs
    def _in(self, name, n):
        S.E.inputs.append((name, n))

    def int(self, name, lo, hi):
        n = S.E.fresh(name, X.I)
        self._in(name, n)
        S.E.assume(X.le(_n(lo), n))
        S.E.assume(X.le(n, _n(hi)))
        return S.mkint(n)

    def real(self, name, lo, hi):
        n = S.E.fresh(name, X.R)
        self._in(name, n)
        S.E.assume(X.le(_n(lo), n))
        S.E.assume(X.le(n, _n(hi)))
        return SNum(n, "f")

    def pick(self, name, opts):
        k = S.E.choose(len(opts), name)
        self._in("pick:" + name, X.const(k))
        return opts[k]

    def flag(self, name):
        return self.pick(name, [False, True])

    # ---- dates
    def date(self, name, lo, hi, minutes=False, kind="datetime"):
        """a date with ordinal lo..hi (days since 0001-01-00); minutes: with a time of the day"""
        from . import smods

        o = self.int(name, lo, hi)
        m = self.int(name + "_minute", 0, 1439) if minutes else 0
        return smods.SDate(_n(o), _n(m), kind)

    def date_in_year(self, name, ylo, yhi, kind="date"):
        """(date, its year, ordinal of the last day of the year before) for any date of the years ylo..yhi"""
        from . import smods

        y, k = self.int(name + "_year", ylo, yhi), self.int(name + "_day", 1, 366)
        b = smods._ord_of_year(_n(y))
        leap = S.E.choose(2, name + "_leap")
        self._in("pick:" + name + "_leap", X.const(leap))
        S.E.assume(smods._leap(_n(y)) if leap else X.not_(smods._leap(_n(y))))
        S.E.assume(X.le(_n(k), X.const(365 + leap)))
        o = X.add(b, _n(k))
        S.E.memo[("year", o.id)] = _n(y)
        S.E.memo[("leap", _n(y).id)] = bool(leap)
        S.E.axiom(X.le(X.const(600000), b))
        return smods.SDate(o, smods.ZERO, kind, _n(y)), y, S.mkint(b), 365 + leap

    def iso(self, d):
        from . import smods

        return smods.date_text(d)

    def ordinal(self, d):
        from . import smods

        return S.mkint(smods.as_sdate(d).o)

    def minute_of(self, d):
        from . import smods

        return S.mkint(smods.as_sdate(d).m)

    def today(self):
        return self.w.load_std("datetime").datetime.today()

    # ---- replaced parts of the environment
    def patch(self, obj, name, value):
        self._undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def _cleanup(self):
        while self._undo:
            o, n, v = self._undo.pop()
            setattr(o, n, v)

    def text(self, x):
        """a number as text"""
        return S.symtext(_n(x)) if isinstance(x, SNum) else str(x)

    def argv(self, *xs):
        import sys

        self.patch(sys, "argv", ["ramp"] + list(xs))

    def program_folder(self):
        """a scratch folder whose python files the code may read, write and import"""
        d = self.scratch()
        self.w.allow(d)
        return d

    def chdir(self, d):
        from . import scratch

        scratch.chdir(self, d)

    def module(self, name, **attrs):
        """a module that programs can import"""
        import types

        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        self.w.files[name] = m

    def trials(self, n):
        """a counterexample over uninterpreted draws is looked for among n runs with real draws when replayed"""
        return range(1)

    def each(self, name, lo, hi):
        return [self.int(name, lo, hi)]

    def disturb(self, k):
        """puts the random generator into another state"""
        r = self.w.random._rng
        r.state, r.count = "other:%d" % k, 0
        g = self.w.np_random._rng
        g.state, g.count = "other:%d" % k, 0

    def rng_state(self):
        return self.w.random._rng.getstate()

    def json(self, xs):
        from . import smods

        return smods.json_text(list(xs))

    def workbook(self, sheets):
        """an excel file with the given sheets (rows of values)"""
        path = "/scratch/book%d.xlsx" % len(self.pd.FS.books)
        self.pd.FS.books[path] = {k: [list(r) for r in v] for k, v in sheets.items()}
        return path

    def folder(self):
        """a folder where excel files may be written"""
        return "/scratch"

    def scratch(self):
        """an empty folder that is removed afterwards"""
        from . import scratch

        return scratch.make(self)

    def frame(self, times, cols):
        """a frame of the given columns on a time index"""
        from . import stf

        return stf.TFrame({c: list(v) for c, v in cols.items()}, stf.TIndex(times))

    def capture_plots(self):
        """frames drawn from now on: [(kind, frame, options)]"""
        return self.pd.FS.plots

    def capture_csv(self):
        """text tables written from now on: [(path, table)]"""
        return self.pd.FS.capture()

    # ---- lazy conditions
    def le(self, a, b):
        return SBool(X.le(_n(a), _n(b)))

    def lt(self, a, b):
        return SBool(X.lt(_n(a), _n(b)))

    clt = lt

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def eq(self, a, b):
        return SBool(X.eq(_n(a), _n(b)))

    def exact(self, a, b):
        """equality without any tolerance on the real code"""
        return self.eq(a, b)

    def ne(self, a, b):
        return SBool(X.not_(X.eq(_n(a), _n(b))))

    def special(self, x):
        """not a number or infinite"""
        return isinstance(x, float) and not isinstance(x, S.SNum) and (x != x or x in (float("inf"), -float("inf")))

    def and_(self, *cs):
        return SBool(X.and_(*[_b(c) for c in cs]))

    def or_(self, *cs):
        return SBool(X.or_(*[_b(c) for c in cs]))

    def not_(self, c):
        return SBool(X.not_(_b(c)))

    def implies(self, a, b):
        return SBool(X.implies(_b(a), _b(b)))

    def iff(self, a, b):
        return SBool(X.iff(_b(a), _b(b)))

    def ite(self, c, a, b):
        na, nb = _n(a), _n(b)
        k = "f" if "f" in (S.kind_of(a), S.kind_of(b)) else "i"
        return S.mknum(X.ite(_b(c), na, nb), k)

    def mn(self, a, b):
        return self.ite(self.le(a, b), a, b)

    def mx(self, a, b):
        return self.ite(self.le(a, b), b, a)

    def abs(self, a):
        return S.sabs(a)

    def floor(self, a):
        return S.mkint(X.floor(_n(a)))

    def trunc(self, a):
        return S.trunc(a)

    def round(self, a):
        return S.mkint(S.round_node(_n(a)))

    def val(self, x):
        """branch on a condition"""
        return bool(x)

    def conc(self, x):
        """enumerate the values of an integer"""
        return S.E.concretize(_n(x))

    def assume(self, c):
        S.E.assume(_b(c))

    # ---- arrays
    def size(self, a):
        if isinstance(a, snp.SArr):
            return S.mkint(a.ln)
        from . import smods

        return smods.slen(a)

    def at(self, a, i):
        return a[i]

    def list(self, xs):
        return snp.PList(xs)

    # ---- verdicts
    def check(self, label, cond, known=None):
        """cond must hold on this path; known: (finding id, predicate) of a recorded finding"""
        e = S.E
        e.stats.checks += 1
        self.checked[label] = self.checked.get(label, 0) + 1
        c = _b(cond)
        if known is not None:
            kid, pred = known
            p = _b(pred)
            self._decide(label, X.or_(c, p), None)
            self._decide(label, X.or_(c, X.not_(p)), kid)
        else:
            self._decide(label, c, None)

    def _decide(self, label, c, kid):
        e = S.E
        if c is X.TRUE:
            return
        if c is not X.FALSE:
            q = e._quick(c)
            if q is True:
                return
        i = len(e.trace)
        if i < len(e.prefix):
            v = e.prefix[i]
            e.trace.append(v)
            if v == "K":
                e._learn(c, True)
            elif v == "X":
                e.assume(c)
            return
        e.ensure_model()
        neg = X.not_(c)
        if neg is X.TRUE:
            r = "sat"
        elif e.eval_bool(neg) is True:
            r = "sat"
        else:
            r = e._check_with(neg)
        if r == "unsat":
            e.trace.append("K")
            e._learn(c, True)
            return
        if r == "unknown":
            e.stats.inconclusive += 1
            e.trace.append("U")
            return
        e.trace.append("X")
        if self.max_ce.get((label, kid), 0) < 3:
            self.max_ce[(label, kid)] = self.max_ce.get((label, kid), 0) + 1
            self.ces.append(capture(self, label, neg, kid))
        e.assume(c)
        e.ensure_model()

    def fail(self, label, why=""):
        self.check(label, False)

    def obs(self, name, v):
        self.observations.append((name, v))


# ------------------------------------------------------------------------- models
def _frac(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v
    f = Fraction(v)
    return int(f) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


def nice_model(extra=X.TRUE, effort=True):
    """a model of the path condition and `extra`, with real variables rounded to binary fractions where possible;
    returns an evaluation engine state (set as current model) or None"""
    e = S.E
    r = e._check_with(extra)
    if r != "sat":
        return False
    e.set_model(e.cand_model)
    if not effort:
        return True
    reals = []
    seen = set()
    for d in e.draws:
        if d.node is not None and d.node.sort == X.R and d.node.id not in seen:
            seen.add(d.node.id)
            reals.append(d.node)
    for nm, n in e.inputs:
        if n.sort == X.R and n.id not in seen and not X.is_const(n):
            seen.add(n.id)
            reals.append(n)
    acc = [] if extra is X.TRUE else [extra]
    for n in reals[:60]:
        v = e.ev(n)
        if v is None:
            continue
        v = Fraction(v)
        if v.denominator & (v.denominator - 1) == 0 and v.denominator <= 4096:
            acc.append(X.eq(n, X.const(v)))
            continue
        done = False
        for den in (8, 64, 4096, 1 << 20):
            k = (v * den)
            for q in (round(k), k.__floor__(), k.__ceil__()):
                c = X.eq(n, X.const(Fraction(q, den)))
                if c is X.FALSE:
                    continue
                r = e._check_with(X.and_(*(acc + [c])))
                if r == "sat":
                    acc.append(c)
                    e.set_model(e.cand_model)
                    done = True
                    break
            if done:
                break
    return True


def values():
    e = S.E
    ins = {}
    for nm, n in e.inputs:
        v = e.ev(n)
        ins[nm] = 0 if v is None else _frac(v)
    draws = []
    for d in e.draws:
        if d.node is None:
            draws.append([d.kind, None])
        else:
            v = e.ev(d.node)
            draws.append([d.kind, 0 if v is None else _frac(v)])
    return ins, draws


def capture(h, label, neg, kid):
    e = S.E
    saved = e.model
    ok = nice_model(neg)
    if not ok:
        ok = nice_model(neg, False)
    ins, draws = values()
    notes = [list(n) for n in e.notes]
    e.model = None
    e.mcache = {}
    return {"label": label, "inputs": ins, "draws": draws, "notes": notes, "known": kid}


def ev_obs(v):
    e = S.E
    if isinstance(v, (SNum,)):
        x = e.ev(v.n)
        return None if x is None else _frac(x)
    if isinstance(v, SBool):
        return e.ev(v.n)
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, float):
        return _frac(Fraction(repr(v)))
    if isinstance(v, (list, tuple)):
        return [ev_obs(x) for x in v]
    n = S.node_of(v)
    if n is not None:
        x = e.ev(n)
        return None if x is None else _frac(x)
    return str(type(v).__name__)


def witness(h, effort=True):
    """a concrete run along the current path"""
    e = S.E
    if not nice_model(X.TRUE, effort):
        return None
    ins, draws = values()
    obs = []
    for nm, v in h.observations:
        obs.append([nm, ev_obs(v)])
    return {"inputs": ins, "draws": draws, "notes": [list(n) for n in e.notes], "obs": obs}
