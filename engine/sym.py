"""Path-exploring symbolic executor.

The code under test runs natively on proxy values (SNum, SBool, arrays of snp.py).  Whenever it has to
choose a branch on a symbolic condition, `Engine.branch` asks the SMT solver which sides are feasible under
the path condition, follows one and queues the other; a path is re-executed from its decision prefix.
Works on CPython >= 3.9 and PyPy.
"""
import sys
import time
import math as _math
from fractions import Fraction

from . import expr as X
from .expr import I, R, B, z3


class EngineSignal(BaseException):
    """path-steering exceptions are BaseExceptions so that the code under test cannot swallow them"""


class TooManyDraws(EngineSignal):
    pass


class Infeasible(EngineSignal):
    pass


class PathLimit(EngineSignal):
    pass


class Unsupported(EngineSignal):
    def __init__(self, what):
        EngineSignal.__init__(self, what)
        self.what = what


class Inconclusive(EngineSignal):
    pass


class Violated(EngineSignal):
    pass


E = None  # current engine


def engine():
    return E


def set_engine(e):
    global E
    E = e


class Stats(object):
    FIELDS = ("paths", "queries", "sat", "unsat", "unknown", "solver_s", "decisions", "checks", "truncated", "infeasible", "unsupported", "inconclusive", "fallback")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))


class Engine(object):
    def __init__(self, max_decisions=4000, query_ms=8000, slow_ms=30000):
        self.stats = Stats()
        self.max_decisions = max_decisions
        self.query_ms = query_ms
        self.slow_ms = slow_ms
        X.ctx()
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", query_ms)
        self.solver.set("arith.solver", 2)
        self.fdef = {}  # floor term -> stack index of the frame that defines it
        self.stack = []  # nodes asserted, one push level each
        self.unsup = {}
        self.reset_path([])

    # ------------------------------------------------------------ path life cycle
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []  # decisions of this path
        self.pending = []  # prefixes discovered on this path
        self.pos = 0  # number of assertions made on this path
        self.decided = {}
        self.ub = {}
        self.model = None
        self.mcache = {}
        self.names = {}
        self.memo = {}
        self.inputs = []  # (name, node)
        self.draws = []  # (kind, node)
        self.draw_limit = None
        self.notes = []
        self.depth = 0

    def fresh(self, name, sort):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        if k:
            name = "%s#%d" % (name, k)
        return X.var(name, sort)

    # ------------------------------------------------------------ assertions on the current path
    def _push(self, node):
        i = self.pos
        self.pos += 1
        st = self.stack
        if i < len(st):
            if st[i] is node:
                return
            self._pop_to(i)
        fl, z = X.floors(node), X.to_z3(node)
        self.solver.push()
        fd = self.fdef
        for f in fl:
            if f.id not in fd:
                fd[f.id] = i
                for a in X.floor_axioms(f):
                    X._zc.Z3_solver_assert(X._cref, self.solver.solver, a)
        X._zc.Z3_solver_assert(X._cref, self.solver.solver, z)
        st.append(node)

    def _learn(self, node, val):
        self.decided[node.id] = val
        ng = node.neg
        if ng is not None:
            self.decided[ng.id] = not val
        t = node if val else X.not_(node)
        if t.op == "and":
            for a in t.args:
                if a.id not in self.decided:
                    self._learn(a, True)
        elif t.op == "not" and t.args[0].op == "or":
            for a in t.args[0].args:
                if a.id not in self.decided:
                    self._learn(a, False)
        elif t.op == "le0" or t.op == "lt0":
            c, items = t.args[0].args
            b = -c
            s = t.op == "lt0"
            o = self.ub.get(items)
            if o is None or b < o[0] or (b == o[0] and s and not o[1]):
                self.ub[items] = (b, s)
        elif t.op == "eq0":
            c, items = t.args[0].args
            self.ub[items] = (-c, False)
            ni = X.neg(t.args[0])
            self.ub[ni.args[1]] = (-ni.args[0], False)

    def _quick(self, node):
        """True/False if the condition is decided by facts already on the path, else None"""
        v = self.decided.get(node.id)
        if v is not None:
            return v
        op = node.op
        if op == "le0" or op == "lt0":
            p = node.args[0]
            c, items = p.args
            u = self.ub.get(items)
            if u is not None:
                # known L <= u ; asked L <= -c  (or <)
                if u[0] < -c or (u[0] == -c and (op == "le0" or u[1])):
                    return True
            l = self.ub.get(X.neg(p).args[1])
            if l is not None:
                # known -L <= l  i.e. L >= -l
                lo = -l[0]
                if lo > -c or (lo == -c and (op == "lt0" or l[1])):
                    return False
        elif op == "eq0":
            p = node.args[0]
            c, items = p.args
            u = self.ub.get(items)
            l = self.ub.get(X.neg(p).args[1])
            if u is not None and (u[0] < -c or (u[0] == -c and u[1])):
                return False
            if l is not None:
                lo = -l[0]
                if lo > -c or (lo == -c and l[1]):
                    return False
                if u is not None and u[0] == -c and lo == -c:
                    return True
        elif op == "not":
            v = self._quick(node.args[0])
            return None if v is None else not v
        elif op == "and":
            r = True
            for a in node.args:
                v = self._quick(a)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        elif op == "or":
            r = False
            for a in node.args:
                v = self._quick(a)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        return None

    def _assert(self, node, model_ok=None):
        if node is X.TRUE:
            return
        self._push(node)
        self._learn(node, True)
        if self.model is not None and model_ok is not True:
            if self.eval_bool(node) is not True:
                self.model = None

    # ------------------------------------------------------------ solver
    def _check_with(self, node):
        """satisfiability of path condition and node; returns 'sat' (self.cand_model set), 'unsat', 'unknown'"""
        self._sync()
        st = self.stats
        st.queries += 1
        t0 = time.time()
        s = self.solver
        fl, z = X.floors(node), X.to_z3(node)
        s.push()
        try:
            for f in fl:
                if f.id not in self.fdef:
                    for a in X.floor_axioms(f):
                        X._zc.Z3_solver_assert(X._cref, s.solver, a)
            X._zc.Z3_solver_assert(X._cref, s.solver, z)
            r = s.check()
            if r == z3.sat:
                self.cand_model = s.model()
        finally:
            s.pop()
        if r == z3.unknown:
            r = self._slow(node)
        st.solver_s += time.time() - t0
        if r == z3.sat:
            st.sat += 1
            return "sat"
        if r == z3.unsat:
            st.unsat += 1
            return "unsat"
        st.unknown += 1
        return "unknown"

    def _sync(self):
        """drop solver frames left over from the previous path beyond the current position"""
        if len(self.stack) > self.pos:
            self._pop_to(self.pos)

    def _pop_to(self, i):
        self.solver.pop(len(self.stack) - i)
        del self.stack[i:]
        fd = self.fdef
        if fd:
            for k in [k for k, v in fd.items() if v >= i]:
                del fd[k]

    def _slow(self, node):
        """second opinion for queries the incremental core does not decide"""
        self.stats.fallback += 1
        for mk in (lambda: z3.Solver(), lambda: z3.Tactic("qfnra-nlsat").solver()):
            try:
                s = mk()
                s.set("timeout", self.slow_ms)
                for a in self.stack + [node]:
                    for f in X.floors(a):
                        for z in X.floor_axioms(f):
                            s.add(z3.z3._to_expr_ref(z, X.ctx()))
                    s.add(X.z3_expr(a))
                r = s.check()
                if r == z3.sat:
                    self.cand_model = s.model()
                if r != z3.unknown:
                    return r
            except z3.Z3Exception:
                pass
        return z3.unknown

    def ensure_model(self):
        if self.model is None:
            r = self._check_with(X.TRUE)
            if r == "unsat":
                raise Infeasible()
            if r == "unknown":
                raise Inconclusive("path condition undecided")
            self.set_model(self.cand_model)

    def set_model(self, m):
        self.model = m
        self.mcache = {}

    # ------------------------------------------------------------ evaluation under a model
    def _zval(self, node):
        z = self.model.eval(X.z3_expr(node), model_completion=True)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if z3.is_int_value(z):
            return z.as_long()
        if z3.is_rational_value(z):
            return Fraction(z.numerator_as_long(), z.denominator_as_long())
        if z3.is_algebraic_value(z):
            a = z.approx(30)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return None

    def ev(self, n):
        c = self.mcache
        v = c.get(n.id, c)
        if v is not c:
            return v
        op = n.op
        if op == "poly":
            k0, items = n.args
            v = k0
            for m, k in items:
                t = k
                for a in m:
                    x = self.ev(a)
                    if x is None:
                        t = None
                        break
                    t = t * x
                if t is None:
                    v = None
                    break
                v = v + t
        elif op == "le0" or op == "lt0" or op == "eq0":
            x = self.ev(n.args[0])
            v = None if x is None else (x <= 0 if op == "le0" else x < 0 if op == "lt0" else x == 0)
        elif op == "not":
            x = self.ev(n.args[0])
            v = None if x is None else (not x)
        elif op == "and":
            v = True
            for a in n.args:
                x = self.ev(a)
                if x is False:
                    v = False
                    break
                if x is None:
                    v = None
        elif op == "or":
            v = False
            for a in n.args:
                x = self.ev(a)
                if x is True:
                    v = True
                    break
                if x is None:
                    v = None
        elif op == "ite":
            x = self.ev(n.args[0])
            v = None if x is None else self.ev(n.args[1] if x else n.args[2])
        elif op == "floor":
            x = self.ev(n.args[0])
            v = None if x is None else _math.floor(x)
        elif op == "idiv":
            x, y = self.ev(n.args[0]), self.ev(n.args[1])
            v = None if x is None or y is None or y == 0 else x // y if y > 0 else -((-x) // (-y)) if False else x // y
        elif op == "rdiv":
            x, y = self.ev(n.args[0]), self.ev(n.args[1])
            v = None if x is None or y is None or y == 0 else Fraction(x) / Fraction(y)
        elif op == "true":
            v = True
        elif op == "false":
            v = False
        else:
            v = self._zval(n)
        c[n.id] = v
        return v

    def eval_bool(self, node):
        return self.ev(node)

    # ------------------------------------------------------------ decisions
    def branch(self, node):
        if node is X.TRUE:
            return True
        if node is X.FALSE:
            return False
        q = self._quick(node)
        if q is not None:
            return q
        self.stats.decisions += 1
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            if v is True or v is False:
                self._assert(node if v else X.not_(node))
                return v
            # 'T'/'F': forced decision found when the prefix was created
            v = v == "T"
            self._learn(node, v)
            return v
        if i >= self.max_decisions:
            raise PathLimit("decisions")
        self.ensure_model()
        mv = self.eval_bool(node)
        if mv is None:
            r = self._check_with(node)
            if r == "unknown":
                raise Inconclusive("branch undecided")
            if r == "unsat":
                mv = False
            else:
                mv = True
                self.set_model(self.cand_model)
        side = node if mv else X.not_(node)
        other = X.not_(node) if mv else node
        r = self._check_with(other)
        if r == "unsat":
            self.trace.append("T" if mv else "F")
            self._learn(node, mv)
            return mv
        if r == "unknown":
            # both sides are explored; the undecided one is flagged when it is reached
            self.stats.inconclusive += 1
        # keep the branch the model satisfies, queue the other one
        self.pending.append(self.trace + [not mv])
        self.trace.append(mv)
        self._assert(side, model_ok=True)
        return mv

    def implied(self, node):
        """True if the path condition implies node (one query), without forking"""
        q = self._quick(node)
        if q is not None:
            return q
        key = ("imp", node.id, self.pos)
        if key in self.memo:
            return self.memo[key]
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            r = v == "I"
        else:
            self.ensure_model()
            r = self.eval_bool(node) is True and self._check_with(X.not_(node)) == "unsat"
            self.trace.append("I" if r else "N")
        if r:
            self._learn(node, True)
        self.memo[key] = r
        return r

    def choose(self, n, label="choice"):
        """non-deterministic choice among n alternatives, explored exhaustively"""
        if n <= 1:
            return 0
        i = len(self.trace)
        self.stats.decisions += 1
        if i < len(self.prefix):
            v = self.prefix[i][1]
            self.trace.append(("C", v))
            return v
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trace + [("C", k)])
        self.trace.append(("C", 0))
        return 0

    def assume(self, node):
        if node is X.TRUE:
            return
        if node is X.FALSE:
            raise Infeasible()
        q = self._quick(node)
        if q is True:
            return
        if q is False:
            raise Infeasible()
        self._assert(node)

    def axiom(self, node):
        """definitional constraint on a fresh variable: never makes the path infeasible"""
        self._assert(node)

    def concretize(self, node, limit=4096):
        """enumerate the feasible integer values of node by forking"""
        if X.is_const(node):
            return X.const_val(node)
        for _ in range(limit):
            i = len(self.trace)
            if i < len(self.prefix):
                p = self.prefix[i]
                v = p[1]
                self.trace.append(p)
                c = X.eq(node, X.const(v))
                if p[0] == "V":
                    self._assert(c)
                    return v
                if p[0] == "Q":
                    return v
                self._assert(X.not_(c))
                continue
            if i >= self.max_decisions:
                raise PathLimit("decisions")
            self.ensure_model()
            v = self.ev(node)
            if v is None:
                v = self._zval(node)
            c = X.eq(node, X.const(v))
            if c is X.FALSE:
                raise Unsupported("concretisation of a non-constant value")
            q = self._quick(c)
            if q is True:
                # already decided: recorded, so that the path is replayed alike
                self.trace.append(("Q", v))
                return v
            r = self._check_with(X.not_(c))
            if r != "unsat":
                self.pending.append(self.trace + [("W", v)])
            self.trace.append(("V", v))
            self._assert(c, model_ok=True)
            self.stats.decisions += 1
            return v
        raise PathLimit("concretisation")


# ---------------------------------------------------------------- wrapping
def node_of(x):
    """term of a python / symbolic number, or None"""
    if isinstance(x, SNum):
        return x.n
    if isinstance(x, bool):
        return X.const(int(x))
    if isinstance(x, int):
        return X.const(x)
    if isinstance(x, float):
        return fconst(x)
    if isinstance(x, Fraction):
        return _real_const(x)
    if isinstance(x, SBool):
        return X.ite(x.n, X.const(1), X.const(0))
    t = type(x)
    m = t.__module__
    if m == "numpy":
        return node_of(x.item())
    return None


_fc = {}


def fconst(x):
    """float constants denote their shortest decimal (0.99 is 99/100)"""
    n = _fc.get(x)
    if n is None:
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float in symbolic arithmetic")
        n = X.const(Fraction(repr(x)))
        _fc[x] = n
    return n


def _real_const(fr):
    return X.const(fr)


def bnode_of(x):
    if isinstance(x, SBool):
        return x.n
    if isinstance(x, bool):
        return X.bconst(x)
    if isinstance(x, SNum):
        return X.not_(X.eq(x.n, X.const(0)))
    if type(x).__module__ == "numpy":
        return X.bconst(bool(x))
    if isinstance(x, (int, float)):
        return X.bconst(bool(x))
    return None


def is_sym(x):
    return isinstance(x, (SNum, SBool))


def mkint(n, np=False):
    if X.is_const(n) and not np:
        v = X.const_val(n)
        if isinstance(v, int):
            return v
    return SNum(n, "i", np)


def mknum(n, kind, np=False):
    """kind 'i' or 'f' : python type, independent of whether the term is integral"""
    if X.is_const(n) and not np:
        v = X.const_val(n)
        if kind == "i":
            return v
        return _cfloat(v)
    return SNum(n, kind, np)


def _cfloat(v):
    f = float(v)
    # keep exactness: only convert when the float's decimal denotes the same rational
    if Fraction(repr(f)) == v:
        return f
    return SNum(X.const(v), "f", False)


def _isint(x):
    return isinstance(x, int)


def kind_of(x):
    if isinstance(x, SNum):
        return x.k
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, float):
        return "f"
    if isinstance(x, SBool):
        return "b"
    if isinstance(x, Fraction):
        return "f"
    if type(x).__module__ == "numpy":
        return kind_of(x.item())
    return None


def isnp(x):
    return (isinstance(x, (SNum, SBool)) and x.np) or type(x).__module__ == "numpy"


class SBool(object):
    """lazy condition with numpy.bool_ semantics"""

    __slots__ = ("n", "np")
    __array_ufunc__ = None

    def __init__(self, n, np=True):
        self.n = n
        self.np = np

    def __bool__(self):
        return E.branch(self.n)

    def _bin(self, o, f):
        if hasattr(o, "_is_sarr"):
            return NotImplemented
        b = bnode_of(o)
        if b is None:
            return NotImplemented
        return SBool(f(self.n, b), True)

    def __and__(self, o):
        return self._bin(o, X.and_)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, X.or_)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: X.not_(X.iff(a, b)))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(X.not_(self.n), True)

    def _num(self):
        return SNum(X.ite(self.n, X.const(1), X.const(0)), "i", self.np)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(X.iff(self.n, bnode_of(o)), True)
        return self._num() == o

    def __ne__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(X.not_(X.iff(self.n, bnode_of(o))), True)
        return self._num() != o

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __format__(self, spec):
        return "<sym-bool>"

    def __repr__(self):
        return "<sym-bool>"

    def item(self):
        return bool(self)

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def astype(self, t, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def symtext(n):
    _texts[n.id] = n
    return "\u27e6%d\u27e7" % n.id


_texts = {}


class SNum(object):
    """symbolic number; k is the python kind ('i' int, 'f' float), np marks numpy scalars"""

    __slots__ = ("n", "k", "np")
    __array_ufunc__ = None
    __array_priority__ = -1000

    def __init__(self, n, k, np=False):
        self.n = n
        self.k = k
        self.np = np

    # ---- arithmetic
    def _res(self, n, o, kind=None):
        if kind is None:
            ko = kind_of(o)
            kind = "f" if (self.k == "f" or ko == "f") else "i"
        return mknum(n, kind, self.np or isnp(o))

    def __add__(self, o):
        b = node_of(o)
        if b is None:
            return NotImplemented
        return self._res(X.add(self.n, b), o)

    __radd__ = __add__

    def __sub__(self, o):
        b = node_of(o)
        if b is None:
            return NotImplemented
        return self._res(X.sub(self.n, b), o)

    def __rsub__(self, o):
        b = node_of(o)
        if b is None:
            return NotImplemented
        return self._res(X.sub(b, self.n), o)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) and self.k == "i":
            return o * self.__index__()
        b = node_of(o)
        if b is None:
            return NotImplemented
        return self._res(X.mul(self.n, b), o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = node_of(o)
        if b is None:
            return NotImplemented
        return _truediv(self.n, b, self.np or isnp(o))

    def __rtruediv__(self, o):
        b = node_of(o)
        if b is None:
            return NotImplemented
        return _truediv(b, self.n, self.np or isnp(o))

    def __floordiv__(self, o):
        b = node_of(o)
        if b is None:
            return NotImplemented
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        b = node_of(o)
        if b is None:
            return NotImplemented
        return _floordiv(o, self)

    def __mod__(self, o):
        b = node_of(o)
        if b is None:
            return NotImplemented
        return _mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        b = node_of(o)
        if b is None:
            return NotImplemented
        return _mod(o, self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and 0 <= o <= 6:
            r = X.const(1)
            for _ in range(o):
                r = X.mul(r, self.n)
            return mknum(r, self.k, self.np)
        raise Unsupported("power with symbolic operand")

    def __rpow__(self, o):
        raise Unsupported("power with symbolic exponent")

    def __neg__(self):
        return mknum(X.neg(self.n), self.k, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    # ---- comparisons
    def _cmp(self, o, f):
        b = node_of(o)
        if b is None:
            return NotImplemented
        c = f(self.n, b)
        if self.np or isnp(o):
            return SBool(c, True)
        return E.branch(c)

    def __lt__(self, o):
        if isinstance(o, float) and o != o:
            return False
        if isinstance(o, float) and o in (_math.inf, -_math.inf):
            return o > 0
        return self._cmp(o, X.lt)

    def __le__(self, o):
        if isinstance(o, float) and o in (_math.inf, -_math.inf):
            return o > 0
        return self._cmp(o, X.le)

    def __gt__(self, o):
        if isinstance(o, float) and o in (_math.inf, -_math.inf):
            return o < 0
        return self._cmp(o, lambda a, b: X.lt(b, a))

    def __ge__(self, o):
        if isinstance(o, float) and o in (_math.inf, -_math.inf):
            return o < 0
        return self._cmp(o, lambda a, b: X.le(b, a))

    def __eq__(self, o):
        if hasattr(o, "_is_sarr"):
            return NotImplemented
        if isinstance(o, float) and (o != o or o in (_math.inf, -_math.inf)):
            return False
        b = node_of(o)
        if b is None:
            return False
        return self._cmp(o, X.eq)

    def __ne__(self, o):
        if hasattr(o, "_is_sarr"):
            return NotImplemented
        if isinstance(o, float) and (o != o or o in (_math.inf, -_math.inf)):
            return True
        b = node_of(o)
        if b is None:
            return True
        return self._cmp(o, lambda a, c: X.not_(X.eq(a, c)))

    def __hash__(self):
        return hash(E.concretize(self.n))

    def __bool__(self):
        return E.branch(X.not_(X.eq(self.n, X.const(0))))

    def __index__(self):
        if self.k != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return E.concretize(self.n)

    def __int__(self):
        r = trunc(self)
        return r if isinstance(r, int) else E.concretize(r.n)

    def __float__(self):
        if X.is_const(self.n):
            return float(X.const_val(self.n))
        if self.n.sort == I:
            return float(E.concretize(self.n, 64))
        raise Unsupported("float() of a symbolic real")

    def __round__(self, nd=None):
        return sround(self, nd)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return mkint(X.floor(self.n))

    def __ceil__(self):
        return mkint(X.neg(X.floor(X.neg(self.n))))

    def __format__(self, spec):
        if spec in ("", "d", "s"):
            return symtext(self.n)
        return "\u27e6%d:%s\u27e7" % (self.n.id, spec)

    def __repr__(self):
        return symtext(self.n)

    __str__ = __repr__

    # numpy-scalar surface
    def round(self, decimals=0, *a, **k):
        r = sround(self, decimals)
        return SNum(node_of(r), self.k, True)

    def item(self):
        return SNum(self.n, self.k, False)

    def astype(self, t, **k):
        nm = getattr(t, "__name__", str(t))
        if "int" in nm:
            r = trunc(self)
            return SNum(node_of(r), "i", True)
        if "float" in nm:
            return SNum(self.n, "f", True)
        raise Unsupported("astype %s" % nm)

    def is_integer(self):
        return E.branch(X.eq(X.floor(self.n), self.n))

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    min = max
    mean = max

    def all(self, *a, **k):
        return SBool(X.not_(X.eq(self.n, X.const(0))))

    any = all

    def tolist(self):
        return self.item()

    def squeeze(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def real(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _zero_div(d, np):
    if X.is_const(d):
        z = X.const_val(d) == 0
    else:
        z = E.branch(X.eq(d, X.const(0)))
    if z:
        if np:
            raise Unsupported("numpy division by zero")
        raise ZeroDivisionError("division by zero")


def _truediv(a, b, np):
    _zero_div(b, np)
    n = X.rdiv(a, b)
    return mknum(n, "f", np)


def _sign_pos(b):
    """is the (non zero) divisor positive?"""
    if X.is_const(b):
        return X.const_val(b) > 0
    return E.branch(X.lt(X.const(0), b))


def _floordiv(x, y):
    a, b = node_of(x), node_of(y)
    np = isnp(x) or isnp(y)
    _zero_div(b, np)
    if kind_of(x) == "f" or kind_of(y) == "f":
        return mknum(X.floor(X.rdiv(a, b)), "f", np)
    if not _sign_pos(b):
        a, b = X.neg(a), X.neg(b)
    return mknum(X.idiv(a, b), "i", np)


def _mod(x, y):
    a, b = node_of(x), node_of(y)
    np = isnp(x) or isnp(y)
    _zero_div(b, np)
    if kind_of(x) == "f" or kind_of(y) == "f":
        return mknum(X.sub(a, X.mul(b, X.floor(X.rdiv(a, b)))), "f", np)
    if not _sign_pos(b):
        return mknum(X.neg(X.imod(X.neg(a), X.neg(b))), "i", np)
    return mknum(X.imod(a, b), "i", np)


def sabs(x):
    if not is_sym(x):
        return abs(x)
    if isinstance(x, SBool):
        x = x._num()
    z = X.const(0)
    q = E._quick(X.le(z, x.n))
    if q is True:
        return x
    if q is False:
        return -x
    return SNum(X.ite(X.le(z, x.n), x.n, X.neg(x.n)), x.k, x.np)


def trunc(x):
    """int(x)"""
    if isinstance(x, SBool):
        return int(bool(x))
    if not isinstance(x, SNum):
        return int(x)
    if x.k == "i" or x.n.sort == I:
        return mkint(x.n)
    n = x.n
    z = X.const(0)
    if X.is_const(n):
        return int(X.const_val(n))
    if E.implied(X.le(z, n)):
        return mkint(X.floor(n))
    return mkint(X.ite(X.le(z, n), X.floor(n), X.neg(X.floor(X.neg(n)))))


def round_node(n):
    """round half to even"""
    if n.sort == I:
        return n
    if X.is_const(n):
        return X.const(round(Fraction(X.const_val(n))))
    key = ("round", n.id)
    r = E.memo.get(key)
    if r is None:
        r = E.fresh("round!%d" % len(E.memo), I)
        q = E.fresh("half!%d" % len(E.memo), I)
        two = X.const(2)
        d = X.sub(X.mul(two, r), X.mul(two, n))
        one = X.const(1)
        E.axiom(X.le(d, one))
        E.axiom(X.le(X.const(-1), d))
        E.axiom(X.implies(X.or_(X.eq(d, one), X.eq(d, X.const(-1))), X.eq(r, X.mul(two, q))))
        E.memo[key] = r
    return r


def sround(x, nd=None):
    if isinstance(x, SBool):
        x = x._num()
    if not isinstance(x, SNum):
        if hasattr(x, "_is_sarr"):
            return x.round(nd or 0)
        return round(x) if nd is None else round(x, nd)
    if x.n.sort == I:
        if nd is None:
            return mkint(x.n)
        return x
    if nd is None:
        return mkint(round_node(x.n))
    s = Fraction(10) ** nd
    return mknum(X.scale(round_node(X.scale(x.n, s)), Fraction(1) / s), "f", x.np)


def smin(a, b, np=None):
    return _ext(a, b, True)


def _ext(a, b, mn):
    """python min/max of two numbers: first wins on ties (only the type can differ)"""
    na, nb = node_of(a), node_of(b)
    c = X.lt(nb, na) if mn else X.lt(na, nb)  # take b
    q = E._quick(c) if c.op not in ("true", "false") else (c is X.TRUE)
    if q is True:
        return b
    if q is False:
        return a
    ka, kb = kind_of(a), kind_of(b)
    k = "f" if "f" in (ka, kb) else "i"
    return SNum(X.ite(c, nb, na), k, isnp(a) or isnp(b))


def any_sym(xs):
    for x in xs:
        if isinstance(x, (SNum, SBool)):
            return True
    return False


def pymin(*args, **kw):
    return _pyext(args, kw, True)


def pymax(*args, **kw):
    return _pyext(args, kw, False)


def _pyext(args, kw, mn):
    xs = args
    if len(args) == 1:
        a = args[0]
        if hasattr(a, "_sym_minmax"):
            return a._sym_minmax(mn)
        xs = list(a)
    if not kw and any_sym(xs) and all(node_of(x) is not None for x in xs):
        if not xs:
            raise ValueError("empty sequence")
        r = xs[0]
        for x in xs[1:]:
            r = _ext(r, x, mn)
        return r
    return (min if mn else max)(xs, **kw)


def pysum(xs, start=0):
    if hasattr(xs, "_sym_sum"):
        return start + xs._sym_sum()
    r = start
    for x in xs:
        r = r + x
    return r
