"""Hash-consed symbolic terms (linear/polynomial normal form) and their translation to Z3.

Numeric terms are kept as canonical polynomials over atoms (coefficients are exact rationals), boolean
terms as normalised (in)equalities of such polynomials.  Two terms that are equal after normalisation
are the same Python object, which lets the path explorer recognise decisions it has already taken.
"""
import os
import sys
import ctypes
from fractions import Fraction
from math import gcd

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # PyPy: z3's python layer is pure ctypes
    sys.path.append(_VT)
    import z3
from z3 import z3core as _zc

I, R, B = "I", "R", "B"

_table = {}
_next = [0]


class Node(object):
    __slots__ = ("id", "op", "args", "sort", "z", "neg", "extra", "dk")

    def __repr__(self):
        return show(self)


def _mk(op, args, sort, extra=None):
    key = (op, args, sort, extra)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.id = _next[0]
        _next[0] += 1
        n.op, n.args, n.sort, n.extra = op, args, sort, extra
        n.z = None
        n.neg = None
        n.dk = None
        _table[key] = n
    return n


def _q(x):
    """python number -> int or Fraction in lowest terms (int when integral)"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        x = Fraction(x)
    elif not isinstance(x, Fraction):
        x = Fraction(x)
    return x.numerator if x.denominator == 1 else x


# ---------------------------------------------------------------- polynomials
# Poly node: op 'poly', args = (const, ((monomial, coef), ...)) ; monomial = tuple of atom Nodes sorted by id


def const(x):
    x = _q(x)
    return _mk("poly", (x, ()), I if isinstance(x, int) else R)


def is_const(n):
    return n.op == "poly" and not n.args[1]


def const_val(n):
    return n.args[0]


def _det_key(a):
    """key giving a deterministic order of atoms that does not depend on creation order"""
    if a.dk is None:
        a.dk = (a.op, str(a.extra), a.id)
    return a.dk


def _poly(c, items):
    items = tuple(sorted(((m, k) for m, k in items.items() if k != 0), key=lambda mk: [x.id for x in mk[0]]))
    c = _q(c)
    s = I
    if not isinstance(c, int):
        s = R
    else:
        for m, k in items:
            if not isinstance(k, int):
                s = R
                break
            for a in m:
                if a.sort != I:
                    s = R
                    break
            if s == R:
                break
    return _mk("poly", (c, items), s)


def atom_poly(a):
    return _mk("poly", (0, (((a,), 1),)), a.sort)


def var(name, sort):
    n = _mk("var", (), sort, name)
    return n if sort == B else atom_poly(n)


def add(a, b):
    if is_const(a) and a.args[0] == 0:
        return b
    if is_const(b) and b.args[0] == 0:
        return a
    d = dict(a.args[1])
    for m, k in b.args[1]:
        d[m] = _q(d.get(m, 0) + k)
    return _poly(a.args[0] + b.args[0], d)


def scale(a, k):
    k = _q(k)
    if k == 1:
        return a
    if k == 0:
        return const(0)
    return _poly(a.args[0] * k, {m: _q(c * k) for m, c in a.args[1]})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if is_const(a):
        return scale(b, a.args[0])
    if is_const(b):
        return scale(a, b.args[0])
    d = {}
    c = _q(a.args[0] * b.args[0])
    ta = list(a.args[1]) + ([((), a.args[0])] if a.args[0] != 0 else [])
    tb = list(b.args[1]) + ([((), b.args[0])] if b.args[0] != 0 else [])
    for m1, k1 in ta:
        for m2, k2 in tb:
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            if m:
                d[m] = _q(d.get(m, 0) + k1 * k2)
    return _poly(c, d)


def rdiv(a, b):
    """real division; the caller guarantees b != 0 on the current path"""
    if is_const(b):
        return scale(a, Fraction(1) / Fraction(b.args[0]))
    if a is b:
        return const(1)
    # normalise  k*x / k*y
    return atom_poly(_mk("rdiv", (a, b), R))


def floor(a):
    if a.sort == I:
        return a
    if is_const(a):
        v = Fraction(a.args[0])
        return const(v.numerator // v.denominator)
    ip, rp = {}, {}
    for m, k in a.args[1]:
        if isinstance(k, int) and all(x.sort == I for x in m):
            ip[m] = k
        else:
            rp[m] = k
    c = Fraction(a.args[0])
    ci = c.numerator // c.denominator
    rest = _poly(c - ci, rp)
    fl = atom_poly(_mk("floor", (rest,), I)) if rp else const(0)
    return add(_poly(ci, ip), fl)


def idiv(a, b):
    """floor division of int terms (z3 div equals floor division only for b > 0)"""
    if is_const(a) and is_const(b):
        return const(a.args[0] // b.args[0])
    if is_const(b) and b.args[0] == 1:
        return a
    if is_const(b) and b.args[0] < 0:
        return idiv(neg(a), neg(b))
    return atom_poly(_mk("idiv", (a, b), I))


def imod(a, b):
    if is_const(a) and is_const(b):
        return const(a.args[0] % b.args[0])
    if is_const(b) and b.args[0] == 1:
        return const(0)
    return sub(a, mul(b, idiv(a, b)))


def uf(name, args, sort):
    n = _mk("uf", tuple(args), sort, name)
    return n if sort == B else atom_poly(n)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.sort == B:
        return or_(and_(c, a), and_(not_(c), b))
    # pull the common part out so that arithmetic normalises better
    s = I if (a.sort == I and b.sort == I) else R
    if a.op == "poly" and b.op == "poly":
        da, db = dict(a.args[1]), dict(b.args[1])
        common = {m: k for m, k in da.items() if db.get(m) == k}
        if common:
            cp = _poly(0, common)
            return add(cp, ite(c, sub(a, cp), sub(b, cp)))
    return atom_poly(_mk("ite", (c, a, b), s))


# ---------------------------------------------------------------- booleans
TRUE = _mk("true", (), B)
FALSE = _mk("false", (), B)


def bconst(v):
    return TRUE if v else FALSE


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.neg is not None:
        return a.neg
    if a.op == "le0":
        p = a.args[0]
        r = le0(add(neg(p), const(1))) if p.sort == I else lt0(neg(p))
    elif a.op == "lt0":
        r = le0(neg(a.args[0]))
    else:
        r = _mk("not", (a,), B)
    a.neg = r
    r.neg = a
    return r


def _norm(p):
    """scale a polynomial by a positive rational so that its coefficients are coprime integers"""
    if is_const(p):
        return p
    den = 1
    for m, k in p.args[1]:
        f = Fraction(k)
        den = den * f.denominator // gcd(den, f.denominator)
    g = 0
    for m, k in p.args[1]:
        f = Fraction(k) * den
        g = gcd(g, abs(f.numerator))
    if den == 1 and g == 1:
        return p
    return scale(p, Fraction(den, g))


def _all_int_atoms(p):
    return all(isinstance(k, int) and all(a.sort == I for a in m) for m, k in p.args[1])


def le0(p):
    if is_const(p):
        return bconst(p.args[0] <= 0)
    p = _norm(p)
    if p.sort != I and _all_int_atoms(p):
        # L + c <= 0  with L integral:  L <= floor(-c)
        c = Fraction(p.args[0])
        fl = (-c).numerator // (-c).denominator
        p = _poly(-fl, dict(p.args[1]))
    return _mk("le0", (p,), B)


def lt0(p):
    if is_const(p):
        return bconst(p.args[0] < 0)
    p = _norm(p)
    if _all_int_atoms(p):
        # L + c < 0  ->  L <= ceil(-c) - 1
        c = -Fraction(p.args[0])
        ce = -((-c).numerator // (-c).denominator)
        return le0(_poly(-(ce - 1), dict(p.args[1])))
    return _mk("lt0", (p,), B)


def eq0(p):
    if is_const(p):
        return bconst(p.args[0] == 0)
    p = _norm(p)
    if p.args[1][0][1] < 0:
        p = neg(p)
    if _all_int_atoms(p) and not isinstance(p.args[0], int):
        return FALSE
    return _mk("eq0", (p,), B)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def eq(a, b):
    if a.sort == B or b.sort == B:
        return iff(a, b)
    return eq0(sub(a, b))


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return or_(and_(a, b), and_(not_(a), not_(b)))


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in x.args if x.op == "and" else (x,):
            if y.id in seen:
                continue
            if not_(y).id in seen:
                return FALSE
            seen.add(y.id)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return _mk("and", tuple(out), B)


def or_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in x.args if x.op == "or" else (x,):
            if y.id in seen:
                continue
            if not_(y).id in seen:
                return TRUE
            seen.add(y.id)
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return _mk("or", tuple(out), B)


def implies(a, b):
    return or_(not_(a), b)


# ---------------------------------------------------------------- printing
def show(n, depth=0):
    if n.op == "poly":
        c, items = n.args
        parts = []
        for m, k in items:
            s = "*".join(show(a, depth + 1) for a in m)
            parts.append(s if k == 1 else "%s*%s" % (k, s))
        if c != 0 or not parts:
            parts.append(str(c))
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if n.op in ("true", "false"):
        return n.op
    if n.op == "var":
        return str(n.extra)
    if n.op == "uf":
        return "%s(%s)" % (n.extra, ", ".join(show(a) for a in n.args))
    if depth > 12:
        return "..."
    return "(%s %s)" % (n.op, " ".join(show(a, depth + 1) for a in n.args))


# ---------------------------------------------------------------- translation to z3 (low level API)
_ctx = None
_cref = None
_sorts = {}
_ufs = {}
_keep = []


def ctx():
    global _ctx, _cref
    if _ctx is None:
        _ctx = z3.main_ctx()
        _cref = _ctx.ref()
        _sorts[I] = z3.IntSort().ast
        _sorts[R] = z3.RealSort().ast
        _sorts[B] = z3.BoolSort().ast
    return _ctx


def _ref(a):
    _zc.Z3_inc_ref(_cref, a)
    return a


def _arr(xs):
    return (z3.Ast * len(xs))(*xs)


def _num(x, sort):
    return _ref(_zc.Z3_mk_numeral(_cref, str(x), _sorts[sort]))


def _as(n, sort):
    """z3 ast of n coerced to sort"""
    z = to_z3(n)
    if sort == R and n.sort == I:
        return _ref(_zc.Z3_mk_int2real(_cref, z))
    return z


def to_z3(n):
    if n.z is not None:
        return n.z
    ctx()
    op = n.op
    if op == "poly":
        c, items = n.args
        s = n.sort
        parts = []
        for m, k in items:
            fs = [_as(a, s) for a in m]
            if k != 1:
                fs = [_num(k, s)] + fs
            parts.append(fs[0] if len(fs) == 1 else _ref(_zc.Z3_mk_mul(_cref, len(fs), _arr(fs))))
        if c != 0 or not parts:
            parts.append(_num(c, s))
        z = parts[0] if len(parts) == 1 else _ref(_zc.Z3_mk_add(_cref, len(parts), _arr(parts)))
    elif op == "var":
        z = _ref(_zc.Z3_mk_const(_cref, z3.to_symbol(n.extra, _ctx), _sorts[n.sort]))
    elif op == "le0" or op == "lt0" or op == "eq0":
        p = n.args[0]
        z0 = to_z3(p)
        zero = _num(0, p.sort)
        f = {"le0": _zc.Z3_mk_le, "lt0": _zc.Z3_mk_lt, "eq0": _zc.Z3_mk_eq}[op]
        z = _ref(f(_cref, z0, zero))
    elif op == "not":
        z = _ref(_zc.Z3_mk_not(_cref, to_z3(n.args[0])))
    elif op == "and":
        z = _ref(_zc.Z3_mk_and(_cref, len(n.args), _arr([to_z3(a) for a in n.args])))
    elif op == "or":
        z = _ref(_zc.Z3_mk_or(_cref, len(n.args), _arr([to_z3(a) for a in n.args])))
    elif op == "true":
        z = _ref(_zc.Z3_mk_true(_cref))
    elif op == "false":
        z = _ref(_zc.Z3_mk_false(_cref))
    elif op == "ite":
        z = _ref(_zc.Z3_mk_ite(_cref, to_z3(n.args[0]), _as(n.args[1], n.sort), _as(n.args[2], n.sort)))
    elif op == "floor":
        # an auxiliary integer k with  k <= x < k + 1 ; the two bounds are asserted with the first use (defs_z3)
        z = _ref(_zc.Z3_mk_const(_cref, z3.to_symbol("floor!%d" % n.id, _ctx), _sorts[I]))
        x = _as(n.args[0], R)
        k = _ref(_zc.Z3_mk_int2real(_cref, z))
        k1 = _ref(_zc.Z3_mk_add(_cref, 2, _arr([k, _num(1, R)])))
        _floor_ax[n.id] = (_ref(_zc.Z3_mk_le(_cref, k, x)), _ref(_zc.Z3_mk_lt(_cref, x, k1)))
    elif op == "idiv":
        z = _ref(_zc.Z3_mk_div(_cref, to_z3(n.args[0]), to_z3(n.args[1])))
    elif op == "rdiv":
        z = _ref(_zc.Z3_mk_div(_cref, _as(n.args[0], R), _as(n.args[1], R)))
    elif op == "uf":
        key = (n.extra, tuple(a.sort for a in n.args), n.sort)
        f = _ufs.get(key)
        if f is None:
            dom = (z3.Sort * len(n.args))(*[_sorts[a.sort] for a in n.args])
            f = _zc.Z3_mk_func_decl(_cref, z3.to_symbol("%s!%s" % (n.extra, "".join(a.sort for a in n.args)), _ctx), len(n.args), dom, _sorts[n.sort])
            _zc.Z3_inc_ref(_cref, _zc.Z3_func_decl_to_ast(_cref, f))
            _ufs[key] = f
        z = _ref(_zc.Z3_mk_app(_cref, f, len(n.args), _arr([to_z3(a) for a in n.args])))
    else:
        raise AssertionError(op)
    n.z = z
    return z


_floor_ax = {}
_fl_cache = {}


def floors(n):
    """the floor terms occurring in n, innermost included"""
    r = _fl_cache.get(n.id)
    if r is None:
        r = _fl_cache[n.id] = _floors(n)
    return r


def _floors(n):
    out = {}
    if n.op == "poly":
        subs = [a for m, k in n.args[1] for a in m]
    elif n.op == "var":
        subs = ()
    else:
        subs = [a for a in n.args if isinstance(a, Node)]
    for a in subs:
        for f in floors(a):
            out[f.id] = f
    if n.op == "floor":
        out[n.id] = n
    return tuple(out.values())


def floor_axioms(f):
    to_z3(f)
    return _floor_ax[f.id]


def z3_expr(n):
    """z3py wrapper, for slow paths (fresh solvers, SMT-LIB dumps)"""
    return z3.z3._to_expr_ref(to_z3(n), ctx())


def vars_of(n, acc=None, seen=None):
    if acc is None:
        acc, seen = {}, set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            acc[x.extra] = x
        elif x.op == "poly":
            for m, k in x.args[1]:
                stack.extend(m)
        else:
            stack.extend(x.args)
    return acc


def nonlinear(n, seen=None):
    stack = [n]
    seen = set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "poly":
            for m, k in x.args[1]:
                if len(m) > 1:
                    return True
                stack.extend(m)
        elif x.op in ("rdiv",):
            return True
        elif x.op == "idiv" and not is_const(x.args[1]):
            return True
        else:
            stack.extend(x.args)
    return False
