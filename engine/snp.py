"""Model of the numpy surface: 1-D arrays of symbolic length with functional contents, 2-D arrays as lists of rows.

Contents are immutable terms (constant, arange, dense list, functional write, element-wise operation, ...)
so an array of 1440 minutes costs nothing until an element is read at a (possibly symbolic) index.
"""
import math as _math
import types as _types

from . import expr as X
from . import sym as S
from .sym import SNum, SBool, Unsupported
from .expr import I, R, B

ZERO = X.const(0)
ONE = X.const(1)
DENSE_MAX = 64


def E():
    return S.E


def br(n):
    return S.E.branch(n)


# ---------------------------------------------------------------- contents
class Cont(object):
    def get(self, i):
        m = self.__dict__.get("_m")
        if m is None:
            m = self._m = {}
        v = m.get(i.id)
        if v is None:
            # values pruned with path facts are only valid on this path: contents never outlive a path
            v = m[i.id] = self._get(i)
        return v

    def brk(self):
        return None


class ConstC(Cont):
    def __init__(self, v):
        self.v = v

    def get(self, i):
        return self.v

    def brk(self):
        return []


class ArangeC(Cont):
    def __init__(self, start, step=ONE):
        self.start, self.step = start, step

    def get(self, i):
        return X.add(self.start, X.mul(self.step, i))


class DenseC(Cont):
    def __init__(self, xs):
        self.xs = xs

    def get(self, i):
        if X.is_const(i):
            k = X.const_val(i)
            return self.xs[k]
        return Cont.get(self, i)

    def _get(self, i):
        xs = self.xs
        if not xs:
            return ZERO
        # group equal neighbours
        r = xs[-1]
        k = len(xs) - 1
        while k > 0:
            j = k
            while j > 0 and xs[j - 1] is xs[k - 1]:
                j -= 1
            c = X.le(i, X.const(k - 1))
            q = S.E._quick(c) if c.op not in ("true", "false") else c is X.TRUE
            if q is True:
                r = xs[k - 1]
            elif q is None:
                r = X.ite(c, xs[k - 1], r)
            k = j
        return r

    def brk(self):
        xs = self.xs
        return [X.const(k) for k in range(1, len(xs)) if xs[k] is not xs[k - 1]]


def qk(c):
    if c is X.TRUE:
        return True
    if c is X.FALSE:
        return False
    return S.E._quick(c)


class WriteC(Cont):
    """prev with [s,e) (stride st) replaced by val"""

    def __init__(self, prev, s, e, val, st=1):
        self.prev, self.s, self.e, self.val, self.st = prev, s, e, val, st

    def _get(self, i):
        c = X.and_(X.le(self.s, i), X.lt(i, self.e))
        off = X.sub(i, self.s)
        if self.st != 1:
            c = X.and_(c, X.eq(X.imod(off, X.const(self.st)), ZERO))
            off = X.idiv(off, X.const(self.st))
        q = qk(c)
        if q is True:
            return self.val.get(off)
        if q is False:
            return self.prev.get(i)
        return X.ite(c, self._val(off), self.prev.get(i))

    def _val(self, off):
        if isinstance(self.val, DenseC) and X.is_const(off) and not (0 <= X.const_val(off) < len(self.val.xs)):
            return self.val.xs[-1] if self.val.xs else ZERO
        return self.val.get(off)

    def brk(self):
        a, b = self.prev.brk(), self.val.brk()
        if a is None or b is None or self.st != 1:
            return None
        return a + [self.s, self.e] + [X.add(self.s, k) for k in b]


class PutC(Cont):
    """prev with the contiguous range [s,s+n) replaced by val cycled with period m"""

    def __init__(self, prev, s, n, val, m):
        self.prev, self.s, self.n, self.val, self.m = prev, s, n, val, m

    def _get(self, i):
        off = X.sub(i, self.s)
        c = X.and_(X.le(self.s, i), X.lt(off, self.n))
        q = qk(c)
        if q is False:
            return self.prev.get(i)
        if isinstance(self.val, ConstC):
            v = self.val.v
        elif self.m is ONE:
            v = self.val.get(ZERO)
        elif qk(X.le(self.n, self.m)) is True:
            v = self.val.get(off) if not X.is_const(off) or not isinstance(self.val, DenseC) or 0 <= X.const_val(off) < len(self.val.xs) else ZERO
        else:
            v = self.val.get(X.imod(off, self.m))
        if q is True:
            return v
        return X.ite(c, v, self.prev.get(i))

    def brk(self):
        a = self.prev.brk()
        if a is None:
            return None
        if isinstance(self.val, ConstC) or self.m is ONE:
            return a + [self.s, X.add(self.s, self.n)]
        return None


class ScatterC(Cont):
    """prev with positions idx[k] := val[k] for k in 0..len-1 (in order), idx a list of terms"""

    def __init__(self, prev, idx, vals):
        self.prev, self.idx, self.vals = prev, idx, vals

    def _get(self, i):
        r = None
        conds = []
        for p, v in zip(reversed(self.idx), reversed(self.vals)):
            c = X.eq(p, i)
            q = qk(c)
            if q is False:
                continue
            conds.append((c, v))
            if q is True:
                break
        else:
            r = self.prev.get(i)
        if r is None:
            r = conds.pop()[1]
        for c, v in reversed(conds):
            r = X.ite(c, v, r)
        return r

    def brk(self):
        a = self.prev.brk()
        if a is None:
            return None
        return a + [x for p in self.idx for x in (p, X.add(p, ONE))]


class OpC(Cont):
    def __init__(self, f, cs):
        self.f, self.cs = f, cs

    def _get(self, i):
        return self.f(*[c.get(i) for c in self.cs])

    def brk(self):
        r = []
        for c in self.cs:
            b = c.brk()
            if b is None:
                return None
            r += b
        return r


class CatC(Cont):
    def __init__(self, parts):
        self.parts = parts  # [(len, cont)]
        off = ZERO
        self.offs = []
        for ln, c in parts:
            self.offs.append(off)
            off = X.add(off, ln)

    def _get(self, i):
        parts = self.parts
        res = []
        last = len(parts) - 1
        for k, (ln, c) in enumerate(parts):
            o = self.offs[k]
            cond = X.lt(i, X.add(o, ln))
            q = True if k == last else qk(cond)
            if q is False:
                continue
            j = X.sub(i, o)
            if X.is_const(j) and isinstance(c, DenseC) and not (0 <= X.const_val(j) < len(c.xs)):
                v = ZERO
            else:
                v = c.get(j)
            res.append((cond, v))
            if q is True:
                break
        r = res.pop()[1]
        for cond, v in reversed(res):
            r = X.ite(cond, v, r)
        return r

    def brk(self):
        r = []
        for (ln, c), o in zip(self.parts, self.offs):
            b = c.brk()
            if b is None:
                return None
            r.append(o)
            r += [X.add(o, k) for k in b]
        return r


class ViewC(Cont):
    def __init__(self, c, off, step):
        self.c, self.off, self.step = c, off, step

    def _get(self, i):
        return self.c.get(X.add(self.off, X.scale(i, self.step)))

    def brk(self):
        if self.step != 1:
            return None
        b = self.c.brk()
        return None if b is None else [X.sub(k, self.off) for k in b]


class FnC(Cont):
    def __init__(self, f, b=None):
        self.f, self.b = f, b

    def _get(self, i):
        return self.f(i)

    def brk(self):
        return self.b


# ---------------------------------------------------------------- dtype objects
class _DT(object):
    def __init__(self, k):
        self.k = k
        self.kind = {"i": "i", "f": "f", "b": "b", "O": "O"}[k]
        self.name = {"i": "int64", "f": "float64", "b": "bool", "O": "object"}[k]

    def __eq__(self, o):
        return dtk(o) == self.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "dtype('%s')" % self.name


def dtk(d):
    if d is None:
        return None
    if isinstance(d, _DT):
        return d.k
    n = getattr(d, "__name__", None) or str(d)
    n = n.lower()
    if "bool" in n:
        return "b"
    if "int" in n or n in ("i", "i4", "i8", "u1"):
        return "i"
    if "float" in n or "double" in n or n in ("f", "f8", "d"):
        return "f"
    if n in ("object", "o", "str"):
        return "O"
    raise Unsupported("dtype %r" % (d,))


def elem(n, dt):
    """numpy scalar of an element term"""
    if dt == "O":
        return n
    if dt == "b" or n.sort == B:
        return SBool(n, True)
    return SNum(n, dt, True)


def promote(*dts):
    for k in "Ofib":
        if k in dts:
            return k
    return "f"


def conv(c, frm, to):
    """content c of dtype frm cast to dtype to"""
    if frm == to or to == "O" or (frm == "i" and to == "f"):
        return c
    if frm == "b":
        return mapc(lambda n: X.ite(n, ONE, ZERO), c)
    if to == "b":
        return mapc(lambda n: X.not_(X.eq(n, ZERO)), c)
    if frm == "f" and to == "i":
        return mapc(lambda n: S.node_of(S.trunc(SNum(n, "f"))), c)
    raise Unsupported("cast %s->%s" % (frm, to))


def mapc(f, c):
    if isinstance(c, ConstC):
        return ConstC(f(c.v))
    if isinstance(c, DenseC):
        return DenseC([f(x) for x in c.xs])
    return OpC(f, [c])


def nlen(x):
    """term for a python / symbolic length argument"""
    if isinstance(x, SArr):
        if x.nd == 1:
            if not X.is_const(x.ln) or X.const_val(x.ln) != 1:
                raise Unsupported("multi-dimensional shape from array")
            return nlen(x[0])
        return nlen(elem(x.c.get(ZERO), x.dt))
    if isinstance(x, (list, tuple)):
        if len(x) != 1:
            raise Unsupported("shape %r" % (x,))
        return nlen(x[0])
    k = S.kind_of(x)
    if k == "f":
        raise TypeError("'float' object cannot be interpreted as an integer")
    if k is None:
        raise TypeError("expected a sequence of integers or a single integer")
    n = S.node_of(x)
    return n


def chk_dim(n):
    if br(X.lt(n, ZERO)):
        raise ValueError("negative dimensions are not allowed")
    return n


# ---------------------------------------------------------------- arrays
class SArr(object):
    _is_sarr = True
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, ln, dt, c, nd=1, parent=None):
        self.ln = ln
        self.dt = dt
        self._c = c
        self.nd = nd  # 1: vector, 0: scalar array, 2: column (n,1)
        self.parent = parent  # (array, offset, step) of a view

    # contents
    @property
    def c(self):
        p = self.parent
        if p is not None:
            return view_c(p[0].c, p[1], p[2])
        return self._c

    def set_c(self, f_s, f_e, st, val):
        """write val (content) into [f_s,f_e) with stride st of this array"""
        p = self.parent
        if p is not None:
            if p[2] == 1:
                p[0].set_c(X.add(p[1], f_s), X.add(p[1], f_e), st, val)
                return
            raise Unsupported("write through a strided view")
        if st == 1 and isinstance(self._c, DenseC) and X.is_const(f_s) and X.is_const(f_e):
            xs = list(self._c.xs)
            s, e = X.const_val(f_s), X.const_val(f_e)
            for k in range(s, e):
                xs[k] = val.get(X.const(k - s))
            self._c = DenseC(xs)
            return
        if st == 1 and f_s is ZERO and f_e is self.ln:
            self._c = val
            return
        self._c = WriteC(self._c, f_s, f_e, val, st)

    # shape
    @property
    def size(self):
        return S.mkint(self.ln) if self.nd else 1

    @property
    def shape(self):
        if self.nd == 0:
            return ()
        if self.nd == 2:
            return (S.mkint(self.ln), 1)
        return (S.mkint(self.ln),)

    @property
    def ndim(self):
        return self.nd

    @property
    def dtype(self):
        return _DT(self.dt)

    @property
    def T(self):
        if self.nd == 2:
            return SMat([SArr(self.ln, self.dt, self.c)], self.ln)
        return self

    def _symlen(self):
        if self.nd == 0:
            raise TypeError("len() of unsized object")
        return S.mkint(self.ln)

    def __len__(self):
        if self.nd == 0:
            raise TypeError("len() of unsized object")
        return E().concretize(self.ln)

    def clen(self):
        """constant length or None"""
        return X.const_val(self.ln) if X.is_const(self.ln) else None

    def nodes(self, limit=3000):
        n = self.clen()
        if n is None:
            n = E().concretize(self.ln, 64)
        if n > limit:
            raise Unsupported("array of %d elements made explicit" % n)
        c = self.c
        if isinstance(c, DenseC) and len(c.xs) == n:
            return list(c.xs)
        return [c.get(X.const(k)) for k in range(n)]

    def __iter__(self):
        if self.nd == 0:
            raise TypeError("iteration over a 0-d array")
        k = 0
        c = self.c
        while br(X.lt(X.const(k), self.ln)):
            if self.nd == 2:
                yield SArr(ONE, self.dt, ConstC(c.get(X.const(k))))
            else:
                yield elem(c.get(X.const(k)), self.dt)
            k += 1
            if k > 5000:
                raise S.PathLimit("array iteration")

    def __reversed__(self):
        return iter(self[::-1])

    # indexing
    def _pos(self, i):
        """term of a valid position for index i (IndexError otherwise)"""
        if isinstance(i, SArr) and i.nd == 0:
            i = elem(i.c.get(ZERO), i.dt)
        if S.kind_of(i) != "i":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        n = S.node_of(i)
        if self.nd == 0:
            raise IndexError("too many indices for array: array is 0-dimensional, but 1 were indexed")
        if br(X.lt(n, ZERO)):
            n = X.add(n, self.ln)
            if br(X.lt(n, ZERO)):
                raise IndexError("index out of bounds")
            return n
        if not br(X.lt(n, self.ln)):
            raise IndexError("index out of bounds")
        return n

    def __getitem__(self, i):
        if isinstance(i, tuple):
            if len(i) == 1:
                i = i[0]
            elif len(i) == 2 and self.nd == 2:
                r, col = i
                if isinstance(col, slice):
                    return self[r]
                return SArr(self.ln, self.dt, self.c)[r]
            elif i == ():
                return elem(self.c.get(ZERO), self.dt)
            else:
                raise IndexError("too many indices for array")
        if i is None:
            return SMat([self], self.ln)
        if i is Ellipsis:
            return self
        if isinstance(i, slice):
            if self.nd == 0:
                raise IndexError("too many indices for array: array is 0-dimensional, but 1 were indexed")
            s, e, st = norm_slice(i, self.ln)
            if st > 0:
                n = X.sub(e, s)
                if st != 1:
                    n = X.idiv(X.add(n, X.const(st - 1)), X.const(st))
            else:
                n = X.idiv(X.add(X.sub(s, e), X.const(-st - 1)), X.const(-st))
            return SArr(n, self.dt, None, self.nd, (self, s, st))
        if isinstance(i, (list, SArr, SRange)) and not (isinstance(i, SArr) and i.nd == 0):
            a = asarr(i)
            if isinstance(i, list) and not i:
                return SArr(ZERO, self.dt, DenseC([]))
            if a.dt == "b":
                if br(X.not_(X.eq(a.ln, self.ln))):
                    raise IndexError("boolean index did not match")
                a = true_positions(a)
            c0 = self.c
            ic = self._idx(a)
            return SArr(a.ln, self.dt, gather(c0, ic, a.ln))
        p = self._pos(i)
        v = self.c.get(p)
        if self.nd == 2:
            return SArr(ONE, self.dt, ConstC(v))
        return elem(v, self.dt)

    def _idx(self, a):
        """content of non-negative positions for an index array a"""
        if a.dt != "i":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        c = a.c
        if isinstance(c, ArangeC) or (isinstance(c, ViewC) and isinstance(c.c, ArangeC)):
            if br(X.le(a.ln, ZERO)):
                return c
            lo, hi = c.get(ZERO), c.get(X.sub(a.ln, ONE))
            for p in (lo, hi):
                if br(X.lt(p, ZERO)) or not br(X.lt(p, self.ln)):
                    if br(X.lt(p, X.neg(self.ln))) or not br(X.lt(p, self.ln)):
                        raise IndexError("index out of bounds")
                    return mapc(lambda n: X.ite(X.lt(n, ZERO), X.add(n, self.ln), n), c)
            return c
        ns = a.nodes()
        out = []
        for n in ns:
            out.append(self._pos(S.mkint(n)))
        return DenseC(out)

    def __setitem__(self, i, v):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if i is Ellipsis:
            i = slice(None)
        if isinstance(i, tuple) and len(i) == 2 and self.nd == 2:
            i = i[0]
        if isinstance(i, slice):
            s, e, st = norm_slice(i, self.ln)
            if st < 0:
                raise Unsupported("write to a reversed slice")
            n = X.sub(e, s)
            if st != 1:
                n = X.idiv(X.add(n, X.const(st - 1)), X.const(st))
            val = self._value(v, n)
            if n is ZERO:
                return
            self.set_c(s, e, st, val)
            return
        if isinstance(i, (list, SArr, SRange)) and not (isinstance(i, SArr) and i.nd == 0):
            a = asarr(i)
            if a.dt == "b":
                if br(X.not_(X.eq(a.ln, self.ln))):
                    raise IndexError("boolean index did not match")
                if not isinstance(v, (list, tuple, SArr)):
                    val = self._value(v, ONE).get(ZERO)
                    c0, m = self.c, a.c
                    self.set_c(ZERO, self.ln, 1, OpC(lambda p, q: X.ite(p, val, q), [m, c0]))
                    return
                a = true_positions(a)
            self._scatter(a, self._value(v, a.ln))
            return
        p = self._pos(i)
        val = self._value(v, ONE)
        self.set_c(p, X.add(p, ONE), 1, val)

    def _scatter(self, a, val):
        ic = self._idx(a)
        if isinstance(ic, ArangeC) and ic.step is ONE:
            self.set_c(ic.start, X.add(ic.start, a.ln), 1, val)
            return
        if isinstance(ic, ViewC) and isinstance(ic.c, ArangeC) and ic.c.step is ONE and ic.step == 1:
            s = ic.get(ZERO)
            self.set_c(s, X.add(s, a.ln), 1, val)
            return
        n = a.clen()
        if n is None:
            n = E().concretize(a.ln, 64)
        for k in range(n):
            p = ic.get(X.const(k))
            self.set_c(p, X.add(p, ONE), 1, ConstC(val.get(X.const(k))))

    def _value(self, v, n):
        """content of length n for assigning v"""
        if isinstance(v, (list, tuple, SRange, SArr, SMat)) or hasattr(v, "_segs"):
            a = asarr(v)
            if isinstance(a, SMat):
                if len(a.rows) == 1:
                    a = a.rows[0]
                else:
                    raise ValueError("could not broadcast input array")
            if a.nd == 0:
                return conv(ConstC(a.c.get(ZERO)), a.dt, self.dt)
            if a.ln is not n and br(X.not_(X.eq(a.ln, n))):
                if br(X.eq(a.ln, ONE)):
                    return conv(ConstC(a.c.get(ZERO)), a.dt, self.dt)
                raise ValueError("could not broadcast input array into shape")
            return conv(a.c, a.dt, self.dt)
        if self.dt == "O":
            return ConstC(v)
        if v is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        if isinstance(v, str):
            raise ValueError("could not convert string to float: %r" % v)
        k = S.kind_of(v)
        if k is None:
            raise Unsupported("array element %r" % type(v))
        n_ = S.bnode_of(v) if k == "b" else S.node_of(v)
        return conv(ConstC(n_), k, self.dt)

    # element-wise operations
    def _bin(self, o, f, dtf, rev=False):
        if isinstance(o, SMat):
            return NotImplemented
        if isinstance(o, (list, tuple, SRange)):
            o = asarr(o)
            if isinstance(o, SMat):
                return o._bin(self, f, dtf, not rev)
        if isinstance(o, SArr):
            if self.dt == "O" or o.dt == "O":
                return obj_bin(self, o, f, dtf)
            ca, cb, ln, nd = broadcast(self, o)
            da, db = self.dt, o.dt
        else:
            k = S.kind_of(o)
            if self.dt == "O":
                return SArr(self.ln, "b", DenseC([X.bconst(bool(f.pyop(x, o))) for x in self.nodes()]))
            if k is None:
                if f in (F_EQ, F_NE):
                    return SArr(self.ln, "b", ConstC(X.bconst(f is F_NE)))
                return NotImplemented
            ca, cb, ln, nd = self.c, ConstC(S.bnode_of(o) if k == "b" else S.node_of(o)), self.ln, self.nd
            da, db = self.dt, k
        if rev:
            ca, cb, da, db = cb, ca, db, da
        dt = dtf(da, db)
        if f not in (F_AND, F_OR, F_XOR):
            ca, cb = conv(ca, da, "i") if da == "b" else ca, conv(cb, db, "i") if db == "b" else cb
        elif "b" not in (da, db) or da != db:
            raise Unsupported("bitwise operation on numbers")
        if isinstance(ca, ConstC) and isinstance(cb, ConstC):
            c = ConstC(f(ca.v, cb.v))
        elif X.is_const(ln) and (isinstance(ca, DenseC) or isinstance(cb, DenseC)) and X.const_val(ln) <= 2000:
            n = X.const_val(ln)
            c = DenseC([f(ca.get(X.const(k)), cb.get(X.const(k))) for k in range(n)])
        elif isinstance(ca, ArangeC) and isinstance(cb, ConstC) and f in (F_ADD, F_SUB, F_MUL):
            c = ArangeC(f(ca.start, cb.v), f(ca.step, cb.v) if f is F_MUL else ca.step)
        elif isinstance(cb, ArangeC) and isinstance(ca, ConstC) and f in (F_ADD, F_MUL):
            c = ArangeC(f(ca.v, cb.start), f(ca.v, cb.step) if f is F_MUL else cb.step)
        else:
            c = ramp_cmp(f, ca, cb) or OpC(f, [ca, cb])
        r = SArr(ln, dt, c, nd)
        if nd == 0:
            return elem(c.get(ZERO), dt)
        return r

    def __add__(self, o):
        return self._bin(o, F_ADD, dt_arith)

    def __radd__(self, o):
        return self._bin(o, F_ADD, dt_arith, True)

    def __sub__(self, o):
        return self._bin(o, F_SUB, dt_arith)

    def __rsub__(self, o):
        return self._bin(o, F_SUB, dt_arith, True)

    def __mul__(self, o):
        return self._bin(o, F_MUL, dt_arith)

    def __rmul__(self, o):
        return self._bin(o, F_MUL, dt_arith, True)

    def __truediv__(self, o):
        return self._bin(o, F_DIV, lambda a, b: "f")

    def __rtruediv__(self, o):
        return self._bin(o, F_DIV, lambda a, b: "f", True)

    def __floordiv__(self, o):
        return self._bin(o, F_FDIV, dt_arith)

    def __mod__(self, o):
        return self._bin(o, F_MOD, dt_arith)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = self * 0 + 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("array power")

    def __neg__(self):
        return SArr(self.ln, self.dt, mapc(X.neg, self.c), self.nd)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._map(lambda n: S.node_of(S.sabs(SNum(n, self.dt))))

    def _map(self, f, dt=None):
        return SArr(self.ln, dt or self.dt, mapc(f, self.c), self.nd)

    def __invert__(self):
        if self.dt != "b":
            raise Unsupported("~ on numbers")
        return SArr(self.ln, "b", mapc(X.not_, self.c), self.nd)

    def __and__(self, o):
        return self._bin(o, F_AND, dt_bool)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, F_OR, dt_bool)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, F_XOR, dt_bool)

    def __eq__(self, o):
        if isinstance(o, SArr) and self.nd == o.nd == 1 and br(X.not_(X.eq(self.ln, o.ln))) and not (br(X.eq(self.ln, ONE)) or br(X.eq(o.ln, ONE))):
            raise ValueError("operands could not be broadcast together with shapes")
        return self._bin(o, F_EQ, dt_bool)

    def __ne__(self, o):
        if isinstance(o, SArr) and self.nd == o.nd == 1 and br(X.not_(X.eq(self.ln, o.ln))) and not (br(X.eq(self.ln, ONE)) or br(X.eq(o.ln, ONE))):
            raise ValueError("operands could not be broadcast together with shapes")
        return self._bin(o, F_NE, dt_bool)

    def __lt__(self, o):
        return self._bin(o, F_LT, dt_bool)

    def __le__(self, o):
        return self._bin(o, F_LE, dt_bool)

    def __gt__(self, o):
        return self._bin(o, F_GT, dt_bool)

    def __ge__(self, o):
        return self._bin(o, F_GE, dt_bool)

    def _iop(self, r):
        if r is NotImplemented:
            return r
        if self.dt == "i" and r.dt == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        self.set_c(ZERO, self.ln, 1, conv(r.c, r.dt, self.dt))
        return self

    def __iadd__(self, o):
        return self._iop(self + o)

    def __isub__(self, o):
        return self._iop(self - o)

    def __imul__(self, o):
        return self._iop(self * o)

    def __itruediv__(self, o):
        return self._iop(self / o)

    def __bool__(self):
        n = self.ln
        if self.nd and br(X.not_(X.eq(n, ONE))):
            if br(X.eq(n, ZERO)):
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(elem(self.c.get(ZERO), self.dt))

    def _scalar(self):
        if self.nd and br(X.not_(X.eq(self.ln, ONE))):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return elem(self.c.get(ZERO), self.dt)

    def __int__(self):
        return int(self._scalar())

    def __float__(self):
        return float(self._scalar())

    def __index__(self):
        if self.nd:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self._scalar().__index__()

    def __round__(self, nd=None):
        raise TypeError("type numpy.ndarray doesn't define __round__ method")

    def __contains__(self, v):
        return bool((self == v).any())

    def __repr__(self):
        return "<sarr>"

    def __format__(self, spec):
        return "<sarr>"

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    # methods
    def copy(self, *a, **k):
        return SArr(self.ln, self.dt, self.c, self.nd)

    def item(self, *a):
        if a:
            v = self[a[0]]
        else:
            v = self._scalar()
        return v.item() if hasattr(v, "item") else v

    def astype(self, t, **k):
        d = dtk(t)
        return SArr(self.ln, d, conv(self.c, self.dt, d), self.nd)

    def tolist(self):
        if self.nd == 0:
            return self.item()
        if self.clen() is None:
            c, dt = self.c, self.dt
            p = PList()
            p.extend(Seg(self.ln, lambda i: py_of(c.get(i), dt)))
            return p
        return PList(py_of(n, self.dt) for n in self.nodes(6000))

    def fill(self, v):
        self[:] = v

    def put(self, idx, vals):
        put(self, idx, vals)

    def flatten(self, *a):
        return SArr(self.ln, self.dt, self.c)

    def ravel(self, *a):
        if self.nd == 1:
            return self
        return SArr(self.ln, self.dt, self.c)

    def squeeze(self, *a):
        return squeeze(self)

    def reshape(self, *sh, **k):
        return reshape(self, *sh, **k)

    def transpose(self):
        return self

    def sum(self, axis=None, **k):
        return asum(self)

    def mean(self, axis=None, **k):
        return mean(self)

    def max(self, axis=None, **k):
        return amax(self)

    def min(self, axis=None, **k):
        return amin(self)

    def any(self, axis=None, **k):
        return any_(self)

    def all(self, axis=None, **k):
        return all_(self)

    def argmax(self, axis=None):
        return argmax(self)

    def argmin(self, axis=None):
        return argmax(-self)

    def nonzero(self):
        return (true_positions(self),)

    def round(self, decimals=0, **k):
        return self._map(lambda n: S.node_of(S.sround(SNum(n, "f"), decimals)) if decimals else S.round_node(n))

    def clip(self, lo=None, hi=None, **k):
        return clip(self, lo, hi)

    def cumsum(self, *a, **k):
        return cumsum(self)

    def repeat(self, n, axis=None):
        return repeat(self, n)

    def prod(self, *a, **k):
        r = ONE
        for n in self.nodes():
            r = X.mul(r, n)
        return elem(r, self.dt)

    def sort(self):
        r = sort(self)
        self.set_c(ZERO, self.ln, 1, r.c)

    def _sym_sum(self):
        return asum(self)

    def _sym_minmax(self, mn):
        return amin(self) if mn else amax(self)


def py_of(n, dt):
    if dt == "O":
        return n
    if dt == "b":
        if n is X.TRUE or n is X.FALSE:
            return n is X.TRUE
        return SBool(n, False)
    return S.mknum(n, dt)


def view_c(c, off, step):
    if isinstance(c, ConstC):
        return c
    if off is ZERO and step == 1:
        return c
    if isinstance(c, ArangeC):
        return ArangeC(c.get(off), X.scale(c.step, step))
    return ViewC(c, off, step)


def gather(c, ic, ln):
    if isinstance(ic, ArangeC) and X.is_const(ic.step):
        return view_c(c, ic.start, X.const_val(ic.step))
    if isinstance(ic, DenseC):
        return DenseC([c.get(p) for p in ic.xs])
    return FnC(lambda i: c.get(ic.get(i)))


def norm_slice(sl, ln):
    st = sl.step
    if st is None:
        st = 1
    elif isinstance(st, SNum):
        st = st.__index__()
    if st == 0:
        raise ValueError("slice step cannot be zero")

    def idx(x):
        if isinstance(x, SArr):
            x = x._scalar() if x.nd == 0 else x
        if S.kind_of(x) not in ("i", "b"):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        return S.node_of(x)

    def clamp(x, lo, hi):
        n = idx(x)
        if br(X.lt(n, ZERO)):
            n = X.add(n, ln)
            if br(X.lt(n, lo)):
                return lo
            return n
        if br(X.lt(hi, n)):
            return hi
        return n

    if st > 0:
        s = ZERO if sl.start is None else clamp(sl.start, ZERO, ln)
        e = ln if sl.stop is None else clamp(sl.stop, ZERO, ln)
        if s is not e and br(X.lt(e, s)):
            e = s
        return s, e, st
    last = X.sub(ln, ONE)
    m1 = X.const(-1)
    s = last if sl.start is None else clamp(sl.start, m1, last)
    e = m1 if sl.stop is None else clamp(sl.stop, m1, last)
    if br(X.lt(s, e)):
        e = s
    return s, e, st


# element functions (named so that they can be recognised)
def F_ADD(a, b):
    return X.add(a, b)


def F_SUB(a, b):
    return X.sub(a, b)


def F_MUL(a, b):
    return X.mul(a, b)


def F_DIV(a, b):
    return S.node_of(S._truediv(a, b, True))


def F_FDIV(a, b):
    return S.node_of(S._floordiv(SNum(a, "i", True) if a.sort == I else SNum(a, "f", True), SNum(b, "i", True) if b.sort == I else SNum(b, "f", True)))


def F_MOD(a, b):
    return S.node_of(S._mod(SNum(a, "i", True) if a.sort == I else SNum(a, "f", True), SNum(b, "i", True) if b.sort == I else SNum(b, "f", True)))


def F_EQ(a, b):
    return X.eq(a, b)


def F_NE(a, b):
    return X.not_(X.eq(a, b))


def F_LT(a, b):
    return X.lt(a, b)


def F_LE(a, b):
    return X.le(a, b)


def F_GT(a, b):
    return X.lt(b, a)


def F_GE(a, b):
    return X.le(b, a)


def F_AND(a, b):
    return X.and_(a, b)


def F_OR(a, b):
    return X.or_(a, b)


def F_XOR(a, b):
    return X.not_(X.iff(a, b))


def F_MIN(a, b):
    return S.node_of(S._ext(SNum(a, "f"), SNum(b, "f"), True))


def F_MAX(a, b):
    return S.node_of(S._ext(SNum(a, "f"), SNum(b, "f"), False))


def ramp_start(c):
    """start of a content counting up in steps of one, None for the others"""
    if isinstance(c, ArangeC):
        return c.start if c.step is ONE and c.start.sort == I else None
    if isinstance(c, ViewC) and c.step == 1:
        b = ramp_start(c.c)
        return None if b is None else X.add(b, c.off)
    return None


def ramp_cmp(f, ca, cb):
    """comparison of a counting content with a constant: piecewise constant, breaking at the crossing"""
    if isinstance(ca, ConstC) and f in FLIP:
        ca, cb, f2 = cb, ca, FLIP[f]
    else:
        f2 = f
    if f2 not in FLIP or not isinstance(cb, ConstC):
        return None
    s = ramp_start(ca)
    if s is None:
        return None
    v = cb.v
    if v.sort != I:
        if not X.is_const(v):
            return None
        q = X.const_val(v)
        fl = _math.floor(q)
        if fl == q:
            v = X.const(int(q))
        elif f2 in (F_EQ, F_NE):
            return ConstC(X.bconst(f2 is F_NE))
        else:
            # k < q, k <= q: k <= floor(q);  k > q, k >= q: k > floor(q)
            v = X.const(int(fl))
            f2 = F_LE if f2 in (F_LT, F_LE) else F_GT
    at = X.sub(v, s)
    nxt = X.add(at, ONE)
    b = [at] if f2 in (F_LT, F_GE) else [nxt] if f2 in (F_LE, F_GT) else [at, nxt]
    return FnC(lambda i: f2(X.add(s, i), v), b)


FLIP = {F_LT: F_GT, F_GT: F_LT, F_LE: F_GE, F_GE: F_LE, F_EQ: F_EQ, F_NE: F_NE}
F_EQ.pyop = lambda a, b: a == b
F_NE.pyop = lambda a, b: a != b


def dt_arith(a, b):
    return "f" if "f" in (a, b) else "i"


def dt_bool(a, b):
    return "b"


def obj_bin(a, b, f, dtf):
    if not hasattr(f, "pyop"):
        raise Unsupported("operation on object arrays")
    xs, ys = a.nodes(), b.nodes()
    if len(xs) == 1:
        xs = xs * len(ys)
    if len(ys) == 1:
        ys = ys * len(xs)
    if len(xs) != len(ys):
        raise ValueError("operands could not be broadcast together")

    def un(x, dt):
        return x if dt == "O" else elem(x, dt)

    return SArr(X.const(len(xs)), "b", DenseC([S.bnode_of(f.pyop(un(x, a.dt), un(y, b.dt))) for x, y in zip(xs, ys)]))


def broadcast(a, b):
    if a.nd == 2 or b.nd == 2:
        if a.nd == b.nd == 2:
            pass
        elif (a.nd == 1 and br(X.not_(X.eq(a.ln, ONE)))) or (b.nd == 1 and br(X.not_(X.eq(b.ln, ONE)))):
            raise Unsupported("outer broadcasting")
    if a.nd == 0:
        return ConstC(a.c.get(ZERO)), b.c, b.ln, b.nd
    if b.nd == 0:
        return a.c, ConstC(b.c.get(ZERO)), a.ln, a.nd
    if a.ln is b.ln or not br(X.not_(X.eq(a.ln, b.ln))):
        return a.c, b.c, a.ln, a.nd
    if br(X.eq(a.ln, ONE)):
        return ConstC(a.c.get(ZERO)), b.c, b.ln, b.nd
    if br(X.eq(b.ln, ONE)):
        return a.c, ConstC(b.c.get(ZERO)), a.ln, a.nd
    raise ValueError("operands could not be broadcast together with shapes")


# ---------------------------------------------------------------- matrices
class SMat(object):
    _is_sarr = True
    __array_ufunc__ = None
    __hash__ = None
    nd = 2

    def __init__(self, rows, nc):
        self.rows = list(rows)
        self.nc = nc

    @property
    def dt(self):
        return promote(*[r.dt for r in self.rows]) if self.rows else "f"

    @property
    def dtype(self):
        return _DT(self.dt)

    @property
    def shape(self):
        return (len(self.rows), S.mkint(self.nc))

    @property
    def size(self):
        return S.mkint(X.scale(self.nc, len(self.rows)))

    ndim = 2

    def __len__(self):
        return len(self.rows)

    def _symlen(self):
        return len(self.rows)

    def __iter__(self):
        return iter(list(self.rows))

    def _row(self, i):
        if isinstance(i, SNum):
            n = S.E.concretize(i.n)
        else:
            n = i.__index__()
        return self.rows[n]

    def _rows(self, i):
        if isinstance(i, slice):
            f = lambda x: None if x is None else x.__index__()
            return self.rows[slice(f(i.start), f(i.stop), f(i.step))]
        a = asarr(i)
        if a.dt == "b":
            a = true_positions(a)
        return [self.rows[S.E.concretize(n)] for n in a.nodes()]

    def __getitem__(self, i):
        if isinstance(i, tuple):
            if len(i) == 1:
                i = i[0]
            elif len(i) == 2:
                r, c = i
                if r is Ellipsis:
                    r = slice(None)
                if isinstance(r, (slice, list, SArr)):
                    rs = self._rows(r)
                    if isinstance(c, slice):
                        rs = [x[c] for x in rs]
                        return SMat(rs, rs[0].ln if rs else self.nc)
                    return SArr(X.const(len(rs)), self.dt, DenseC([S.node_of(x[c]) if self.dt != "b" else S.bnode_of(x[c]) for x in rs]))
                return self._row(r)[c]
            else:
                raise IndexError("too many indices for array")
        if i is Ellipsis:
            return self
        if isinstance(i, (slice, list, SArr)) and not (isinstance(i, SArr) and i.nd == 0):
            return SMat(self._rows(i), self.nc)
        return self._row(i)

    def __setitem__(self, i, v):
        if i is Ellipsis:
            i = slice(None)
        if isinstance(i, tuple) and len(i) == 2:
            r, c = i
        else:
            r, c = (i[0] if isinstance(i, tuple) else i), slice(None)
        if r is Ellipsis:
            r = slice(None)
        if isinstance(r, (slice, list, SArr)):
            rs = self._rows(r)
            vv = asarr(v) if isinstance(v, (list, tuple, SArr, SMat)) else v
            if isinstance(vv, SMat):
                if len(vv.rows) == 1:
                    vs = vv.rows * len(rs)
                elif len(vv.rows) != len(rs):
                    raise ValueError("could not broadcast input array")
                else:
                    vs = vv.rows
            else:
                vs = [vv] * len(rs)
                if isinstance(vv, SArr) and vv.nd == 1 and not isinstance(c, slice):
                    vs = list(vv)
            for x, y in zip(rs, vs):
                x[c] = y
            return
        self._row(r)[c] = v

    def _bin(self, o, f, dtf, rev=False):
        if isinstance(o, (list, tuple)):
            o = asarr(o)
        if isinstance(o, SMat):
            if len(o.rows) == 1 and len(self.rows) != 1:
                os = o.rows * len(self.rows)
                ss = self.rows
            elif len(self.rows) == 1 and len(o.rows) != 1:
                os = o.rows
                ss = self.rows * len(o.rows)
            elif len(o.rows) == len(self.rows):
                os, ss = o.rows, self.rows
            else:
                raise ValueError("operands could not be broadcast together")
        else:
            os, ss = [o] * len(self.rows), self.rows
        rs = [a._bin(b, f, dtf, rev) for a, b in zip(ss, os)]
        return SMat(rs, rs[0].ln if rs else self.nc)

    def sum(self, axis=None, **k):
        return asum(self, axis)

    def mean(self, axis=None, **k):
        return mean(self, axis)

    def max(self, axis=None, **k):
        return amax(self, axis)

    def min(self, axis=None, **k):
        return amin(self, axis)

    def all(self, axis=None, **k):
        return all_(self, axis)

    def any(self, axis=None, **k):
        return any_(self, axis)

    def squeeze(self, *a):
        return squeeze(self)

    def reshape(self, *sh, **k):
        return reshape(self, *sh, **k)

    def flatten(self, order="C"):
        return reshape(self, -1, order=order)

    def ravel(self, order="C"):
        return reshape(self, -1, order=order)

    def tolist(self):
        return PList(r.tolist() for r in self.rows)

    def copy(self, *a):
        return SMat([r.copy() for r in self.rows], self.nc)

    def astype(self, t, **k):
        return SMat([r.astype(t) for r in self.rows], self.nc)

    def transpose(self, *a):
        n = S.E.concretize(self.nc, 64)
        if n > DENSE_MAX:
            raise Unsupported("transpose of a wide matrix")
        return SMat([self[:, k] for k in range(n)], X.const(len(self.rows)))

    @property
    def T(self):
        return self.transpose()

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return "<smat>"


for _n, _f, _d in (("add", F_ADD, dt_arith), ("sub", F_SUB, dt_arith), ("mul", F_MUL, dt_arith), ("truediv", F_DIV, lambda a, b: "f"), ("floordiv", F_FDIV, dt_arith), ("mod", F_MOD, dt_arith), ("and", F_AND, dt_bool), ("or", F_OR, dt_bool)):

    def _mk(f, d):
        return (lambda self, o: self._bin(o, f, d)), (lambda self, o: self._bin(o, f, d, True))

    _a, _b = _mk(_f, _d)
    setattr(SMat, "__%s__" % _n, _a)
    setattr(SMat, "__r%s__" % _n, _b)
for _n, _f in (("eq", F_EQ), ("ne", F_NE), ("lt", F_LT), ("le", F_LE), ("gt", F_GT), ("ge", F_GE)):
    setattr(SMat, "__%s__" % _n, (lambda f: lambda self, o: self._bin(o, f, dt_bool))(_f))


def _smat_iop(op):
    def f(self, o):
        r = op(self, o)
        for a, b in zip(self.rows, r.rows):
            a[:] = b
        return self

    return f


SMat.__iadd__ = _smat_iop(lambda a, b: a + b)
SMat.__isub__ = _smat_iop(lambda a, b: a - b)
SMat.__imul__ = _smat_iop(lambda a, b: a * b)
SMat.__itruediv__ = _smat_iop(lambda a, b: a / b)


# ---------------------------------------------------------------- symbolic sequences
class SRange(object):
    """range() with symbolic bounds"""

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        a, b = S.node_of(start), S.node_of(stop)
        d = X.sub(b, a) if step > 0 else X.sub(a, b)
        st = abs(step)
        if br(X.le(d, ZERO)):
            self.ln = ZERO
        elif st == 1:
            self.ln = d
        else:
            self.ln = X.idiv(X.add(d, X.const(st - 1)), X.const(st))
        self.a = a

    def at(self, i):
        return S.mkint(X.add(self.a, X.scale(i, self.step)))

    def _symlen(self):
        return S.mkint(self.ln)

    def __len__(self):
        return S.E.concretize(self.ln)

    def __iter__(self):
        k = 0
        while br(X.lt(X.const(k), self.ln)):
            yield self.at(X.const(k))
            k += 1
            if k > 3000:
                raise S.PathLimit("range iteration")

    def __reversed__(self):
        last = self.at(X.sub(self.ln, ONE))
        return iter(SRange(last, self.start + (-1 if self.step > 0 else 1), -self.step))

    def __getitem__(self, i):
        if isinstance(i, slice):
            s, e, st = norm_slice(i, self.ln)
            if st != 1:
                raise Unsupported("strided slice of a range")
            return SRange(self.at(s), self.at(e), self.step)
        n = S.node_of(i)
        if br(X.lt(n, ZERO)):
            n = X.add(n, self.ln)
        if br(X.lt(n, ZERO)) or not br(X.lt(n, self.ln)):
            raise IndexError("range object index out of range")
        return self.at(n)

    def __contains__(self, v):
        n = S.node_of(v)
        if n is None:
            return False
        d = X.sub(n, self.a) if self.step > 0 else X.sub(self.a, n)
        st = abs(self.step)
        return br(X.and_(X.le(ZERO, d), X.lt(d, X.scale(self.ln, st)), X.eq(X.imod(d, X.const(st)), ZERO) if st != 1 else X.TRUE))

    def _sym_minmax(self, mn):
        if br(X.eq(self.ln, ZERO)):
            raise ValueError("empty sequence")
        return self.at(ZERO if mn == (self.step > 0) else X.sub(self.ln, ONE))


class Seg(object):
    """a run of ln elements given by a function of the position"""

    def __init__(self, ln, at):
        self.ln, self.at = ln, at

    def __iter__(self):
        k = 0
        while br(X.lt(X.const(k), self.ln)):
            yield self.at(X.const(k))
            k += 1
            if k > 3000:
                raise S.PathLimit("segment iteration")


def seg_of(x):
    """x as a Seg / list of Segs when its length is symbolic, else None"""
    if isinstance(x, Seg):
        return [x]
    if isinstance(x, SRange):
        if X.is_const(x.ln):
            return None
        return [Seg(x.ln, x.at)]
    if isinstance(x, SArr) and x.nd == 1 and not X.is_const(x.ln):
        c, dt = x.c, x.dt
        return [Seg(x.ln, lambda i: elem(c.get(i), dt))]
    if isinstance(x, PList) and x._segs is not None:
        return list(x._segs)
    if isinstance(x, LazyMap):
        return x.segs()
    return None


class LazyMap(object):
    """[f(v) for v in symbolic sequence]"""

    def __init__(self, f, segs):
        self.f, self._s = f, segs

    def segs(self):
        f = self.f
        return [Seg(s.ln, (lambda s: lambda i: f(s.at(i)))(s)) for s in self._s]


class PList(list):
    """list that may contain runs of symbolic length; behaves as a plain list until one is added"""

    _segs = None

    def _to_segs(self):
        if self._segs is None:
            self._segs = [one(x) for x in list.__iter__(self)]
            list.clear(self)
        return self._segs

    def extend(self, o):
        s = seg_of(o)
        if isinstance(o, range) and len(o) > 16:
            # kept as one run: an element read at a symbolic position stays a linear term
            st, sp = o.start, o.step
            s = [Seg(X.const(len(o)), lambda i: S.mkint(X.add(X.const(st), X.scale(i, sp))))]
        if s is not None:
            self._to_segs().extend(s)
        elif self._segs is not None:
            self._segs.extend(one(x) for x in o)
        else:
            list.extend(self, o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = PList(list.__iter__(self)) if self._segs is None else PList()
        if self._segs is not None:
            r._segs = list(self._segs)
        if not isinstance(o, (list, Seg)):
            return NotImplemented
        r.extend(o)
        return r

    def __radd__(self, o):
        r = PList(o)
        r.extend(self)
        return r

    def append(self, x):
        if self._segs is not None:
            self._segs.append(one(x))
        else:
            list.append(self, x)

    def _symlen(self):
        if self._segs is None:
            return list.__len__(self)
        n = ZERO
        for s in self._segs:
            n = X.add(n, s.ln)
        return S.mkint(n)

    def __len__(self):
        if self._segs is None:
            return list.__len__(self)
        n = self._symlen()
        return n if isinstance(n, int) else S.E.concretize(n.n)

    def __bool__(self):
        if self._segs is None:
            return list.__len__(self) > 0
        return br(X.lt(ZERO, S.node_of(self._symlen())))

    def __iter__(self):
        if self._segs is None:
            return list.__iter__(self)
        return self._it()

    def _it(self):
        for s in list(self._segs):
            for x in s:
                yield x

    def _locate(self, i):
        n = S.node_of(i)
        tot = S.node_of(self._symlen())
        if br(X.lt(n, ZERO)):
            n = X.add(n, tot)
        if br(X.lt(n, ZERO)) or not br(X.lt(n, tot)):
            raise IndexError("list index out of range")
        off = ZERO
        for s in self._segs[:-1]:
            nx = X.add(off, s.ln)
            if br(X.lt(n, nx)):
                return s, X.sub(n, off)
            off = nx
        return self._segs[-1], X.sub(n, off)

    def __getitem__(self, i):
        if self._segs is None:
            if isinstance(i, SNum) and i.k == "i":
                xs = list(list.__iter__(self))
                if len(xs) > 8 and all(S.node_of(x) is not None for x in xs):
                    # numbers: keep the choice symbolic
                    n = i.n
                    if br(X.lt(n, ZERO)):
                        n = X.add(n, X.const(len(xs)))
                    if br(X.lt(n, ZERO)) or not br(X.lt(n, X.const(len(xs)))):
                        raise IndexError("list index out of range")
                    k = "f" if any(S.kind_of(x) == "f" for x in xs) else "i"
                    return S.mknum(DenseC([S.node_of(x) for x in xs]).get(n), k)
                return list.__getitem__(self, S.E.concretize(i.n))
            r = list.__getitem__(self, i)
            return PList(r) if isinstance(i, slice) else r
        if isinstance(i, slice):
            s, e, st = norm_slice(i, S.node_of(self._symlen()))
            if st != 1:
                raise Unsupported("strided slice of a symbolic list")
            r = PList()
            me = PList()
            me._segs = list(self._segs)

            def at(k):
                sg, o = me._locate(S.mkint(X.add(s, k)))
                return sg.at(o)

            r._segs = [Seg(X.sub(e, s), at)]
            return r
        sg, o = self._locate(i)
        return sg.at(o)

    def __setitem__(self, i, v):
        if self._segs is not None:
            raise Unsupported("item assignment in a symbolic list")
        if isinstance(i, SNum):
            i = S.E.concretize(i.n)
        list.__setitem__(self, i, v)

    def _nosegs(self, what):
        if self._segs is not None:
            n = S.E.concretize(S.node_of(self._symlen()), 64)
            xs = list(self._it())
            self._segs = None
            list.extend(self, xs)

    def insert(self, i, v):
        self._nosegs("insert")
        list.insert(self, i, v)

    def pop(self, *a):
        self._nosegs("pop")
        return list.pop(self, *a)

    def remove(self, v):
        self._nosegs("remove")
        for k, x in enumerate(list.__iter__(self)):
            if x is v or x == v:
                list.__delitem__(self, k)
                return
        raise ValueError("list.remove(x): x not in list")

    def __delitem__(self, i):
        self._nosegs("del")
        list.__delitem__(self, i)

    def __contains__(self, v):
        for x in self:
            if x is v or x == v:
                return True
        return False

    def index(self, v, *a):
        for k, x in enumerate(self):
            if x is v or x == v:
                return k
        raise ValueError("not in list")

    def count(self, v):
        return sum(1 for x in self if x is v or x == v)

    def sort(self, **k):
        self._nosegs("sort")
        list.sort(self, **k)

    def reverse(self):
        self._nosegs("reverse")
        list.reverse(self)

    def copy(self):
        return self[:]

    def __mul__(self, n):
        if isinstance(n, SNum):
            xs = list(list.__iter__(self))
            if len(xs) == 1 and self._segs is None:
                r = PList()
                x = xs[0]
                if br(X.le(n.n, ZERO)):
                    return r
                r._segs = [Seg(n.n, lambda i: x)]
                return r
            n = S.E.concretize(n.n)
        self._nosegs("mul")
        return PList(list.__mul__(self, n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, list):
            return False
        if len(self) != len(o):
            return False
        for a, b in zip(self, o):
            if not (a is b or a == b):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __reversed__(self):
        self._nosegs("reversed")
        return list.__reversed__(self)

    def _sym_minmax(self, mn):
        xs = list(self)
        return (S.pymin if mn else S.pymax)(*xs) if len(xs) > 1 else (xs[0] if xs else _empty_minmax())

    def _sym_sum(self):
        if self._segs is None:
            r = 0
            for x in list.__iter__(self):
                r = r + x
            return r
        return S.pysum(list(self._it()))

    def __deepcopy__(self, memo):
        import copy

        r = PList()
        memo[id(self)] = r
        if self._segs is not None:
            r._segs = list(self._segs)
        else:
            for x in list.__iter__(self):
                list.append(r, copy.deepcopy(x, memo))
        return r

    def __reduce_ex__(self, p):
        return (PList, (list(self),))


def _empty_minmax():
    raise ValueError("max() arg is an empty sequence")


def one(x):
    return Seg(ONE, lambda i: x)


# ---------------------------------------------------------------- constructors
def as_const_c(v, dt=None):
    k = S.kind_of(v)
    if k is None:
        return "O", v
    return k, (S.bnode_of(v) if k == "b" else S.node_of(v))


def asarr(x, dt=None):
    """coerce to SArr / SMat (no copy)"""
    d = dtk(dt)
    if isinstance(x, (SArr, SMat)):
        return x if d is None or x.dt == d else x.astype(d)
    if hasattr(x, "_sarr"):
        return asarr(x._sarr(), dt)
    s = seg_of(x)
    if s is not None:
        parts = []
        k = "i"
        for sg in s:
            probe = sg.at(ZERO)
            kk = S.kind_of(probe)
            if kk is None:
                raise Unsupported("array from symbolic sequence of objects")
            k = promote(k, kk) if parts else kk
            parts.append((sg.ln, FnC((lambda g: lambda i: S.node_of(g.at(i)))(sg))))
        if len(s) == 1 and isinstance(x, SRange):
            return SArr(x.ln, d or "i", ArangeC(x.a, X.const(x.step)))
        tot = ZERO
        for ln, c in parts:
            tot = X.add(tot, ln)
        a = SArr(tot, k, CatC(parts) if len(parts) != 1 else parts[0][1])
        return a if d is None else a.astype(d)
    if isinstance(x, (int, float, SNum, SBool, bool)) or S.kind_of(x) is not None:
        k, v = as_const_c(x)
        a = SArr(ONE, k, ConstC(v), 0)
        return a if d is None else a.astype(d)
    if isinstance(x, (list, tuple, range, SRange)) or (hasattr(x, "__iter__") and not isinstance(x, (str, dict, bytes))):
        if type(x).__module__ == "numpy":
            x = x.tolist()
        xs = list(x)
        if xs and all(isinstance(e, (list, tuple, SArr, SRange)) and not (isinstance(e, SArr) and e.nd == 0) for e in xs):
            rows = [asarr(e) for e in xs]
            if any(isinstance(r, SMat) for r in rows):
                raise Unsupported("3-d array")
            n = rows[0].ln
            for r in rows[1:]:
                if r.ln is not n and br(X.not_(X.eq(r.ln, n))):
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            k = d or promote(*[r.dt for r in rows])
            return SMat([SArr(r.ln, k, conv(r.c, r.dt, k)) for r in rows], n)
        if any(isinstance(e, (list, tuple)) or (isinstance(e, SArr) and e.nd == 1) for e in xs):
            xs2 = []
            for e in xs:
                if isinstance(e, SArr) and e.nd == 1:
                    raise ValueError("setting an array element with a sequence.")
                xs2.append(e)
            raise ValueError("setting an array element with a sequence.")
        ks = []
        vs = []
        for e in xs:
            if isinstance(e, SArr):
                e = elem(e.c.get(ZERO), e.dt)
            k, v = as_const_c(e)
            ks.append(k)
            vs.append(v)
        if "O" in ks:
            if all(k == "O" for k in ks):
                return SArr(X.const(len(xs)), "O", DenseC(list(xs)))
            return SArr(X.const(len(xs)), "O", DenseC(list(xs)))
        k = promote(*ks) if ks else "f"
        if k != "b":
            vs = [X.ite(v, ONE, ZERO) if q == "b" else v for q, v in zip(ks, vs)]
        a = SArr(X.const(len(vs)), k, DenseC(vs))
        return a if d is None else a.astype(d)
    a = SArr(ONE, "O", ConstC(x), 0)
    return a


def array(x, dtype=None, copy=True, **k):
    a = asarr(x, dtype)
    if a is x or (isinstance(a, SArr) and a.parent is not None):
        a = a.copy()
    return a


def asarray(x, dtype=None, **k):
    return asarr(x, dtype)


def _full(shape, v, dt):
    if isinstance(shape, (tuple, list)) and len(shape) == 2:
        r = shape[0]
        r = S.E.concretize(S.node_of(r)) if isinstance(r, SNum) else r
        if S.kind_of(r) == "f":
            raise TypeError("'float' object cannot be interpreted as an integer")
        nc = chk_dim(nlen(shape[1]))
        return SMat([SArr(nc, dt, ConstC(v)) for _ in range(int(r))], nc)
    if isinstance(shape, (tuple, list)) and len(shape) == 0:
        return SArr(ONE, dt, ConstC(v), 0)
    if isinstance(shape, (tuple, list)) and len(shape) > 2:
        raise Unsupported("3-d array")
    if isinstance(shape, SArr) and shape.nd == 1 and shape.clen() == 2:
        return _full(tuple(shape), v, dt)
    n = chk_dim(nlen(shape))
    return SArr(n, dt, ConstC(v))


def zeros(shape, dtype=float, **k):
    d = dtk(dtype)
    return _full(shape, X.FALSE if d == "b" else ZERO, d)


def ones(shape, dtype=float, **k):
    d = dtk(dtype)
    return _full(shape, X.TRUE if d == "b" else ONE, d)


def empty(shape, dtype=float, **k):
    d = dtk(dtype)
    a = _full(shape, ZERO, d)
    nm = S.E.fresh("empty", R).args[1][0][0][0].extra

    def rnd(tag):
        return FnC(lambda i: X.uf("%s_%s" % (nm, tag), (i,), I if d == "i" else R))

    if isinstance(a, SMat):
        for k, r in enumerate(a.rows):
            r._c = rnd(k)
    else:
        a._c = rnd("v")
    return a


def full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, SArr):
        if fill_value.nd == 0 or fill_value.clen() == 1:
            fill_value = elem(fill_value.c.get(ZERO), fill_value.dt)
        else:
            a = _full(shape, ZERO, dtk(dtype) or fill_value.dt)
            a[:] = fill_value
            return a
    if isinstance(fill_value, (list, tuple)):
        fill_value = asarr(fill_value)
        a = _full(shape, ZERO, dtk(dtype) or fill_value.dt)
        a[:] = fill_value
        return a
    kd, v = as_const_c(fill_value)
    a = _full(shape, v, kd)
    d = dtk(dtype)
    return a if d is None or d == kd else a.astype(d)


def zeros_like(a, dtype=None, **k):
    a = asarr(a)
    return a.astype(dtype or _DT(a.dt)) * 0 if a.dt != "b" else zeros(a.shape, bool)


def ones_like(a, dtype=None, **k):
    return zeros_like(a, dtype) + 1


def full_like(a, v, dtype=None, **k):
    a = asarr(a)
    r = zeros_like(a, dtype)
    r[:] = v
    return r


empty_like = zeros_like


def arange(*a, **k):
    a = [x._scalar() if isinstance(x, SArr) else x for x in a]
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    elif len(a) >= 3:
        start, stop, step = a[:3]
    start = k.get("start", start)
    stop = k.get("stop", stop)
    step = k.get("step", step)
    ks = [S.kind_of(x) for x in (start, stop, step)]
    ns, ne, nst = S.node_of(start), S.node_of(stop), S.node_of(step)
    dt = "f" if "f" in ks else "i"
    if not X.is_const(nst):
        nst = X.const(S.E.concretize(nst))
    sv = X.const_val(nst)
    if sv == 0:
        raise ZeroDivisionError("division by zero")
    d = X.sub(ne, ns) if sv > 0 else X.sub(ns, ne)
    if br(X.le(d, ZERO)):
        ln = ZERO
    elif abs(sv) == 1:
        ln = X.neg(X.floor(X.neg(d)))
    elif isinstance(sv, int) and d.sort == I:
        ln = X.idiv(X.add(d, X.const(abs(sv) - 1)), X.const(abs(sv)))
    else:
        from fractions import Fraction

        ln = X.neg(X.floor(X.scale(d, -1 / Fraction(abs(sv)))))
    r = SArr(ln, dt, ArangeC(ns, nst))
    d = dtk(k.get("dtype"))
    return r if d is None else r.astype(d)


def linspace(a, b, n=50, **k):
    n = n if isinstance(n, int) else S.E.concretize(n.n)
    from fractions import Fraction

    na, nb = S.node_of(a), S.node_of(b)
    if n <= 1:
        return SArr(X.const(n), "f", ConstC(na))
    if k.get("endpoint", True):
        st = X.scale(X.sub(nb, na), Fraction(1, n - 1))
    else:
        st = X.scale(X.sub(nb, na), Fraction(1, n))
    return SArr(X.const(n), "f", ArangeC(na, st))


def concatenate(arrs, axis=0, **k):
    arrs = [asarr(a) for a in arrs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    if any(isinstance(a, SMat) for a in arrs):
        if axis in (0,):
            rows = []
            for a in arrs:
                rows += a.rows if isinstance(a, SMat) else [a]
            return SMat(rows, rows[0].ln)
        rows = []
        for k in range(len(arrs[0].rows)):
            rows.append(concatenate([a.rows[k] for a in arrs]))
        return SMat(rows, rows[0].ln)
    if any(a.nd == 0 for a in arrs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    return _cat(arrs)


def _cat(arrs):
    dt = promote(*[a.dt for a in arrs])
    if "O" in [a.dt for a in arrs]:
        xs = []
        for a in arrs:
            xs += [x if a.dt == "O" else elem(x, a.dt) for x in a.nodes()]
        return SArr(X.const(len(xs)), "O", DenseC(xs))
    arrs = [a for a in arrs if a.ln is not ZERO] or arrs[:1]
    if all(a.clen() is not None for a in arrs) and sum(a.clen() for a in arrs) <= 200:
        xs = []
        for a in arrs:
            c = conv(a.c, a.dt, dt)
            xs += [c.get(X.const(k)) for k in range(a.clen())]
        return SArr(X.const(len(xs)), dt, DenseC(xs))
    tot = ZERO
    parts = []
    for a in arrs:
        tot = X.add(tot, a.ln)
        parts.append((a.ln, conv(a.c, a.dt, dt)))
    return SArr(tot, dt, CatC(parts) if len(parts) > 1 else parts[0][1])


def flat(a):
    a = asarr(a)
    if isinstance(a, SMat):
        if not a.rows:
            return SArr(ZERO, "f", DenseC([]))
        return _cat([SArr(r.ln, r.dt, r.c) for r in a.rows])
    return SArr(a.ln, a.dt, a.c, 1)


def append(a, b, axis=None):
    if axis is not None:
        return concatenate([a, b], axis)
    return _cat([flat(a), flat(b)])


def hstack(arrs, **k):
    arrs = [asarr(a) for a in arrs]
    if arrs and isinstance(arrs[0], SMat):
        return concatenate(arrs, axis=1)
    return _cat([a if a.nd else SArr(ONE, a.dt, a.c) for a in arrs])


def vstack(arrs, **k):
    rows = []
    for a in arrs:
        a = asarr(a)
        if isinstance(a, SMat):
            rows += a.rows
        else:
            rows.append(SArr(a.ln, a.dt, a.c))
    if not rows:
        raise ValueError("need at least one array to concatenate")
    n = rows[0].ln
    for r in rows[1:]:
        if r.ln is not n and br(X.not_(X.eq(r.ln, n))):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    return SMat(rows, n)


def stack(arrs, axis=0, **k):
    if axis != 0:
        return vstack(arrs).T
    return vstack(arrs)


def diff(a, n=1, **k):
    a = asarr(a)
    if isinstance(a, SMat):
        return SMat([diff(r) for r in a.rows], X.sub(a.nc, ONE))
    if a.nd == 0:
        raise ValueError("diff requires input that is at least one dimensional")
    if a.clen() is not None:
        xs = a.nodes()
        if a.dt == "b":
            raise Unsupported("diff of booleans")
        return SArr(X.const(max(0, len(xs) - 1)), a.dt, DenseC([X.sub(xs[k + 1], xs[k]) for k in range(len(xs) - 1)]))
    c = a.c
    if br(X.eq(a.ln, ZERO)):
        return SArr(ZERO, a.dt, DenseC([]))
    return SArr(X.sub(a.ln, ONE), a.dt, FnC(lambda i: X.sub(c.get(X.add(i, ONE)), c.get(i))))


def put(a, ind, v, mode="raise"):
    if not isinstance(a, SArr):
        raise TypeError("argument 1 must be numpy.ndarray")
    ix = asarr(ind)
    va = asarr(v)
    if isinstance(va, SMat):
        va = flat(va)
    if ix.nd == 0:
        ix = SArr(ONE, ix.dt, ix.c)
    if ix.dt == "b" or ix.dt == "f":
        raise TypeError("Cannot cast array data to int64")
    if va.nd == 0:
        va = SArr(ONE, va.dt, va.c)
    if br(X.eq(ix.ln, ZERO)) or br(X.eq(va.ln, ZERO)):
        return
    vc = conv(va.c, va.dt, a.dt)
    ic = a._idx(ix)
    s = None
    if isinstance(ic, ArangeC) and ic.step is ONE:
        s = ic.start
    elif isinstance(ic, ViewC) and isinstance(ic.c, ArangeC) and ic.c.step is ONE and ic.step == 1:
        s = ic.get(ZERO)
    if s is not None:
        if isinstance(vc, ConstC) or va.ln is ONE:
            a.set_c(s, X.add(s, ix.ln), 1, ConstC(vc.get(ZERO)))
        elif va.ln is ix.ln or not br(X.lt(va.ln, ix.ln)):
            a.set_c(s, X.add(s, ix.ln), 1, vc)
        else:
            m = va.ln
            a.set_c(s, X.add(s, ix.ln), 1, FnC(lambda i: vc.get(X.imod(i, m))))
        return
    n = ix.clen()
    if n is None:
        n = S.E.concretize(ix.ln, 64)
    m = va.clen()
    if m is None:
        m = S.E.concretize(va.ln, 64)
    for k in range(n):
        p = ic.get(X.const(k))
        a.set_c(p, X.add(p, ONE), 1, ConstC(vc.get(X.const(k % m))))


def place(a, mask, vals):
    a[asarr(mask)] = vals


def squeeze(a, *k):
    if isinstance(a, SMat):
        if len(a.rows) == 1:
            r = a.rows[0]
            if br(X.eq(r.ln, ONE)):
                return SArr(ONE, r.dt, r.c, 0)
            return r
        if br(X.eq(a.nc, ONE)):
            return a[:, 0]
        return a
    a = asarr(a)
    if a.nd == 0:
        return a
    if br(X.eq(a.ln, ONE)):
        return SArr(ONE, a.dt, a.c, 0)
    return SArr(a.ln, a.dt, a.c, 1) if a.nd == 2 else a


def _by_columns(a):
    """elements of a matrix column after column"""
    nr = len(a.rows)
    if nr == 1:
        return flat(a)

    def f(i):
        col = X.idiv(i, X.const(nr))
        row = X.sub(i, X.scale(col, nr))
        r = a.rows[-1].c.get(col)
        for q in range(nr - 2, -1, -1):
            r = X.ite(X.eq(row, X.const(q)), a.rows[q].c.get(col), r)
        return r

    return SArr(X.scale(a.nc, nr), a.dt, FnC(f))


def reshape(a, *sh, **k):
    if k.get("order", "C") == "F" and isinstance(a, SMat) and len(sh) == 1 and not isinstance(sh[0], (tuple, list)) and a.rows:
        return reshape(_by_columns(a), *sh)
    if k.get("order", "C") not in ("C", "A", "K"):
        raise Unsupported("reshape in another order")
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
        sh = tuple(sh[0])
    f = flat(a)
    sh = [S.node_of(x) for x in sh]
    m1 = X.const(-1)
    if len(sh) == 1:
        if sh[0] is not m1 and br(X.not_(X.eq(sh[0], f.ln))):
            raise ValueError("cannot reshape array")
        return f
    if len(sh) == 2:
        r, c = sh
        if r is ONE:
            if c is not m1 and br(X.not_(X.eq(c, f.ln))):
                raise ValueError("cannot reshape array of size into shape")
            return SMat([f], f.ln)
        if c is ONE:
            if r is not m1 and br(X.not_(X.eq(r, f.ln))):
                raise ValueError("cannot reshape array")
            return SArr(f.ln, f.dt, f.c, 2)
        if r is m1:
            r = X.idiv(f.ln, c)
        if c is m1:
            c = X.idiv(f.ln, r)
        if br(X.not_(X.eq(X.mul(r, c), f.ln))):
            raise ValueError("cannot reshape array")
        nr = S.E.concretize(r)
        rows = []
        for q in range(nr):
            rows.append(SArr(c, f.dt, view_c(f.c, X.scale(c, q), 1)))
        return SMat(rows, c)
    raise Unsupported("3-d reshape")


def transpose(a, *k):
    a = asarr(a)
    return a.transpose() if isinstance(a, SMat) else a


def sort_breaks(a):
    """ordered distinct positions inside (0, ln) where a piecewise constant content may change"""
    b = a.c.brk()
    if b is None:
        return None
    if X.is_const(a.ln) and all(X.is_const(x) for x in b):
        n = X.const_val(a.ln)
        return [X.const(k) for k in sorted(set(X.const_val(x) for x in b)) if 0 < k < n]
    out = []
    for x in b:
        if x.op == "poly" and qk(X.le(x, ZERO)) is True:
            continue
        if br(X.le(x, ZERO)) or not br(X.lt(x, a.ln)):
            continue
        k = 0
        dup = False
        while k < len(out):
            if out[k] is x or br(X.eq(x, out[k])):
                dup = True
                break
            if br(X.lt(x, out[k])):
                break
            k += 1
        if not dup:
            out.insert(k, x)
    return out


def pieces(a):
    """[(lo, hi, value term)] covering the array, or None when it is not piecewise constant"""
    if a.clen() is not None and a.clen() <= DENSE_MAX:
        return [(X.const(k), X.const(k + 1), n) for k, n in enumerate(a.nodes())]
    b = sort_breaks(a)
    if b is None:
        if a.clen() is not None and a.clen() <= 3000:
            ns = a.nodes()
            if all(X.is_const(n) or n in (X.TRUE, X.FALSE) for n in ns):
                r = []
                for k, n in enumerate(ns):
                    if r and r[-1][2] is n:
                        r[-1] = (r[-1][0], X.const(k + 1), n)
                    else:
                        r.append((X.const(k), X.const(k + 1), n))
                return r
        return None
    if br(X.le(a.ln, ZERO)):
        return []
    pts = [ZERO] + b + [a.ln]
    c = a.c
    return [(pts[k], pts[k + 1], c.get(pts[k])) for k in range(len(pts) - 1)]


def true_positions(m):
    """index array of the True elements"""
    if m.dt != "b":
        m = m != 0
    if m.nd == 0:
        m = SArr(ONE, m.dt, m.c)
    ps = pieces(m)
    if ps is None:
        raise Unsupported("positions in a mask that is not piecewise constant")
    segs = []
    for lo, hi, v in ps:
        if br(v):
            if segs and segs[-1][1] is lo:
                segs[-1] = (segs[-1][0], hi)
            else:
                segs.append((lo, hi))
    if not segs:
        return SArr(ZERO, "i", DenseC([]))
    if all(X.is_const(lo) and X.is_const(hi) for lo, hi in segs) and sum(X.const_val(h) - X.const_val(l) for l, h in segs) <= 64:
        xs = [X.const(k) for l, h in segs for k in range(X.const_val(l), X.const_val(h))]
        return SArr(X.const(len(xs)), "i", DenseC(xs))
    tot = ZERO
    parts = []
    for lo, hi in segs:
        n = X.sub(hi, lo)
        parts.append((n, ArangeC(lo)))
        tot = X.add(tot, n)
    a = SArr(tot, "i", CatC(parts) if len(parts) > 1 else parts[0][1])
    a.sorted_idx = True
    return a


def where(cond, x=None, y=None):
    c = asarr(cond)
    if x is None and y is None:
        if isinstance(c, SMat):
            raise Unsupported("where on a matrix")
        return (true_positions(c),)
    if isinstance(c, SMat):
        rx = x if not isinstance(x, SMat) else None
        rows = []
        for k, r in enumerate(c.rows):
            rows.append(where(r, x.rows[k] if isinstance(x, SMat) else x, y.rows[k] if isinstance(y, SMat) else y))
        return SMat(rows, c.nc)
    cb = c if c.dt == "b" else (c != 0)
    ax, ay = asarr(x), asarr(y)
    dt = promote(ax.dt, ay.dt)
    t = SArr(cb.ln, "b", cb.c, cb.nd)
    for a in (ax, ay):
        if a.nd == 1:
            _, _, ln, nd = broadcast(t, a)
            t = SArr(ln, "b", t.c if t.nd else ConstC(t.c.get(ZERO)), nd)
    cx = conv(ax.c if ax.nd else ConstC(ax.c.get(ZERO)), ax.dt, dt)
    cy = conv(ay.c if ay.nd else ConstC(ay.c.get(ZERO)), ay.dt, dt)
    ln = t.ln
    if t.nd == 0:
        return SArr(ONE, dt, ConstC(X.ite(t.c.get(ZERO), cx.get(ZERO), cy.get(ZERO))), 0)
    if X.is_const(ln) and X.const_val(ln) <= DENSE_MAX:
        return SArr(ln, dt, DenseC([X.ite(t.c.get(X.const(k)), cx.get(X.const(k)), cy.get(X.const(k))) for k in range(X.const_val(ln))]))
    return SArr(ln, dt, OpC(lambda p, q, r: X.ite(p, q, r), [t.c, cx, cy]))


def argwhere(a):
    p = true_positions(asarr(a))
    r = SArr(p.ln, "i", p.c, 2)
    return r


def flatnonzero(a):
    return true_positions(flat(a))


def nonzero(a):
    return (true_positions(asarr(a)),)


def count_nonzero(a, **k):
    a = flat(a)
    if a.dt != "b":
        a = a != 0
    return asum(a)


def asum(a, axis=None, **k):
    a = asarr(a)
    if isinstance(a, SMat):
        if axis in (0, -2):
            r = a.rows[0]
            if r.dt == "b":
                r = r.astype(int)
            r = r.copy()
            for q in a.rows[1:]:
                r = r + q
            return r
        if axis in (1, -1):
            return asarr([asum(r) for r in a.rows])
        t = 0
        for r in a.rows:
            t = t + asum(r)
        return t
    dt = "i" if a.dt == "b" else a.dt
    c = conv(a.c, a.dt, dt)
    n = a.clen()
    if n is not None and n <= 64:
        t = ZERO
        for k in range(n):
            t = X.add(t, c.get(X.const(k)))
        return elem(t, dt)
    b = SArr(a.ln, dt, c)
    if isinstance(c, ArangeC) or isinstance(c, CatC) and all(isinstance(x[1], ArangeC) for x in c.parts):
        return elem(_arange_sum(b), dt)
    ps = None
    try:
        ps = pieces(b)
    except S.PathLimit:
        raise
    if ps is not None:
        t = ZERO
        for lo, hi, v in ps:
            t = X.add(t, X.mul(X.sub(hi, lo), v))
        return elem(t, dt)
    if n is None:
        n = S.E.concretize(a.ln, 64)
    if n <= 3000:
        t = ZERO
        for k in range(n):
            t = X.add(t, c.get(X.const(k)))
        return elem(t, dt)
    raise Unsupported("sum of a long symbolic array")


def _arange_sum(b):
    parts = [(b.ln, b.c)] if isinstance(b.c, ArangeC) else b.c.parts
    from fractions import Fraction

    t = ZERO
    for n, c in parts:
        tri = X.scale(X.mul(n, X.sub(n, ONE)), Fraction(1, 2))
        t = X.add(t, X.add(X.mul(n, c.start), X.mul(c.step, tri)))
    return t


def mean(a, axis=None, **k):
    a = asarr(a)
    if isinstance(a, SMat) and axis is not None:
        if axis in (0, -2):
            return asum(a, 0) / len(a.rows)
        return asarr([mean(r) for r in a.rows])
    f = flat(a)
    if f.dt == "i" and f.clen() is None and getattr(a, "sorted_idx", True) and _sorted_aranges(f.c):
        # average of increasing index runs: bounded by its first and last element
        m = S.E.fresh("avg", R)
        if not br(X.le(f.ln, ZERO)):
            S.E.axiom(X.le(f.c.get(ZERO), m))
            S.E.axiom(X.le(m, f.c.get(X.sub(f.ln, ONE))))
            if isinstance(f.c, ArangeC):
                S.E.axiom(X.eq(X.scale(m, 2), X.add(f.c.get(ZERO), f.c.get(X.sub(f.ln, ONE)))))
            return elem(m, "f")
    if f.ln is ZERO or (not X.is_const(f.ln) and br(X.eq(f.ln, ZERO))):
        return float("nan")
    if isinstance(f.c, ConstC) and f.dt != "b":
        return elem(f.c.v, "f")
    s = asum(f)
    return elem(X.rdiv(S.node_of(s), f.ln), "f")


def _sorted_aranges(c):
    if isinstance(c, ArangeC):
        return c.step is ONE
    return isinstance(c, CatC) and all(isinstance(x[1], ArangeC) and x[1].step is ONE for x in c.parts)


def average(a, axis=None, weights=None, **k):
    if weights is not None:
        raise Unsupported("weighted average")
    return mean(a, axis)


def median(a, **k):
    a = flat(a)
    xs = [SNum(n, a.dt) for n in a.nodes(12)]
    xs = sorted(xs)
    n = len(xs)
    if n % 2:
        return elem(xs[n // 2].n, "f")
    return elem(X.scale(X.add(xs[n // 2 - 1].n, xs[n // 2].n), 1) if False else S.node_of((xs[n // 2 - 1] + xs[n // 2]) / 2), "f")


def _ext_arr(a, axis, mn):
    a = asarr(a)
    if isinstance(a, SMat):
        if axis in (0, -2):
            r = a.rows[0].copy()
            for q in a.rows[1:]:
                r = r._bin(q, F_MIN if mn else F_MAX, dt_arith)
            return r
        if axis in (1, -1):
            return asarr([_ext_arr(r, None, mn) for r in a.rows])
        a = flat(a)
    if a.nd == 0:
        return elem(a.c.get(ZERO), a.dt)
    if br(X.eq(a.ln, ZERO)):
        raise ValueError("zero-size array to reduction operation has no identity")
    if a.dt == "b":
        return all_(a) if mn else any_(a)
    c = a.c
    if isinstance(c, ArangeC) and X.is_const(c.step):
        up = X.const_val(c.step) >= 0
        return elem(c.get(ZERO) if up == mn else c.get(X.sub(a.ln, ONE)), a.dt)
    if isinstance(c, CatC) and _sorted_aranges(c) and getattr(a, "sorted_idx", False):
        return elem(c.get(ZERO) if mn else c.get(X.sub(a.ln, ONE)), a.dt)
    ps = pieces(a)
    if ps is None:
        if a.clen() is not None and a.clen() <= 2000:
            ps = [(None, None, n) for n in a.nodes()]
        else:
            raise Unsupported("max of a long symbolic array")
    r = ps[0][2]
    for lo, hi, v in ps[1:]:
        if v is r:
            continue
        # decide by forking: keeps the terms simple
        if br(X.lt(v, r) if mn else X.lt(r, v)):
            r = v
    return elem(r, a.dt)


def amax(a, axis=None, **k):
    return _ext_arr(a, axis, False)


def amin(a, axis=None, **k):
    return _ext_arr(a, axis, True)


def argmax(a, axis=None, **k):
    a = asarr(a)
    m = amax(a)
    if a.dt == "b":
        p = true_positions(a)
        if br(X.eq(p.ln, ZERO)):
            return SNum(ZERO, "i", True)
        return elem(p.c.get(ZERO), "i")
    p = true_positions(a == m)
    return elem(p.c.get(ZERO), "i")


def argmin(a, axis=None, **k):
    return argmax(-asarr(a))


def _quant(a, all_q):
    a = asarr(a)
    a = flat(a)
    if a.dt == "O":
        return all(bool(x) for x in a.nodes()) if all_q else any(bool(x) for x in a.nodes())
    if a.dt != "b":
        a = SArr(a.ln, "b", mapc(lambda n: X.not_(X.eq(n, ZERO)), a.c))
    n = a.clen()
    c = a.c
    if isinstance(c, ConstC):
        t = c.v if all_q else c.v
        if n is not None:
            if n == 0:
                return SBool(X.bconst(all_q))
            return SBool(t)
        e = X.le(a.ln, ZERO)
        return SBool(X.or_(e, t) if all_q else X.and_(X.not_(e), t))
    if n is not None and n <= 400:
        ns = a.nodes()
        return SBool(X.and_(*ns) if all_q else X.or_(*ns))
    ps = pieces(a)
    if ps is not None:
        return SBool(X.and_(*[v for _, _, v in ps]) if all_q else X.or_(*[v for _, _, v in ps]))
    if n is not None and n <= 3000:
        ns = a.nodes()
        return SBool(X.and_(*ns) if all_q else X.or_(*ns))
    raise Unsupported("any/all of a long symbolic array")


def any_(a, axis=None, **k):
    return _quant_along(a, axis, False)


def all_(a, axis=None, **k):
    return _quant_along(a, axis, True)


def _quant_along(a, axis, every):
    if isinstance(a, SMat):
        if axis in (1, -1):
            return asarr([_quant(r, every) for r in a.rows])
        if axis is not None:
            raise Unsupported("any or all along the rows")
        return _quant(flat(a), every)
    if axis not in (None, 0, -1):
        raise Unsupported("any or all along axis %r" % (axis,))
    return _quant(a, every)


def clip(a, lo=None, hi=None, **k):
    lo = k.get("a_min", lo)
    hi = k.get("a_max", hi)
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def _mm(a, b, f):
    if not isinstance(a, (SArr, SMat, list, tuple)) and not isinstance(b, (SArr, SMat, list, tuple)):
        k = "f" if "f" in (S.kind_of(a), S.kind_of(b)) else "i"
        return SNum(f(S.node_of(a), S.node_of(b)), k, True)
    if isinstance(a, (SArr, SMat, list, tuple)):
        return asarr(a)._bin(b, f, dt_arith)
    return asarr(b)._bin(a, f, dt_arith, True)


def minimum(a, b, **k):
    return _mm(a, b, F_MIN)


def maximum(a, b, **k):
    return _mm(a, b, F_MAX)


def cumsum(a, **k):
    a = flat(a)
    t = ZERO
    xs = []
    for n in conv(a.c, a.dt, "i" if a.dt == "b" else a.dt) and SArr(a.ln, "i" if a.dt == "b" else a.dt, conv(a.c, a.dt, "i" if a.dt == "b" else a.dt)).nodes(400):
        t = X.add(t, n)
        xs.append(t)
    return SArr(X.const(len(xs)), "i" if a.dt == "b" else a.dt, DenseC(xs))


def repeat(a, n, axis=None):
    a = flat(a)
    if isinstance(n, (list, tuple)) or isinstance(n, SArr) and n.nd == 1:
        n = list(n)
        xs = list(a)
        if len(n) == 1:
            n = n[0]
        elif len(n) != len(xs):
            raise ValueError("operands could not be broadcast together")
        else:
            if any(isinstance(k, float) or isinstance(k, SNum) and k.k == "f" for k in n):
                raise TypeError("Cannot cast array data from dtype('float64') to dtype('int64') according to the rule 'safe'")
            kind = {"f": float, "i": int, "b": bool}.get(a.dt)
            if kind is None:
                raise Unsupported("repeat")
            return concatenate([full(k, x, kind) for k, x in zip(n, xs)])
    nn = S.node_of(n)
    if isinstance(a.c, ConstC) or a.clen() == 1:
        return SArr(X.mul(a.ln, nn), a.dt, ConstC(a.c.get(ZERO)))
    c = a.c
    return SArr(X.mul(a.ln, nn), a.dt, FnC(lambda i: c.get(X.idiv(i, nn))))


def tile(a, n):
    a = flat(a)
    if isinstance(n, (tuple, list)):
        if len(n) == 2:
            return SMat([tile(a, n[1]) for _ in range(n[0])], X.mul(a.ln, S.node_of(n[1])))
        n = n[0]
    nn = S.node_of(n)
    c, ln = a.c, a.ln
    if isinstance(c, ConstC):
        return SArr(X.mul(ln, nn), a.dt, c)
    return SArr(X.mul(ln, nn), a.dt, FnC(lambda i: c.get(X.imod(i, ln))))


def resize(a, n):
    a = flat(a)
    nn = nlen(n)
    c, ln = a.c, a.ln
    return SArr(nn, a.dt, c if isinstance(c, ConstC) else FnC(lambda i: c.get(X.imod(i, ln))))


def flip(a, axis=None):
    return asarr(a)[::-1]


def roll(a, k, axis=None):
    a = asarr(a)
    c, ln, kk = a.c, a.ln, S.node_of(k)
    return SArr(ln, a.dt, FnC(lambda i: c.get(X.imod(X.sub(i, kk), ln))))


def sort(a, **k):
    a = flat(a)
    if isinstance(a.c, ArangeC) and a.c.step is ONE:
        return a
    xs = sorted((SNum(n, a.dt) for n in a.nodes(64)))
    return SArr(a.ln, a.dt, DenseC([x.n for x in xs]))


def unique(a, **k):
    a = flat(a)
    if a.dt == "O":
        xs = []
        for x in a.nodes():
            if x not in xs:
                xs.append(x)
        try:
            xs.sort()
        except TypeError:
            pass
        return SArr(X.const(len(xs)), "O", DenseC(xs))
    if isinstance(a.c, ArangeC) and a.c.step is ONE:
        return a
    out = []
    for n in a.nodes(64):
        dup = False
        k = 0
        for k, y in enumerate(out):
            if br(X.eq(n, y)):
                dup = True
                break
        if dup:
            continue
        k = 0
        while k < len(out) and br(X.lt(out[k], n)):
            k += 1
        out.insert(k, n)
    return SArr(X.const(len(out)), a.dt, DenseC(out))


def isin(a, b, **k):
    a = asarr(a)
    bs = [S.node_of(x) for x in b]
    return SArr(a.ln, "b", mapc(lambda n: X.or_(*[X.eq(n, y) for y in bs]), a.c), a.nd)


in1d = isin


def array_equal(a, b, **k):
    try:
        a, b = asarr(a), asarr(b)
    except Exception:
        return False
    if isinstance(a, SMat) or isinstance(b, SMat):
        if not (isinstance(a, SMat) and isinstance(b, SMat)) or len(a.rows) != len(b.rows):
            return False
        return all(bool(array_equal(x, y)) for x, y in zip(a.rows, b.rows))
    if a.nd != b.nd:
        return False
    if a.nd and br(X.not_(X.eq(a.ln, b.ln))):
        return False
    return bool(all_(a == b))


array_equiv = array_equal


def isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    if not isinstance(a, (SArr, SMat)) and not isinstance(b, (SArr, SMat)):
        d = S.sabs(a - b)
        return SBool(X.le(S.node_of(d), S.node_of(S.sabs(b) * rtol + atol)))
    d = abs(asarr(a) - b)
    return d <= abs(asarr(b)) * rtol + atol


def allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    r = isclose(a, b, rtol, atol)
    return bool(r if isinstance(r, SBool) else all_(r))


def isnan(a, **k):
    if isinstance(a, (SArr, SMat)):
        if isinstance(a, SMat):
            return SMat([isnan(r) for r in a.rows], a.nc)
        if a.dt == "O":
            return asarr([isnan(x) for x in a.nodes()])
        return SArr(a.ln, "b", ConstC(X.FALSE), a.nd)
    if isinstance(a, (list, tuple)):
        return asarr([isnan(x) for x in a])
    if isinstance(a, (SNum, SBool)):
        return False
    if isinstance(a, str) or a is None:
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return a != a


def isfinite(a, **k):
    if isinstance(a, (SArr, SNum)):
        if isinstance(a, SArr) and a.dt == "O":
            return asarr([isfinite(x) for x in a.nodes()])
        return True if isinstance(a, SNum) else SArr(a.ln, "b", ConstC(X.TRUE), a.nd)
    if isinstance(a, (list, tuple)):
        return asarr([isfinite(x) for x in a])
    return _math.isfinite(a)


def _unary(f, dt=None):
    def g(a, *x, **k):
        if isinstance(a, (list, tuple)):
            a = asarr(a)
        if isinstance(a, SMat):
            return SMat([g(r) for r in a.rows], a.nc)
        if isinstance(a, SArr):
            return a._map(f, dt)
        n = S.node_of(a)
        return SNum(f(n), dt or (S.kind_of(a) if S.kind_of(a) != "b" else "i"), True)

    return g


floor = _unary(lambda n: X.floor(n), "f")
ceil = _unary(lambda n: X.neg(X.floor(X.neg(n))), "f")
rint = _unary(lambda n: S.round_node(n), "f")
trunc = fix = _unary(lambda n: S.node_of(S.trunc(SNum(n, "f"))), "f")
absolute = abs_ = fabs = _unary(lambda n: S.node_of(S.sabs(SNum(n, "f" if n.sort == R else "i"))))
sign = _unary(lambda n: X.ite(X.lt(ZERO, n), ONE, X.ite(X.lt(n, ZERO), X.const(-1), ZERO)))
square = _unary(lambda n: X.mul(n, n))
negative = _unary(lambda n: X.neg(n))


def round_(a, decimals=0, **k):
    if isinstance(a, (list, tuple)):
        a = asarr(a)
    if isinstance(a, (SArr, SMat)):
        return a.round(decimals)
    r = S.sround(a, decimals)
    return SNum(S.node_of(r), S.kind_of(a), True)


def multiply(a, b, **k):
    return _lift(a) * b


def add(a, b, **k):
    return _lift(a) + b


def subtract(a, b, **k):
    return _lift(a) - b


def divide(a, b, **k):
    return _lift(a) / b


true_divide = divide


def mod(a, b, **k):
    return _lift(a) % b


remainder = mod


def _lift(a):
    if isinstance(a, (list, tuple)):
        return asarr(a)
    if isinstance(a, (SArr, SMat)):
        return a
    return SNum(S.node_of(a), S.kind_of(a) if S.kind_of(a) != "b" else "i", True)


def equal(a, b, **k):
    return _lift(a) == b


def not_equal(a, b, **k):
    return _lift(a) != b


def less(a, b, **k):
    return _lift(a) < b


def less_equal(a, b, **k):
    return _lift(a) <= b


def greater(a, b, **k):
    return _lift(a) > b


def greater_equal(a, b, **k):
    return _lift(a) >= b


def logical_and(a, b, **k):
    return _b(a) & _b(b)


def logical_or(a, b, **k):
    return _b(a) | _b(b)


def logical_not(a, **k):
    return ~_b(a)


def _b(a):
    if isinstance(a, (list, tuple)):
        a = asarr(a)
    if isinstance(a, SArr):
        return a if a.dt == "b" else (a != 0)
    return SBool(S.bnode_of(a))


def atleast_1d(a):
    a = asarr(a)
    return SArr(ONE, a.dt, a.c) if a.nd == 0 else a


def atleast_2d(a):
    a = asarr(a)
    return SMat([a], a.ln) if a.nd == 1 else a


def insert(a, i, v, axis=None):
    a = flat(a)
    i = i if isinstance(i, int) else S.E.concretize(S.node_of(i))
    return _cat([a[:i], flat(v), a[i:]])


def delete(a, i, axis=None):
    a = flat(a)
    if isinstance(i, int):
        return _cat([a[:i], a[i + 1:]]) if i != -1 else a[:-1]
    raise Unsupported("delete")


def array_split(a, n, **k):
    a = flat(a)
    m = a.clen()
    if m is None or not isinstance(n, int):
        raise Unsupported("array_split")
    out = PList()
    q, r = divmod(m, n)
    o = 0
    for k in range(n):
        w = q + (1 if k < r else 0)
        out.append(a[o:o + w])
        o += w
    return out


def ndim(a):
    return asarr(a).nd


def shape(a):
    return asarr(a).shape


def size(a, axis=None):
    return asarr(a).size


def ravel(a, order="C"):
    return reshape(a, -1, order=order)


def copy(a, **k):
    return asarr(a).copy()


def cast_int(x=0):
    x = x._scalar() if isinstance(x, SArr) else x
    r = S.trunc(x) if not isinstance(x, str) else int(x)
    return SNum(S.node_of(r), "i", True)


def cast_float(x=0.0):
    x = x._scalar() if isinstance(x, SArr) else x
    if isinstance(x, str):
        x = float(x)
    return SNum(S.node_of(x), "f", True)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return cls._chk(x)

    def __call__(cls, *a):
        return cls._mk(*a)


def _mktype(name, chk, mk):
    return _TypeMeta(name, (object,), {"_chk": staticmethod(chk), "_mk": staticmethod(mk), "__name__": name})


def _np_i(x):
    return isinstance(x, SNum) and x.np and x.k == "i"


def _np_f(x):
    return isinstance(x, SNum) and x.np and x.k == "f"


integer = _mktype("integer", _np_i, cast_int)
floating = _mktype("floating", _np_f, cast_float)
number = _mktype("number", lambda x: _np_i(x) or _np_f(x), cast_float)
int64 = _mktype("int64", _np_i, cast_int)
int32 = _mktype("int32", _np_i, cast_int)
intp = int_ = int64
intc = _mktype("intc", _np_i, cast_int)
float64 = _mktype("float64", _np_f, cast_float)
float32 = _mktype("float32", _np_f, cast_float)
double = float_ = float64
bool_ = _mktype("bool_", lambda x: isinstance(x, SBool) and x.np, lambda x=False: SBool(S.bnode_of(x)))
generic = _mktype("generic", lambda x: isinstance(x, (SNum, SBool)) and x.np, cast_float)
ndarray = _mktype("ndarray", lambda x: isinstance(x, (SArr, SMat)), lambda *a: empty(*a))
object_ = object


class _ErrState(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _R(object):
    def __getitem__(self, x):
        x = x if isinstance(x, tuple) else (x,)
        ps = []
        for q in x:
            if isinstance(q, slice):
                ps.append(arange(q.start or 0, q.stop, q.step or 1))
            else:
                ps.append(flat(q))
        return _cat(ps)


def make_module(random_mod=None):
    m = _types.ModuleType("numpy")
    g = globals()
    for n in ("array asarray zeros ones empty full zeros_like ones_like full_like empty_like arange linspace concatenate append hstack vstack stack diff put place squeeze reshape "
              "transpose where argwhere flatnonzero nonzero count_nonzero mean average median amax amin argmax argmin clip minimum maximum cumsum repeat tile resize flip roll sort unique "
              "isin in1d array_equal array_equiv isclose allclose isnan isfinite floor ceil rint trunc fix absolute fabs sign square negative multiply add subtract divide true_divide mod "
              "remainder equal not_equal less less_equal greater greater_equal logical_and logical_or logical_not atleast_1d atleast_2d insert delete array_split ndim shape size ravel copy "
              "integer floating number int64 int32 intp int_ intc float64 float32 double float_ bool_ generic ndarray object_").split():
        setattr(m, n, g[n])
    m.sum = asum
    m.nansum, m.nanmax, m.nanmin, m.nanmean = asum, amax, amin, mean
    m.max, m.min, m.any, m.all, m.abs, m.round, m.around = amax, amin, any_, all_, abs_, round_, round_
    m.split = array_split
    m.asanyarray = m.ascontiguousarray = asarray
    m.prod = lambda a, **k: asarr(a).prod()
    m.nan = m.NaN = m.NAN = float("nan")
    m.inf = m.Inf = float("inf")
    m.pi, m.e = _math.pi, _math.e
    m.newaxis = None
    m.errstate = _ErrState
    m.seterr = lambda **k: {}
    m.r_ = _R()
    m.bool = bool_
    m.__version__ = "1.26.4"
    if random_mod is not None:
        m.random = random_mod

    def _missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("numpy.%s" % name)

    m.__getattr__ = _missing
    return m


from . import attrs as _attrs  # noqa: E402

_attrs.lacking(SArr, "array")
_attrs.lacking(SMat, "array")
_attrs.lacking(SNum, "scalar")
_attrs.strict(globals())
