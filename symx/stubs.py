"""Hooks for calls made by the code under test: constructors that must build symbolic arrays, builtins that must accept
symbolic numbers, and contracts of library routines (LAPACK/BLAS, inverse, least squares, distances, random numbers)."""
import builtins
import math
import functools
import itertools
from fractions import Fraction
import numpy as np
import scipy.linalg
import scipy.spatial.distance as ssd
import scipy.optimize
import z3
from . import val as V, arr as A
from .val import SNum, SBool, SInt, SReal, num, lift
from .arr import SymArray, obj, from_obj, wrap, full, F64, I64, BOOL
from .core import Ctx, Unsupported, Infeasible

TABLE = {}


def hook(*fs):
    def d(g):
        for f in fs:
            TABLE[f] = g
        return g
    return d


def issym(x):
    return isinstance(x, (SymArray, SNum, SBool))


# ------------------------------------------------------------------------------------------- builtins
@hook(float)
def h_float(x=0):
    if isinstance(x, str):
        if hasattr(x, "cell"):
            return x.cell()
        return float(x)
    if isinstance(x, SymArray):
        if x.size != 1 or x.ndim:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        x = x[()]
    if isinstance(x, (SNum, SBool)):
        r = V.as_real(x)
        return SReal(r.p, r.f, getattr(x, "ratio", None))
    if type(x) in (int, np.int64, np.int32):
        return SReal(V.p_const(int(x)))
    return float(x)


@hook(int)
def h_int(x=0, *a):
    if isinstance(x, SymArray):
        if x.ndim:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        x = x[()]
    if isinstance(x, str) and hasattr(x, "cell"):
        raise ValueError("invalid literal for int() with base 10: %r" % x)
    if isinstance(x, (SNum, SBool)):
        return V.to_pyint(V.s_trunc(num(x)))
    return int(x, *a)


@hook(bool)
def h_bool(x=False):
    return bool(x)


@hook(round)
def h_round(x, n=None):
    if isinstance(x, SNum):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def _minmax(name, ismax):
    real = getattr(builtins, name)

    def f(*a, key=None, default=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if key is not None or not xs:
            kw = {}
            if key is not None:
                kw["key"] = hookf(key)
            if not xs and default is not None:
                return default
            return real(xs, **kw)
        if any(isinstance(x, (SNum, SBool)) for x in xs):
            if all(isinstance(x, (SNum, SBool, int, float, np.generic)) for x in xs):
                return V.to_pyint(V.s_minmax(xs, ismax))
        return real(xs)
    return f


TABLE[min] = _minmax("min", False)
TABLE[max] = _minmax("max", True)


@hook(sum)
def h_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


@hook(any)
def h_any(xs):
    return any(bool(x) for x in xs)


@hook(isinstance)
def h_isinstance(x, t):
    if isinstance(x, (SNum, SBool)):
        ts = []

        def fl(q):
            for y in (q if isinstance(q, tuple) else (q,)):
                fl(y) if isinstance(y, tuple) else ts.append(y)
        fl(t)
        if isinstance(x, SBool):
            names = (bool, int, np.bool_)
        elif isinstance(x, SInt):
            names = (int, np.integer, np.int64)
        else:
            names = (float, np.floating, np.float64)
        import numbers
        for y in ts:
            if y in names or y in (object, np.generic, np.number) or (y in (numbers.Number, numbers.Real)) or \
                    (y is numbers.Integral and isinstance(x, SInt)):
                return True
            if y in (SNum, SInt, SReal, SBool) and isinstance(x, y):
                return True
        return False
    return isinstance(x, t)


@hook(print)
def h_print(*a, **k):
    Ctx.cur.events.append(("print",))


class SymRange(object):
    """range with a symbolic step: elements are start, start + step, ... as long as they are inside (case split on each)"""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        if bool(step == 0):
            raise ValueError("range() arg 3 must not be zero")
        self.up = bool(step > 0)

    def __iter__(self):
        x = self.start
        while bool(x < self.stop) if self.up else bool(x > self.stop):
            yield V.to_pyint(x) if isinstance(x, SInt) else x
            x = x + self.step

    def __len__(self):
        return sum(1 for _ in self)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __getitem__(self, k):
        return list(self)[k]

    def __contains__(self, v):
        return any(bool(v == x) for x in self)


@hook(range)
def h_range(*a):
    a = [_reject(x) for x in a]
    if len(a) == 3 and isinstance(a[2], SInt) and a[2].const() is None:
        return SymRange(*[x.__index__() if isinstance(x, (SBool, SymArray)) else x for x in a])
    return range(*[x.__index__() if isinstance(x, (SInt, SBool)) else x for x in a])


@hook(map)
def h_map(f, *xs):
    return map(hookf(f), *xs)


@hook(filter)
def h_filter(f, xs):
    return filter(hookf(f) if f is not None else None, xs)


def _reject(x):
    if isinstance(x, (SReal, float)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return x


@hook(abs)
def h_abs(x):
    return np.abs(x) if isinstance(x, np.ndarray) else abs(x)


@hook(len)
def h_len(x):
    return len(x)


@hook(pow)
def h_pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


@hook(divmod)
def h_divmod(a, b):
    return a // b, a % b


@hook(math.ceil)
def h_mceil(x):
    x = _s(x)
    return V.to_pyint(V.s_ceil(x)) if isinstance(x, SNum) else math.ceil(x)


@hook(math.floor)
def h_mfloor(x):
    x = _s(x)
    return V.to_pyint(V.s_floor(x)) if isinstance(x, SNum) else math.floor(x)


@hook(math.sqrt)
def h_msqrt(x):
    return V.s_sqrt(x) if isinstance(x, SNum) else math.sqrt(x)


@hook(math.exp)
def h_mexp(x):
    return V.s_exp(x) if isinstance(x, SNum) else math.exp(x)


@hook(math.isnan)
def h_misnan(x):
    return A.f_isnan(x)


@hook(math.isinf)
def h_misinf(x):
    return A.f_isinf(x)


@hook(math.log)
def h_mlog(x, *b):
    x = _s(x)
    if isinstance(x, SNum):
        if x.const() is None:
            Ctx.cur.stop(Unsupported("log"))
        x = x.const()
    return math.log(x, *b)


def _s(x):
    return x[()] if isinstance(x, SymArray) and x.ndim == 0 else x


# ------------------------------------------------------------------------------------------- exact arithmetic
def _isnum(x):
    return type(x) in (int, float, np.float64, np.float32, np.int64, np.int32, bool)


def op_div(a, b):
    """a / b of two plain numbers without rounding (integers stay exact)"""
    if _isnum(a) and _isnum(b):
        if float(a).is_integer() and float(b).is_integer() if _fin(a) and _fin(b) else False:
            if b == 0:
                return a / b
            f = Fraction(int(a)) / int(b)
            r = SReal(V.p_const(f))
            r.ratio = (num(int(a)), num(int(b)))
            return r
        return a / b
    return a / b


def _fin(x):
    return x == x and x not in (V.INF, -V.INF)


def op_mod(a, b):
    if isinstance(a, str):
        try:
            return a % fmt(b)
        except TypeError:
            if _hassym(b):
                return a
            raise
    return a % b


def _hassym(b):
    return any(issym(x) for x in (b if isinstance(b, tuple) else (b,)))


def fmt(b):
    if isinstance(b, tuple):
        return tuple(fmt1(x) for x in b)
    return fmt1(b)


class FmtInt(int):
    pass


def fmt1(x):
    x = _s(x)
    if isinstance(x, (SNum, SBool)):
        c = x.const() if isinstance(x, SNum) else None
        return c if c is not None else -987654321
    if isinstance(x, tuple):
        return tuple(fmt1(y) for y in x)
    return x


def op_is(a, b):
    """`x is "literal"` must not depend on string interning: CPython gives False for equal strings built at run time"""
    return a is b


# ------------------------------------------------------------------------------------------- numpy constructors
def dt_of(dtype, default=F64):
    return default if dtype is None else np.dtype(dtype)


def isf(dt):
    return np.dtype(dt).kind in "fiub"


@hook(np.zeros)
def n_zeros(shape, dtype=float, order="C", **k):
    return full(A.conc_ints(shape), 0, dt_of(dtype), order)


@hook(np.ones)
def n_ones(shape, dtype=None, order="C", **k):
    return full(A.conc_ints(shape), 1, dt_of(dtype), order)


@hook(np.full)
def n_full(shape, v, dtype=None, order="C", **k):
    dt = dtype if dtype is not None else (wrap(v)._sdt)
    return full(A.conc_ints(shape), v, dt, order)


@hook(np.empty)
def n_empty(shape, dtype=float, order="C", **k):
    return A.empty(A.conc_ints(shape), dt_of(dtype), order)


for f in (np.zeros_like, np.ones_like, np.full_like, np.empty_like):
    TABLE[f] = A.FUNCS[f]


@hook(np.eye)
def n_eye(N, M=None, k=0, dtype=float, order="C", **kw):
    N, M, k = A.conc_ints(N), A.conc_ints(M), A.conc_ints(k)
    r = full((N, N if M is None else M), 0, dt_of(dtype), order)
    for i in range(r.shape[0]):
        if 0 <= i + k < r.shape[1]:
            r[i, i + k] = 1
    return r


TABLE[np.identity] = lambda n, dtype=None, **k: n_eye(n, dtype=dt_of(dtype))


@hook(np.array)
def n_array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    if hasattr(x, "__h5node__"):
        x = x[:]
    if isinstance(x, (range, map, zip, filter)):
        x = list(x)
    if not A.has_sym(x) and dtype is None and copy:
        r = np.array(_conc(x), ndmin=ndmin)
        if r.dtype.kind in "iubOSU":
            return r
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in "SUO" and x.dtype != object:
        return np.array(x, dtype=dtype)
    if not isinstance(x, np.ndarray) and not A.has_sym(x):
        r = np.array(x)
        if r.dtype.kind in "SU" and not _cells(x):
            return np.array(x, dtype=dtype)
        if _cells(x):
            x = [c.cell() if hasattr(c, "cell") else float(c) for c in x] if not _nested(x) else [[c.cell() if hasattr(c, "cell") else float(c) for c in row] for row in x]
        elif not _nested(x) or r.dtype != object:
            x = r
    if dtype is not None and np.dtype(dtype).kind in "iub" and isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        return np.array(x, dtype=dtype)
    r = wrap(x)
    dt = r._sdt if dtype is None else np.dtype(dtype)
    if copy or copy is None and (dt != r._sdt):
        r = A.cast_array(r, dt, order if order in ("C", "F") else "K")
    elif dt != r._sdt:
        r = A.cast_array(r, dt, order if order in ("C", "F") else "K")
    elif order == "F" and not r.flags.f_contiguous or order == "C" and not r.flags.c_contiguous:
        r = A.cast_array(r, dt, order)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _conc(x):
    return x


def _nested(x):
    return isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], (list, tuple, np.ndarray))


def _cells(x):
    if isinstance(x, (list, tuple)):
        return any(_cells(y) for y in x)
    return hasattr(x, "cell")


@hook(np.asarray, np.asanyarray)
def n_asarray(x, dtype=None, order=None, **k):
    if isinstance(x, np.ndarray) and (dtype is None or np.dtype(dtype) == A.lsdt(x)) and order in (None, "K", "A"):
        return x
    return n_array(x, dtype=dtype, copy=None if isinstance(x, np.ndarray) else True, order=order or "K")


@hook(np.ascontiguousarray)
def n_ascont(x, dtype=None, **k):
    return n_asarray(x, dtype, "C")


@hook(np.asfortranarray)
def n_asfort(x, dtype=None, **k):
    return n_asarray(x, dtype, "F")


@hook(np.atleast_2d)
def n_al2(x):
    x = wrap(x)
    return x if x.ndim >= 2 else (x.reshape(1, -1) if x.ndim == 1 else x.reshape(1, 1))


@hook(np.arange)
def n_arange(*a, **k):
    if len(a) == 3 and isinstance(a[2], SInt) and a[2].const() is None and not k and not any(isinstance(x, (SReal, float)) for x in a):
        xs = list(h_range(*a))
        return A.cast_array(A.from_list(xs), np.dtype(np.int64)) if xs else np.zeros(0, dtype=np.int64)
    a = [A.conc_ints(x) for x in a]
    if any(isinstance(x, SReal) for x in a):
        a = [float(x) if isinstance(x, SReal) else x for x in a]
    r = np.arange(*a, **{q: A.conc_ints(v) for q, v in k.items()})
    return r if r.dtype.kind in "iu" else wrap(r)


@hook(np.fromiter)
def n_fromiter(it, dtype, count=-1, **k):
    xs = [x.cell() if hasattr(x, "cell") else (float(x) if isinstance(x, str) else x) for x in it]
    if not xs:
        return full((0,), 0, dtype)
    return A.cast_array(A.from_list(xs), np.dtype(dtype))


def np_type(cls):
    def f(x=0, *a):
        if isinstance(x, SymArray) and x.ndim:
            return x.astype(cls)
        if issym(x):
            r = A.cast(_s(x), np.dtype(cls))
            if cls is np.float32:
                return A.SReal32(r.p, r.f)
            return A.box(r, np.dtype(cls)) if np.dtype(cls).kind != "f" else r
        return cls(x, *a)
    return f


for c in (np.float64, np.float32, np.float16, np.int64, np.int32, np.int8, np.uint8, np.bool_):
    TABLE[c] = np_type(c)


@hook(np.linspace, np.logspace)
def n_lin(*a, **k):
    Ctx.cur.stop(Unsupported("symbolic linspace"))


def _conc_only(real):
    def f(*a, **k):
        a = [float(x) if isinstance(x, SReal) else A.conc_ints(x) for x in a]
        k = {q: (float(x) if isinstance(x, SReal) else A.conc_ints(x)) for q, x in k.items()}
        return real(*a, **k)
    return f


for f in (np.linspace, np.logspace, np.geomspace):
    TABLE[f] = _conc_only(f)

TABLE[np.finfo] = np.finfo
TABLE[np.dtype] = np.dtype


@hook(np.isscalar)
def n_isscalar(x):
    return True if isinstance(x, (SNum, SBool)) else np.isscalar(x)


@hook(np.atleast_1d)
def n_al1(x):
    x = wrap(x) if A.has_sym(x) else np.atleast_1d(x)
    return x.reshape(1) if x.ndim == 0 else x


@hook(np.vectorize, np.frompyfunc)
def n_vec(*a, **k):
    Ctx.cur.stop(Unsupported("vectorize"))


@hook(np.errstate)
def n_errstate(*a, **k):
    return np.errstate(*a, **k)


@hook(np.testing.assert_array_equal)
def n_tae(a, b, **k):
    assert A.FUNCS[np.array_equal](a, b)


@hook(np.ndenumerate)
def n_ndenum(a):
    return [(i, a[i]) for i in np.ndindex(a.shape)]


@hook(np.ix_)
def n_ix(*a):
    return np.ix_(*[A.plain_index(x) if isinstance(x, SymArray) else x for x in a])


@hook(np.diag_indices_from)
def n_dif(a):
    if a.ndim < 2:
        raise ValueError("input array must be at least 2-d")
    if len(set(a.shape)) > 1:
        raise ValueError("All dimensions of input must be of equal length")
    return np.diag_indices(a.shape[0], a.ndim)


# ------------------------------------------------------------------------------------------- linear algebra contracts
class LinAlgError(np.linalg.LinAlgError):
    pass


def allconst(*arrs):
    return all(num(x).const() is not None and num(x).f is None for a in arrs for x in obj(a).reshape(-1))


def gauss(A_, B_):
    """exact solve of a constant system; None when singular"""
    n = A_.shape[0]
    a = [[Fraction(num(A_[i, j]).const()) for j in range(n)] for i in range(n)]
    b = [[Fraction(num(B_[i, j]).const()) for j in range(B_.shape[1])] for i in range(n)]
    for c in range(n):
        piv = next((r for r in range(c, n) if a[r][c] != 0), None)
        if piv is None:
            return None
        a[c], a[piv] = a[piv], a[c]
        b[c], b[piv] = b[piv], b[c]
        k = a[c][c]
        a[c] = [x / k for x in a[c]]
        b[c] = [x / k for x in b[c]]
        for r in range(n):
            if r != c and a[r][c] != 0:
                k = a[r][c]
                a[r] = [x - k * y for x, y in zip(a[r], a[c])]
                b[r] = [x - k * y for x, y in zip(b[r], b[c])]
    return b


def minors_positive(M):
    """z3 condition: symmetric matrix M positive definite (leading principal minors > 0)"""
    n = M.shape[0]
    return [det(M[:k, :k]) > 0 for k in range(1, n + 1)]


def cdet(M):
    """determinant of a constant matrix, exact elimination; None if it is not constant"""
    a = []
    for row in M:
        a.append([])
        for x in row:
            x = num(x)
            c = x.const() if x.f is None else None
            if c is None:
                return None
            a[-1].append(Fraction(c))
    d = Fraction(1)
    n = len(a)
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c] != 0), None)
        if p is None:
            return num(0)
        if p != c:
            a[p], a[c] = a[c], a[p]
            d = -d
        d *= a[c][c]
        for r in range(c + 1, n):
            if a[r][c] != 0:
                k = a[r][c] / a[c][c]
                a[r] = [x - k * y for x, y in zip(a[r], a[c])]
    return num(d)


def det(M):
    n = M.shape[0]
    if n == 0:
        return num(1)
    if n == 1:
        return num(M[0, 0])
    if n > 2:
        d = cdet(M)
        if d is not None:
            return d
    s = num(0)
    for j in range(n):
        sub = np.delete(np.delete(M, 0, 0), j, 1)
        t = num(M[0, j]) * det(sub)
        s = s + t if j % 2 == 0 else s - t
    return s


def mkey(*arrs):
    return tuple((a.shape, tuple(V.p_key(num(x).p) if num(x).f is None else repr(num(x).f) for x in obj(a).reshape(-1))) for a in arrs)


def fresh(shape, base, dt):
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(o.shape):
        o[i] = V.var_real(Ctx.cur.name(base))
    return from_obj(o, dt)


def square(M, who):
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    for x in obj(M).reshape(-1):
        if num(x).f is not None:
            raise np.linalg.LinAlgError("%s: array contains nan or inf" % who) if who == "lstsq" else Unsupported("nan in %s" % who)


def eq_fact(L, R):
    """facts L == R elementwise (2-d object arrays of numbers)"""
    for i in np.ndindex(L.shape):
        d = num(L[i]) - num(R[i])
        if d.p:
            Ctx.cur.memo.setdefault("eqpolys", set()).add(V.p_key(V.p_monic(d.p)[1]))
            Ctx.cur.fact(V.z3num(d.p) == 0)


def solution(S, b, tag):
    """unique solution of S x = b: exact if constant, else fresh values with the defining equations as facts.
    The same system always gets the same solution."""
    key = ("solve",) + mkey(S, b)
    memo = Ctx.cur.memo
    if key in memo:
        return memo[key].copy()
    dt = np.result_type(S._sdt, b._sdt)
    dt = dt if dt.kind == "f" else F64
    if allconst(S, b):
        r = gauss(obj(S), obj(b))
        if r is None:
            return None
        X = A.cast_array(wrap(np.array([[num(x) for x in row] for row in r], dtype=object).reshape(b.shape)) if b.size else full(b.shape, 0, dt), dt)
    elif Ctx.cur.opts.get("solve") == "cramer" and S.shape[0] > 3 and allconst(S):
        r = gauss(obj(S), np.eye(S.shape[0]).astype(object))
        if r is None:
            return None
        X = A.cast_array(from_obj(A._mm(np.array([[num(x) for x in row] for row in r], dtype=object), obj(b)), dt), dt)
    elif Ctx.cur.opts.get("solve") == "cramer" and S.shape[0] <= 3:
        d = det(obj(S))
        o = np.empty(b.shape, dtype=object)
        for j in range(b.shape[1]):
            for i in range(S.shape[0]):
                M = obj(S).copy()
                M[:, i] = obj(b)[:, j]
                o[i, j] = V.o_div(V.as_real(det(M)), V.as_real(d))
        X = A.cast_array(from_obj(o, dt), dt)
    else:
        X = fresh(b.shape, tag, dt)
        eq_fact(A._mm(obj(S), obj(X)), obj(b))
        Ctx.cur.events.append(("contract", tag))
        sols = memo.setdefault("sols", {})
        sols[mkey(X)] = (S, b)
        n = S.shape[0]
        if b.shape == (n, n) and allconst(b) and all(num(b[i, j]).const() == (i == j) for i in range(n) for j in range(n)):
            sols[mkey(X.T)] = (S.T, b)
            memo.setdefault("invs", {})[mkey(X)] = S
            memo["invs"][mkey(X.T)] = S.T
    memo[key] = X
    return X.copy()


def typed(x, *ins):
    """x with the type numpy gives the result for these inputs"""
    dt = np.result_type(*[i._sdt if i._sdt.kind == "f" else F64 for i in ins])
    return x if x._sdt == dt else from_obj(obj(x).copy(), dt)


def typed_as(f):
    import functools

    @functools.wraps(f)
    def g(*a, **k):
        r = f(*a, **k)
        ins = [wrap(x) for x in a[:2] if isinstance(x, np.ndarray)]
        if isinstance(r, tuple):
            return (typed(r[0], *ins),) + r[1:]
        return typed(r, *ins) if isinstance(r, SymArray) and ins else r
    return g


def sol_rule(a, b):
    r = sol_rule_(a, b)
    return r if r is None else typed(r, a, b)


def sol_rule_(a, b):
    """(S^-1 R) b = S^-1 (R b), and b S^-1 = (S'^-1 b')': keeps solutions of linear systems in one form"""
    memo = Ctx.cur.memo
    if a.ndim == 2 and b.ndim in (1, 2) and a.shape[1] == b.shape[0]:
        k = memo["sols"].get(mkey(a))
        if k is not None and isinstance(k[0], str):
            x = l_lstsq(k[1], arr2(b))[0]           # pinv(A) b is the least squares solution
            return x[:, 0] if b.ndim == 1 else x
        if k is not None:
            x = solution(k[0], A.a_dot(k[1], arr2(b)), "prod")
            return x[:, 0] if b.ndim == 1 else x
    if b.ndim == 2 and a.ndim in (1, 2) and a.shape[-1] == b.shape[0] and "invs" in memo:
        S = memo["invs"].get(mkey(b))
        if S is not None:
            x = solution(S.T, arr2(a) if a.ndim == 1 else a.T, "prod")
            return x[:, 0] if a.ndim == 1 else x.T
    return None


A.SOLRULE[0] = sol_rule


def symm(M, lower):
    """the symmetric matrix LAPACK sees when it is told to read one triangle"""
    o = obj(M)
    r = np.empty(o.shape, dtype=object)
    for i, j in np.ndindex(o.shape):
        r[i, j] = o[max(i, j), min(i, j)] if lower else o[min(i, j), max(i, j)]
    return from_obj(r, M._sdt)


def is_pd(S):
    """positive definiteness of S: decided on constants, otherwise a case split (option pd='assume' keeps the PD case)"""
    key = ("pd",) + mkey(S)
    m = Ctx.cur.memo
    if key not in m:
        mode = Ctx.cur.opts.get("pd", "assume")
        conds = minors_positive(obj(S)) if allconst(S) or mode == "minors" else None
        if conds is not None:
            m[key] = all(bool(c) for c in conds)
        elif mode == "assume":
            m[key] = True
        else:
            m[key] = Ctx.cur.choose(2) == 0
            n = S.shape[0]
            if n <= 3:
                cs = [V.zb(c) for c in minors_positive(obj(S))]
                Ctx.cur.fact(z3.And(*cs) if m[key] else z3.Not(z3.And(*cs)))
    return m[key]


def arr2(x):
    x = wrap(x)
    return x.reshape(-1, 1) if x.ndim == 1 else x


def l_posv(dt):
    def posv(a, b, lower=0, overwrite_a=0, overwrite_b=0):
        a, b = wrap(a), wrap(b)
        if a.ndim != 2 or a.shape[0] != a.shape[1] or a.shape[0] != b.shape[0]:
            raise ValueError("posv: shape mismatch %s %s" % (a.shape, b.shape))
        one = b.ndim == 1
        a0 = a if overwrite_a and a._sdt == dt and a.flags.f_contiguous else None      # f2py works in place only on these
        b0 = b if overwrite_b and b._sdt == dt and b.flags.f_contiguous else None
        a, b = A.cast_array(a, dt), A.cast_array(arr2(b), dt)
        square(a, "posv")
        S = symm(a, lower)
        chol = fresh(a.shape, "chol", dt)
        if a0 is not None:
            a0[...] = chol
        if is_pd(S):
            x = solution(S, b, "posv")
            if b0 is not None:
                b0[...] = x[:, 0] if one else x
                return chol, b0, 0
            return chol, (x[:, 0] if one else A.cast_array(x, dt)), 0
        return fresh(a.shape, "chol", dt), fresh(b.shape, "garbage", dt), 1 if not allconst(S) else 1 + [bool(c) for c in minors_positive(obj(S))].index(False)
    return posv


def l_syrk(dt):
    def syrk(alpha, a, beta=0.0, c=None, trans=0, lower=0, overwrite_c=0):
        a = A.cast_array(wrap(a), dt)
        M = a if not trans else a.T
        n = M.shape[0]
        if c is None:
            c2 = full((n, n), 0, dt, "F")
        else:
            c = wrap(c)
            if c.shape != (n, n):
                raise ValueError("syrk: c has wrong shape %s, expected %s" % (c.shape, (n, n)))
            inplace = overwrite_c and c._sdt == dt and c.flags.f_contiguous
            c2 = c if inplace else A.cast_array(c, dt, "F")
        prod = A._mm(obj(M), obj(M.T))
        alpha, beta = num(alpha), num(beta)
        for i in range(n):
            for j in range(n):
                if (j <= i if lower else j >= i):
                    old = num(c2[i, j]) if c is not None else num(0)
                    c2[i, j] = old * beta + prod[i, j] * alpha
        return c2
    return syrk


def l_gemm(dt):
    def gemm(alpha, a, b, beta=0.0, c=None, trans_a=0, trans_b=0, overwrite_c=0):
        a, b = A.cast_array(wrap(a), dt), A.cast_array(wrap(b), dt)
        r = A.a_dot(a.T if trans_a else a, b.T if trans_b else b) * num(alpha)
        if c is None:
            return r
        c = wrap(c)
        r = r + c * num(beta)
        if overwrite_c and c._sdt == dt and c.flags.f_contiguous:
            c[...] = r
            return c
        return r
    return gemm


def l_potrf(dt):
    def potrf(a, lower=0, clean=1, overwrite_a=0):
        Ctx.cur.stop(Unsupported("potrf"))
    return potrf


for nm, dt in (("s", np.dtype(np.float32)), ("d", F64)):
    TABLE[getattr(scipy.linalg.lapack, nm + "posv")] = l_posv(dt)
    TABLE[getattr(scipy.linalg.blas, nm + "syrk")] = l_syrk(dt)
    TABLE[getattr(scipy.linalg.blas, nm + "gemm")] = l_gemm(dt)


@hook(np.linalg.solve, scipy.linalg.solve)
@typed_as
def l_solve(a, b, *args, **k):
    a, b = wrap(a), wrap(b)
    square(a, "solve")
    x = solution_or_singular(a, arr2(b), "solve")
    return x[:, 0] if b.ndim == 1 else x


def nonsingular(S):
    key = ("reg",) + mkey(S)
    m = Ctx.cur.memo
    if key not in m:
        mode = Ctx.cur.opts.get("pd", "assume")
        if allconst(S):
            m[key] = gauss(obj(S), np.zeros((S.shape[0], 0), dtype=object)) is not None
        elif mode == "assume":
            m[key] = True
        elif mode == "minors":
            m[key] = bool(det(obj(S)) != 0)
        else:
            m[key] = Ctx.cur.choose(2) == 0
            if S.shape[0] <= 3:
                d = det(obj(S))
                Ctx.cur.fact(V.zb(d != 0 if m[key] else d == 0))
    return m[key]


def solution_or_singular(a, b, tag):
    if not nonsingular(a):
        raise np.linalg.LinAlgError("Singular matrix")
    x = solution(a, b, tag)
    if x is None:
        raise np.linalg.LinAlgError("Singular matrix")
    return x


@hook(np.linalg.inv, scipy.linalg.inv)
@typed_as
def l_inv(a, *args, **k):
    a = wrap(a)
    square(a, "inv")
    n = a.shape[0]
    dt = a._sdt if a._sdt.kind == "f" else F64
    if n == 0:
        return full((0, 0), 0, dt)
    if n <= Ctx.cur.opts.get("cofactor", 2) and not allconst(a):
        if not nonsingular(a):
            raise np.linalg.LinAlgError("Singular matrix")
        d = V.as_real(det(obj(a)))
        V.mark_nonzero(d.p)
        Ctx.cur.memo.setdefault("nzpoly", set()).add(V.p_key(V.p_monic(d.p)[1]) if d.p else None)
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                c = det(np.delete(np.delete(obj(a), j, 0), i, 1))
                r[i, j] = V.o_div(V.as_real(c if (i + j) % 2 == 0 else -c), d)
        return A.cast_array(from_obj(r, dt), dt)
    return solution_or_singular(a, full((n, n), 0, dt) + n_eye(n), "inv")


def cutoff(args, k, *names):
    """is there a relative cutoff of singular values above rounding level?"""
    v = [k[n] for n in names if k.get(n) is not None] + [x for x in args if x is not None]
    return any(bool(num(x) > 1e-11) for x in v if not isinstance(x, bool))


@hook(np.linalg.pinv, scipy.linalg.pinv)
@typed_as
def l_pinv(a, *args, **k):
    """A+ ; for a nonsingular matrix the inverse, else the Moore-Penrose conditions"""
    a = wrap(a)
    if cutoff(args[:1], k, "rcond", "rtol", "atol", "cond") and not allconst(a):
        return fresh((a.shape[1], a.shape[0]), "pinv", F64)      # small singular values are dropped: any value
    if a.ndim == 2 and a.shape[0] == a.shape[1]:
        square(a, "pinv")
        if nonsingular(a):
            return solution(a, full(a.shape, 0, F64) + n_eye(a.shape[0]), "pinv")
    key = ("pinv",) + mkey(a)
    m = Ctx.cur.memo
    if key not in m:
        if allconst(a):
            m[key] = A.cast_array(wrap(np.linalg.pinv(np.array([[float(num(x)) for x in row] for row in obj(a)]))), F64)
        else:
            P = fresh((a.shape[1], a.shape[0]), "pinv", F64)
            mm = A._mm
            AP, PA = mm(obj(a), obj(P)), mm(obj(P), obj(a))
            eq_fact(mm(AP, obj(a)), obj(a))
            eq_fact(mm(PA, obj(P)), obj(P))
            eq_fact(AP, AP.T)
            eq_fact(PA, PA.T)
            m[key] = P
            m.setdefault("sols", {})[mkey(P)] = ("pinv", a)
    return m[key].copy()


@hook(np.linalg.lstsq, scipy.linalg.lstsq)
@typed_as
def l_lstsq(a, b, *args, **k):
    """minimum norm least squares solution: normal equations, and x in the row space of a"""
    a, b = wrap(a), wrap(b)
    b2 = arr2(b)
    if a.shape[0] != b2.shape[0]:
        raise np.linalg.LinAlgError("Incompatible dimensions")
    if cutoff(args[:1], k, "rcond", "cond") and not allconst(a, b2):
        X = fresh((a.shape[1], b2.shape[1]), "lstsq", F64)       # small singular values are dropped: any value
        return (X[:, 0] if b.ndim == 1 else X), fresh((0,), "resid", F64), a.shape[1], fresh((min(a.shape),), "sv", F64)
    key = ("lstsq",) + mkey(a, b2)
    m = Ctx.cur.memo
    if key not in m:
        if allconst(a, b2):
            fa = np.array([[float(num(x)) for x in row] for row in obj(a)])
            fb = np.array([[float(num(x)) for x in row] for row in obj(b2)])
            m[key] = wrap(np.linalg.lstsq(fa, fb, rcond=None)[0])
        elif a.shape[0] == a.shape[1] and nonsingular(a):
            m[key] = solution(a, b2, "lstsq")
        else:
            X = fresh((a.shape[1], b2.shape[1]), "lstsq", F64)
            At = obj(a.T)
            eq_fact(A._mm(A._mm(At, obj(a)), obj(X)), A._mm(At, obj(b2)))
            m[key] = X
    x = m[key].copy()
    return (x[:, 0] if b.ndim == 1 else x), fresh((0,), "resid", F64), a.shape[1], fresh((min(a.shape),), "sv", F64)


@hook(scipy.linalg.lu_factor)
def l_lufactor(a, *args, **k):
    a = wrap(a)
    square(a, "lu_factor")
    return (("LU", a.copy()), None)


@hook(scipy.linalg.lu_solve)
def l_lusolve(lu, b, *args, **k):
    a = lu[0][1]
    b = wrap(b)
    if not nonsingular(a):
        x = full(arr2(b).shape, SReal(f=V.NAN), F64)
        return x
    x = solution(a, arr2(b), "lu")
    return x[:, 0] if b.ndim == 1 else x


@hook(scipy.linalg.cho_factor)
def l_chofactor(a, lower=False, *args, **k):
    a = wrap(a)
    square(a, "cho_factor")
    S = symm(a, lower)
    if not is_pd(S):
        raise np.linalg.LinAlgError("matrix not positive definite")
    return (("CHO", S.copy()), lower)


@hook(scipy.linalg.cho_solve)
def l_chosolve(c, b, *args, **k):
    b = wrap(b)
    x = solution(c[0][1], arr2(b), "cho")
    return x[:, 0] if b.ndim == 1 else x


@hook(np.linalg.matrix_rank, np.linalg.cond)
def l_rank(a, *args, **k):
    Ctx.cur.stop(Unsupported("matrix_rank/cond"))


@hook(np.linalg.det)
def l_det(a):
    return V.as_real(det(obj(wrap(a))))


TABLE[np.linalg.norm] = A.a_norm


@hook(scipy.optimize.brentq)
def o_brentq(f, a, b, args=(), xtol=2e-12, **k):
    """some root in [a, b] (within tolerance; modelled as an exact root) if the signs differ, else ValueError"""
    fa, fb = num(f(a, *args)), num(f(b, *args))
    if bool(fa * fb > 0):
        raise ValueError("f(a) and f(b) must have different signs")
    if bool(fa.__eq__(0)):
        return a
    r = V.var_real(Ctx.cur.name("root"))
    Ctx.cur.assume(V.zb((r > a) & (r <= b)))
    return r


# ------------------------------------------------------------------------------------------- distances
@hook(ssd.cdist)
def d_cdist(XA, XB, metric="euclidean", *args, **k):
    XA, XB = wrap(XA), wrap(XB)
    if XA.ndim != 2 or XB.ndim != 2:
        raise ValueError("XA must be a 2-dimensional array.")
    if XA.shape[1] != XB.shape[1]:
        raise ValueError("XA and XB must have the same number of columns (i.e. feature dimension.)")
    r = np.empty((XA.shape[0], XB.shape[0]), dtype=object)
    a, b = obj(XA), obj(XB)
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            r[i, j] = V.as_real(dist(list(a[i]), list(b[j]), metric))
    return from_obj(r, F64)


def dist(x, y, metric):
    ds = [num(p) - num(q) for p, q in zip(x, y)]
    if metric in ("cityblock", "manhattan", "l1"):
        s = num(0)
        for d in ds:
            s = s + V.s_abs(d)
        return s
    if metric in ("chebyshev", "linf", "chebychev"):
        return V.s_minmax([V.s_abs(d) for d in ds], True)
    if metric in ("euclidean", "sqeuclidean", "l2"):
        s = num(0)
        for d in ds:
            s = s + d * d
        return s if metric == "sqeuclidean" else V.s_sqrt(s)
    Ctx.cur.stop(Unsupported("metric %s" % metric))


# ------------------------------------------------------------------------------------------- random numbers
def rlog(kind, payload):
    Ctx.cur.rlog.append((kind, payload))


def rnd_real(shape, lo=None, hi=None, hi_open=False, kind="randn"):
    shape = A.conc_ints(shape)
    shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
    o = np.empty(shape, dtype=object)
    c = Ctx.cur
    if kind == "rand" and c.opts.get("max_draws"):
        c.memo["draws"] = c.memo.get("draws", 0) + 1
        if c.memo["draws"] > c.opts["max_draws"]:
            c.stop(Infeasible())      # outside the stated bound
    for i in np.ndindex(o.shape):
        x = V.var_real(c.name(kind))
        o[i] = x
        if lo is not None:
            c.assume(V.zb(x >= lo))
        if hi is not None:
            c.assume(V.zb(x < hi if hi_open else x <= hi))
    rlog(kind, o)
    return from_obj(o, F64) if shape else o[()]


@hook(np.random.randn, np.random.standard_normal)
def r_randn(*shape, **k):
    if "size" in k:
        shape = k["size"]
    elif len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    return rnd_real(shape)


@hook(np.random.normal)
def r_normal(loc=0.0, scale=1.0, size=None):
    return rnd_real(size if size is not None else ()) * scale + loc


@hook(np.random.rand, np.random.random, np.random.random_sample)
def r_rand(*shape, **k):
    if "size" in k:
        shape = k["size"] if k["size"] is not None else ()
    elif len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    return rnd_real(shape, 0, 1, True, "rand")


@hook(np.random.uniform)
def r_uniform(low=0.0, high=1.0, size=None):
    return rnd_real(size if size is not None else (), 0, 1, True, "rand") * (num(high) - num(low)) + low


def permutation_of(n):
    mode = Ctx.cur.opts.get("shuffle", "all")
    if mode == "id":
        return list(range(n))
    if mode == "rev":
        return list(range(n))[::-1]
    if isinstance(mode, int):
        r = np.random.RandomState(mode)
        return [int(x) for x in r.permutation(n)]
    rest = list(range(n))
    out = []
    while rest:
        out.append(rest.pop(Ctx.cur.choose(len(rest))))
    return out


@hook(np.random.shuffle)
def r_shuffle(x):
    p = permutation_of(len(x))
    rlog("perm", p)
    y = [x[i] for i in p]
    if isinstance(x, np.ndarray):
        y = x[np.array(p, dtype=int)] if len(p) else x
        x[...] = y.copy()
    else:
        x[:] = y


@hook(np.random.permutation)
def r_perm(x):
    if isinstance(x, (int, np.integer, SInt)):
        x = np.arange(x.__index__())
    p = permutation_of(len(x))
    rlog("perm", p)
    return wrap(x)[np.array(p, dtype=int)] if isinstance(x, SymArray) else np.asarray(x)[np.array(p, dtype=int)]


@hook(np.random.choice)
def r_choice(a, size=None, replace=True, p=None):
    n = a if isinstance(a, (int, np.integer)) else (a.__index__() if isinstance(a, SInt) else len(a))
    if size is None:
        k = 1
    else:
        k = A.conc_ints(size)
        k = k if isinstance(k, (int, np.integer)) else int(np.prod(k))
    if n <= 0 and k > 0:
        raise ValueError("a must be greater than 0 unless no samples are taken")
    if not replace and k > n:
        raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    out, rest = [], list(range(n))
    for _ in range(k):
        j = Ctx.cur.choose(len(rest))
        out.append(rest[j] if replace else rest.pop(j))
    rlog("choice", out)
    idx = np.array(out, dtype=np.int64)
    if size is None:
        return idx[0] if isinstance(a, (int, np.integer, SInt)) else a[idx[0]]
    return idx.reshape(A.conc_ints(size)) if isinstance(a, (int, np.integer, SInt)) else a[idx]


@hook(np.random.randint)
def r_randint(low, high=None, size=None, **k):
    lo, hi = (0, low) if high is None else (low, high)
    n = A.conc_ints(size) if size is not None else 1
    n = n if isinstance(n, (int, np.integer)) else int(np.prod(n))
    if hi <= lo:
        raise ValueError("low >= high")
    out = [int(lo) + Ctx.cur.choose(int(hi) - int(lo)) for _ in range(n)]
    rlog("randint", out)
    return out[0] if size is None else np.array(out).reshape(A.conc_ints(size))


@hook(np.random.seed)
def r_seed(*a):
    return None


@hook(np.random.default_rng)
def r_rng(*a):
    return Rng()


class Rng:
    standard_normal = staticmethod(lambda size=(): rnd_real(size))
    normal = staticmethod(r_normal)
    random = staticmethod(lambda size=(): r_rand(size=size))
    uniform = staticmethod(r_uniform)
    permutation = staticmethod(r_perm)
    shuffle = staticmethod(r_shuffle)
    choice = staticmethod(r_choice)
    integers = staticmethod(r_randint)


TABLE[np.random.RandomState] = r_rng


# ------------------------------------------------------------------------------------------- dispatcher
def hookf(f):
    """applied to every call target in instrumented code"""
    try:
        g = TABLE.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g
    g = A.FUNCS.get(f) if _hashable(f) else None
    if g is not None:
        return _dispatch(f, g)
    return f


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


@functools.lru_cache(None)
def _dispatch(f, g):
    def call(*a, **k):
        if any(A.has_sym(x) for x in a) or any(A.has_sym(x) for x in k.values()):
            return g(*a, **k)
        return f(*a, **k)
    return call
