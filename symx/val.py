"""Symbolic scalars.

Numbers are kept as polynomials with rational coefficients over atoms (input variables, applications of exp/tanh,
square roots, inverses, if-then-else terms ...), so equalities that hold by algebra are recognised; everything else is
handed to z3 through `z3num`.  Arithmetic is exact: IEEE rounding is outside the model, IEEE nan/inf are kept."""
import math
import numbers
from fractions import Fraction
import numpy as np
import z3
from .core import Ctx, Unsupported

NAN, INF = float("nan"), float("inf")


class Atom:
    __slots__ = ("id", "z", "isint", "key", "positive", "square", "inv_of", "setup", "keep", "name", "sgn")

    def __init__(self, id, z, isint, key):
        self.id, self.z, self.isint, self.key = id, z, isint, key
        self.positive = False     # known > 0
        self.square = None        # poly equal to atom**2
        self.inv_of = None        # poly whose inverse this is
        self.setup = []           # [(is_axiom, z3 bool)] to be told to each path using the atom
        self.keep = None
        self.name = None
        self.sgn = None           # ">=0" known nonnegative


ATOMS = []
BYKEY = {}


def reset_atoms():
    """Atoms live as long as one path."""
    del ATOMS[:]
    BYKEY.clear()


def atom(key, mk):
    a = BYKEY.get(key)
    if a is None:
        a = Atom(len(ATOMS), None, False, key)
        ATOMS.append(a)
        BYKEY[key] = a
        mk(a)
    return use(a)


def use(a):
    c = Ctx.cur
    if c is not None and a.setup:
        seen = c.memo.setdefault("atoms", set())
        if a.id not in seen:
            seen.add(a.id)
            for ax, z in a.setup:
                if callable(z):
                    z = z()
                if ax:
                    c.axiom(z)
                else:
                    c.fact(z)
    return a


# ------------------------------------------------------------------------------------------- polynomials
ONE = ()


def nrm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def p_const(c):
    c = nrm(c)
    return {ONE: c} if c else {}


def p_atom(a, e=1):
    return {((a.id, e),): 1}


def p_add(a, b, k=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if k == 1 else k * c)
        if v:
            r[m] = nrm(v)
        else:
            r.pop(m, None)
    return r


def p_scale(a, k):
    if not k:
        return {}
    return {m: nrm(c * k) for m, c in a.items()}


def m_mul(m, n):
    """product of monomials -> (monomial, list of reducible (atom, count)) """
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def m_reducible(m):
    for a, e in m:
        if (e >= 2 or e < 0) and ATOMS[a].square is not None:
            return a, e
    return None


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > 60000 and len(a) * len(b) > (Ctx.cur.opts.get("polymax", 0) if Ctx.cur else 0):
        Ctx.cur.stop(Unsupported("polynomial too large")) if Ctx.cur else None
    r = {}
    red = False
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            if not red and k and m_reducible(k):
                red = True
            v = r.get(k, 0) + c * d
            if v:
                r[k] = nrm(v)
            else:
                r.pop(k, None)
    return p_reduce(r) if red else r


def p_reduce(p):
    while True:
        hit = None
        for m in p:
            h = m_reducible(m)
            if h:
                hit = (m, h)
                break
        if not hit:
            return p
        m, (a, e) = hit
        c = p[m]
        rest = tuple(x for x in m if x[0] != a)
        sq = ATOMS[a].square
        q = {k: v for k, v in p.items() if k != m}
        t = {rest: c}
        if e >= 2:
            for _ in range(e // 2):
                t = p_mul(t, sq)
            if e % 2:
                t = p_mul(t, {((a, 1),): 1})
        else:  # 1/s = s * 1/s^2
            inv = p_inv(sq)
            for _ in range((-e + 1) // 2):
                t = p_mul(t, inv)
            if e % 2:
                t = p_mul(t, {((a, 1),): 1})
        p = p_add(q, t)


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_isconst(p):
    return not p or (len(p) == 1 and ONE in p)


def p_cval(p):
    return p.get(ONE, 0)


def p_key(p):
    return tuple(sorted(p.items()))


def lead(p):
    m = min(k for k in p) if len(p) > 1 else next(iter(p))
    ms = sorted(p)
    for k in ms:
        if k != ONE:
            return p[k]
    return p[m]


def p_monic(p):
    c = lead(p)
    return c, p_scale(p, Fraction(1) / c)


def known_nonzero(a):
    if a.positive:
        return True
    c = Ctx.cur
    return c is not None and a.id in c.memo.get("nonzero", ())


def p_inv(p):
    """inverse of a polynomial known to be nonzero on this path"""
    if p_isconst(p):
        return p_const(Fraction(1) / Fraction(p_cval(p)))
    if len(p) == 1:
        m, c = next(iter(p.items()))
        if all(known_nonzero(ATOMS[a]) for a, _ in m):
            r = {tuple((a, -e) for a, e in m): nrm(Fraction(1) / c)}
            return p_reduce(r) if m_reducible(next(iter(r))) else r
    c, q = p_monic(p)

    def mk(a):
        a.name = "inv%d" % a.id
        a.z = z3.Real(a.name)
        a.inv_of = q
        a.setup.append((False, lambda: a.z * z3num(q) == 1))
        if p_positive(q):
            a.positive = True
            a.setup.append((True, a.z > 0))
        elif p_positive(p_scale(q, -1)):
            a.setup.append((True, a.z < 0))
    a = atom(("inv", p_key(q)), mk)
    if a.positive is False and Ctx.cur is not None:
        Ctx.cur.memo.setdefault("nonzero", set()).add(a.id)
    return {((a.id, 1),): nrm(Fraction(1) / c)}


def p_positive(p):
    """syntactic positivity: positive coefficients and monomials of positive atoms / even powers plus something > 0"""
    strict = False
    for m, c in p.items():
        if c <= 0:
            return False
        pos = True
        for a, e in m:
            A = ATOMS[a]
            if A.positive:
                continue
            if e % 2 == 0 or A.sgn == ">=0":
                pos = False
                continue
            return False
        strict = strict or pos
    return strict


def z3num(p, want_int=False):
    if not p:
        return z3.IntVal(0) if want_int else z3.RealVal(0)
    terms = []
    for m, c in p.items():
        fs = []
        neg = []
        for a, e in m:
            A = use(ATOMS[a])
            z = A.z
            if A.isint and not want_int:
                z = z3.ToReal(z)
            for _ in range(abs(e)):
                (fs if e > 0 else neg).append(z)
        if want_int:
            if c != 1 or not fs:
                fs.insert(0, z3.IntVal(int(c)))
        else:
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(str(c)))
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        for f in neg:
            t = t / f
        terms.append(t)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


def p_isint(p):
    for m, c in p.items():
        if not isinstance(c, int):
            return False
        for a, e in m:
            if not ATOMS[a].isint or e < 0:
                return False
    return True


def p_atoms(p, acc=None):
    acc = set() if acc is None else acc
    for m in p:
        for a, _ in m:
            acc.add(a)
    return acc


def p_frac(p):
    """p = n / product of q**k over the returned (q, k); n has no inverse atoms of its own level"""
    inv = [a for a in p_atoms(p) if ATOMS[a].inv_of is not None]
    fs = []
    for a in sorted(inv, reverse=True):
        deg = max((e for m in p for b, e in m if b == a), default=0)
        if deg <= 0:
            continue
        q = ATOMS[a].inv_of
        qp = [p_const(1)]
        for i in range(deg):
            qp.append(p_mul(qp[-1], q))
        groups = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            groups.setdefault(e, {})[tuple(x for x in m if x[0] != a)] = c
        r = {}
        for e, g in groups.items():
            r = p_add(r, p_mul(g, qp[deg - e]))
        p = r
        fs.append((q, deg))
    return p, fs


def p_sos(p):
    """strictly positive by a sum of squares found syntactically (monomial Gram matrix)"""
    groups = {}
    for m, c in p.items():
        odd = tuple(a for a, e in m if e % 2 and (ATOMS[a].positive or ATOMS[a].sgn == ">=0"))
        rest = tuple((a, e - (1 if a in odd else 0)) for a, e in m)
        if any(e < 0 for _, e in rest):
            return False
        groups.setdefault(odd, {})[tuple((a, e) for a, e in rest if e)] = c
    strict = False
    for odd, g in groups.items():
        diag = {}
        cross = []
        for m, c in g.items():
            if all(e % 2 == 0 for _, e in m) and c > 0:
                diag[tuple((a, e // 2) for a, e in m)] = Fraction(c)
            else:
                cross.append((m, c))
        if len(diag) > 40 or len(cross) > 60:
            return False
        basis = list(diag)
        G = {(u, u): diag[u] for u in basis}
        used = set()
        for m, c in cross:
            md = dict(m)
            hit = None
            for i, u in enumerate(basis):
                v = dict(md)
                ok = True
                for a, e in u:
                    v[a] = v.get(a, 0) - e
                    if v[a] < 0:
                        ok = False
                        break
                if not ok:
                    continue
                v = tuple(sorted((a, e) for a, e in v.items() if e))
                if v != u and v in diag:
                    hit = (u, v)
                    break
            if hit is None:
                return False
            used |= set(hit)
            for x in (hit, hit[::-1]):
                G[x] = G.get(x, 0) + Fraction(c) / 2
        for u in basis:
            if u not in used and all(ATOMS[a].positive for a, _ in u) and all(ATOMS[a].positive for a in odd):
                strict = True
        us = [u for u in basis if u in used]
        M = [[G.get((u, v), Fraction(0)) for v in us] for u in us]
        n = len(us)
        for k in range(n):
            d = M[k][k]
            if d < 0 or d == 0 and any(M[k][j] != 0 for j in range(k + 1, n)):
                return False
            if d == 0:
                continue
            for i in range(k + 1, n):
                if M[i][k] != 0:
                    f = M[i][k] / d
                    M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return strict


def clear_denominators(p):
    """Multiply p by nonzero factors until no inverse atoms / negative powers are left."""
    for _ in range(60):
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if neg:
            f = tuple(sorted((a, -e) for a, e in neg.items()))
            p = p_mul(p, {f: 1})
            continue
        inv = [a for a in p_atoms(p) if ATOMS[a].inv_of is not None]
        if not inv:
            return p
        a = max(inv)        # latest introduced first: its argument may contain earlier ones
        q = ATOMS[a].inv_of
        deg = max((e for m in p for b, e in m if b == a), default=0)
        r = {}
        qp = [p_const(1)]
        for i in range(deg):
            qp.append(p_mul(qp[-1], q))
        groups = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            groups.setdefault(e, {})[tuple(x for x in m if x[0] != a)] = c
        for e, g in groups.items():
            r = p_add(r, p_mul(g, qp[deg - e]))
        p = r
    return p


# ------------------------------------------------------------------------------------------- scalars
def is_special(x):
    return isinstance(x, SReal) and x.f is not None


def lift(x):
    """Python/numpy/symbolic scalar -> SNum, bool or SBool"""
    if isinstance(x, (SNum, SBool, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return SInt(p_const(int(x)))
    if isinstance(x, Fraction):
        return SReal(p_const(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (INF, -INF):
            return SReal(f=x)
        return SReal(p_const(Fraction(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item() if x.dtype != object else x[()])
    raise TypeError("not a number: %r" % type(x))


def num(x):
    x = lift(x)
    if isinstance(x, bool):
        return SInt(p_const(int(x)))
    if isinstance(x, SBool):
        return ite(x, SInt(p_const(1)), SInt(p_const(0)))
    return x


def as_real(x):
    x = num(x)
    return x if isinstance(x, SReal) else SReal(x.p)


class SBase:
    __slots__ = ()
    __array_priority__ = 2000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_entry(ufunc, method, inputs, kw)

    shape = ()
    ndim = 0
    size = 1

    def item(self, *a):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt, *a, **k):
        from . import arr
        return arr.cast(self, np.dtype(dt))

    def _arr(self):
        from . import arr
        return arr.mk0(self)

    def ravel(self, *a):
        return self._arr().ravel()

    def reshape(self, *a, **k):
        return self._arr().reshape(*a, **k)

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return as_real(self)

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def __getitem__(self, k):
        if k is Ellipsis or k == ():
            return self
        if k is None:
            return self._arr()[None]
        raise IndexError("invalid index to scalar variable.")


class SBool(SBase):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def dtype(self):
        return np.dtype(bool)

    def __bool__(self):
        return Ctx.cur.branch(self.z)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "SBool(%s)" % str(self.z)[:60]

    def __invert__(self):
        return mkb(z3.Not(self.z))

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = lift(o)
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SBool):
            return mkb(z3.And(self.z, o.z))
        return num(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = lift(o)
        if isinstance(o, bool):
            return True if o else self
        if isinstance(o, SBool):
            return mkb(z3.Or(self.z, o.z))
        return num(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = lift(o)
        if isinstance(o, bool):
            return mkb(z3.Not(self.z)) if o else self
        return mkb(z3.Xor(self.z, o.z))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        if isinstance(o, bool):
            return self if o else mkb(z3.Not(self.z))
        if isinstance(o, SBool):
            return mkb(self.z == o.z)
        return num(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mkb(z3.Not(r.z))

    def __add__(self, o):
        return num(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o2 = lift(o)
        if isinstance(o2, (bool, SBool)):
            return self & o2
        return num(self) * o2

    __rmul__ = __mul__

    def __sub__(self, o):
        return num(self) - o

    def __rsub__(self, o):
        return o - num(self)

    def __truediv__(self, o):
        return num(self) / o

    def __rtruediv__(self, o):
        return o / num(self)

    def __lt__(self, o):
        return num(self) < o

    def __gt__(self, o):
        return num(self) > o

    def __le__(self, o):
        return num(self) <= o

    def __ge__(self, o):
        return num(self) >= o

    def __neg__(self):
        return -num(self)

    def all(self, *a, **k):
        return self

    any = all


def mkb(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def zb(x):
    """python bool / SBool / number -> z3 Bool"""
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return zb(x[()])
    r = num(x) != 0
    return zb(r)


def b_and(*xs):
    return mkb(z3.And(*[zb(x) for x in xs])) if xs else True


def b_or(*xs):
    return mkb(z3.Or(*[zb(x) for x in xs])) if xs else False


def b_not(x):
    return mkb(z3.Not(zb(x)))


def _binop(name):
    def f(self, o):
        if isinstance(o, (np.ndarray,)) and o.ndim:
            return NotImplemented
        try:
            o = num(o)
        except TypeError:
            return NotImplemented
        return OPS[name](self, o)

    def r(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            from . import arr
            return OPSARR[name](arr.wrap(o), self)
        try:
            o = num(o)
        except TypeError:
            return NotImplemented
        return OPS[name](o, self)
    return f, r


class SNum(SBase):
    __slots__ = ()

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.show())

    def show(self):
        if self.f is not None:
            return repr(self.f)
        if p_isconst(self.p):
            return str(p_cval(self.p))
        return str(z3num(self.p))[:80]

    __str__ = show

    def __format__(self, spec):
        return self.show()

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        if isinstance(self, SInt):
            return hash(self.__index__())
        Ctx.cur.stop(Unsupported("hash of a symbolic real"))

    def const(self):
        if self.f is not None:
            return self.f
        return p_cval(self.p) if p_isconst(self.p) else None

    def __float__(self):
        c = self.const()
        if c is None:
            Ctx.cur.stop(Unsupported("float() of a symbolic value: %s" % self.show()))
        return float(c)

    def __neg__(self):
        if self.f is not None:
            return SReal(f=-self.f)
        return type(self)(p_scale(self.p, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    __add__, __radd__ = _binop("add")
    __sub__, __rsub__ = _binop("sub")
    __mul__, __rmul__ = _binop("mul")
    __truediv__, __rtruediv__ = _binop("div")
    __floordiv__, __rfloordiv__ = _binop("floordiv")
    __mod__, __rmod__ = _binop("mod")
    __pow__, __rpow__ = _binop("pow")
    __lt__, _ = _binop("lt")
    __le__, _ = _binop("le")
    __gt__, _ = _binop("gt")
    __ge__, _ = _binop("ge")
    __eq__, _ = _binop("eq")
    __ne__, _ = _binop("ne")

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        o = num(o)
        return o // self, o % self

    def __ceil__(self):
        return to_pyint(s_ceil(self))

    def __floor__(self):
        return to_pyint(s_floor(self))

    def __trunc__(self):
        return to_pyint(s_trunc(self))

    def __round__(self, n=None):
        return to_pyint(s_rint(self)) if n is None else self

    def is_integer(self):
        return self == s_floor(self)


class SReal(SNum):
    __slots__ = ("p", "f", "ratio")

    def __init__(self, p=None, f=None, ratio=None):
        self.p = p
        self.f = f
        self.ratio = ratio

    @property
    def dtype(self):
        return np.dtype(np.float64)

    def __int__(self):
        r = s_trunc(self)
        return r.__index__()


class SInt(SNum):
    __slots__ = ("p",)
    f = None
    ratio = None

    def __init__(self, p):
        self.p = p

    @property
    def dtype(self):
        return np.dtype(np.int64)

    def __index__(self):
        c = self.const()
        if c is not None:
            return int(c)
        z = z3num(self.p, True)

        def conv(m):
            v = m.eval(z, model_completion=True)
            return v.as_long() if z3.is_int_value(v) else None
        return Ctx.cur.concretize(z, conv)

    __int__ = __index__

    def _bits(self, o, f):
        return SInt(p_const(f(self.__index__(), num(o).__index__())))

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __lshift__(self, o):
        return self._bits(o, lambda a, b: a << b)

    def __rshift__(self, o):
        return self._bits(o, lambda a, b: a >> b)

    def __rlshift__(self, o):
        return SInt(p_const(int(o) << self.__index__()))

    def bit_length(self):
        return self.__index__().bit_length()


def to_pyint(x):
    """SInt constant -> int"""
    c = x.const()
    if c is not None and isinstance(x, SInt):
        return int(c)
    return x


def mknum(p, isint):
    return SInt(p) if isint else SReal(p)


def _sp(a, b, f):
    """IEEE arithmetic with special values; the finite symbolic operand only matters through its sign"""
    def val(x):
        c = x.const()
        if c is not None:
            return float(c)
        return None
    x, y = val(a), val(b)
    if x is None or y is None:
        s = a if x is None else b
        o = y if x is None else x
        if o != o:
            return SReal(f=NAN)
        # o is +-inf: split on the sign of the symbolic operand
        if bool(s > 0):
            v = 1.0
        elif bool(s < 0):
            v = -1.0
        else:
            v = 0.0
        x, y = (v, y) if x is None else (x, v)
    with np.errstate(all="ignore"):
        r = float(f(np.float64(x), np.float64(y)))
    if r != r or r in (INF, -INF):
        return SReal(f=r)
    return SReal(p_const(Fraction(r)))


def o_add(a, b):
    if a.f is not None or b.f is not None:
        return _sp(a, b, lambda x, y: x + y)
    return mknum(p_add(a.p, b.p), isinstance(a, SInt) and isinstance(b, SInt))


def o_sub(a, b):
    if a.f is not None or b.f is not None:
        return _sp(a, b, lambda x, y: x - y)
    return mknum(p_add(a.p, b.p, -1), isinstance(a, SInt) and isinstance(b, SInt))


def o_mul(a, b):
    if a.f is not None or b.f is not None:
        return _sp(a, b, lambda x, y: x * y)
    return mknum(p_mul(a.p, b.p), isinstance(a, SInt) and isinstance(b, SInt))


def mark_nonzero(p):
    if len(p) == 1:
        m, _ = next(iter(p.items()))
        s = Ctx.cur.memo.setdefault("nonzero", set())
        for a, _ in m:
            s.add(a)


def o_div(a, b):
    if a.f is not None or b.f is not None:
        return _sp(a, b, lambda x, y: x / y)
    c = b.const()
    if c is not None:
        if c == 0:
            s = a.const()
            if s is None:
                s = 1 if bool(a > 0) else (-1 if bool(a < 0) else 0)
            return SReal(f=NAN if s == 0 else (INF if s > 0 else -INF))
        return SReal(p_scale(a.p, Fraction(1) / c))
    if not a.p and p_positive(b.p):
        return SReal({})
    if Ctx.cur.opts.get("rational"):
        n, fs = p_frac(b.p)
        if fs:
            r = o_div(a, SReal(n))
            if r.f is None:
                for q, k in fs:
                    for _ in range(k):
                        r = SReal(p_mul(r.p, q))
                return r
    zero = Ctx.cur.memo.setdefault("nzpoly", set())
    k = p_key(p_monic(b.p)[1])
    if k not in zero and not p_positive(b.p) and not p_positive(p_scale(b.p, -1)):
        single = len(b.p) == 1 and all(known_nonzero(ATOMS[x]) for x, _ in next(iter(b.p)))
        if not single and p_sos(b.p):
            zero.add(k)
            mark_nonzero(b.p)
            single = True
        if not single:
            if bool(b == 0):
                return o_div(a, SReal({}))
            zero.add(k)
            mark_nonzero(b.p)
    ratio = None
    if isinstance(a, SInt) and isinstance(b, SInt):
        ratio = (a, b)
    elif p_isint(a.p) and p_isint(b.p):
        ratio = (SInt(a.p), SInt(b.p))
    return SReal(p_mul(a.p, p_inv(b.p)), ratio=ratio)


def o_eq(a, b):
    if a.f is not None or b.f is not None:
        return a.f is not None and b.f is not None and a.f == b.f
    d = p_add(a.p, b.p, -1)
    if not d:
        return True
    if p_isconst(d):
        return False
    return mkb(_rel(d, "=="))


def o_ne(a, b):
    r = o_eq(a, b)
    return (not r) if isinstance(r, bool) else mkb(z3.Not(r.z))


def _unroot(d):
    """k*sqrt(p) - l*sqrt(q) (or a constant in place of one root) has the sign of k*k*p - l*l*q"""
    if len(d) != 2:
        return d
    sq = []
    for m, k in d.items():
        if m == ():
            sq.append((k, p_const(1)))
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].square is not None and ATOMS[m[0][0]].sgn == ">=0":
            sq.append((k, ATOMS[m[0][0]].square))
        else:
            return d
    (k, p), (l, q) = sq
    if (k > 0) == (l > 0):
        return d
    return p_add(p_scale(p, k * abs(k)), p_scale(q, l * abs(l)), 1)


def _rel(d, op):
    """z3 for  d op 0"""
    u = _unroot(d)
    if u is not d:
        z = _rel0(d, op)
        Ctx.cur.fact(z == (z3.BoolVal({"==": p_cval(u) == 0, "<": p_cval(u) < 0, "<=": p_cval(u) <= 0}[op]) if p_isconst(u) else _rel0(u, op)))
        return z
    return _rel0(d, op)


def _rel0(d, op):
    if p_isint(d):
        z = z3num(d, True)
        zero = z3.IntVal(0)
    else:
        k = abs(lead(d))
        if k != 1:
            d = p_scale(d, Fraction(1) / k)
        z = z3num(d)
        zero = z3.RealVal(0)
    return {"==": z == zero, "<": z < zero, "<=": z <= zero}[op]


def o_lt(a, b):
    if a.f is not None or b.f is not None:
        x = a.f if a.f is not None else 0.0
        y = b.f if b.f is not None else 0.0
        return x < y
    d = p_add(a.p, b.p, -1)
    if p_isconst(d):
        return p_cval(d) < 0
    if p_positive(p_scale(d, -1)):
        return True
    if p_positive(d) or p_nonneg(d):
        return False
    return mkb(_rel(d, "<"))


def o_le(a, b):
    if a.f is not None or b.f is not None:
        x = a.f if a.f is not None else 0.0
        y = b.f if b.f is not None else 0.0
        return x <= y
    d = p_add(a.p, b.p, -1)
    if p_isconst(d):
        return p_cval(d) <= 0
    if p_positive(p_scale(d, -1)) or p_nonneg(p_scale(d, -1)):
        return True
    if p_positive(d):
        return False
    return mkb(_rel(d, "<="))


def o_pow(a, b):
    c = b.const()
    if c is None:
        if isinstance(b, SInt):
            c = b.__index__()
        else:
            Ctx.cur.stop(Unsupported("symbolic exponent"))
    if a.f is not None:
        with np.errstate(all="ignore"):
            return lift(float(np.float64(a.f) ** float(c)))
    if c == int(c):
        n = int(c)
        if n >= 0:
            return mknum(p_pow(a.p, n), isinstance(a, SInt) and isinstance(b, SInt))
        return o_div(SReal(p_const(1)), SReal(p_pow(a.p, -n)))
    if c == Fraction(1, 2):
        return s_sqrt(a)
    if c == Fraction(-1, 2):
        return o_div(SReal(p_const(1)), s_sqrt(a))
    if c == Fraction(3, 2):
        return o_mul(a, s_sqrt(a))
    if a.const() is not None:
        return lift(float(a.const()) ** float(c))
    Ctx.cur.stop(Unsupported("power %s" % c))


def floor_ratio(n, d):
    """floor(n/d) for SInt n, d with d > 0, by case split with linear conditions"""
    if n.const() is not None and d.const() is not None:
        return SInt(p_const(int(n.const()) // int(d.const())))
    if not bool(d > 0):
        n, d = -n, -d
    zn, zd = z3num(n.p, True), z3num(d.p, True)

    def conv(m):
        a, b = m.eval(zn, model_completion=True), m.eval(zd, model_completion=True)
        if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
            return a.as_long() // b.as_long()
        return None
    k = Ctx.cur.concretize(zn, conv, cond=lambda v: z3.And(v * zd <= zn, zn < (v + 1) * zd))
    return SInt(p_const(k))


def o_floordiv(a, b):
    if isinstance(a, SInt) and isinstance(b, SInt):
        c = b.const()
        if c == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.const() is not None and c is not None:
            return SInt(p_const(int(a.const()) // int(c)))
        if c is None and bool(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return floor_ratio(a, b)
    r = s_floor(o_div(a, b))
    return SReal(r.p) if r.f is None else r


def o_mod(a, b):
    q = o_floordiv(a, b)
    return o_sub(a, o_mul(q, b))


OPS = {"add": o_add, "sub": o_sub, "mul": o_mul, "div": o_div, "floordiv": o_floordiv, "mod": o_mod, "pow": o_pow,
       "lt": o_lt, "le": o_le, "gt": lambda a, b: o_lt(b, a), "ge": lambda a, b: o_le(b, a), "eq": o_eq, "ne": o_ne}
OPSARR = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b,
          "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b, "pow": lambda a, b: a ** b}


# ------------------------------------------------------------------------------------------- functions
def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkb(z3.If(c.z, zb(a), zb(b)))
    a, b = num(a), num(b)
    if a.f is not None or b.f is not None:
        if a.f is not None and b.f is not None and (a.f == b.f or (a.f != a.f and b.f != b.f)):
            return a
        return a if bool(c) else b
    if a.p == b.p:
        return a if isinstance(a, SReal) else b
    isint = isinstance(a, SInt) and isinstance(b, SInt)
    allint = p_isint(a.p) and p_isint(b.p)
    cz = c.z
    d = p_add(a.p, b.p, -1)     # value = b + If(c, d, 0)
    if z3.is_not(cz):
        cz = cz.arg(0)
        a, b = b, a
        d = p_scale(d, -1)
    if not p_isconst(d):
        def mk(t):
            t.isint = allint
            t.keep = cz
            t.z = z3.If(cz, z3num(a.p, allint), z3num(b.p, allint))
        t = atom(("ite", cz.get_id(), p_key(a.p), p_key(b.p)), mk)
        return mknum(p_atom(t), isint)

    def mk(t):
        t.isint = True
        t.keep = cz
        t.z = z3.If(cz, z3.IntVal(1), z3.IntVal(0))
        t.square = p_atom(t)
        t.sgn = ">=0"
    t = atom(("ind", cz.get_id()), mk)
    return mknum(p_add(b.p, p_scale(p_atom(t), p_cval(d))), isint)


def s_abs(x):
    x = num(x)
    if x.f is not None:
        return SReal(f=abs(x.f))
    c = x.const()
    if c is not None:
        return type(x)(p_const(abs(c)))
    if p_positive(x.p):
        return x
    p = x.p
    if lead(p) < 0:
        p = p_scale(p, -1)
    if len(p) == 1 and all(ATOMS[a].positive or ATOMS[a].sgn == ">=0" or e % 2 == 0 for a, e in next(iter(p))):
        return mknum(p, isinstance(x, SInt))
    isint = p_isint(p)

    def mk(a):
        z = z3num(p, isint)
        a.isint = isint
        a.z = z3.If(z >= 0, z, -z)
        a.square = p_mul(p, p)
        a.sgn = ">=0"
    return mknum(p_atom(atom(("abs", p_key(p)), mk)), isinstance(x, SInt))


def s_sqrt(x):
    x = as_real(x)
    if x.f is not None:
        return SReal(f=NAN if (x.f != x.f or x.f < 0) else x.f)
    c = x.const()
    if c is not None:
        if c < 0:
            return SReal(f=NAN)
        n, d = math.isqrt(Fraction(c).numerator), math.isqrt(Fraction(c).denominator)
        if n * n == Fraction(c).numerator and d * d == Fraction(c).denominator:
            return SReal(p_const(Fraction(n, d)))
        n, d = Fraction(c).numerator, Fraction(c).denominator
        if n * d > 10 ** 6:
            return SReal(p_const(Fraction(math.sqrt(float(c)))))
        if d > 1:
            return o_mul(SReal(p_const(Fraction(1, d))), s_sqrt(SReal(p_const(n * d))))
    if not p_positive(x.p) and not p_nonneg(x.p) and bool(x < 0):
        return SReal(f=NAN)
    p = x.p
    if len(p) == 1:
        m, k = next(iter(p.items()))
        n, d = math.isqrt(Fraction(k).numerator), math.isqrt(Fraction(k).denominator)
        if n * n == Fraction(k).numerator and d * d == Fraction(k).denominator and all(e % 2 == 0 for _, e in m):
            r = SReal(p_const(Fraction(n, d)))
            for a, e in m:
                r = o_mul(r, s_abs(SReal({((a, e // 2),): 1})))
            return r

    def mk(a):
        a.name = "sqrt%d" % a.id
        a.z = z3.Real(a.name)
        a.square = p
        a.sgn = ">=0"
        a.setup.append((True, a.z >= 0))
        a.setup.append((False, lambda: a.z * a.z == z3num(p)))
    a = atom(("sqrt", p_key(p)), mk)
    if p_positive(p):
        Ctx.cur.memo.setdefault("nonzero", set()).add(a.id)
        if not a.positive:
            a.positive = True
            a.setup.append((True, a.z > 0))
            Ctx.cur.axiom(a.z > 0)
    return SReal(p_atom(a))


def sos_key(p):
    return p_key(p_scale(p, Fraction(1) / abs(lead(p))))


def note_sos(x):
    """x is a sum of squares by construction"""
    if isinstance(x, SNum) and x.f is None and x.p:
        Ctx.cur.memo.setdefault("sos", set()).add(sos_key(x.p))


def p_nonneg(p):
    c = Ctx.cur
    if c is not None and p and sos_key(p) in c.memo.get("sos", ()):
        return True
    for m, c in p.items():
        if c < 0:
            return p_psd(p)
        for a, e in m:
            A = ATOMS[a]
            if not (A.positive or A.sgn == ">=0" or e % 2 == 0):
                return p_psd(p)
    return True


def p_psd(p):
    """a quadratic polynomial with a positive semidefinite Gram matrix (sum of squares)"""
    vs = []
    for m, c in p.items():
        if sum(e for _, e in m) > 2 or any(e < 0 for _, e in m):
            return False
        for a, _ in m:
            if a not in vs:
                vs.append(a)
    if len(vs) > 24:
        return False
    n = len(vs) + 1
    ix = {a: i + 1 for i, a in enumerate(vs)}
    G = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.items():
        f = [ix[a] for a, e in m for _ in range(e)]
        f = [0] * (2 - len(f)) + f
        i, j = f
        if i == j:
            G[i][i] += Fraction(c)
        else:
            G[i][j] += Fraction(c) / 2
            G[j][i] += Fraction(c) / 2
    for k in range(n):                      # exact LDL'
        d = G[k][k]
        if d < 0 or d == 0 and any(G[k][j] != 0 for j in range(k + 1, n)):
            return False
        if d == 0:
            continue
        for i in range(k + 1, n):
            if G[i][k] != 0:
                f = G[i][k] / d
                for j in range(k + 1, n):
                    G[i][j] -= f * G[k][j]
    return True


UF = {}


def uf(name):
    if name not in UF:
        UF[name] = z3.Function(name + "_uf", z3.RealSort(), z3.RealSort())
    return UF[name]


def s_exp(x):
    x = as_real(x)
    if x.f is not None:
        return lift(float(np.exp(x.f)))
    c = x.const()
    if c is not None:
        return lift(1 if c == 0 else float(np.exp(float(c))))
    p = x.p
    e = 1
    if lead(p) < 0:
        p = p_scale(p, -1)
        e = -1

    def mk(a):
        a.z = uf("exp")(z3num(p))
        a.positive = True
        a.setup.append((True, a.z > 0))
    return SReal(p_atom(atom(("exp", p_key(p)), mk), e))


def s_odd_uf(name, cfun):
    def f(x):
        x = as_real(x)
        if x.f is not None:
            return lift(float(cfun(x.f)))
        c = x.const()
        if c is not None:
            return lift(float(cfun(float(c)))) if c else SReal({})
        p, s = x.p, 1
        if lead(p) < 0:
            p, s = p_scale(p, -1), -1

        def mk(a):
            a.z = uf(name)(z3num(p))
        return SReal(p_scale(p_atom(atom((name, p_key(p)), mk)), s))
    return f


def s_uf(name, cfun):
    def f(x):
        x = as_real(x)
        if x.f is not None:
            with np.errstate(all="ignore"):
                return lift(float(cfun(x.f)))
        c = x.const()
        if c is not None:
            with np.errstate(all="ignore"):
                return lift(float(cfun(float(c))))
        p = x.p

        def mk(a):
            a.z = uf(name)(z3num(p))
        return SReal(p_atom(atom((name, p_key(p)), mk)))
    return f


s_tanh = s_odd_uf("tanh", np.tanh)


def s_floor(x):
    x = num(x)
    if isinstance(x, SInt) or x.f is not None:
        return x
    c = x.const()
    if c is not None:
        return SInt(p_const(math.floor(c)))
    if p_isint(x.p):
        return SInt(x.p)
    if x.ratio is not None:
        return floor_ratio(*x.ratio)

    def mk(a):
        a.isint = True
        a.z = z3.ToInt(z3num(x.p))
    return SInt(p_atom(atom(("floor", p_key(x.p)), mk)))


def s_ceil(x):
    x = num(x)
    if isinstance(x, SInt) or x.f is not None:
        return x
    y = -x
    if x.ratio is not None:
        y.ratio = (-x.ratio[0], x.ratio[1])
    r = s_floor(y)
    return -r


def s_trunc(x):
    x = num(x)
    if isinstance(x, SInt):
        return x
    if x.f is not None:
        if x.f != x.f:
            raise ValueError("cannot convert float NaN to integer")
        raise OverflowError("cannot convert float infinity to integer")
    c = x.const()
    if c is not None:
        return SInt(p_const(math.trunc(c)))
    if p_isint(x.p):
        return SInt(x.p)
    if p_nonneg(x.p) or bool(x >= 0):
        return s_floor(x)
    return s_ceil(x)


def s_rint(x):
    x = num(x)
    if isinstance(x, SInt) or x.f is not None:
        return x
    c = x.const()
    if c is not None:
        return SInt(p_const(round(c)))
    f = s_floor(x)
    d = x - f
    return ite(d < Fraction(1, 2), f, ite(d > Fraction(1, 2), f + 1, ite(o_eq(o_mod(f, SInt(p_const(2))), SInt({})), f, f + 1)))


def s_minmax(xs, ismax):
    """max/min of a list of numbers: canonical, order-independent atom"""
    xs = [num(x) for x in xs]
    if not xs:
        raise ValueError("min() arg is an empty sequence")
    for x in xs:
        if x.f is not None:
            return _minmax_special(xs, ismax)
    isint = all(isinstance(x, SInt) for x in xs)
    consts = [x for x in xs if x.const() is not None]
    uniq = {}
    for x in xs:
        if x.const() is None:
            uniq[p_key(x.p)] = x
    if consts:
        c = (max if ismax else min)(consts, key=lambda x: x.const())
        uniq[p_key(c.p)] = c
    vals = [uniq[k] for k in sorted(uniq)]
    # drop dominated values where this is syntactic
    keep = []
    for i, v in enumerate(vals):
        dom = False
        for j, w in enumerate(vals):
            if i == j:
                continue
            d = p_add(w.p, v.p, -1) if ismax else p_add(v.p, w.p, -1)   # >=0 means v dominated by w
            if p_isconst(d) and (p_cval(d) > 0) or p_positive(d):
                dom = True
        if not dom:
            keep.append(v)
    vals = keep or vals
    if len(vals) == 1:
        return vals[0] if isint or isinstance(vals[0], SReal) or True else vals[0]
    allint = all(p_isint(v.p) for v in vals)

    def mk(a):
        a.isint = allint
        z = z3num(vals[0].p, allint)
        for v in vals[1:]:
            w = z3num(v.p, allint)
            z = z3.If(w > z, w, z) if ismax else z3.If(w < z, w, z)
        a.z = z
        if ismax and any(p_nonneg(v.p) for v in vals):
            a.sgn = ">=0"
    return mknum(p_atom(atom(("max" if ismax else "min",) + tuple(p_key(v.p) for v in vals), mk)), isint)


def _minmax_special(xs, ismax):
    if any(x.f is not None and x.f != x.f for x in xs):
        return SReal(f=NAN)
    top = INF if ismax else -INF
    if any(x.f == top for x in xs):
        return SReal(f=top)
    rest = [x for x in xs if x.f is None]
    return s_minmax(rest, ismax) if rest else xs[0]


def var_real(name):
    def mk(a):
        a.z = z3.Real(name)
        a.name = name
    return SReal(p_atom(atom(("var", name), mk)))


def var_int(name):
    def mk(a):
        a.z = z3.Int(name)
        a.isint = True
        a.name = name
    return SInt(p_atom(atom(("ivar", name), mk)))


def var_bool(name):
    return SBool(z3.Bool(name))


def zn(x):
    """z3 term of a number"""
    x = num(x)
    return z3num(x.p, isinstance(x, SInt) and p_isint(x.p))


_r32 = s_odd_uf("r32", lambda c: float(np.float32(c)))


def s_round32(x):
    """the nearest single precision number (exact for what is one already)"""
    x = as_real(x)
    if x.f is None and len(x.p) == 1:
        (m, c), = x.p.items()
        if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].key[0] == "r32":
            return x
    return _r32(x)
