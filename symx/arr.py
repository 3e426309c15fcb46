"""Symbolic arrays: numpy object arrays (so shapes, views, strides and aliasing are numpy's own) whose elements are
symbolic scalars and which carry the element type they stand for (`_sdt`)."""
from fractions import Fraction
import numpy as np
from .core import Ctx, Unsupported
from . import val as V
from .val import SNum, SBool, SInt, SReal, num, lift

F64 = np.dtype(np.float64)
F32 = np.dtype(np.float32)
I64 = np.dtype(np.int64)
BOOL = np.dtype(bool)


class SymArray(np.ndarray):
    _sdt = F64

    def __array_finalize__(self, obj):
        self._sdt = getattr(obj, "_sdt", F64)

    # -- type ---------------------------------------------------------------------------------------
    @property
    def dtype(self):
        return self._sdt

    @property
    def itemsize(self):
        return self._sdt.itemsize

    @property
    def nbytes(self):
        return self._sdt.itemsize * self.size

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dt)
        if not copy and dt == self._sdt:
            return self
        return cast_array(self, dt, order)

    def copy(self, order="C"):
        return from_obj(np.array(obj(self), dtype=object, order=order, copy=True), self._sdt)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy(order="K")

    def __reduce__(self):
        raise Unsupported("real pickling of a symbolic array")

    def view(self, *a, **k):
        if a and a[0] not in (np.ndarray, SymArray):
            if isinstance(a[0], type) and issubclass(a[0], np.ndarray):
                return np.ndarray.view(self, *a, **k)
            Ctx.cur.stop(Unsupported("view as another type"))
        return np.ndarray.view(self, SymArray)

    def tolist(self):
        return [x.tolist() if isinstance(x, SymArray) else unbox(x) for x in self] if self.ndim else unbox(self[()])

    def item(self, *a):
        return self.reshape(-1)[a[0] if a else 0] if len(a) < 2 else self[tuple(a)]

    def tobytes(self, *a, **k):
        Ctx.cur.stop(Unsupported("bytes of a symbolic array"))

    # -- indexing -------------------------------------------------------------------------------------
    def __getitem__(self, k):
        pos = sym_element(k, self)
        if pos is not None:
            o = obj(self)
            r = o[pos[-1][0]]
            for p, c in pos[:-1]:
                r = V.ite(c, o[p], r)
            return box(r, self._sdt)
        k = fix_index(k, self.shape)
        r = np.ndarray.__getitem__(self, k)
        return r if isinstance(r, SymArray) else box(r, self._sdt)

    def __setitem__(self, k, v):
        pos = sym_element(k, self)
        if pos is not None:
            v = obj(wrap(v)).reshape(-1)[0]
            o = obj(self)
            for p, c in pos:
                o[p] = cast(V.ite(c, v, o[p]), self._sdt)
            return
        k = fix_index(k, self.shape)
        np.ndarray.__setitem__(self, k, cast_obj(v, self._sdt))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def fill(self, v):
        self[...] = v

    def take(self, idx, axis=None, out=None, mode="raise"):
        r = np.take(obj(self), plain_index(idx), axis=axis)
        return wrap_like(r, self._sdt)

    def compress(self, cond, axis=None, out=None):
        return wrap_like(np.compress(plain_index(cond), obj(self), axis=axis), self._sdt)

    def repeat(self, n, axis=None):
        return wrap_like(np.repeat(obj(self), plain_index(n), axis=axis), self._sdt)

    # -- methods reaching C code --------------------------------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_("add", self, axis, keepdims, out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_("multiply", self, axis, keepdims, out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return a_mean(self, axis, keepdims=keepdims, out=out)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return a_var(self, axis, ddof, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np.sqrt(a_var(self, axis, ddof, keepdims))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("minimum", self, axis, keepdims, out)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("maximum", self, axis, keepdims, out)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("logical_and", self, axis, keepdims, out)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("logical_or", self, axis, keepdims, out)

    def argmax(self, axis=None, out=None, **k):
        return a_argm(self, axis, True)

    def argmin(self, axis=None, out=None, **k):
        return a_argm(self, axis, False)

    def cumsum(self, axis=None, dtype=None, out=None):
        o = obj(self if self._sdt != BOOL else cast_array(self, I64))
        return from_obj(np.asarray(np.cumsum(o, axis=axis), dtype=object), I64 if self._sdt == BOOL else self._sdt)

    def dot(self, b, out=None):
        return a_dot(self, b)

    def trace(self, *a, **k):
        return np.diagonal(self).sum()

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r

    def round(self, decimals=0, out=None):
        if decimals == 0:
            return np.rint(self)
        s = 10 ** decimals
        return np.rint(self * s) / s

    def nonzero(self):
        return a_nonzero(self)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return a_argsort(self, axis)

    def sort(self, axis=-1, **k):
        idx = a_argsort(self, axis)
        obj(self)[...] = np.take_along_axis(obj(self), idx, axis)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.reshape(-1)[0])

    def __float__(self):
        if self.size != 1 or self.ndim:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return float(self[()])

    def __int__(self):
        if self.ndim:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return int(self[()])

    def __index__(self):
        if self.ndim or self._sdt.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self[()].__index__()

    def __contains__(self, v):
        return bool((self == v).any())

    def __matmul__(self, o):
        return a_matmul(self, o)

    def __rmatmul__(self, o):
        return a_matmul(o, self)

    def __imatmul__(self, o):
        self[...] = a_matmul(self, o)
        return self

    def __divmod__(self, o):
        return self // o, self % o

    def __repr__(self):
        return "SymArray(%s, %s)" % (self.shape, self._sdt)

    __str__ = __repr__

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_entry(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return function_entry(func, args, kw)

    def __array__(self, dtype=None, copy=None):
        return self


# ------------------------------------------------------------------------------------------- conversions
def obj(a):
    """plain object ndarray view"""
    return np.ndarray.view(a, np.ndarray)


def from_obj(o, dt):
    if type(o) is not np.ndarray:
        o = np.asarray(o, dtype=object) if not isinstance(o, np.ndarray) else np.ndarray.view(o, np.ndarray)
    assert o.dtype == object or o.size == 0, o.dtype
    if o.dtype != object:
        o = o.astype(object)
    r = o.view(SymArray)
    r._sdt = np.dtype(dt)
    return r


def mk0(x):
    o = np.empty((), dtype=object)
    o[()] = x
    return from_obj(o, x.dtype if not isinstance(x, bool) else BOOL)


class Box:
    pass


def box(x, dt):
    """scalar read out of an array; int/bool constants become Python values, everything else stays symbolic"""
    x = lift(x)
    if isinstance(x, SInt) and x.const() is not None:
        return np.int64(int(x.const()))
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, SReal) and dt == np.dtype(np.float32):
        return SReal32(x.p, x.f)
    return x


class SReal32(SReal):
    """scalar taken from a single precision array (type only; values are exact)"""
    __slots__ = ()

    @property
    def dtype(self):
        return np.dtype(np.float32)


def unbox(x):
    x = lift(x)
    if isinstance(x, SInt) and x.const() is not None:
        return int(x.const())
    return x


def lift_dt(x):
    """(lifted scalar, dtype or None for weak python scalars)"""
    if isinstance(x, (bool, np.bool_, SBool)):
        return BOOL
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, SReal32):
        return x.dtype
    if isinstance(x, (int, SInt)):
        return "i"
    return "f"


def wrap(a, dt=None):
    """anything array-like -> SymArray"""
    if isinstance(a, SymArray):
        return a
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return infer(a)
        o = np.empty(a.shape, dtype=object)
        it = a.reshape(-1)
        of = o.reshape(-1)
        for i in range(a.size):
            of[i] = lift(it[i])
        return from_obj(o, a.dtype)
    if isinstance(a, (list, tuple)):
        return from_list(a)
    if hasattr(a, "__h5node__"):
        return a[:]
    x = lift(a)
    d = lift_dt(a)
    o = np.empty((), dtype=object)
    o[()] = x
    return from_obj(o, {"i": I64, "f": F64}.get(d, d) if isinstance(d, str) else d)


def infer(o):
    """plain object array of scalars -> SymArray with deduced type"""
    r = np.empty(o.shape, dtype=object)
    rf, of = r.reshape(-1), o.reshape(-1)
    kinds = set()
    for i in range(of.size):
        x = of[i]
        kinds.add(lift_dt(x))
        rf[i] = lift(x)
    dt = BOOL if kinds <= {BOOL} and kinds else None
    if dt is None:
        dt = result_dt([BOOL if k is BOOL else k for k in kinds]) if kinds else F64
    return cast_array(from_obj(r, dt), dt)


def from_list(a):
    if not len(a):
        return from_obj(np.empty((0,), dtype=object), F64)
    items = [x if isinstance(x, (SNum, SBool)) or np.isscalar(x) else wrap(x) for x in a]
    if any(isinstance(x, SymArray) for x in items):
        ws = [wrap(x) for x in items]
        sh = ws[0].shape
        if any(w.shape != sh for w in ws):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        o = np.empty((len(ws),) + sh, dtype=object)
        for i, w in enumerate(ws):
            o[i] = obj(w)
        return cast_array(from_obj(o, F64), np.result_type(*[w._sdt for w in ws]))
    o = np.empty((len(items),), dtype=object)
    for i, x in enumerate(items):
        o[i] = x
    return infer(o)


def cast(x, dt):
    """scalar conversion to element type dt"""
    dt = np.dtype(dt)
    x = lift(x)
    k = dt.kind
    if k == "f":
        x = num(x)
        return SReal(x.p, x.f) if x.f is None else SReal(f=x.f)
    if k in "iu":
        return V.s_trunc(num(x))
    if k == "b":
        return x if isinstance(x, (bool, SBool)) else (x != 0)
    if k == "O":
        return x
    Ctx.cur.stop(Unsupported("conversion to %s" % dt))


def needs_cast(x, k):
    if k == "f":
        return type(x) is not SReal or False
    if k in "iu":
        return not isinstance(x, SInt)
    if k == "b":
        return not isinstance(x, (bool, SBool))
    return False


def cast_array(a, dt, order="K"):
    dt = np.dtype(dt)
    o = obj(wrap(a))
    r = np.empty_like(o, order=order) if order in ("K", "A") else np.empty(o.shape, dtype=object, order="F" if order == "F" else "C")
    k = dt.kind
    rnd = dt == F32 and Ctx.cur is not None and Ctx.cur.opts.get("round32") and wrap(a)._sdt == F64
    for i in np.ndindex(o.shape):
        x = o[i]
        r[i] = cast(x, dt) if needs_cast(x, k) else x
        if rnd:
            r[i] = V.s_round32(r[i])
    return from_obj(r, dt)


def cast_obj(v, dt):
    """value being assigned into an array of type dt -> plain object (array) with converted elements"""
    if hasattr(v, "__h5node__"):
        v = v[:]
    if isinstance(v, (np.ndarray, list, tuple)):
        return obj(cast_array(wrap(v), dt))
    return cast(v, dt)


def wrap_like(r, dt):
    if isinstance(r, np.ndarray):
        return from_obj(r, dt)
    return box(r, dt)


def result_dt(dts):
    arrs = [d for d in dts if not isinstance(d, str)]
    weak = [d for d in dts if isinstance(d, str)]
    args = list(arrs)
    if "f" in weak:
        args.append(1.0)
    elif "i" in weak:
        args.append(1)
    return np.dtype(np.result_type(*args)) if args else F64


def sym_element(k, a):
    """a single element of a small float array chosen by symbolic integers: [(position, condition)], else None"""
    kk = k if isinstance(k, tuple) else (k,)
    if a._sdt.kind != "f" or len(kk) != len(a.shape) or a.size > 64:
        return None
    if not any(isinstance(x, SInt) and x.const() is None for x in kk) or not all(isinstance(x, (SInt, int, np.integer)) for x in kk):
        return None
    pos = [((), True)]
    for x, n in zip(kk, a.shape):
        if isinstance(x, SInt) and x.const() is None:
            if not bool(x < n) or not bool(x >= 0):
                return None         # negative or out of range: the general case
            cand = [(i, x == i) for i in range(n)]
        else:
            i = int(x.const()) if isinstance(x, SInt) else int(x)
            if not -n <= i < n:
                return None
            cand = [(i % n, True)]
        pos = [(p + (i,), c if d is True else d if c is True else band(d, c)) for p, d in pos for i, c in cand]
    pos = [(p, c) for p, c in pos if c is not False]
    return pos


def fix_index(k, shape):
    """make an index acceptable to numpy: slice bounds clipped and concretised, symbolic integers split"""
    if isinstance(k, tuple):
        out = []
        dim = 0
        nd = sum(1 for x in k if x is not None and x is not Ellipsis and not (isinstance(x, np.ndarray) and lsdt(x).kind == "b" and x.ndim > 1))
        for x in k:
            if x is Ellipsis:
                dim += len(shape) - nd
                out.append(x)
            elif x is None:
                out.append(x)
            else:
                n = shape[dim] if 0 <= dim < len(shape) else 0
                out.append(fix1(x, n))
                dim += 1
        return tuple(out)
    return fix1(k, shape[0] if shape else 0)


def lsdt(x):
    return x._sdt if isinstance(x, SymArray) else x.dtype


def clip_bound(b, n):
    """slice bound -> equivalent concrete bound for a dimension of size n"""
    if b is None or isinstance(b, (int, np.integer)):
        return b
    if isinstance(b, SBool) or isinstance(b, bool):
        return int(b)
    if isinstance(b, SymArray) and b.ndim == 0:
        b = b[()]
        return clip_bound(b, n)
    if isinstance(b, SInt):
        if b.const() is not None:
            return int(b.const())
        if bool(b >= n):
            return n
        if bool(b <= -n):
            return -n if n else 0
        return b.__index__()
    if isinstance(b, (float, SReal)):
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    return b


def fix1(x, n):
    if isinstance(x, slice):
        step = x.step
        if isinstance(step, SInt) and step.const() is None and bool(step >= max(n, 1)):
            step = max(n, 1)
        return slice(clip_bound(x.start, n), clip_bound(x.stop, n), clip_bound(step, n))
    if isinstance(x, (SInt,)):
        return x.__index__()
    if isinstance(x, (SReal, float)):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(x, SBool):
        return bool(x)
    if isinstance(x, SymArray):
        return plain_index(x)
    if isinstance(x, range):
        return list(x)
    if isinstance(x, list):
        return [fix1(y, n) for y in x]
    return x


def plain_index(x):
    """index array with symbolic elements -> plain numpy int/bool array (case split per element)"""
    if isinstance(x, SymArray):
        if x._sdt.kind == "b":
            return np.array([bool(e) for e in obj(x).reshape(-1)], dtype=bool).reshape(x.shape)
        if x._sdt.kind in "iu":
            return np.array([num(e).__index__() for e in obj(x).reshape(-1)], dtype=np.int64).reshape(x.shape)
        if x.size == 0 and x._sdt.kind == "f":
            pass
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(x, (SInt,)):
        return x.__index__()
    if isinstance(x, list):
        return [plain_index(y) for y in x]
    if isinstance(x, SBool):
        return bool(x)
    return x


# ------------------------------------------------------------------------------------------- ufuncs
def _cmp(op):
    return lambda a, b: V.OPS[op](num(a), num(b))


def _logical(f):
    return lambda a, b: f(zbool(a), zbool(b))


def zbool(x):
    x = lift(x)
    return x if isinstance(x, (bool, SBool)) else (x != 0)


def band(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return a & b


def bor(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return a | b


def bxor(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return (a if isinstance(a, SBool) else b) ^ (b if isinstance(a, SBool) else a)


def bnot(a):
    return (not a) if isinstance(a, bool) else ~a


def f_isnan(x):
    x = num(x)
    return x.f is not None and x.f != x.f


def f_isinf(x):
    x = num(x)
    return x.f is not None and x.f == x.f


def f_sign(x):
    x = num(x)
    return V.ite(x > 0, num(1), V.ite(x < 0, num(-1), num(0)))


def f_div(a, b):
    return V.o_div(num(a), num(b))


def f_floordiv(a, b):
    a, b = num(a), num(b)
    if isinstance(b, SInt) and b.const() == 0:
        return SInt({})
    return V.o_floordiv(a, b)


def f_minmax(ismax):
    return lambda a, b: V.s_minmax([a, b], ismax)


def f_hypot(a, b):
    a, b = V.as_real(a), V.as_real(b)
    return V.s_sqrt(a * a + b * b)


def f_expit(z):
    return V.o_div(num(1), V.o_add(num(1), V.s_exp(V.o_sub(num(0), num(z)))))


# name -> (function on lifted scalars, result kind: 'n' numeric like inputs, 'f' float, 'b' bool, 'i' int)
UFUNCS = {
    "add": (lambda a, b: V.o_add(num(a), num(b)), "n"), "subtract": (lambda a, b: V.o_sub(num(a), num(b)), "n"),
    "multiply": (lambda a, b: V.o_mul(num(a), num(b)), "n"), "divide": (f_div, "f"), "true_divide": (f_div, "f"),
    "floor_divide": (f_floordiv, "n"), "remainder": (lambda a, b: V.o_mod(num(a), num(b)), "n"),
    "mod": (lambda a, b: V.o_mod(num(a), num(b)), "n"),
    "power": (lambda a, b: V.o_pow(num(a), num(b)), "n"), "float_power": (lambda a, b: V.as_real(V.o_pow(num(a), num(b))), "f"),
    "negative": (lambda a: -num(a), "n"), "positive": (lambda a: num(a), "n"),
    "absolute": (V.s_abs, "n"), "fabs": (V.s_abs, "f"), "sign": (f_sign, "n"),
    "square": (lambda a: V.o_mul(num(a), num(a)), "n"), "sqrt": (V.s_sqrt, "f"), "exp": (V.s_exp, "f"), "expit": (f_expit, "f"),
    "tanh": (V.s_tanh, "f"), "reciprocal": (lambda a: V.o_div(num(1), num(a)), "n"),
    "sin": (V.s_odd_uf("sin", np.sin), "f"), "cos": (V.s_uf("cos", np.cos), "f"), "log": (V.s_uf("log", np.log), "f"),
    "arctan": (V.s_odd_uf("arctan", np.arctan), "f"), "arcsinh": (V.s_odd_uf("arcsinh", np.arcsinh), "f"),
    "log2": (V.s_uf("log2", np.log2), "f"), "log10": (V.s_uf("log10", np.log10), "f"), "log1p": (V.s_uf("log1p", np.log1p), "f"),
    "expm1": (lambda a: V.s_exp(a) - 1, "f"), "exp2": (V.s_uf("exp2", np.exp2), "f"), "cbrt": (V.s_odd_uf("cbrt", np.cbrt), "f"),
    "sinh": (V.s_odd_uf("sinh", np.sinh), "f"), "cosh": (V.s_uf("cosh", np.cosh), "f"),
    "floor": (V.s_floor, "f"), "ceil": (V.s_ceil, "f"), "trunc": (V.s_trunc, "f"), "rint": (V.s_rint, "f"),
    "less": (_cmp("lt"), "b"), "less_equal": (_cmp("le"), "b"), "greater": (_cmp("gt"), "b"),
    "greater_equal": (_cmp("ge"), "b"), "equal": (_cmp("eq"), "b"), "not_equal": (_cmp("ne"), "b"),
    "logical_and": (_logical(band), "b"), "logical_or": (_logical(bor), "b"), "logical_xor": (_logical(bxor), "b"),
    "logical_not": (lambda a: bnot(zbool(a)), "b"),
    "bitwise_and": (lambda a, b: band(lift(a), lift(b)), "n"), "bitwise_or": (lambda a, b: bor(lift(a), lift(b)), "n"),
    "bitwise_xor": (lambda a, b: bxor(lift(a), lift(b)), "n"), "invert": (lambda a: bnot(lift(a)), "n"),
    "maximum": (f_minmax(True), "n"), "minimum": (f_minmax(False), "n"), "fmax": (f_minmax(True), "n"), "fmin": (f_minmax(False), "n"),
    "isnan": (f_isnan, "b"), "isinf": (f_isinf, "b"), "isfinite": (lambda a: not (f_isnan(a) or f_isinf(a)), "b"),
    "hypot": (f_hypot, "f"), "conjugate": (lambda a: num(a), "n"), "conj": (lambda a: num(a), "n"),
}
BOOLARITH = {"add": "logical_or", "multiply": "logical_and", "maximum": "logical_or", "minimum": "logical_and",
             "power": None}


def in_dt(x):
    if isinstance(x, SymArray):
        return x._sdt
    if isinstance(x, np.ndarray):
        return x.dtype if x.dtype != object else F64
    if isinstance(x, (list, tuple)):
        return wrap(x)._sdt
    if hasattr(x, "__h5node__"):
        return x.dtype
    return lift_dt(x)


def ufunc_entry(ufunc, method, inputs, kw):
    Ctx.cur.live()
    name = ufunc.__name__
    if name == "matmul":
        r = a_matmul(*inputs[:2])
        out = kw.get("out")
        if out is not None:
            store(out[0] if isinstance(out, tuple) else out, r)
            return out[0] if isinstance(out, tuple) else out
        return r
    if name not in UFUNCS:
        Ctx.cur.stop(Unsupported("ufunc %s" % name))
    if method == "reduce":
        axis = kw.get("axis", 0)
        out = kw.get("out")
        out = out[0] if isinstance(out, tuple) else out
        return reduce_(name, wrap(inputs[0]), axis, kw.get("keepdims", False), out)
    if method == "outer":
        a, b = wrap(inputs[0]), wrap(inputs[1])
        a2 = a.reshape(a.shape + (1,) * b.ndim)
        return ufunc_entry(ufunc, "__call__", (a2, b), {})
    if method == "at":
        a, idx, v = inputs[0], inputs[1], wrap(inputs[2])
        if isinstance(idx, tuple) and len(idx) == a.ndim and a.ndim > 1 or not isinstance(idx, tuple) and a.ndim == 1:
            ks = [np.atleast_1d(wrap(q)) if not isinstance(q, slice) else None for q in (idx if isinstance(idx, tuple) else (idx,))]
            if all(q is not None and q._sdt.kind in "iu" for q in ks):
                sh = np.broadcast_shapes(*[q.shape for q in ks])
                ks = [np.broadcast_to(obj(q), sh).reshape(-1) for q in ks]
                vb = np.broadcast_to(obj(v), sh).reshape(-1)
                for j in range(len(vb)):
                    p = tuple(V.to_pyint(num(q[j])) for q in ks)
                    p = p if len(p) > 1 else p[0]
                    a[p] = UFUNCS[name][0](a[p], vb[j])
                return None
        idx = plain_index(idx)
        if isinstance(idx, tuple):
            Ctx.cur.stop(Unsupported("ufunc.at with index tuple"))
        idx = np.atleast_1d(idx)
        vb = np.broadcast_to(obj(v), idx.shape + a.shape[1:])
        for j in range(idx.shape[0]):
            a[int(idx[j])] = UFUNCS[name][0](a[int(idx[j])], vb[j]) if a.ndim == 1 else ufunc(a[int(idx[j])], wrap(vb[j]))
        return None
    if method == "accumulate":
        a = wrap(inputs[0])
        if name == "add":
            return a.cumsum(axis=kw.get("axis", 0))
        Ctx.cur.stop(Unsupported("accumulate"))
    if method != "__call__":
        Ctx.cur.stop(Unsupported("ufunc method %s" % method))
    f, kind = UFUNCS[name]
    dts = [in_dt(x) for x in inputs]
    allbool = all(d is BOOL or d == BOOL for d in dts if not isinstance(d, str)) and not any(isinstance(d, str) for d in dts)
    if allbool and name in BOOLARITH:
        if BOOLARITH[name]:
            f, kind = UFUNCS[BOOLARITH[name]][0], "b"
    if allbool and name == "subtract":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    if allbool and name == "negative":
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    if kind == "b":
        rdt = BOOL
    else:
        rdt = result_dt(dts)
        if kind == "f" and rdt.kind in "iub":
            rdt = F64
        if name in ("bitwise_and", "bitwise_or", "bitwise_xor", "invert") and rdt.kind == "f":
            raise TypeError("ufunc '%s' not supported for the input types" % name)
        if name == "power" and rdt.kind in "iu":
            pass
    if kw.get("dtype") is not None:
        rdt = np.dtype(kw["dtype"])
    ops = [wrap(x) for x in inputs]
    objs = [obj(o) for o in ops]
    shape = np.broadcast_shapes(*[o.shape for o in objs])
    where = kw.get("where", True)
    res = np.empty(shape, dtype=object)
    if not (where is True):
        wmask = np.broadcast_to(plain_index(where) if isinstance(where, np.ndarray) else np.asarray(bool(where)), shape)
    bc = [np.broadcast_to(o, shape) for o in objs]
    rk = rdt.kind
    for i in np.ndindex(shape):
        if where is not True and not wmask[i]:
            res[i] = SReal({})
            continue
        x = f(*[b[i] for b in bc])
        res[i] = cast(x, rdt) if needs_cast(x, rk) else x
    out = kw.get("out")
    if isinstance(out, tuple):
        out = out[0]
    if out is not None:
        odt = lsdt(out)
        if not np.can_cast(rdt, odt, "same_kind"):
            raise np._core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", rdt, odt, 0) if False else \
                TypeError("Cannot cast ufunc '%s' output from %s to %s with casting rule 'same_kind'" % (name, rdt, odt))
        if out.shape != shape:
            raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (out.shape, shape))
        if where is not True:
            for i in np.ndindex(shape):
                if wmask[i]:
                    out[i] = res[i]
        else:
            store(out, from_obj(res, rdt))
        return out
    if where is not True:
        Ctx.cur.stop(Unsupported("where= without out="))
    if shape == ():
        return box(res[()], rdt)
    return from_obj(res, rdt)


def store(out, r):
    if isinstance(out, SymArray):
        out[...] = r
    else:
        r = wrap(r)
        o = obj(r)
        for i in np.ndindex(o.shape):
            c = o[i].const() if isinstance(o[i], SNum) else o[i]
            if c is None or isinstance(c, SBool):
                Ctx.cur.stop(Unsupported("symbolic value stored into a plain array"))
            out[i] = c


IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def reduce_(name, a, axis, keepdims=False, out=None):
    a = wrap(a)
    dt = a._sdt
    if name in ("add", "multiply") and dt.kind == "b":
        a = cast_array(a, I64)
        dt = I64
    if name in ("maximum", "minimum") and dt.kind == "b":
        name = "logical_or" if name == "maximum" else "logical_and"
    o = obj(a)
    nd = a.ndim
    if isinstance(keepdims, type(np._NoValue)):
        keepdims = False
    if axis is None:
        axes = tuple(range(nd))
    else:
        axes = tuple(int(x) for x in (axis if isinstance(axis, tuple) else (axis,)))
        for x in axes:
            if not -nd <= x < nd:
                raise np.exceptions.AxisError(x, nd)
        axes = tuple(x % nd for x in axes)
    keep = tuple(i for i in range(nd) if i not in axes)
    t = o.transpose(keep + axes)
    kshape = tuple(o.shape[i] for i in keep)
    t = t.reshape(kshape + (-1,)) if t.size else t.reshape(kshape + (int(np.prod([o.shape[i] for i in axes])),))
    res = np.empty(kshape, dtype=object)
    rdt = BOOL if name.startswith("logical") else dt
    for i in np.ndindex(kshape):
        xs = [t[i + (j,)] for j in range(t.shape[-1])]
        if name in ("maximum", "minimum"):
            if not xs:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            r = V.s_minmax(xs, name == "maximum")
        elif name in IDENT:
            r = lift(IDENT[name])
            f = UFUNCS[name][0]
            for x in xs:
                r = f(r, x)
        else:
            if not xs:
                raise ValueError("zero-size reduction")
            r = xs[0]
            for x in xs[1:]:
                r = UFUNCS[name][0](r, x)
        res[i] = cast(r, rdt) if needs_cast(r, rdt.kind) else r
    if keepdims:
        res = res.reshape(tuple(1 if i in axes else o.shape[i] for i in range(nd)))
    if out is not None:
        store(out, from_obj(res, rdt))
        return out
    if res.shape == ():
        return box(res[()], rdt)
    return from_obj(res, rdt)


def fdt(dt):
    return dt if dt.kind == "f" else F64


def a_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = wrap(a)
    n = a.size if axis is None else int(np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
    s = reduce_("add", a, axis, keepdims)
    if n == 0:
        r = np.multiply(s, SReal(f=V.NAN)) if isinstance(s, SymArray) else SReal(f=V.NAN)
    else:
        r = np.true_divide(s, n) if isinstance(s, SymArray) else V.o_div(V.as_real(s), num(n))
    if isinstance(r, SymArray):
        r._sdt = fdt(a._sdt)
        if dtype is not None:
            r = r.astype(dtype)
    elif fdt(a._sdt) == np.float32:
        r = SReal32(r.p, r.f)
    if out is not None:
        store(out, r)
        return out
    return r


def a_var(a, axis=None, ddof=0, keepdims=False):
    a = wrap(a)
    m = a_mean(a, axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else int(np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
    s = reduce_("add", d * d, axis, keepdims)
    for x in (obj(s).reshape(-1) if isinstance(s, np.ndarray) else [s]):
        V.note_sos(x)
    return s / (n - ddof)


def a_argm(a, axis, ismax):
    a = wrap(a)
    if a.size == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    if axis is None:
        o = obj(a).reshape(1, -1)
        return _argm1(list(o[0]), ismax, box_=True)
    o = np.moveaxis(obj(a), axis, -1)
    res = np.empty(o.shape[:-1], dtype=object)
    for i in np.ndindex(res.shape):
        res[i] = _argm1(list(o[i]), ismax)
    if res.shape == ():
        return box(res[()], I64)
    return from_obj(res, I64)


def _argm1(xs, ismax, box_=False):
    best, bi = num(xs[0]), SInt({})
    if best.f is not None and best.f != best.f:
        return np.int64(0) if box_ else bi
    for j in range(1, len(xs)):
        x = num(xs[j])
        if x.f is not None and x.f != x.f:
            bi = num(j)
            break
        c = (x > best) if ismax else (x < best)
        best = V.ite(c, x, best)
        bi = V.ite(c, num(j), bi)
    return box(bi, I64) if box_ else bi


def a_nonzero(a):
    a = wrap(a)
    o = obj(a)
    mask = np.zeros(o.shape, dtype=bool)
    for i in np.ndindex(o.shape):
        mask[i] = bool(zbool(o[i]))
    return np.nonzero(mask)


def a_argsort(a, axis=-1):
    import functools
    a = wrap(a)

    def cmp(x, y):
        if bool(x[0] < y[0]):
            return -1
        if bool(y[0] < x[0]):
            return 1
        return x[1] - y[1]
    if a.ndim == 1 or axis is None:
        xs = [(num(x), i) for i, x in enumerate(obj(a).reshape(-1))]
        return np.array([i for _, i in sorted(xs, key=functools.cmp_to_key(cmp))], dtype=np.int64)
    o = np.moveaxis(obj(a), axis, -1)
    r = np.empty(o.shape, dtype=np.int64)
    for i in np.ndindex(o.shape[:-1]):
        r[i] = a_argsort(wrap(o[i]))
    return np.moveaxis(r, -1, axis)


def _mm(a, b):
    """2-d object matrix product"""
    n, k = a.shape
    k2, m = b.shape
    if k != k2:
        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
    r = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            s = SInt({})
            for t in range(k):
                s = V.o_add(s, V.o_mul(num(a[i, t]), num(b[t, j])))
            r[i, j] = s
    return r


SOLRULE = [None]         # products with solutions of linear systems (installed by stubs)


def a_dot(a, b, out=None):
    Ctx.cur.live()
    a, b = wrap(a), wrap(b)
    r = None
    if "sols" in Ctx.cur.memo and a.ndim and b.ndim:
        r = SOLRULE[0](a, b)
    if r is not None:
        pass
    elif a.ndim == 0 or b.ndim == 0:
        r = a * b
    else:
        dt = np.result_type(a._sdt, b._sdt)
        x = obj(a).reshape(1, -1) if a.ndim == 1 else obj(a).reshape(-1, a.shape[-1]) if a.size else obj(a).reshape(int(np.prod(a.shape[:-1])), a.shape[-1])
        if b.ndim <= 2:
            y = obj(b).reshape(-1, 1) if b.ndim == 1 else obj(b)
            bs = b.shape[1:]
        else:
            t = np.moveaxis(obj(b), -2, 0)
            y = t.reshape(t.shape[0], -1)
            bs = b.shape[:-2] + b.shape[-1:]
        r = _mm(x, y).reshape(a.shape[:-1] + bs)
        r = wrap_like(r, dt) if r.shape else box(r[()], dt)
        if isinstance(r, SymArray):
            r = cast_array(r, dt)
        elif dt.kind == "f":
            r = box(V.as_real(r), dt)
    if out is not None:
        store(out, r)
        return out
    return r


def a_matmul(a, b, out=None):
    a, b = wrap(a), wrap(b)
    if a.ndim <= 2 and b.ndim <= 2:
        if a.ndim == 0 or b.ndim == 0:
            raise ValueError("matmul: Input operand does not have enough dimensions")
        return a_dot(a, b)
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(obj(a), sh + a.shape[-2:])
    B = np.broadcast_to(obj(b), sh + b.shape[-2:])
    r = np.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(sh):
        r[i] = _mm(A[i], B[i])
    dt = np.result_type(a._sdt, b._sdt)
    return cast_array(from_obj(r, dt), dt)


def a_einsum(sub, *ops, **k):
    if not isinstance(sub, str):
        Ctx.cur.stop(Unsupported("einsum sublist form"))
    sub = sub.replace(" ", "")
    ops = [wrap(o) for o in ops]
    ins, _, outs = sub.partition("->")
    ins = ins.split(",")
    if "..." in sub:
        Ctx.cur.stop(Unsupported("einsum ellipsis"))
    if "->" not in sub:
        allc = "".join(ins)
        outs = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match operand dimensions")
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                if dims[c] == 1 or n == 1:
                    dims[c] = max(dims[c], n)
                else:
                    raise ValueError("operands could not be broadcast together in einsum")
    rest = [c for c in dims if c not in outs]
    objs = [obj(o) for o in ops]
    res = np.empty(tuple(dims[c] for c in outs), dtype=object)
    for oi in np.ndindex(res.shape):
        env = dict(zip(outs, oi))
        s = SInt({})
        for ri in np.ndindex(tuple(dims[c] for c in rest)):
            env.update(zip(rest, ri))
            t = None
            for sx, o in zip(ins, objs):
                x = num(o[tuple(env[c] if o.shape[q] != 1 else 0 for q, c in enumerate(sx))])
                t = x if t is None else V.o_mul(t, x)
            s = V.o_add(s, t)
        res[oi] = s
    dt = np.result_type(*[o._sdt for o in ops])
    if res.shape == ():
        return box(cast(res[()], dt), dt)
    return cast_array(from_obj(res, dt), dt)


# ------------------------------------------------------------------------------------------- numpy functions
FUNCS = {}


def handles(*fs):
    def d(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return d


def has_sym(x, depth=0):
    if isinstance(x, (SymArray, SBase_)):
        return True
    if depth < 3 and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth + 1) for y in x)
    return hasattr(x, "__h5node__")


SBase_ = V.SBase


def conc_ints(x, depth=0):
    """concretise symbolic integers inside shape/section arguments"""
    if isinstance(x, SInt):
        return x.__index__()
    if isinstance(x, SBool):
        return bool(x)
    if depth < 3 and isinstance(x, tuple):
        return tuple(conc_ints(y, depth + 1) for y in x)
    if depth < 3 and isinstance(x, list):
        return [conc_ints(y, depth + 1) for y in x]
    return x


INTRES = {np.argsort, np.searchsorted, np.flatnonzero, np.count_nonzero}


def function_entry(func, args, kw):
    Ctx.cur.live()
    g = FUNCS.get(func)
    if g is not None:
        return g(*args, **kw)
    mod = getattr(func, "__module__", "") or ""
    if "linalg" in mod or "fft" in mod:
        Ctx.cur.stop(Unsupported("numpy function %s.%s" % (mod, func.__name__)))
    dts = []

    def conv(x, depth=0):
        if hasattr(x, "__h5node__"):
            x = x[:]
        if isinstance(x, SymArray):
            dts.append(x._sdt)
            return x
        if isinstance(x, np.ndarray):
            if x.dtype.kind in "f" or x.dtype == object:
                dts.append(x.dtype if x.dtype != object else F64)
                return wrap(x)
            return x
        if depth < 3 and isinstance(x, tuple):
            return tuple(conv(y, depth + 1) for y in x)
        if depth < 3 and isinstance(x, list):
            return [conv(y, depth + 1) for y in x]
        return conc_ints(x)
    args = conv(tuple(args))
    kw = {k: conv(v) for k, v in kw.items()}
    impl = getattr(func, "__wrapped__", None)
    try:
        r = np.ndarray.__array_function__(next(a for a in flat(args, kw) if isinstance(a, SymArray)), func, (SymArray,), args, kw)
    except StopIteration:
        r = func(*args, **kw)
    dt = np.result_type(*dts) if dts else F64

    def post(x):
        if isinstance(x, SymArray):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object:
            return infer(x) if not dts else from_obj(x, dt)
        if isinstance(x, list):
            return [post(y) for y in x]
        if isinstance(x, tuple):
            return tuple(post(y) for y in x)
        return x
    return post(r)


def flat(args, kw):
    for a in list(args) + list(kw.values()):
        if isinstance(a, (list, tuple)):
            yield from flat(a, {})
        else:
            yield a


def _concat(arrs, axis=0, **k):
    arrs = [wrap(a) for a in arrs]
    dt = np.result_type(*[a._sdt for a in arrs])
    r = np.concatenate([obj(cast_array(a, dt)) for a in arrs], axis=axis)
    return from_obj(r, k["dtype"] if k.get("dtype") is not None else dt)


FUNCS[np.concatenate] = lambda arrs, axis=0, out=None, **k: _concat(arrs, axis, **k)


@handles(np.hstack)
def _hstack(tup, **k):
    arrs = [a if wrap(a).ndim else wrap(a).reshape(1) for a in map(wrap, tup)]
    return _concat(arrs, 0 if arrs[0].ndim == 1 else 1)


@handles(np.vstack)
def _vstack(tup, **k):
    arrs = [wrap(a) for a in tup]
    return _concat([a.reshape(1, -1) if a.ndim < 2 else a for a in arrs], 0)


@handles(np.column_stack)
def _cstack(tup):
    arrs = [wrap(a) for a in tup]
    return _concat([a.reshape(-1, 1) if a.ndim < 2 else a for a in arrs], 1)


@handles(np.stack)
def _stack(arrs, axis=0, **k):
    arrs = [wrap(a) for a in arrs]
    return _concat([np.expand_dims(a, axis) for a in arrs], axis)


@handles(np.append)
def _append(a, v, axis=None):
    a, v = wrap(a), wrap(v)
    if axis is None:
        return _concat([a.reshape(-1), v.reshape(-1)], 0)
    return _concat([a, v], axis)


@handles(np.delete)
def _delete(a, idx, axis=None):
    return wrap_like(np.delete(obj(wrap(a)), plain_index(idx), axis), wrap(a)._sdt)


FUNCS[np.dot] = a_dot
FUNCS[np.matmul] = a_matmul
FUNCS[np.einsum] = a_einsum
FUNCS[np.mean] = lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: a_mean(a, axis, dtype, out, keepdims is True)
FUNCS[np.average] = lambda a, axis=None, weights=None, **k: (
    a_mean(a, axis) if weights is None else np.sum(wrap(a) * (weights if wrap(weights).ndim == wrap(a).ndim else wrap(weights).reshape((-1,) + (1,) * (wrap(a).ndim - 1)))
                                                  , axis=axis) / np.sum(weights))
FUNCS[np.var] = lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: a_var(a, axis, ddof, keepdims is True)
FUNCS[np.std] = lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: np.sqrt(a_var(a, axis, ddof, keepdims is True))
FUNCS[np.sum] = lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: reduce_("add", wrap(a), axis, keepdims is True, out)
FUNCS[np.prod] = lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: reduce_("multiply", wrap(a), axis, keepdims is True, out)
for _f, _n in ((np.max, "maximum"), (np.amax, "maximum"), (np.min, "minimum"), (np.amin, "minimum"), (np.all, "logical_and"), (np.any, "logical_or")):
    FUNCS[_f] = (lambda n: lambda a, axis=None, out=None, keepdims=False, **k: reduce_(n, wrap(a), axis, keepdims is True, out))(_n)
FUNCS[np.argmax] = lambda a, axis=None, out=None, **k: a_argm(a, axis, True)
FUNCS[np.argmin] = lambda a, axis=None, out=None, **k: a_argm(a, axis, False)
FUNCS[np.nonzero] = a_nonzero
FUNCS[np.flatnonzero] = lambda a: a_nonzero(wrap(a).reshape(-1))[0]
FUNCS[np.argwhere] = lambda a: np.transpose(a_nonzero(a))
FUNCS[np.count_nonzero] = lambda a, axis=None, keepdims=False: reduce_("add", wrap(a) != 0 if wrap(a)._sdt.kind != "b" else wrap(a), axis, keepdims)
FUNCS[np.argsort] = lambda a, axis=-1, **k: a_argsort(a, axis)
FUNCS[np.trace] = lambda a, *x, **k: np.diagonal(wrap(a)).sum()
FUNCS[np.round] = lambda a, decimals=0, out=None: wrap(a).round(decimals)
FUNCS[np.copy] = lambda a, order="K", subok=False: wrap(a).copy(order)
FUNCS[np.array_equal] = lambda a, b, **k: wrap(a).shape == wrap(b).shape and bool((wrap(a) == wrap(b)).all())
FUNCS[np.shape] = lambda a: wrap(a).shape
FUNCS[np.clip] = lambda a, lo=None, hi=None, **k: wrap(a).clip(lo, hi)
FUNCS[np.cumsum] = lambda a, axis=None, dtype=None, out=None: wrap(a).cumsum(axis)


@handles(np.sort)
def _sort(a, axis=-1, **k):
    r = wrap(a).copy()
    r.sort(axis=axis)
    return r


@handles(np.unique)
def _unique(a, return_counts=False, return_inverse=False, return_index=False, **k):
    a = wrap(a).reshape(-1)
    if return_inverse or return_index:
        Ctx.cur.stop(Unsupported("unique with inverse"))
    s = _sort(a)
    out, cnt = [], []
    for x in s:
        if out and bool(x == out[-1]):
            cnt[-1] += 1
        else:
            out.append(x)
            cnt.append(1)
    r = cast_array(wrap(out), a._sdt) if out else a[:0]
    return (r, np.array(cnt)) if return_counts else r


@handles(np.where)
def _where(c, *xy):
    if not xy:
        return a_nonzero(c)
    c, x, y = wrap(c), wrap(xy[0]), wrap(xy[1])
    dts = [in_dt(t) for t in xy]
    dt = BOOL if all(not isinstance(d, str) and d == BOOL for d in dts) else result_dt(dts)
    sh = np.broadcast_shapes(c.shape, x.shape, y.shape)
    C, X, Y = (np.broadcast_to(obj(t), sh) for t in (c, x, y))
    r = np.empty(sh, dtype=object)
    for i in np.ndindex(sh):
        r[i] = cast(V.ite(zbool(C[i]), X[i], Y[i]), dt)
    return from_obj(r, dt) if sh else box(r[()], dt)


@handles(np.allclose, np.isclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = wrap(a), wrap(b)
    return bool((np.abs(a - b) <= atol + rtol * np.abs(b)).all())


@handles(np.take)
def _take(a, idx, axis=None, out=None, mode="raise"):
    return wrap(a).take(idx, axis)


def _tri(up):
    def f(m, k=0):
        m = wrap(m)
        o = obj(m)
        r = np.empty(o.shape, dtype=object)
        z = cast(0, m._sdt)
        for i in np.ndindex(o.shape):
            a, b = i[-2], i[-1]
            r[i] = o[i] if ((b - a >= k) if up else (b - a <= k)) else z
        return from_obj(r, m._sdt)
    return f


FUNCS[np.triu] = _tri(True)
FUNCS[np.tril] = _tri(False)


@handles(np.diag)
def _diag(v, k=0):
    v = wrap(v)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        r = full((n, n), 0, v._sdt)
        for i in range(v.shape[0]):
            r[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
        return r
    return wrap_like(np.array(np.diagonal(obj(v), k)), v._sdt)


@handles(np.fill_diagonal)
def _filldiag(a, v, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v if not isinstance(v, np.ndarray) or v.ndim == 0 else v[i]


@handles(np.outer)
def _outer(a, b, out=None):
    return wrap(a).reshape(-1, 1) * wrap(b).reshape(1, -1)


@handles(np.inner)
def _inner(a, b):
    return a_dot(a, wrap(b).T)


@handles(np.vdot)
def _vdot(a, b):
    return a_dot(wrap(a).reshape(-1), wrap(b).reshape(-1))


@handles(np.tensordot)
def _tensordot(a, b, axes=2):
    a, b = wrap(a), wrap(b)
    if isinstance(axes, int):
        if axes == 1:
            return a_dot(a, b)
    Ctx.cur.stop(Unsupported("tensordot"))


@handles(np.bincount)
def _bincount(x, weights=None, minlength=0):
    x = plain_index(wrap(x)) if isinstance(x, SymArray) else np.asarray(x)
    n = max(int(x.max()) + 1 if x.size else 0, int(minlength))
    if weights is None:
        return np.bincount(x, minlength=n)
    r = full((n,), 0, F64)
    w = wrap(weights)
    for i, k in enumerate(x):
        r[int(k)] = r[int(k)] + w[i]
    return r


@handles(np.full_like, np.zeros_like, np.ones_like, np.empty_like)
def _never(*a, **k):
    Ctx.cur.stop(Unsupported("unhooked *_like"))


FUNCS[np.zeros_like] = lambda a, dtype=None, order="K", subok=True, shape=None, **k: full(wrap(a).shape if shape is None else shape, 0, dtype or wrap(a)._sdt)
FUNCS[np.ones_like] = lambda a, dtype=None, order="K", subok=True, shape=None, **k: full(wrap(a).shape if shape is None else shape, 1, dtype or wrap(a)._sdt)
FUNCS[np.full_like] = lambda a, v, dtype=None, order="K", subok=True, shape=None, **k: full(wrap(a).shape if shape is None else shape, v, dtype or wrap(a)._sdt)
FUNCS[np.empty_like] = lambda a, dtype=None, order="K", subok=True, shape=None, **k: empty(wrap(a).shape if shape is None else shape, dtype or wrap(a)._sdt)


@handles(np.result_type)
def _rt(*a):
    return result_dt([in_dt(x) if not isinstance(x, (np.dtype, type)) else np.dtype(x) for x in a])


FUNCS[np.can_cast] = lambda a, b, casting="safe": np.can_cast(a._sdt if isinstance(a, SymArray) else a, b, casting)
FUNCS[np.iscomplexobj] = lambda a: False
FUNCS[np.isrealobj] = lambda a: True
FUNCS[np.may_share_memory] = lambda a, b, *k: np.may_share_memory(obj(a), obj(b))
FUNCS[np.shares_memory] = lambda a, b, *k: np.shares_memory(obj(a), obj(b))
FUNCS[np.isscalar] = lambda a: isinstance(a, (SNum, SBool))
FUNCS[np.linalg.norm] = None


def a_norm(x, ord=None, axis=None, keepdims=False):
    x = wrap(x)
    if axis is None and x.ndim == 1 or axis is not None:
        if ord in (None, 2):
            return np.sqrt(reduce_("add", x * x, axis, keepdims))
        if ord == 1:
            return reduce_("add", np.abs(x), axis, keepdims)
        if ord == np.inf:
            return reduce_("maximum", np.abs(x), axis, keepdims)
    if axis is None and ord in (None, "fro"):
        return np.sqrt(reduce_("add", x * x, None, False))
    Ctx.cur.stop(Unsupported("norm"))


FUNCS[np.linalg.norm] = a_norm


def full(shape, v, dt, order="C"):
    dt = np.dtype(dt)
    shape = conc_ints(shape)
    o = np.empty(shape, dtype=object, order=order if order in "CF" else "C")
    if isinstance(v, (np.ndarray, list, tuple)):
        o[...] = cast_obj(v, dt)
    else:
        o.fill(cast(v, dt))
    return from_obj(o, dt)


def empty(shape, dt=F64, order="C"):
    """uninitialised memory: arbitrary values"""
    dt = np.dtype(dt)
    shape = conc_ints(shape)
    o = np.empty(shape, dtype=object, order=order if order in "CF" else "C")
    c = Ctx.cur
    for i in np.ndindex(o.shape):
        if dt.kind == "f":
            o[i] = V.var_real(c.name("uninit"))
        elif dt.kind in "iu":
            o[i] = V.var_int(c.name("uninit"))
        else:
            o[i] = V.var_bool(c.name("uninit"))
    return from_obj(o, dt)
