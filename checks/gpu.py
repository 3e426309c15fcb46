"""Stand-ins for pycuda and scikit-cuda with the documented behaviour of the calls, on host memory.

Arrays keep the memory order they are created with; the linear-algebra calls refuse operands of different precision or of
different memory order, cuBLAS routines see raw column-major memory, and a kernel touches exactly the elements its grid
covers (an element outside of the array is an illegal access)."""
import ast
import re
import types
import numpy as np


class CudaError(Exception):
    pass


class Ptr(object):
    def __init__(self, g):
        self.g = g


def same_order(*gs):
    return len({bool(g.flags.c_contiguous) for g in gs}) == 1


def modules(w):
    if w.symbolic:
        from symx import arr as A

        def new(a):
            return A.wrap(a)
    else:
        def new(a):
            return a

    def keep(a, dtype=None):
        """copy in the same memory order"""
        if dtype is not None and a.dtype != dtype:
            a = a.astype(dtype)
        f = a.ndim > 1 and a.flags.f_contiguous and not a.flags.c_contiguous
        return new(a.copy(order="F" if f else "C"))

    def filled(shape, v, dtype, order="C"):
        if isinstance(shape, (int, np.integer)):
            shape = (shape,)
        return new(np.full(tuple(int(s) for s in shape), v, dtype=dtype, order=order))

    class GPUArray(object):
        __array_priority__ = 100
        __array_ufunc__ = None

        def __init__(self, shape, dtype, allocator=None, base=None, gpudata=None, strides=None, order="C", _a=None):
            self.a = filled(shape, float("nan"), dtype, order) if _a is None else _a

        @property
        def shape(self):
            return self.a.shape

        @property
        def dtype(self):
            return np.dtype(self.a.dtype)

        @property
        def ndim(self):
            return self.a.ndim

        @property
        def size(self):
            return int(self.a.size)

        @property
        def mem_size(self):
            return int(self.a.size)

        @property
        def nbytes(self):
            return self.size * self.dtype.itemsize

        @property
        def flags(self):
            return self.a.flags

        @property
        def strides(self):
            return self.a.strides

        @property
        def gpudata(self):
            return Ptr(self) if self.size else None

        ptr = gpudata
        _block = (4, 1, 1)
        _grid = property(lambda self: ((self.size + 3) // 4, 1))

        def __len__(self):
            return self.shape[0]

        def get(self, ary=None, *x, **k):
            r = keep(self.a)
            if ary is not None:
                ary[...] = r
                return ary
            return r

        def set(self, ary, *x, **k):
            put(self.a, ary, self.dtype)

        def copy(self):
            return wrapg(keep(self.a))

        __copy__ = copy

        def astype(self, dtype):
            return wrapg(keep(self.a, np.dtype(dtype)))

        def reshape(self, *shape, **k):
            if not self.a.flags.c_contiguous:
                raise RuntimeError("only contiguous arrays may be reshaped")
            return wrapg(self.a.reshape(*shape))

        def ravel(self):
            return self.reshape(self.size)

        def fill(self, v, *x, **k):
            self.a[...] = v
            return self

        @property
        def T(self):
            return wrapg(self.a.T)

        def transpose(self, *x):
            return wrapg(self.a.T)

        def __getitem__(self, k):
            return wrapg(self.a[k])

        def __setitem__(self, k, v):
            v = v.a if isinstance(v, GPUArray) else v
            if isinstance(v, np.ndarray) and v.ndim:
                d = self.a[k]
                if d.shape != v.shape:
                    raise ValueError("src and dst must have same shape")
                if d.dtype != v.dtype:
                    raise ValueError("src and dst must have same dtype")
            self.a[k] = v

        def _in(self, r):
            self.a[...] = r
            return self

        def __iadd__(self, o):
            return self._in(self.a + val(o, self))

        def __isub__(self, o):
            return self._in(self.a - val(o, self))

        def __imul__(self, o):
            return self._in(self.a * val(o, self))

        def __itruediv__(self, o):
            return self._in(self.a / val(o, self))

        def __add__(self, o):
            return wrapg(fit(self.a + val(o, self), self, o))

        __radd__ = __add__

        def __sub__(self, o):
            return wrapg(fit(self.a - val(o, self), self, o))

        def __rsub__(self, o):
            return wrapg(fit(val(o, self) - self.a, self, o))

        def __mul__(self, o):
            return wrapg(fit(self.a * val(o, self), self, o))

        __rmul__ = __mul__

        def __truediv__(self, o):
            return wrapg(fit(self.a / val(o, self), self, o))

        def __rtruediv__(self, o):
            return wrapg(fit(val(o, self) / self.a, self, o))

        def __pow__(self, o):
            return wrapg(fit(self.a ** val(o, self), self, o))

        def __neg__(self):
            return wrapg(-self.a)

        def __abs__(self):
            return wrapg(abs(self.a))

        def mul_add(self, f, o, g):
            return wrapg(fit(self.a * f + o.a * g, self, o))

    def wrapg(a):
        return GPUArray(None, None, _a=new(a))

    def val(o, g):
        if isinstance(o, GPUArray):
            if o.shape != g.shape and o.size != 1:
                raise ValueError("shapes of arrays differ")
            return o.a
        if isinstance(o, np.ndarray) and o.ndim:
            raise TypeError("GPU arrays do not combine with host arrays")
        return o

    def fit(r, g, o):
        """a Python number does not change the precision"""
        return r if isinstance(o, GPUArray) or r.dtype == g.dtype else r.astype(g.dtype)

    def put(dst, src, dtype):
        if dst.size != src.size or dst.shape != src.shape:
            raise ValueError("ary and self must be the same size")
        if src.dtype != dtype:
            raise TypeError("ary and self must have the same dtype")
        dst[...] = src

    def to_gpu(ary, *x, **k):
        if isinstance(ary, GPUArray) or not isinstance(ary, np.ndarray):
            raise TypeError("to_gpu takes a host array")
        return wrapg(keep(ary))

    def like(v):
        def f(g, dtype=None, order="K"):
            F = order == "F" or order == "K" and not g.flags.c_contiguous
            return wrapg(filled(g.shape, v, g.dtype if dtype is None else dtype, "F" if F else "C"))
        return f

    def maker(v):
        def f(shape, dtype=np.float64, order="C", allocator=None):
            return wrapg(filled(shape, v, dtype, order))
        return f

    m = {}

    def mod(name, **k):
        m[name] = types.ModuleType(name)
        m[name].__dict__.update(k)
        if "." in name:
            top, sub = name.split(".")
            setattr(m[top], sub, m[name])
        return m[name]

    # ------------------------------------------------------------------------------------------ scikit-cuda
    def op(g, t):
        t = t.upper()
        if t not in ("N", "T", "C"):
            raise ValueError("invalid operation %r" % t)
        return g.a if t == "N" else g.a.T

    def check(*gs):
        for g in gs:
            if not isinstance(g, GPUArray):
                raise TypeError("not a GPU array: %r" % type(g))
        if len({g.dtype for g in gs}) != 1:
            raise ValueError("unsupported combination of input types")
        if not all(g.size for g in gs):
            raise TypeError("empty arrays have no memory on the device")

    def dot(x, y, transa="N", transb="N", handle=None, target=None):
        check(x, y)
        if x.ndim == 1 and y.ndim == 1:
            return new(np.dot(x.a, y.a))
        vx, vy = x.ndim == 1, y.ndim == 1
        x2, y2 = x.reshape(1, -1) if vx else x, y.reshape(-1, 1) if vy else y
        if not same_order(x2, y2):
            raise ValueError("unsupported combination of input order")
        a, b = op(x2, transa), op(y2, transb)
        if a.shape[1] != b.shape[0]:
            raise ValueError("objects are not aligned")
        r = np.dot(a, b)
        if target is not None:
            if target.shape != r.shape or target.dtype != x.dtype or not same_order(target, x2):
                raise ValueError("invalid value for target")
            target.a[...] = r
            return target
        g = wrapg(r.copy(order="C" if x2.flags.c_contiguous else "F"))
        return wrapg(g.a.reshape(-1)) if vx or vy else g

    def add_dot(x, y, c, transa="N", transb="N", alpha=1.0, beta=1.0, handle=None):
        check(x, y, c)
        if not same_order(x, y, c):
            raise ValueError("unsupported combination of input order")
        a, b = op(x, transa), op(y, transb)
        if a.shape[1] != b.shape[0] or c.shape != (a.shape[0], b.shape[1]):
            raise ValueError("objects are not aligned")
        r = np.dot(a, b)
        if not (isinstance(alpha, (int, float)) and alpha == 1):
            r = r * alpha
        if isinstance(beta, (int, float)) and beta == 0:
            c.a[...] = r
        else:
            c.a[...] = c.a * beta + r
        return c

    def eye(n, dtype=np.float32):
        return wrapg(np.eye(n, dtype=dtype))

    def multiply(x, y, overwrite=False):
        check(x, y)
        r = x * y
        if overwrite:
            y.a[...] = r.a
            return y
        return r

    def scale(alpha, x, alpha_real=False, handle=None):
        x.a[...] = x.a * alpha

    def lin_diag(x):
        return wrapg(np.diag(x.a))

    mod("skcuda")
    mod("skcuda.linalg", init=lambda *a, **k: None, shutdown=lambda *a: None, dot=dot, mdot=None, add_dot=add_dot, eye=eye,
        transpose=lambda x, *a: wrapg(x.a.T.copy(order="C" if x.flags.c_contiguous else "F")), multiply=multiply, scale=scale,
        diag=lin_diag, trace=lambda x, *a: np.trace(x.a), hermitian=lambda x, *a: wrapg(x.a.T.copy(order="C")))

    def matvec(f):
        def g(x, a, axis=None, out=None, stream=None):
            check(x, a)
            n, k = x.shape
            if axis is None:
                if a.ndim == 1:
                    axis = 1 if a.shape[0] == k else 0 if a.shape[0] == n else None
                else:
                    axis = 1 if a.shape == (1, k) else 0 if a.shape == (n, 1) else None
            if axis not in (0, 1):
                raise ValueError("invalid axis value")
            if a.size != (n if axis == 0 else k) or a.ndim > 1 and a.shape not in ((n, 1), (1, k)):
                raise ValueError("operands could not be broadcast together")
            v = a.a.reshape(-1)
            r = f(x.a, v.reshape(n, 1) if axis == 0 else v.reshape(1, k))
            if out is None:
                return wrapg(r.copy(order="C" if x.flags.c_contiguous else "F"))
            if out.shape != x.shape or out.dtype != x.dtype or not same_order(out, x):
                raise ValueError("invalid value for out")
            out.a[...] = r
            return out
        return g

    mod("skcuda.misc", add_matvec=matvec(lambda x, y: x + y), mult_matvec=matvec(lambda x, y: x * y),
        div_matvec=matvec(lambda x, y: x / y), zeros=maker(0.0), ones=maker(1.0), zeros_like=like(0.0), ones_like=like(1.0),
        init=lambda *a, **k: None, init_context=None, add=lambda x, y: x + y, subtract=lambda x, y: x - y,
        multiply=lambda x, y: x * y, divide=lambda x, y: x / y)

    # ------------------------------------------------------------------------------------------ cuBLAS: column-major raw memory
    class Mem(object):
        def __init__(self, p, ld, rows, cols, dtype):
            if not isinstance(p, Ptr):
                raise CudaError("not a device pointer")
            g = p.g
            if g.dtype != dtype:
                raise CudaError("memory of another precision")
            if rows > ld:
                raise CudaError("CUBLAS_STATUS_INVALID_VALUE: leading dimension")
            self.C = bool(g.flags.c_contiguous)
            if not self.C and not g.flags.f_contiguous:
                raise CudaError("not contiguous")
            self.g, self.ld = g, ld
            if cols and (cols - 1) * ld + rows > g.size:
                raise CudaError("illegal memory access")

        def at(self, i, j):
            k = j * self.ld + i
            sh = self.g.shape
            if len(sh) == 1:
                return (k,)
            return np.unravel_index(k, sh, order="C" if self.C else "F")

        def __getitem__(self, ij):
            return self.g.a[self.at(*ij)]

        def __setitem__(self, ij, v):
            self.g.a[self.at(*ij)] = v

    def ints(*v):
        return [int(x) for x in v]

    def syrk(dtype):
        def f(handle, uplo, trans, n, k, alpha, a, lda, beta, c, ldc):
            n, k, lda, ldc = ints(n, k, lda, ldc)
            u, t = uplo.upper(), trans.upper()
            if u not in "UL" or t not in "NTC":
                raise CudaError("CUBLAS_STATUS_INVALID_VALUE")
            am = Mem(a, lda, *((n, k) if t == "N" else (k, n)), dtype)
            cm = Mem(c, ldc, n, n, dtype)
            new_ = {}
            for j in range(n):
                for i in range(n):
                    if i == j or (i > j) == (u == "L"):
                        s = 0.0
                        for q in range(k):
                            s = s + (am[i, q] * am[j, q] if t == "N" else am[q, i] * am[q, j])
                        new_[i, j] = s * alpha + (cm[i, j] * beta if beta != 0 else 0.0)
            for ij, v in new_.items():
                cm[ij] = v
        return f

    def gemm(dtype):
        def f(handle, transa, transb, mm, n, k, alpha, a, lda, b, ldb, beta, c, ldc):
            mm, n, k, lda, ldb, ldc = ints(mm, n, k, lda, ldb, ldc)
            ta, tb = transa.upper() != "N", transb.upper() != "N"
            am = Mem(a, lda, *((k, mm) if ta else (mm, k)), dtype)
            bm = Mem(b, ldb, *((n, k) if tb else (k, n)), dtype)
            cm = Mem(c, ldc, mm, n, dtype)
            new_ = {}
            for j in range(n):
                for i in range(mm):
                    s = 0.0
                    for q in range(k):
                        s = s + (am[q, i] if ta else am[i, q]) * (bm[j, q] if tb else bm[q, j])
                    new_[i, j] = s * alpha + (cm[i, j] * beta if beta != 0 else 0.0)
            for ij, v in new_.items():
                cm[ij] = v
        return f

    mod("skcuda.cublas", cublasCreate=lambda: object(), cublasDestroy=lambda h: None, cublasSsyrk=syrk(np.float32),
        cublasDsyrk=syrk(np.float64), cublasSgemm=gemm(np.float32), cublasDgemm=gemm(np.float64))

    # ------------------------------------------------------------------------------------------ pycuda
    mod("pycuda")
    mod("pycuda.gpuarray", GPUArray=GPUArray, to_gpu=to_gpu, to_gpu_async=to_gpu, empty=maker(float("nan")), zeros=maker(0.0),
        ones=maker(1.0), empty_like=like(float("nan")), zeros_like=like(0.0), ones_like=like(1.0),
        dot=lambda x, y, **k: wrapg(new(np.asarray(np.dot(x.a.reshape(-1), y.a.reshape(-1))))))

    def unary(f):
        def g(x, out=None, stream=None):
            r = f(x.a)
            if out is None:
                return wrapg(r)
            if out.shape != x.shape or out.dtype != x.dtype:
                raise ValueError("invalid value for out")
            out.a[...] = r
            return out
        return g
    mod("pycuda.cumath", **{k: unary(getattr(np, k)) for k in ("tanh", "exp", "sqrt", "log", "sin", "cos", "sinh", "cosh")}, fabs=unary(abs))
    ctx = types.SimpleNamespace(synchronize=lambda: None, push=lambda: None, pop=lambda: None, detach=lambda: None)
    mod("pycuda.autoinit", context=ctx, device=None)
    mod("pycuda.driver", Context=ctx, init=lambda: None, LogicError=CudaError)
    mod("pycuda.compiler", SourceModule=lambda src, *a, **k: Source(src))
    mod("pycuda.tools")
    return m


# ---------------------------------------------------------------------------------------------- kernels
class Unknown(Exception):
    pass


FUNCS = {"exp": np.exp, "tanh": np.tanh, "sqrt": np.sqrt, "fabs": np.abs, "abs": np.abs, "log": np.log}
FUNCS.update({k + "f": v for k, v in list(FUNCS.items())})
TYPES = r"(?:const\s+)?(?:unsigned\s+int|unsigned|size_t|int|long|double|float|bool)"


class Source(object):
    def __init__(self, src):
        src = re.sub(r"//[^\n]*", "", re.sub(r"/\*.*?\*/", "", src, flags=re.S))
        defs = dict(re.findall(r"^\s*#define\s+(\w+)\s+(.+)$", src, flags=re.M))
        src = re.sub(r"^\s*#.*$", "", src, flags=re.M)
        for k, v in defs.items():
            src = re.sub(r"\b%s\b" % k, v.strip(), src)
        self.fs = {}
        for x in re.finditer(r"__global__\s+void\s+(\w+)\s*\(([^)]*)\)\s*\{", src):
            i, depth = x.end(), 1
            while depth:
                depth += {"{": 1, "}": -1}.get(src[i], 0)
                i += 1
            self.fs[x.group(1)] = (x.group(2), src[x.end():i - 1])

    def get_function(self, name):
        if name not in self.fs:
            raise CudaError("cuModuleGetFunction failed: named symbol not found")
        return Kernel(*self.fs[name])


class Kernel(object):
    def __init__(self, params, body):
        self.params = []
        for p in params.split(","):
            p = p.strip()
            name = re.search(r"(\w+)\s*$", p).group(1)
            self.params.append((name, "*" in p, np.float32 if "float" in p else np.float64 if "double" in p else np.int32))
        self.body = parse(tokens(body))
        self.fmt = None

    def prepare(self, fmt, *a, **k):
        if len(fmt) != len(self.params):
            raise CudaError("argument list of the kernel")
        self.fmt = fmt
        return self

    def prepared_call(self, grid, block, *args, **k):
        if self.fmt is None:
            raise CudaError("not prepared")
        self.launch(grid, block, args)

    def prepared_async_call(self, grid, block, stream, *args, **k):
        self.prepared_call(grid, block, *args)

    def __call__(self, *args, **k):
        self.launch(k.get("grid", (1, 1)), k["block"], args)

    def launch(self, grid, block, args):
        if len(args) != len(self.params):
            raise TypeError("wrong number of arguments of the kernel")
        env = {}
        for (name, ptr, dt), v in zip(self.params, args):
            if ptr:
                v = v.g if isinstance(v, Ptr) else v
                if not hasattr(v, "gpudata"):
                    raise CudaError("not a device pointer")
                if v.dtype != dt:
                    raise CudaError("memory of another precision")
            env[name] = v
        g = [int(x) for x in grid] + [1, 1]
        b = [int(x) for x in block] + [1, 1]
        if min(g) < 1 or min(b) < 1 or b[0] * b[1] * b[2] > 1024:
            raise CudaError("cuLaunchKernel failed: invalid argument")
        for by in range(g[1]):
            for bx in range(g[0]):
                for ty in range(b[1]):
                    for tx in range(b[0]):
                        e = dict(env)
                        e.update({"blockIdx.x": bx, "blockIdx.y": by, "threadIdx.x": tx, "threadIdx.y": ty, "blockDim.x": b[0],
                                  "blockDim.y": b[1], "gridDim.x": g[0], "gridDim.y": g[1]})
                        run(self.body, e)


class Return(Exception):
    pass


def run(body, env):
    try:
        block(body, env)
    except Return:
        pass


def block(body, env):
    for s in body:
        kind = s[0]
        if kind == "if":
            block(s[2] if ev(s[1], env) else s[3], env)
        elif kind == "for":
            block([s[1]], env)
            while ev(s[2], env):
                block(s[4], env)
                block([s[3]], env)
        elif kind == "return":
            raise Return()
        elif kind == "set":
            v = ev(s[3], env)
            t, o = s[1], s[2]
            if isinstance(t, ast.Subscript):
                g = env[t.value.id]
                i = index(g, ev(t.slice, env))
                if o:
                    v = binop(o, g.a[i], v)
                g.a[i] = v
            else:
                env[t.id] = binop(o, env[t.id], v) if o else v


def index(g, k):
    k = int(k)
    if not 0 <= k < g.size:
        raise CudaError("illegal memory access: element %d of %d" % (k, g.size))
    return np.unravel_index(k, g.shape, order="C" if g.flags.c_contiguous else "F")


def tokens(body):
    return body.strip()


def parse(s):
    out = []
    s = s.strip()
    while s:
        if s[0] == ";":
            s = s[1:].strip()
            continue
        if s[0] == "{":
            a, s = braces(s)
            out += parse(a)
            continue
        st, s = stmt(s)
        if st is not None:
            out.extend(st)
        s = s.strip()
    return out


def braces(s, o="{", c="}"):
    d = 0
    for i, ch in enumerate(s):
        d += {o: 1, c: -1}.get(ch, 0)
        if d == 0:
            return s[1:i], s[i + 1:].strip()
    raise Unknown(s)


def body_of(s):
    s = s.strip()
    if s.startswith("{"):
        a, s = braces(s)
        return parse(a), s
    st, s = stmt(s)
    return st, s.strip()


def stmt(s):
    m = re.match(r"if\s*(?=\()", s)
    if m:
        cond, s = braces(s[m.end():], "(", ")")
        a, s = body_of(s)
        b = []
        if re.match(r"else\b", s):
            b, s = body_of(s[4:])
        return [("if", expr(cond), a, b)], s
    m = re.match(r"for\s*(?=\()", s)
    if m:
        head, s = braces(s[m.end():], "(", ")")
        i, c, n = head.split(";")
        a, s = body_of(s)
        return [("for", simple(i)[0], expr(c), simple(n)[0], a)], s
    i = s.index(";")
    return simple(s[:i]), s[i + 1:]


def simple(t):
    t = t.strip()
    if t == "return":
        return [("return",)]
    decl = re.match(TYPES + r"\s+", t)
    if decl:
        t = t[decl.end():]
        return [x for part in split(t) for x in simple(part)] if "=" in t else []
    m = re.match(r"^(.*?)\s*(\+\+|--)$", t) or None
    if m:
        return [("set", expr(m.group(1)), m.group(2)[0], expr("1"))]
    m = re.match(r"^(.*?[^=!<>+\-*/])\s*([+\-*/]?)=(?!=)(.*)$", t, flags=re.S)
    if not m:
        raise Unknown(t)
    return [("set", expr(m.group(1)), m.group(2), expr(m.group(3)))]


def split(t):
    out, d, c = [], 0, ""
    for ch in t:
        d += {"(": 1, "[": 1, ")": -1, "]": -1}.get(ch, 0)
        if ch == "," and d == 0:
            out.append(c)
            c = ""
        else:
            c += ch
    return out + [c]


def expr(t):
    t = re.sub(r"(\d\.?\d*(?:[eE][+-]?\d+)?)[fFuUlL]+\b", r"\1", t)
    t = re.sub(r"\(\s*%s\s*\)" % TYPES, "", t)
    t = t.replace("&&", " and ").replace("||", " or ")
    t = re.sub(r"!(?!=)", " not ", t)
    m = re.match(r"^(.*)\?(.*):(.*)$", t, flags=re.S)
    if m:
        t = "(%s) if (%s) else (%s)" % (m.group(2), m.group(1), m.group(3))
    try:
        return ast.parse("(" + t.strip() + ")", mode="eval").body
    except SyntaxError:
        raise Unknown(t)


def binop(o, a, b):
    if o == "+":
        return a + b
    if o == "-":
        return a - b
    if o == "*":
        return a * b
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return a // b if o == "/" else a % b
    return a / b


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%"}


def ev(n, env):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name):
        return env[n.id]
    if isinstance(n, ast.Attribute):
        return env[n.value.id + "." + n.attr]
    if isinstance(n, ast.Subscript):
        g = env[n.value.id]
        return g.a[index(g, ev(n.slice, env))]
    if isinstance(n, ast.BinOp):
        return binop(OPS[type(n.op)], ev(n.left, env), ev(n.right, env))
    if isinstance(n, ast.UnaryOp):
        v = ev(n.operand, env)
        return -v if isinstance(n.op, ast.USub) else (not v) if isinstance(n.op, ast.Not) else v
    if isinstance(n, ast.BoolOp):
        if isinstance(n.op, ast.And):
            return all(ev(v, env) for v in n.values)
        return any(ev(v, env) for v in n.values)
    if isinstance(n, ast.IfExp):
        return ev(n.body, env) if ev(n.test, env) else ev(n.orelse, env)
    if isinstance(n, ast.Compare):
        a, b = ev(n.left, env), ev(n.comparators[0], env)
        o = type(n.ops[0])
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[o]()
    if isinstance(n, ast.Call):
        return FUNCS[n.func.id](ev(n.args[0], env)) if len(n.args) == 1 else pow2(n.func.id, [ev(a, env) for a in n.args])
    raise Unknown(ast.dump(n))


def pow2(name, args):
    if name in ("pow", "powf"):
        return args[0] ** args[1]
    if name in ("fma", "fmaf"):
        return args[0] * args[1] + args[2]
    raise Unknown(name)
