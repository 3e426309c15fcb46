"""C19: normalize_hdf5 standardises the file by the right statistics."""
import numpy as np
from symx.spec import S
from checks.common import anybatch


DT = {"f64": np.float64, "f32": np.float32}


def make(w, X, dtype="f64"):
    p = w.path("data.h5")
    w.load("hpelm.modules").make_hdf5(X, p, dtype=DT[dtype])
    return p


def stats(w, X):
    """mean and variance of columns"""
    n, d = X.shape
    m, v = [], []
    for j in range(d):
        s = 0
        for i in range(n):
            s = s + X[i, j]
        s = s / float(n)
        q = 0
        for i in range(n):
            q = q + (X[i, j] - s) * (X[i, j] - s)
        m.append(s)
        v.append(q / float(n))
    return m, v


def column(w, n, kind, j):
    if kind == "const":
        return [w.real("c%d" % j)] * n
    x = [w.real("x_%d_%d" % (i, j)) for i in range(n)]
    if n > 1:
        w.assume(w.any_of(*[x[i] - x[0] > 0.2 for i in range(1, n)] + [x[0] - x[i] > 0.2 for i in range(1, n)]))
        q = 0
        for i in range(n):
            q = q + (x[i] - sum(x) / float(n)) * (x[i] - sum(x) / float(n))
        w.assume(q > 0.01)       # follows from the line above: q is at least half the largest squared difference
    return x


def fit(w, n=3, cols=("any",), batch="sym", dtype="f64", again=True):
    cs = [column(w, n, "const" if n == 1 else k, j) for j, k in enumerate(cols)]
    X = np.zeros((n, len(cols)))
    for j, c in enumerate(cs):
        for i in range(n):
            X[i, j] = c[i]
    p = make(w, X, dtype)
    f = w.load("hpelm.modules").normalize_hdf5
    kw = {}
    if batch == "sym":
        kw["batch"] = anybatch(w, n)
    elif batch:
        kw["batch"] = batch
    tol = 4e-3 if dtype != "f64" else None
    mean, std = f(p, **kw)
    w.check(w.open_handles() == 0, "file is closed")
    m, v = stats(w, X)
    got = w.get_h5(p)
    w.check(tuple(got.shape) == tuple(X.shape), "shape is kept")
    at = w.h5_attrs(p)
    for j, k in enumerate(cols):
        const = k == "const" or n == 1
        w.eq(mean[j], m[j], "mean of the whole file", tol)
        w.eq(at["mean"][j], m[j], "stored mean", tol)
        s = 1
        if not const:
            s = std[j]
            w.check(s > 0, "deviation is positive")
            w.eq(s * s, v[j], "standard deviation of the whole file", tol)
            w.eq(at["std"][j], s, "stored standard deviation")
        for i in range(n):
            w.eq(got[i, j] * s, X[i, j] - m[j], "normalized value", tol)
    if again:
        m2, s2 = f(p, **({} if w.bool("other") else kw))
        w.eq(m2, at["mean"], "second call returns the stored mean")
        w.eq(s2, at["std"], "second call returns the stored deviation")
        w.eq(w.get_h5(p), got, "second call leaves the data alone")
        w.eq(w.h5_attrs(p)["mean"], at["mean"], "second call keeps the stored mean")
        w.check(w.open_handles() == 0, "file is closed after the second call")


def given(w, n=3, d=2, times=1, lists=False, dtype="f64"):
    X = w.mat("X", (n, d))
    p = make(w, X, dtype)
    f = w.load("hpelm.modules").normalize_hdf5
    tol = 4e-3 if dtype != "f64" else None
    ref = X
    for t in range(times):
        m = w.mat("m%d" % t, (d,))
        s = w.mat("s%d" % t, (d,), positive=True)
        m0, s0 = w.snap(m), w.snap(s)
        batch = anybatch(w, n, "batch%d" % t)
        r = f(p, [m[j] for j in range(d)] if lists else m, [s[j] for j in range(d)] if lists else s, batch)
        w.eq(m, m0, "given means are not changed")
        w.eq(s, s0, "given deviations are not changed")
        ref = (ref - m) / s
        w.eq(w.get_h5(p), ref, "exactly the given parameters are applied", tol)
        w.eq(w.h5_attrs(p)["mean"], m, "given means are stored", tol)
        w.eq(w.h5_attrs(p)["std"], s, "given deviations are stored", tol)
        w.eq(r[0], m, "given means are returned")
        w.eq(r[1], s, "given deviations are returned")
    m2, s2 = f(p)
    w.eq(m2, m, "later call returns the given means")
    w.eq(s2, s, "later call returns the given deviations")
    w.eq(w.get_h5(p), ref, "later call leaves the data alone", tol)


def zero_std(w, n=2):
    """a zero deviation divides by one and the vector stays"""
    X = w.mat("X", (n, 2))
    p = make(w, X)
    m, s = w.mat("m", (2,)), np.array([0., 2.])
    w.load("hpelm.modules").normalize_hdf5(p, m, s, anybatch(w, n))
    w.eq(s, np.array([0., 2.]), "given deviations are not changed")
    w.eq(w.get_h5(p), (X - m) / np.array([1., 2.]), "a zero deviation divides by one")


def wrong(w, which="mean"):
    X = w.mat("X", (2, 2))
    p = make(w, X)
    k = w.choice("len", [1, 3])
    m, s = (w.mat("m", (k,)), np.ones(2)) if which == "mean" else (np.ones(2), w.mat("m", (k,), positive=True))
    w.raises(lambda: w.load("hpelm.modules").normalize_hdf5(p, m, s, 1), "parameters of wrong length")


SCENARIOS = []
A, K = "any", "const"
for n in (1, 2, 3, 4, 5):
    SCENARIOS.append(S("fit%d" % n, fit, dict(n=n), bounds="%d rows, one column, any batch" % n))
for n, cols in ((2, (A, A)), (3, (A, A)), (3, (A, K)), (3, (K, A)), (2, (K, K)), (4, (A, K, A))):
    SCENARIOS.append(S("fit%d-%s" % (n, "".join(c[0] for c in cols)), fit, dict(n=n, cols=cols), bounds="%d rows, columns %s, any batch" % (n, cols)))
for n in (6, 7, 8):
    SCENARIOS.append(S("fit%d" % n, fit, dict(n=n), tier="thorough", bounds="%d rows, one column, any batch" % n))
SCENARIOS += [
    S("native", fit, dict(n=3, batch=None), dict(symchunk=4), bounds="3 rows, native batch of 1 to 4 rows"), S("native2", fit, dict(n=3, cols=(A, K), batch=None), dict(symchunk=4), bounds="3 rows, native batch of 1 to 4 rows"),
    S("single", fit, dict(n=3, dtype="f32"), dict(f32=1), bounds="3 rows, 32-bit file"),
    S("given1", given, bounds="3 x 2, any batch"), S("given2", given, dict(times=2), bounds="3 x 2, twice, any batch"), S("given5", given, dict(n=5, d=1), bounds="5 x 1, any batch"),
    S("given-lists", given, dict(lists=True), bounds="parameters given as lists"), S("given-single", given, dict(dtype="f32"), dict(f32=1), bounds="32-bit file"),
    S("zero-std", zero_std), S("wrong-mean", wrong), S("wrong-std", wrong, dict(which="std")),
]
