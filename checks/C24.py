"""C24: correlation matrices survive get, set and storing."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, corr, hidden, anybatch

NS = [("tanh", 1), ("lin", 1)]


def new(w, kind, hp=False, c=1, d=1, norm=None, prec="double", spec=NS, ns=None):
    e = (w.HPELM if hp else w.ELM)(d, c, norm=w.real("norm", 0.05, 4) if norm is None else norm, accelerator=acc(kind), precision=prec)
    if ns is None:
        ns = neurons(w, e, spec, d)
    else:
        for f, W, B in ns:
            e.add_neurons(W.shape[1], f, W, B)
    return e, ns


def sym(w, name, L):
    M = np.zeros((L, L))
    for i in range(L):
        for j in range(i + 1):
            M[i, j] = M[j, i] = w.real("%s_%d_%d" % (name, i, j))
    return M


def pd(w, name, L):
    A = w.mat(name, (L, L))
    return np.dot(A, A.T) + np.eye(L)


def get(w, kind="python", hp=False, nmax=4, spec=NS, c=2, wc=False, prec="double", d=1):
    """HH of the model is full, symmetric, H'H + norm I; asking does not change anything"""
    e, ns = new(w, kind, hp, c, d, spec=spec, prec=prec)
    tol = 4e-3 if prec == "single" else None
    n = w.choice("N", range(1, nmax + 1))
    X, T = w.mat("X", (n, d)), w.mat("T", (n, c))
    e.batch = w.int("batch", 1)
    e.add_data(X, T)
    RH, RT = corr(w, ns, X, T, e.nnet.norm)
    for k in range(3):
        HH, HT = e.nnet.get_corr()
        w.eq(HH, HH.T, "HH is symmetric", tol)
        w.eq(HH, RH, "HH is H'H + norm I", tol)
        w.eq(HT, RT, "HT is H'T", tol)
    X2, T2 = w.mat("X2", (1, d)), w.mat("T2", (1, c))
    e.add_data(X2, T2)
    RH, RT = corr(w, ns, np.vstack((X, X2)), np.vstack((T, T2)), e.nnet.norm)
    HH, HT2 = e.nnet.get_corr()
    w.eq(HH, RH, "HH after more data", tol)
    w.eq(HT2, RT, "HT after more data", tol)


def roundtrip(w, kind="python", L=3, c=2, prec="double", hp=False, fortran=False):
    """set then get, any symmetric HH"""
    e, ns = new(w, kind, hp, c, spec=[("tanh", L - 1), ("lin", 1)], prec=prec)
    HH, HT = sym(w, "HH", L), w.mat("HT", (L, c))
    if w.bool("before"):
        e.add_data(w.mat("X", (2, 1)), w.mat("T", (2, c)))
    if fortran:
        HH, HT = np.array(HH.T).T, np.array(HT.T).T
    tol = 4e-3 if prec == "single" else None
    e.nnet.set_corr(HH, HT)
    for k in range(2):
        a, b = e.nnet.get_corr()
        w.eq(a, HH, "the same HH", tol)
        w.eq(b, HT, "the same HT", tol)
        e.nnet.set_corr(a, b)
    a, b = e.nnet.get_corr()
    w.eq(a, HH, "the same HH again", tol)
    w.eq(b, HT, "the same HT again", tol)


def transfer(w, kind="python", kind2="python", hp=False, c=1, n=2, spec=NS):
    """matrices of one model continued in another one"""
    e, ns = new(w, kind, hp, c, spec=spec)
    X, T = w.mat("X", (n, 1)), w.mat("T", (n, c))
    e.batch = w.int("batch", 1)
    e.add_data(X, T)
    e2, _ = new(w, kind2, hp, c, norm=w.choice("norm2", [1.0, 0.25]), ns=ns)
    e2.nnet.set_corr(*e.nnet.get_corr())
    X2, T2 = w.mat("X2", (n, 1)), w.mat("T2", (n, c))
    todo = w.choice("todo", ["solve", "add", "add-solve", "solve-add"])
    A, F = corr(w, ns, X, T, e.nnet.norm)
    if todo.startswith("solve"):
        e2.nnet.solve()
        B = e2.nnet.get_B()
        w.eq(np.dot(A, B), F, "solution of the transferred matrices")
        a, b = e2.nnet.get_corr()
        w.eq(a, A, "HH is kept by solving")
        w.eq(b, F, "HT is kept by solving")
    if "add" in todo:
        e2.batch = w.int("batch2", 1)
        e2.add_data(X2, T2)
        A, F = corr(w, ns, np.vstack((X, X2)), np.vstack((T, T2)), e.nnet.norm)
        a, b = e2.nnet.get_corr()
        w.eq(a, A, "HH with data added on top")
        w.eq(b, F, "HT with data added on top")
    if todo.endswith("-solve"):
        e2.nnet.solve()
        w.eq(np.dot(A, e2.nnet.get_B()), F, "solution with data added on top")


def on_top(w, kind="python", c=2, prec="double", calls=2, L=2):
    """data added on top of any symmetric matrices"""
    e, ns = new(w, kind, False, c, spec=[("sigm", L - 1), ("lin", 1)], prec=prec)
    HH, HT = sym(w, "HH", L), w.mat("HT", (L, c))
    tol = 4e-3 if prec == "single" else None
    e.nnet.set_corr(HH, HT)
    Xs, Ts = [], []
    for k in range(calls):
        X, T = w.mat("X%d" % k, (2, 1)), w.mat("T%d" % k, (2, c))
        e.batch = w.int("batch%d" % k, 1)
        e.add_data(X, T)
        Xs.append(X), Ts.append(T)
        A, F = corr(w, ns, np.vstack(Xs), np.vstack(Ts), 0)
        a, b = e.nnet.get_corr()
        w.eq(a, HH + A, "HH given plus H'H", tol)
        w.eq(b, HT + F, "HT given plus H'T", tol)
        w.eq(a, a.T, "HH is symmetric", tol)


def solve(w, kind="python", L=2, c=2, prec="double"):
    e, ns = new(w, kind, False, c, spec=[("tanh", L)], prec=prec)
    HH, HT = pd(w, "M", L), w.mat("HT", (L, c))
    tol = 4e-3 if prec == "single" else None
    e.nnet.set_corr(HH, HT)
    B = e.nnet.solve_corr(HH, HT)
    w.check(e.nnet.get_B() is None, "solve_corr alone does not set the output weights")
    w.eq(np.dot(HH, B), HT, "solution of the given matrices", tol)
    e.nnet.solve()
    w.eq(np.dot(HH, e.nnet.get_B()), HT, "output weights of the set matrices", tol)
    a, b = e.nnet.get_corr()
    w.eq(a, HH, "HH is kept by solving", tol)
    w.eq(b, HT, "HT is kept by solving", tol)


def store(w, kind="python", there=None, earlier=None, call="add_data", n=3, c=1, parts=1, src="h5", prec="double", spec=NS, later=True):
    """add_data with files"""
    e, ns = new(w, kind, True, c, spec=spec, prec=prec)
    tol = 4e-3 if prec == "single" else None
    L = e.nnet.L
    norm = e.nnet.norm
    fHH, fHT = w.path("HH.h5"), w.path("HT.h5")
    there = w.bool("there") if there is None else there
    H0, T0 = norm * np.eye(L), np.zeros((L, c))
    if there:
        H0, T0 = w.mat("H0", (L, L)), w.mat("T0", (L, c))
        w.put_h5("HH.h5", H0, e.precision), w.put_h5("HT.h5", T0, e.precision)
    if w.bool("earlier") if earlier is None else earlier:      # data collected in memory before does not go to the files
        e.add_data(w.mat("Xe", (2, 1)), w.mat("Te", (2, c)))
    e.batch = w.int("batch", 1)
    for k in range(parts):
        X, T = w.mat("X%d" % k, (n, 1)), w.mat("T%d" % k, (n, c))
        fX, fT = (w.put_h5("x%d.h5" % k, X), w.put_h5("t%d.h5" % k, T)) if src == "h5" else (X, T)
        a = w.int("istart%d" % k, 0, n - 1)
        m = w.int("icount%d" % k, 1, n)
        getattr(e, call)(fX, fT, istart=a, icount=m, fHH=fHH, fHT=fHT)
        a = w.concrete(a)
        m = w.concrete(min(m, n - a))
        A, F = corr(w, ns, X[a:a + m], T[a:a + m], 0)
        H0, T0 = H0 + A, T0 + F
        w.eq(w.get_h5(fHH), H0, "H'H is added to the stored HH", tol)
        w.eq(w.get_h5(fHT), T0, "H'T is added to the stored HT", tol)
        a, b = e.nnet.get_corr()
        w.eq(a, A + norm * np.eye(L), "HH in memory is intact", tol)
        w.eq(b, F, "HT in memory is intact", tol)
    if not later:
        return
    x, t = w.mat("Xl", (1, 1)), w.mat("Tl", (1, c))
    e.add_data(x, t)
    A2, F2 = corr(w, ns, x, t, 0)
    a, b = e.nnet.get_corr()
    w.eq(a, A + A2 + norm * np.eye(L), "HH in memory with more data", tol)
    w.eq(b, F + F2, "HT in memory with more data", tol)
    w.eq(w.get_h5(fHH), H0, "stored HH is kept", tol)
    w.eq(w.get_h5(fHT), T0, "stored HT is kept", tol)
    if not there and parts == 1:
        e.solve_corr(fHH, fHT)
        w.eq(np.dot(H0, e.nnet.get_B()), T0, "solution of the stored matrices", tol)
        w.eq(w.get_h5(fHH), H0, "stored HH is kept by solving", tol)
        w.eq(w.get_h5(fHT), T0, "stored HT is kept by solving", tol)


def models(w, kinds=("python", "basic"), c=1, n=2):
    """several models store to the same files"""
    fHH, fHT = w.path("HH.h5"), w.path("HT.h5")
    ns = None
    tot = 0, 0
    norm = w.real("norm", 0.05, 4)
    for k, kind in enumerate(kinds):
        e, ns = new(w, kind, True, c, norm=norm, ns=ns)
        X, T = w.mat("X%d" % k, (n, 1)), w.mat("T%d" % k, (n, c))
        e.batch = w.int("batch%d" % k, 1)
        getattr(e, w.choice("call%d" % k, ["add_data", "add_data_async"]))(w.put_h5("x%d.h5" % k, X), w.put_h5("t%d.h5" % k, T), fHH=fHH, fHT=fHT)
        A, F = corr(w, ns, X, T, 0)
        tot = tot[0] + A, tot[1] + F
        w.eq(w.get_h5(fHH), tot[0] + norm * np.eye(2), "HH of all models so far, norm once")
        w.eq(w.get_h5(fHT), tot[1], "HT of all models so far")
    e.solve_corr(fHH, fHT)
    w.eq(np.dot(tot[0] + norm * np.eye(2), e.nnet.get_B()), tot[1], "solution of the stored matrices")


SCENARIOS = []
for kind in ("python", "basic"):
    for hp in (False, True):
        SCENARIOS.append(S("get-%s%s" % (kind, "-hp" if hp else ""), get, dict(kind=kind, hp=hp), tparams=dict(nmax=7), bounds="1..4 (7) samples, 2 neurons, 2 outputs, any batch and norm"))
    SCENARIOS += [
        S("get3-" + kind, get, dict(kind=kind, spec=[("tanh", 2), ("rbf_l2", 1), ("lin", 1)], nmax=2, c=1), bounds="1..2 samples, 4 neurons"),
        S("get-single-" + kind, get, dict(kind=kind, prec="single", nmax=2), dict(f32=1), bounds="single precision"),
        S("round2-" + kind, roundtrip, dict(kind=kind, L=2), bounds="any symmetric 2 x 2 HH"), S("round3-" + kind, roundtrip, dict(kind=kind), bounds="any symmetric 3 x 3 HH"),
        S("round5-" + kind, roundtrip, dict(kind=kind, L=5), bounds="any symmetric 5 x 5 HH"), S("round1-" + kind, roundtrip, dict(kind=kind, L=1), bounds="1 x 1 HH"),
        S("round-F-" + kind, roundtrip, dict(kind=kind, fortran=True), bounds="Fortran-ordered matrices"), S("round-hp-" + kind, roundtrip, dict(kind=kind, hp=True), bounds="HPELM"),
        S("round-single-" + kind, roundtrip, dict(kind=kind, prec="single"), dict(f32=1), bounds="single precision"),
        S("on_top-" + kind, on_top, dict(kind=kind), tparams=dict(calls=4), bounds="any symmetric 2 x 2 HH, 2 calls of 2 samples"), S("on_top3-" + kind, on_top, dict(kind=kind, L=3), bounds="any symmetric 3 x 3 HH, 2 calls"),
        S("on_top-single-" + kind, on_top, dict(kind=kind, prec="single", calls=1), dict(f32=1), bounds="single precision"),
        S("solve1-" + kind, solve, dict(kind=kind, L=1), bounds="1 neuron"), S("solve2-" + kind, solve, dict(kind=kind, L=2), bounds="2 neurons, any positive definite HH"), S("solve3-" + kind, solve, dict(kind=kind, L=3, c=1), bounds="3 neurons, any positive definite HH"),
        S("store-" + kind, store, dict(kind=kind), bounds="3 rows, any range, any batch, files there or not, earlier data or not"),
        S("store-array-" + kind, store, dict(kind=kind, src="array", c=2), bounds="arrays, 3 rows, any range, any batch"),
        S("store-async-" + kind, store, dict(kind=kind, call="add_data_async", n=2), bounds="add_data_async, 2 rows, any range and batch"),
        S("store-twice-" + kind, store, dict(kind=kind, parts=2, n=2, later=False), bounds="two parts by the same model"),
        S("store-single-" + kind, store, dict(kind=kind, prec="single", n=2), dict(f32=1), bounds="single precision"),
        S("store-3-" + kind, store, dict(kind=kind, spec=[("sigm", 2), ("lin", 1)], n=2, c=2, earlier=False), bounds="3 neurons, 2 outputs"),
    ]
    for kind2 in ("python", "basic"):
        SCENARIOS.append(S("transfer-%s-%s" % (kind, kind2), transfer, dict(kind=kind, kind2=kind2), bounds="2 + 2 samples, any batch and norm"))
        SCENARIOS.append(S("transfer-hp-%s-%s" % (kind, kind2), transfer, dict(kind=kind, kind2=kind2, hp=True, c=2), bounds="HPELM, 2 outputs"))
SCENARIOS += [S("models", models, bounds="2 models, 2 rows each, any batch"), S("models-3", models, dict(kinds=("python", "python", "python"), n=1), tparams=dict(n=2), bounds="3 models, 1 (2) rows each")]
