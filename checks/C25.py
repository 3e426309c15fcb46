"""C25: the GPU solver computes the same network as the CPU solver."""
import numpy as np
from symx.spec import S
from checks.common import neurons, hidden, corr, residual, rng, select, const, on_gpu, on_gpu_fn
from checks import gpu

RBF = ("rbf_l1", "rbf_l2", "rbf_linf")


def make(world, spec=(("sigm", 2), ("lin", 1)), d=2, c=2, prec="double", hp=False, norm=None, ns=True, **kw):
    w = world
    w.add_modules(gpu.modules(w))
    norm = w.real("norm", 0.05, 4) if norm is None else norm
    e = (w.HPELM if hp else w.ELM)(d, c, norm=norm, accelerator="GPU", precision=prec, **kw)
    dt = np.float32 if prec == "single" else np.float64
    return e, (neurons(w, e, spec, d) if ns else None), norm, (4e-3 if prec == "single" else None), dt


def layout(w, a, layouts):
    k = w.choice("layout", layouts)
    if k == "f":
        return a.T.copy().T
    if k == "slice":
        return np.repeat(a, 2, axis=0)[::2]
    if k == "i64":
        return a
    return a


def project(w, spec=(("sigm", 2), ("lin", 1)), prec="double", nmax=2, d=2, hp=False):
    """hidden layer and predictions"""
    e, ns, _, tol, dt = make(w, spec, d=d, prec=prec, hp=hp)
    L = sum(W.shape[1] for f, W, B in ns)
    n = w.choice("N", range(1, nmax + 1))
    X = w.mat("X", (n, d))
    X0 = X.copy()
    X = layout(w, X, ["c", "f", "slice"])
    e.batch = w.int("batch", 1)
    for k in range(2):
        w.eq(e.project(X), hidden(ns, X0), "hidden layer", tol)
    B = w.mat("B", (L, 2))
    e.nnet.set_B(B)
    w.eq(e.nnet.get_B(), B, "output weights given", tol)
    w.eq(e.predict(X), np.dot(hidden(ns, X0), B), "predictions", tol)
    w.check(w.dtype(e.nnet._project(X)) == dt and w.dtype(e.nnet._predict(X)) == dt, "results in the precision of the model")
    w.eq(X, X0, "data stay")


def fortran(w, prec="double", single=("tanh",)):
    """weights, output weights and correlation matrices in any memory order"""
    w.add_modules(gpu.modules(w))
    e = w.ELM(2, 2, norm=1, accelerator="GPU", precision=prec)
    tol = 4e-3 if prec == "single" else None
    ns = []
    F = lambda name, *s: layout(w, w.mat(name, s), ["c", "f"]) if name in ("W", "Bout", "HT") else w.mat(name, s).T.copy().T
    W, b = F("W", 2, 2), w.mat("b", (2,))
    e.add_neurons(2, "tanh", W, b)
    W2, b2 = F("W2", 2, 2), w.mat("b2", (2,))
    k = w.choice("type", ["same", "other"])
    e.add_neurons(2, "tanh" if k == "same" else "lin", W2, b2)
    ns = [("tanh", np.hstack((W, W2)), np.hstack((b, b2)))] if k == "same" else [("tanh", W, b), ("lin", W2, b2)]
    X = F("X", 2, 2)
    w.eq(e.project(X), hidden(ns, X), "hidden layer", tol)
    B = F("B", 4, 2)
    e.nnet.set_B(B)
    w.eq(e.predict(X), np.dot(hidden(ns, X), B), "predictions", tol)
    for r, x in zip(e.nnet.get_neurons(), ns):
        w.eq(r[2], x[1], "neuron weights", tol)
        w.eq(r[3], x[2], "neuron biases", tol)


def corr_f(w, prec="double", L=3):
    """given matrices in column order, then more data"""
    e, ns, norm, tol, _ = make(w, (("tanh", L - 1), ("lin", 1)), prec=prec, norm=1)
    A = const(3, L, L)
    HH, HT = np.dot(A, A.T) + np.eye(L), w.mat("HT", (L, 2))
    if w.bool("order"):
        HT = HT.T.copy().T
        HH = HH.T
    e.nnet.set_corr(HH, HT)
    a, b = e.nnet.get_corr()
    w.eq(a, HH, "given HH", tol)
    w.eq(b, HT, "given HT", tol)
    X, T = w.mat("X", (1, 2)), w.mat("T", (1, 2))
    e.add_data(X, T)
    RH, RT = corr(w, ns, X, T, 0)
    a, b = e.nnet.get_corr()
    w.eq(a, HH + RH, "HH with more data", tol)
    w.eq(b, HT + RT, "HT with more data", tol)
    if not w.symbolic or prec == "double":
        e.nnet.solve()
        residual(w, HH + RH, e.nnet.get_B(), HT + RT, "output weights")


def data(w, spec=(("sigm", 1), ("lin", 1)), prec="double", nmax=4, d=2, c=2, wc=False, calls=1, hp=False, dtype=None):
    """accumulated matrices: every batch size, several calls, weighted or not"""
    e, ns, norm, tol, dt = make(w, spec, d=d, c=c, prec=prec, hp=hp, **(dict(classification="wc", w=w.mat("w", (c,), lo=0.1, hi=4)) if wc else {}))
    e.batch = w.int("batch", 1)
    XX, TT, WW = [], [], []
    for q in range(calls):
        n = w.choice("N%d" % q, range(1, nmax + 1))
        X = w.mat("X%d" % q, (n, d))
        if wc:
            T, lab = w.onehot("T%d" % q, n, c)
            WW += [e.wc[k] for k in lab]
        else:
            T = w.mat("T%d" % q, (n, c))
        X0, T0 = X.copy(), T.copy()
        X, T = layout(w, X, ["c", "f", "slice"]) if q == 0 else X, T
        e.add_data(X, T)
        w.eq(X, X0, "inputs stay")
        w.eq(T, T0, "outputs stay")
        XX.append(X0)
        TT.append(T0)
        RH, RT = corr(w, ns, np.vstack(XX), np.vstack(TT), norm, WW if wc else None)
        for k in range(2):
            a, b = e.nnet.get_corr()
            w.eq(a, RH, "HH", tol)
            w.eq(b, RT, "HT", tol)
    w.check(w.dtype(a) == dt and w.dtype(b) == dt, "matrices in the precision of the model")


def train(w, spec=(("sigm", 1), ("lin", 1)), prec="double", nmax=3, hp=False, weighted=False):
    e, ns, norm, tol, dt = make(w, spec, prec=prec, hp=hp)
    n = w.choice("N", range(1, nmax + 1))
    X = w.mat("X", (n, 2))
    b = w.int("batch", 1)
    args, kw, wt = [], {}, None
    if weighted:
        T, lab = w.onehot("T", n, 2)
        ww = w.mat("w", (2,), lo=0.1, hi=4)
        args, kw, wt = ["wc"], dict(w=ww), [ww[k] for k in lab]
    else:
        T = w.mat("T", (n, 2))
    e.train(X, T, *args, batch=b, **kw)
    RH, RT = corr(w, ns, X, T, norm, wt)
    B = e.nnet.get_B()
    w.check(B.shape == (RH.shape[0], 2), "shape of the output weights")
    residual(w, RH, B, RT, "output weights")
    w.eq(e.predict(X), np.dot(hidden(ns, X), B), "predictions", tol)
    w.check(w.dtype(B) == dt, "output weights in the precision of the model")
    HH, HT = e.nnet.get_corr()
    w.eq(HH, RH, "HH after solving", tol)
    w.eq(HT, RT, "HT after solving", tol)
    X2, T2 = w.mat("X2", (1, 2)), w.mat("T2", (1, 2))
    if not weighted:
        e.add_data(X2, T2)
        e.nnet.solve()
        RH, RT = corr(w, ns, np.vstack((X, X2)), np.vstack((T, T2)), norm)
        residual(w, RH, e.nnet.get_B(), RT, "output weights after more data")
        e.train(X2, T2)
        RH, RT = corr(w, ns, X2, T2, norm)
        residual(w, RH, e.nnet.get_B(), RT, "output weights after training again")


def singular(w, prec="double", rank=1):
    """matrices that are not positive definite: least squares, as on the CPU"""
    e, ns, norm, tol, dt = make(w, (("tanh", 1), ("lin", 1)), prec=prec, norm=0, c=1)
    v = w.mat("v", (2, 1), lo=0.25, hi=2)
    HH = np.dot(v, v.T)
    HT = v * w.real("t", -2, 2)
    e.nnet.set_corr(HH, HT)
    if w.bool("corr"):
        B = e.nnet.solve_corr(HH, HT)
    else:
        e.nnet.solve()
        B = e.nnet.get_B()
    w.eq(np.dot(HH, B), HT, "least-squares solution", 4e-2 if prec == "single" else 1e-5)


def solve_given(w, prec="double", L=2, c=2):
    """solve_corr for other matrices does not touch the model"""
    e, ns, norm, tol, dt = make(w, (("tanh", L - 1), ("lin", 1)), prec=prec, norm=1, c=c)
    X, T = w.mat("X", (2, 2)), w.mat("T", (2, c))
    e.add_data(X, T)
    RH, RT = corr(w, ns, X, T, norm)
    A = w.mat("A", (L, L))
    HH, HT = np.dot(A, A.T) + np.eye(L), w.mat("HT", (L, c))
    H0, T0 = HH.copy(), HT.copy()
    dtc = (lambda a: a.astype(np.float32)) if prec == "single" else (lambda a: a)
    B = e.nnet.solve_corr(dtc(HH), dtc(HT))
    w.eq(HH, H0, "HH stays")
    w.eq(HT, T0, "HT stays")
    w.eq(np.dot(HH, B), HT, "solution for the given matrices", tol)
    a, b = e.nnet.get_corr()
    w.eq(a, RH, "own HH", tol)
    w.eq(b, RT, "own HT", tol)
    w.check(e.nnet.get_B() is None, "no output weights before solve()")


def prune(w, spec=(("sigm", 2), ("lin", 2)), prec="double", hp=False):
    e, ns, norm, tol, dt = make(w, spec, prec=prec, hp=hp)
    flat = [(f, W[:, j:j + 1], B[j:j + 1]) for f, W, B in ns for j in range(W.shape[1])]
    L = len(flat)
    n = w.choice("keep", range(1, L + 1))
    idx = [w.perm("idx", L)[i] for i in range(n)] if n < L and L < 4 else w.choice("idx", [list(range(n)), list(range(L))[-n:], list(range(L))[::-1][:n]])
    e.add_data(w.mat("X", (2, 2)), w.mat("T", (2, 2)))
    e.nnet.solve()
    e.nnet._prune(np.array(idx) if w.bool("array") else idx)
    out = []
    for f, _, _ in ns:
        for i in idx:
            if flat[i][0] == f:
                out.append(flat[i])
    w.check(e.nnet.L == n, "number of neurons")
    w.check(e.nnet.get_B() is None, "no output weights")
    w.check(e.nnet.get_corr()[0] is None, "no accumulated matrices")
    Z = w.mat("Z", (2, 2))
    w.eq(e.project(Z), hidden(out, Z), "hidden layer of the remaining neurons", tol)
    X, T = w.mat("X2", (2, 2)), w.mat("T2", (2, 2))
    e.train(X, T)
    RH, RT = corr(w, out, X, T, norm)
    residual(w, RH, e.nnet.get_B(), RT, "output weights of the remaining neurons")
    got = [x for x in e.nnet.get_neurons() if x[0]]
    w.check(sum(x[0] for x in got) == n, "stored neurons")
    w.eq(np.hstack([x[2] for x in got]), np.hstack([x[1] for x in out]), "stored weights", tol)
    w.eq(np.hstack([x[3] for x in got]), np.hstack([x[2] for x in out]), "stored biases", tol)


def grow(w, prec="double"):
    """more neurons after training: nothing of the old solution is left"""
    e, ns, norm, tol, dt = make(w, (("sigm", 1), ("lin", 1)), prec=prec)
    e.train(w.mat("X", (2, 2)), w.mat("T", (2, 2)))
    f = w.choice("type", ["sigm", "lin", "tanh"])
    W, b = w.mat("W", (2, 1)), w.mat("b", (1,))
    e.add_neurons(1, f, W, b)
    w.check(e.nnet.get_B() is None, "no output weights")
    w.check(e.nnet.get_corr()[0] is None, "no accumulated matrices")
    w.raises(lambda: e.predict(w.mat("Z", (1, 2))), "no predictions before solving")
    ns = [(g, np.hstack((V, W)), np.hstack((a, b))) if g == f else (g, V, a) for g, V, a in ns] + ([("tanh", W, b)] if f == "tanh" else [])
    X, T = w.mat("X2", (2, 2)), w.mat("T2", (2, 2))
    e.train(X, T)
    w.eq(e.project(X), hidden(ns, X), "hidden layer", tol)
    RH, RT = corr(w, ns, X, T, norm)
    residual(w, RH, e.nnet.get_B(), RT, "output weights")
    e.nnet.reset()
    w.check(e.nnet.get_corr()[0] is None, "no accumulated matrices after reset")
    w.eq(np.dot(hidden(ns, X), e.nnet.get_B()), e.predict(X), "predictions after reset", tol)
    w.raises(lambda: e.nnet.set_B(np.zeros((2, 2), dtype=dt)), "wrong shape of output weights")
    w.raises(lambda: e.nnet.set_corr(np.eye(2, dtype=dt), np.zeros((2, 2), dtype=dt)), "wrong shape of matrices")


def transfer(w, to="gpu", prec="double", other="python", spec=(("tanh", 1), ("sigm", 1), ("rbf_l2", 1)), hp=False):
    """models move between the solvers"""
    w.add_modules(gpu.modules(w))
    acc = {"python": None, "basic": "basic", "GPU": "GPU"}
    src, dst = ("GPU", other) if to == "cpu" else (other, "GPU")
    if to == "gpu-gpu":
        src, dst = "GPU", "GPU"
    f = w.HPELM if hp else w.ELM
    tol = 4e-3 if prec == "single" else None
    a = f(2, 2, norm=w.real("norm", 0.05, 4), accelerator=acc[src], precision=prec)
    ns = neurons(w, a, spec, 2)
    L = sum(k for _, k in spec)
    t = w.choice("trained", ["no", "set", "train", "pruned"])
    if t == "set":
        a.nnet.set_B(w.mat("B", (L, 2)))
    elif t == "train":
        a.train(w.mat("X", (2, 2)), w.mat("T", (2, 2)))
    elif t == "pruned":
        a.nnet._prune([2, 0])
        ns = [ns[0], ns[2]]
        a.nnet.set_B(w.mat("B", (2, 2)))
    b = f(2, 2, accelerator=acc[dst], precision=prec)
    if w.bool("file"):
        p = w.path("model.pkl")
        a.save(p)
        b.load(p)
    else:
        b.loads(a.dumps())
    X = w.mat("Z", (2, 2))
    w.eq(b.project(X), hidden(ns, X), "hidden layer", tol)
    if t == "no":
        w.check(b.nnet.get_B() is None, "no output weights")
    else:
        w.eq(b.nnet.get_B(), a.nnet.get_B(), "output weights", tol)
        w.eq(b.predict(X), np.dot(hidden(ns, X), a.nnet.get_B()), "predictions", tol)
    X, T = w.mat("X2", (2, 2)), w.mat("T2", (2, 2))
    b.train(X, T)
    RH, RT = corr(w, ns, X, T, a.nnet.norm)
    residual(w, RH, b.nnet.get_B(), RT, "output weights")


def files(w, prec="double", nmax=3):
    """HPELM: matrices in files, predictions into a file, data in files"""
    e, ns, norm, tol, dt = make(w, prec=prec, hp=True, norm=1)
    n = w.choice("N", range(1, nmax + 1))
    X, T = w.mat("X", (n, 2)), w.mat("T", (n, 2))
    fX, fT = w.put_h5("x.h5", X), w.put_h5("t.h5", T)
    e.batch = w.int("batch", 1)
    a, b = w.path("HH.h5"), w.path("HT.h5")
    e.add_data(fX, fT, fHH=a, fHT=b)
    RH, RT = corr(w, ns, X, T, norm)
    w.eq(w.get_h5(a), RH, "HH in the file", tol)
    w.eq(w.get_h5(b), RT, "HT in the file", tol)
    e.solve_corr(a, b)
    B = e.nnet.get_B()
    residual(w, RH, B, RT, "output weights from the files")
    p = w.path("y.h5")
    e.predict(fX, p)
    w.eq(w.get_h5(p), np.dot(hidden(ns, X), B), "predictions in the file", tol)
    w.eq(e.predict(fX), np.dot(hidden(ns, X), B), "predictions", tol)


SCENARIOS = []
A = SCENARIOS.append
for prec in ("double", "single"):
    q = "" if prec == "double" else "-single"
    opts = dict(f32=1) if q else {}
    for f in ("lin", "sigm", "tanh") + RBF + ("np.sin",):
        A(S("project-%s%s" % (f, q), project, dict(spec=((f, 2),), prec=prec), opts, bounds="N=1..2, 2 neurons, every memory order, every batch size"))
    A(S("project-mixed" + q, project, dict(spec=(("sigm", 2), ("lin", 1), ("rbf_linf", 1), ("np.sin", 1), ("sigm", 1)), prec=prec), opts, bounds="5 types merged to 4, N=1..2"))
    A(S("project-kernel" + q, project, dict(spec=(("sigm", 3),), nmax=3, d=1, prec=prec), opts, bounds="N=1..3, more than two thread blocks"))
    A(S("orders" + q, fortran, dict(prec=prec), opts, bounds="C and Fortran order"))
    A(S("set_corr" + q, corr_f, dict(prec=prec), opts, bounds="C and Fortran order"))
    A(S("data" + q, data, dict(prec=prec), opts, bounds="N=1..4, every batch size"))
    A(S("data-calls" + q, data, dict(prec=prec, calls=3, nmax=2), opts, bounds="3 calls of 1..2 rows"))
    A(S("data-weighted" + q, data, dict(prec=prec, wc=True, nmax=3), opts, bounds="N=1..3"))
    A(S("data-rbf" + q, data, dict(prec=prec, nmax=2, spec=(("rbf_l2", 1), ("np.sin", 1), ("tanh", 1))), opts, bounds="N=1..2"))
    A(S("data-3" + q, data, dict(prec=prec, nmax=2, spec=(("tanh", 2), ("lin", 1)), c=3), opts, bounds="3 neurons, 3 outputs"))
    A(S("train" + q, train, dict(prec=prec), opts, bounds="N=1..3"))
    A(S("train-weighted" + q, train, dict(prec=prec, weighted=True), opts, bounds="N=1..3"))
    A(S("train-hp" + q, train, dict(prec=prec, hp=True, nmax=2), opts, bounds="N=1..2"))
    A(S("singular" + q, singular, dict(prec=prec), opts, bounds="2 neurons, rank 1"))
    A(S("solve_corr" + q, solve_given, dict(prec=prec), opts, bounds="2 neurons"))
    A(S("prune" + q, prune, dict(prec=prec), opts, bounds="4 neurons of 2 types"))
    A(S("prune-all" + q, prune, dict(prec=prec, spec=(("sigm", 1), ("rbf_l2", 1), ("lin", 1))), opts, bounds="3 neurons of 3 types, every order"))
    A(S("grow" + q, grow, dict(prec=prec), opts, bounds="N=2"))
    for to, other in (("gpu", "python"), ("gpu", "basic"), ("cpu", "python"), ("cpu", "basic"), ("gpu-gpu", "python")):
        A(S("transfer-%s-%s%s" % (to, other, q), transfer, dict(to=to, other=other, prec=prec), opts, bounds="3 neuron types"))
    A(S("files" + q, files, dict(prec=prec), opts, bounds="N=1..3"))

import importlib
for m in ("C01", "C02", "C03", "C04", "C11", "C15", "C16", "C17", "C21", "C24", "C26", "C28"):
    SCENARIOS += on_gpu(m, importlib.import_module("checks." + m).SCENARIOS, skip=("64-hp", "quad-*", "np.*-hp", "default-hp", "half-*", "empty-*", "32-*"))
