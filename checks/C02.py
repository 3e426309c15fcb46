"""C02: output weights solve the regularised least-squares problem."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, corr, residual


def train(w, kind="python", L=3, c=2, cls=None):
    """train(): regularised normal equations of the data"""
    norm = w.real("norm", 0.05, 4)
    e = w.ELM(2, c, norm=norm, accelerator=acc(kind))
    ns = neurons(w, e, [("tanh", L - 1), ("lin", 1)], 2)
    n = w.choice("N", [1, 4])
    X, T = w.mat("X", (n, 2)), w.mat("T", (n, c))
    e.batch = w.int("batch", 1)
    if cls is None:
        e.train(X, T)
    else:
        e.train(X, T, cls)
    RH, RT = corr(w, ns, X, T, norm)
    B = e.nnet.get_B()
    w.shape(B, (L, c), "B")
    residual(w, RH, B, RT, "(H'H + norm I) B = H'T")
    HH, HT = e.nnet.get_corr()
    w.eq(HH, RH, "HH after solving")
    w.eq(HT, RT, "HT after solving")


def symmetric(w, name, L):
    A = w.mat(name, (L, L))
    return np.triu(A) + np.triu(A, k=1).T


def spd(w, name, L):
    """U'U with positive diagonal: every positive definite matrix has this form"""
    d = w.mat(name + "d", (L,), lo=0.3, hi=3)
    U = np.triu(w.mat(name, (L, L)), k=1) + np.diag(d)
    return np.dot(U.T, U)


def given(w, kind="python", L=3, c=2, route="set"):
    """solution of a given positive definite system, by every route"""
    HH, HT = spd(w, "U", L), w.mat("HT", (L, c))
    e = (w.HPELM if route == "files" else w.ELM)(2, c, accelerator=acc(kind))
    neurons(w, e, [("lin", 1), ("sigm", L - 1)], 2)
    H0, T0 = HH.copy(), HT.copy()
    arg = HH
    if route == "upper":
        arg = np.triu(HH)
        e.nnet.set_B(e.nnet.solve_corr(arg, HT))
        w.eq(arg, np.triu(H0), "solve_corr leaves HH")
    elif route == "set":
        e.nnet.set_corr(HH, HT)
        e.nnet.solve()
        A, B = e.nnet.get_corr()
        w.eq(A, H0, "HH kept")
        w.eq(B, T0, "HT kept")
    elif route == "files":
        fh, ft = w.put_h5("HH.h5", HH), w.put_h5("HT.h5", HT)
        e.solve_corr(fh, ft)
        w.eq(w.get_h5(fh), H0, "HH file kept")
        w.eq(w.get_h5(ft), T0, "HT file kept")
    else:
        e.nnet.set_B(e.nnet.solve_corr(HH, HT))
    B = e.nnet.get_B()
    w.shape(B, (L, c), "B")
    residual(w, H0, B, T0, "HH B = HT")
    w.eq(HT, T0, "HT argument unchanged")
    if route != "upper":
        w.eq(HH, H0, "HH argument unchanged")


def singular(w, kind="python", L=3, rank=1, c=1, route="call"):
    """singular HH = GG': least squares"""
    G = w.mat("G", (L, rank), integer=True, lo=-3, hi=3)
    G = np.tril(G)
    for k in range(rank):
        w.assume(G[k, k] >= 1)
    HT = w.mat("HT", (L, c), integer=True, lo=-4, hi=4)
    HH = np.dot(G, G.T).astype(np.float64)
    HT = HT.astype(np.float64)
    e = (w.HPELM if route == "files" else w.ELM)(2, c, accelerator=acc(kind))
    neurons(w, e, [("lin", 1), ("sigm", L - 1)], 2)
    H0, T0 = HH.copy(), HT.copy()
    if route == "set":
        e.nnet.set_corr(HH, HT)
        e.nnet.solve()
        A, B = e.nnet.get_corr()
        w.eq(A, H0, "HH kept")
        w.eq(B, T0, "HT kept")
    elif route == "upper":
        e.nnet.set_B(e.nnet.solve_corr(np.triu(HH), HT))
    elif route == "files":
        e.solve_corr(w.put_h5("HH.h5", HH), w.put_h5("HT.h5", HT))
    else:
        e.nnet.set_B(e.nnet.solve_corr(HH, HT))
    B = e.nnet.get_B()
    w.shape(B, (L, c), "B of a singular system")
    residual(w, np.dot(H0, H0), B, np.dot(H0, T0), "least squares solution of a singular system")
    w.eq(HH, H0, "HH argument unchanged")
    w.eq(HT, T0, "HT argument unchanged")


def duplicate(w, kind="python"):
    """duplicate neurons and no regularisation: singular by construction"""
    e = w.ELM(1, 1, norm=0, accelerator=acc(kind))
    Wt = np.array([[1., 1.]])
    e.add_neurons(2, "lin", Wt, np.array([0., 0.]))
    n = w.choice("N", [1, 2])
    X, T = w.mat("X", (n, 1), integer=True, lo=-3, hi=3), w.mat("T", (n, 1), integer=True, lo=-3, hi=3)
    w.assume(X[0, 0] >= 1)
    for i in range(1, n):
        w.assume(X[i, 0] == 0)
    e.train(X.astype(np.float64), T.astype(np.float64))
    H = np.hstack((X, X)).astype(np.float64)
    residual(w, np.dot(H.T, H), e.nnet.get_B(), np.dot(H.T, T), "normal equations with duplicate neurons")


def scaled(w, kind="python", route="call"):
    """singular HH = D GG' D of rank 2 with neurons of very different scale, HT in its range: every direction counts"""
    L, sc = 3, 2.0 ** -12
    G = np.tril(w.mat("G", (L, 2), integer=True, lo=-3, hi=3)) * np.array([[1, 0], [0, 1], [0, 1]])
    w.assume(G[0, 0] >= 1)
    w.assume(G[1, 1] >= 1)
    Z = w.mat("Z", (L, 1), integer=True, lo=-3, hi=3).astype(np.float64)
    D = np.diag([1., sc, sc])
    M = np.dot(G, G.T).astype(np.float64)
    HH, HT = np.dot(D, np.dot(M, D)), np.dot(D, np.dot(M, Z))
    e = w.ELM(2, 1, accelerator=acc(kind))
    neurons(w, e, [("lin", 1), ("sigm", L - 1)], 2)
    if route == "set":
        e.nnet.set_corr(HH, HT)
        e.nnet.solve()
    else:
        e.nnet.set_B(e.nnet.solve_corr(HH, HT))
    E = np.diag([1., sc ** -3, sc ** -3])      # the normal equations, each in its own scale
    w.eq(np.dot(E, np.dot(HH, np.dot(HH, e.nnet.get_B()))), np.dot(E, np.dot(HH, HT)), "least squares solution of a singular system with neurons of different scale")


SCENARIOS = [
    S("train-python", train, tparams=dict(L=4), bounds="N=1 and 4, L=3 (4), 2 outputs, any batch"),
    S("train-basic", train, dict(kind="basic"), bounds="N=1 and 4, L=3, 2 outputs, any batch"),
    S("train-c", train, dict(cls="c"), bounds="as train, with classification"),
]
for kind in ("python", "basic"):
    for route in ("set", "call", "files") + (("upper",) if kind == "python" else ()):
        SCENARIOS.append(S("given-%s-%s" % (kind, route), given, dict(kind=kind, route=route), tparams=dict(L=5), bounds="any positive definite HH with L=3 (5), any HT"))
        SCENARIOS.append(S("singular-%s-%s" % (kind, route), singular, dict(kind=kind, route=route), dict(pd="minors"), bounds="every HH=GG' with integer G 3x1, entries -3..3"))
    SCENARIOS.append(S("singular2-%s" % kind, singular, dict(kind=kind, rank=2), dict(pd="minors"), bounds="every HH=GG' with integer lower trapezoidal G 3x2"))
    SCENARIOS.append(S("scaled-%s" % kind, scaled, dict(kind=kind), dict(pd="minors"), bounds="rank 2 of 3, scales 1 and 2^-12, integer parameters -3..3"))
    SCENARIOS.append(S("duplicate-%s" % kind, duplicate, dict(kind=kind), dict(pd="minors"), bounds="2 duplicate linear neurons, norm 0"))
