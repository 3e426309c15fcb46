"""C01: accumulated training data does not depend on batching."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, corr, residual

SPEC = [("tanh", 2), ("lin", 1)]


def one_call(w, nmax=6, c=1, kind="python", spec=SPEC, nmin=1):
    norm = w.real("norm", 0.01, 4)
    e = w.ELM(2, c, norm=norm, accelerator=acc(kind))
    ns = neurons(w, e, spec, 2)
    n = w.choice("N", range(nmin, nmax + 1))
    X, T = w.mat("X", (n, 2)), w.mat("T", (n, c))
    e.batch = w.int("batch", 1)
    e.add_data(X, T)
    HH, HT = e.nnet.get_corr()
    RH, RT = corr(w, ns, X, T, norm)
    w.eq(HH, RH, "HH is H'H + norm I")
    w.eq(HT, RT, "HT is H'T")


def calls(w, nmax=3, c=2, kind="python", k=2):
    """several add_data calls, batch changed in between"""
    norm = w.real("norm", 0.01, 4)
    e = w.ELM(1, c, norm=norm, accelerator=acc(kind))
    ns = neurons(w, e, [("sigm", 1), ("lin", 1)], 1)
    Xs, Ts = [], []
    for i in range(k):
        n = w.choice("N%d" % i, range(1, nmax + 1))
        Xs.append(w.mat("X%d" % i, (n, 1)))
        Ts.append(w.mat("T%d" % i, (n, c)))
        e.batch = w.int("batch%d" % i, 1)
        e.add_data(Xs[-1], Ts[-1])
    HH, HT = e.nnet.get_corr()
    RH, RT = corr(w, ns, np.vstack(Xs), np.vstack(Ts), norm)
    w.eq(HH, RH, "HH after several calls")
    w.eq(HT, RT, "HT after several calls")


def train(w, nmax=5, kind="python", reuse=True):
    """train() in any batch size, also given as an option, on a fresh or already used object"""
    norm = w.real("norm", 0.05, 4)
    b0, b1 = w.int("batch0", 1), w.int("batch1", 1)
    e = w.ELM(2, 1, norm=norm, accelerator=acc(kind), batch=5)
    e.batch = b0
    ns = neurons(w, e, [("tanh", 1), ("lin", 1)], 2)
    n = w.choice("N", [2, nmax])
    X, T = w.mat("X", (n, 2)), w.mat("T", (n, 1))
    if w.bool("option"):
        e.train(X, T, batch=b1)
    else:
        e.train(X, T)
    RH, RT = corr(w, ns, X, T, norm)
    residual(w, RH, e.nnet.get_B(), RT, "trained weights solve the whole data set's system")


def resume(w, kind="python", c=1, L=2):
    """solving between two portions of data changes nothing"""
    norm = w.real("norm", 0.05, 4)
    e = w.ELM(1, c, norm=norm, accelerator=acc(kind))
    ns = neurons(w, e, [("sigm", 1), ("lin", L - 1)] if L > 1 else [("lin", 1)], 1)
    X, T = w.mat("X", (4, 1)), w.mat("T", (4, c))
    k = w.choice("split", [1, 2, 3])
    e.batch = w.int("batch", 1)
    e.add_data(X[:k], T[:k])
    e.nnet.solve()
    RH, RT = corr(w, ns, X[:k], T[:k], norm)
    residual(w, RH, e.nnet.get_B(), RT, "weights of the first portion")
    e.add_data(X[k:], T[k:])
    if w.bool("twice"):
        e.nnet.solve()
    e.nnet.solve()
    HH, HT = e.nnet.get_corr()
    RH, RT = corr(w, ns, X, T, norm)
    w.eq(HH, RH, "HH of data continued after solving")
    w.eq(HT, RT, "HT of data continued after solving")
    residual(w, RH, e.nnet.get_B(), RT, "weights of all data")


def default_norm(w, kind="python", prec="double"):
    """norm by default, single and double precision, integer targets"""
    e = w.ELM(1, 1, accelerator=acc(kind), precision=prec)
    norm = e.nnet.norm
    ns = neurons(w, e, [("lin", 1)], 1)
    X, T = w.mat("X", (3, 1)), w.mat("T", (3, 1), np.int64, integer=True)
    e.batch = w.int("batch", 1)
    e.add_data(X, T)
    HH, HT = e.nnet.get_corr()
    RH, RT = corr(w, ns, X, T, norm)
    w.eq(HH, RH, "HH with default norm")
    w.eq(HT, RT, "HT of integer targets")


SCENARIOS = [
    S("one-call-python", one_call, dict(kind="python"), tparams=dict(nmax=9, c=2), bounds="N=1..6 rows (9 thorough), 2 inputs, 3 neurons, any batch >= 1, any norm"),
    S("one-call-basic", one_call, dict(kind="basic"), tparams=dict(nmax=9, c=2), bounds="N=1..6 rows (9), 2 inputs, 3 neurons, any batch >= 1, any norm"),
    S("rbf", one_call, dict(kind="python", nmax=3, spec=[("rbf_l2", 1), ("rbf_linf", 1), ("rbf_l1", 1)], nmin=3), bounds="N=3, 3 rbf neurons of each kind"),
    S("calls-python", calls, dict(kind="python"), tparams=dict(k=3, nmax=4), bounds="2 calls (3) of 1..3 (4) rows, batch changed between calls"),
    S("calls-basic", calls, dict(kind="basic"), tparams=dict(k=3, nmax=4), bounds="2 calls (3) of 1..3 (4) rows, batch changed between calls"),
    S("train-python", train, dict(kind="python"), bounds="N=2 and 5, 2 neurons, batch given at construction or as an option"),
    S("train-basic", train, dict(kind="basic"), bounds="N=2 and 5, 2 neurons"),
    S("resume-python", resume, bounds="4 rows in two portions, 2 neurons, 1 output, solved in between"),
    S("resume-basic", resume, dict(kind="basic"), bounds="4 rows in two portions, 2 neurons, 1 output, solved in between"),
    S("resume-one", resume, dict(L=1), bounds="1 neuron, 1 output"),
    S("resume-two", resume, dict(c=2, L=3), bounds="3 neurons, 2 outputs"),
    S("default-norm-single", default_norm, dict(prec="single"), bounds="N=3, single precision"),
    S("default-norm-basic", default_norm, dict(kind="basic"), bounds="N=3, basic solver"),
]
