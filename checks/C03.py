"""C03: HPELM training uses exactly the requested sample range."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, corr, residual, rng, select


def data(w, name, a, src):
    return w.put_h5(name + ".h5", a) if src == "h5" else a


def add(w, nmax=5, kind="python", src="h5", c=1, part="all"):
    norm = w.real("norm", 0.01, 4)
    e = w.HPELM(2, c, norm=norm, accelerator=acc(kind))
    ns = neurons(w, e, [("sigm", 1), ("lin", 1)], 2)
    N = w.choice("N", range(1, nmax + 1))
    X, T = w.mat("X", (N, 2)), w.mat("T", (N, c))
    fX, fT = data(w, "X", X, src), data(w, "T", T, src)
    e.batch = w.int("batch", 1)
    a, k = rng(w, N)
    if part == "all":
        e.add_data(fX, fT, istart=a, icount=k)
    elif part == "start":
        k = N
        e.add_data(fX, fT, istart=a)
    elif part == "count":
        a = 0
        e.add_data(fX, fT, icount=k)
    else:
        a, k = 0, N
        e.add_data(fX, fT)
    i, j = select(w, N, a, k)
    HH, HT = e.nnet.get_corr()
    RH, RT = corr(w, ns, X[i:j], T[i:j], norm)
    w.eq(HH, RH, "HH of the range")
    w.eq(HT, RT, "HT of the range")


def train(w, nmax=4, kind="python", src="h5", c=2, cls=None, part="all"):
    norm = w.real("norm", 0.05, 4)
    e = w.HPELM(1, c, norm=norm, accelerator=acc(kind))
    ns = neurons(w, e, [("tanh", 1), ("lin", 1)], 1)
    N = w.choice("N", range(1, nmax + 1))
    X, T = w.mat("X", (N, 1)), w.mat("T", (N, c))
    fX, fT = data(w, "X", X, src), data(w, "T", T, src)
    a, k = rng(w, N)
    kw = {}
    if part in ("all", "start"):
        kw["istart"] = a
    else:
        a = 0
    if part in ("all", "count"):
        kw["icount"] = k
    else:
        k = N
    if w.bool("batchopt"):
        kw["batch"] = w.int("batch", 1)
    else:
        e.batch = w.int("batch", 1)
    e.train(fX, fT, *([] if cls is None else [cls]), **kw)
    i, j = select(w, N, a, k)
    RH, RT = corr(w, ns, X[i:j], T[i:j], norm)
    HH, HT = e.nnet.get_corr()
    w.eq(HH, RH, "HH of the range")
    w.eq(HT, RT, "HT of the range")
    residual(w, RH, e.nnet.get_B(), RT, "weights of the range's system")


def weighted(w, nmax=4, c=2, kind="python", src="h5"):
    """class weights counted by default are those of the range"""
    norm = w.real("norm", 0.05, 4)
    e = w.HPELM(1, c, norm=norm, accelerator=acc(kind))
    ns = neurons(w, e, [("lin", 1)], 1)
    N = w.choice("N", range(1, nmax + 1))
    X, (T, lab) = w.mat("X", (N, 1)), w.onehot("T", N, c)
    fX, fT = data(w, "X", X, src), data(w, "T", T, src)
    a, k = rng(w, N)
    e.batch = w.int("batch", 1)
    e.train(fX, fT, "wc", istart=a, icount=k)
    i, j = select(w, N, a, k)
    l = lab[i:j]
    RH, RT = corr(w, ns, X[i:j], T[i:j], norm, np.array([float(j - i) / l.count(q) for q in l]))
    HH, HT = e.nnet.get_corr()
    w.eq(HH, RH, "HH of the weighted range")
    w.eq(HT, RT, "HT of the weighted range")


def parts(w, N=5, src="h5"):
    """consecutive ranges cover the whole data set"""
    norm = w.real("norm", 0.01, 4)
    e = w.HPELM(1, 1, norm=norm)
    ns = neurons(w, e, [("lin", 2)], 1)
    X, T = w.mat("X", (N, 1)), w.mat("T", (N, 1))
    fX, fT = data(w, "X", X, src), data(w, "T", T, src)
    e.batch = w.int("batch", 1)
    s = w.int("step", 1, N)
    a = 0
    while a < N:
        e.add_data(fX, fT, istart=a, icount=s)
        a = w.concrete(a + s)
    HH, HT = e.nnet.get_corr()
    RH, RT = corr(w, ns, X, T, norm)
    w.eq(HH, RH, "HH of consecutive ranges")
    w.eq(HT, RT, "HT of consecutive ranges")


SCENARIOS = [S("parts", parts, tparams=dict(N=7), bounds="N=5 (7), ranges of any equal length, any batch")]
for kind in ("python", "basic"):
    for src in ("h5", "array"):
        SCENARIOS.append(S("add-%s-%s" % (kind, src), add, dict(kind=kind, src=src), tparams=dict(nmax=7), bounds="N=1..5 (7), any istart<N, any icount>=1, any batch>=1"))
        SCENARIOS.append(S("train-%s-%s" % (kind, src), train, dict(kind=kind, src=src), tparams=dict(nmax=6), bounds="N=1..4 (6), any istart<N, any icount>=1, any batch>=1"))
for part in ("start", "count", "none"):
    SCENARIOS.append(S("add-" + part, add, dict(part=part), tparams=dict(nmax=7), bounds="N=1..5 (7), range partly omitted"))
    SCENARIOS.append(S("train-" + part, train, dict(part=part), tparams=dict(nmax=6), bounds="N=1..4 (6), range partly omitted"))
for kind in ("python", "basic"):
    for src in ("h5", "array"):
        SCENARIOS.append(S("train-wc-%s-%s" % (kind, src), weighted, dict(kind=kind, src=src, nmax=3 if kind == "basic" else 4), bounds="N=1..4 (3), 2 classes, any range, any batch, default weights"))
SCENARIOS.append(S("train-c", train, dict(cls="c"), bounds="N=1..4, classification"))
SCENARIOS.append(S("train-ml", train, dict(cls="ml", src="array"), bounds="N=1..4, multi-label"))
