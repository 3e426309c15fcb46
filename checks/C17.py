"""C17: validation over stored matrices reports each size's true error."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, hidden, corr, const
from checks.C03 import data
from checks.C05 import metric, largest


def confusion(w, mode, T, Y, lab, c):
    C = []
    for i in range(c):
        row = []
        for j in range(c):
            s = 0
            for r in range(T.shape[0]):
                if mode == "ml":
                    s = s + w.ite(w.both(T[r, i] > 0.5, Y[r, j] > 0.5), 1, 0)
                elif lab[r] == i:
                    s = s + w.ite(largest(w, Y[r], j), 1, 0)
            row.append(s)
        C.append(row)
    return C


def spd(seed, L):
    A = const(seed, L + 1, L)
    return np.dot(A.T, A) + 0.3 * np.eye(L)


def sizes(w, Ls, L, steps):
    v = [w.concrete(x) for x in Ls]
    if isinstance(steps, (list, tuple)):
        w.check(v == sorted(set(steps)), "the given sizes", "%r" % (v,))
    else:
        w.check(all(a < b for a, b in zip(v, v[1:])), "increasing distinct sizes", "%r" % (v,))
        w.check(v[0] == min(3, L) and v[-1] == L, "sizes from 3 to the full model", "%r for %d neurons" % (v, L))
        w.check(len(v) <= steps, "not more sizes than steps")
    return v


def valid(w, mode=None, kind="python", spec=(("sigm", 1), ("lin", 3)), c=2, N=3, steps=4, sym="HT", src="h5", batch=True, ufirst=False, given=False):
    L = sum(k for f, k in spec)
    kw = {}
    wc = None
    if mode:
        kw["classification"] = mode
    if mode == "wc":
        wc = w.mat("w", (c,), lo=0.1, hi=5)
        kw["w"] = wc
    e = w.HPELM(2, c, norm=1, accelerator=acc(kind), **kw)
    flat, q = [], 0
    for f, k in spec:
        W, B = const(10 + q, 2, k), const(30 + q, k)
        if f != "lin":       # its outputs are known exactly
            W, B = W * 0, B * 0
        e.add_neurons(k, f, W, B)
        flat += [(f, W[:, j], B[j]) for j in range(k)]
        q += 1
    HH = spd(3, L)
    HT = w.mat("HT", (L, c), lo=-2, hi=2) if sym == "HT" else const(4, L, c)
    X = const(1, N, 2)
    lab = None
    if mode in ("c", "wc"):
        T, lab = w.onehot("T", N, c)
    elif mode == "ml":
        T = np.zeros((N, c))
        for i in range(N):
            for j in range(c):
                T[i, j] = w.choice("t_%d_%d" % (i, j), [0, 1])
    else:
        T = w.mat("T", (N, c), lo=-3, hi=3)
    e.batch = w.int("batch", 1) if batch else 2
    fHH, fHT = w.put_h5("HH", HH), w.put_h5("HT", HT)
    Ls, errs, confs = e.validation_corr(fHH, fHT, data(w, "X", X, src), data(w, "T", T, src), steps=np.array(steps) if given == "array" else list(steps) if given else steps)
    v = sizes(w, Ls, L, steps)
    w.check(len(errs) == len(v), "one error per size")
    w.check(len(confs) == (len(v) if mode else 0), "one confusion matrix per size in classification, none in regression")
    H = np.hstack([hidden([(f, W[:, None], np.array([1.0]) * B)], X) for f, W, B in flat])
    Bs = []
    for i, l in enumerate(v):
        Bl = np.linalg.solve(HH[:l, :l], HT[:l])
        Bs.append(Bl)
        Y = np.dot(H[:, :l], Bl)
        w.eq(errs[i], metric(w, mode, T, Y, wc, lab), "error of the model of that size")
        if mode:
            C = confusion(w, mode, T, Y, lab, c)
            for a in range(c):
                for b in range(c):
                    w.eq(confs[i][a, b], C[a][b], "confusion matrix of the model of that size")
    got = e.nnet.L
    if not w.check(got in v, "model has one of the sizes", "%r" % got):
        return
    best = v.index(got)
    for i in range(len(v)):
        w.check(errs[best] <= errs[i] + (0 if w.symbolic else 1e-9), "model has the best size")
    new = [(f, W[:, j], B[j]) for n, f, W, B in e.nnet.get_neurons() for j in range(W.shape[1])]
    w.check(len(new) == got, "number of neurons")
    for a, b in zip(new, flat[:got]):
        w.check(a[0] == b[0], "first neurons are kept")
        w.eq(a[1], b[1], "first neurons are kept, weights")
        w.eq(a[2], b[2], "first neurons are kept, biases")
    w.eq(e.nnet.get_B(), Bs[best], "output weights of the best size")
    w.eq(e.predict(X), np.dot(H[:, :got], Bs[best]), "predictions of the best size")


def flow(w, kind="python", parts=2, c=1):
    """matrices stored by add_data, arbitrary data"""
    norm = w.real("norm", 0.05, 4)
    e = w.HPELM(1, c, norm=norm, accelerator=acc(kind))
    ns = neurons(w, e, [("tanh", 1), ("lin", 1)], 1)
    X, T = w.mat("X", (3, 1)), w.mat("T", (3, c))
    fX, fT = w.put_h5("X", X), w.put_h5("T", T)
    fHH, fHT = w.path("HH.h5"), w.path("HT.h5")
    e.batch = w.int("batch", 1)
    if parts == 2:
        e.add_data(fX, fT, istart=0, icount=1, fHH=fHH, fHT=fHT)
        e.add_data(fX, fT, istart=1, fHH=fHH, fHT=fHT)
    else:
        e.add_data(fX, fT, fHH=fHH, fHT=fHT)
    Xv, Tv = w.mat("Xv", (2, 1)), w.mat("Tv", (2, c))
    size = w.choice("size", [1, 2])
    Ls, errs, confs = e.validation_corr(fHH, fHT, w.put_h5("Xv", Xv), w.put_h5("Tv", Tv), steps=[size])
    w.check([w.concrete(x) for x in Ls] == [size] and len(confs) == 0, "given size")
    RH, RT = corr(w, ns, X, T, norm)
    B = e.nnet.get_B()
    w.check(tuple(B.shape) == (size, c), "shape of output weights")
    w.eq(np.dot(RH[:size, :size], B), RT[:size], "output weights solve the stored matrices")
    Y = np.dot(hidden(ns, Xv)[:, :size], B)
    w.eq(e.predict(Xv), Y, "predictions")
    w.eq(errs[0], metric(w, None, Tv, Y), "error of the model left")


def grid(w, Lmax=9, smax=8):
    """automatic sizes for every number of neurons and steps"""
    L = w.choice("L", list(range(1, Lmax + 1)))
    steps = w.choice("steps", list(range(2, smax + 1)))
    e = w.HPELM(1, 1, norm=1)
    e.add_neurons(L, "lin", const(10, 1, L), const(11, L))
    HH, HT = np.eye(L), const(4, L, 1)
    X = const(1, 2, 1)
    T = w.mat("T", (2, 1), lo=-3, hi=3) if L < 5 else const(2, 2, 1)
    Ls, errs, confs = e.validation_corr(w.put_h5("HH", HH), w.put_h5("HT", HT), w.put_h5("X", X), w.put_h5("T", T), steps=steps)
    sizes(w, Ls, L, steps)


SCENARIOS = []
for kind in ("python", "basic"):
    k = kind
    SCENARIOS += [
        S("r-" + k, valid, dict(kind=k, sym="T"), bounds="4 neurons, sizes 3..4, N=3, every targets, any batch"),
        S("r-HT-" + k, valid, dict(kind=k, sym="HT", steps=[1, 2], given=True, spec=(("lin", 2),), c=1), bounds="2 neurons, sizes 1 and 2, N=3, every targets and HT, any batch"),
        S("c-" + k, valid, dict(kind=k, mode="c", N=2), tparams=dict(N=3), bounds="4 neurons, N=2 (3), 2 classes, every HT, any batch"),
        S("wc-" + k, valid, dict(kind=k, mode="wc", N=2), tparams=dict(N=3), bounds="4 neurons, N=2 (3), 2 classes, every HT and weights, any batch"),
        S("ml-" + k, valid, dict(kind=k, mode="ml", N=2), tparams=dict(N=3), bounds="4 neurons, N=2 (3), 2 labels, every HT, any batch"),
        S("flow-" + k, flow, dict(kind=k), bounds="add_data in 2 parts, then validation; all data and norm symbolic"),
        S("flow1-" + k, flow, dict(kind=k, parts=1), bounds="add_data, then validation; all data and norm symbolic"),
    ]
for m in (None, "c", "wc", "ml"):
    SCENARIOS.append(S("given-%s" % m, valid, dict(mode=m, steps=[1, 3], given=True, sym="T", N=3), bounds="sizes 1 and 3 given as a list"))
    SCENARIOS.append(S("givenarr-%s" % m, valid, dict(mode=m, steps=[4, 2, 2], given="array", sym="T", N=2, src="array"), bounds="sizes given as an unsorted array with repetitions"))
    SCENARIOS.append(S("one-%s" % m, valid, dict(mode=m, steps=[1, 2, 4], given=True, sym="HT" if m else "T", N=1), bounds="one validation sample, sizes 1, 2, 4"))
SCENARIOS += [S("mixed", valid, dict(sym="T", spec=(("lin", 2), ("tanh", 1), ("sigm", 1)), steps=[1, 2, 3], given=True), bounds="3 types"),
              S("grid", grid, bounds="1..9 neurons, 2..8 steps"), S("grid-t", grid, dict(Lmax=30, smax=14), tier="thorough", bounds="1..30 neurons, 2..14 steps")]
