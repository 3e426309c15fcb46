"""C05: error() computes the documented metric, for ELM and HPELM alike."""
import numpy as np
from symx.spec import S
from checks.common import rng, select
from checks.C03 import data


def metric(w, mode, T, Y, wc=None, lab=None):
    """the documented metrics, sample by sample"""
    n, c = T.shape
    if mode is None:
        s = 0
        for i in range(n):
            for j in range(c):
                s = s + (T[i, j] - Y[i, j]) * (T[i, j] - Y[i, j])
        return s / float(n * c)
    if mode == "ml":
        s = 0
        for i in range(n):
            for j in range(c):
                s = s + w.ite((T[i, j] > 0.5) != (Y[i, j] > 0.5), 1, 0)
        return s / float(n * c)
    if mode == "c":
        s = 0
        for i in range(n):
            s = s + w.ite(largest(w, Y[i], lab[i]), 0, 1)
        return s / float(n)
    tot, e = 0, 0
    for k in range(c):
        tot = tot + wc[k]
        own = [i for i in range(n) if lab[i] == k]
        if own:
            s = 0
            for i in own:
                s = s + w.ite(largest(w, Y[i], k), 0, 1)
            e = e + wc[k] * s / float(len(own))
    return e / tot


def largest(w, y, k):
    """y[k] is the (first) largest output"""
    return w.both(*([y[k] > y[j] for j in range(k)] + [y[k] >= y[j] for j in range(k + 1, len(y))]))


def elm(w, mode=None, nmax=3, c=2, hp=False, src="array", weights="given", spelling=None):
    kw = {}
    if mode:
        kw["classification"] = spelling or mode
    wc = None
    if mode == "wc":
        wc = w.mat("w", (c,), lo=0.1, hi=5)
        kw["w"] = wc
    e = (w.HPELM if hp else w.ELM)(2, c, **kw)
    N = w.choice("N", range(1, nmax + 1))
    lab = None
    if mode in ("c", "wc"):
        T, lab = w.onehot("T", N, c)
    else:
        T = w.mat("T", (N, c))
    Y = w.mat("Y", (N, c))
    fT, fY = data(w, "T", T, src), data(w, "Y", Y, src)
    if hp:
        e.batch = w.int("batch", 1)
        a, k = rng(w, N)
        part = w.choice("range", ["all", "some"])
        if part == "all":
            r = e.error(fT, fY)
            a, k = 0, N
        else:
            r = e.error(fT, fY, istart=a, icount=k)
        i, j = select(w, N, a, k)
        ref = metric(w, mode, T[i:j], Y[i:j], wc, None if lab is None else lab[i:j])
    else:
        r = e.error(fT, fY)
        ref = metric(w, mode, T, Y, wc, lab)
    w.eq(r, ref, "%s error" % (mode or "mse"))


def trained(w, mode="wc", hp=False, n=3):
    """error after training in a mode uses that mode"""
    e = (w.HPELM if hp else w.ELM)(1, 2, norm=1)
    e.add_neurons(1, "lin", np.array([[1.]]), np.array([0.]))
    X = w.mat("X", (n, 1))
    T, lab = w.onehot("T", n, 2)
    kw = {}
    wc = None
    if mode == "wc":
        wc = w.mat("w", (2,), lo=0.1, hi=5)
        kw["w"] = wc
    e.train(X, T, mode, **kw)
    Y = w.mat("Y", (n, 2))
    if hp:
        e.batch = w.int("batch", 1)
    w.eq(e.error(T, Y), metric(w, mode, T, Y, wc, lab), "error after training for " + mode)


def vector(w, hp=False):
    """one-dimensional targets"""
    e = (w.HPELM if hp else w.ELM)(1, 1)
    T, Y = w.mat("T", (3,)), w.mat("Y", (3,))
    w.eq(e.error(T, Y), metric(w, None, T.reshape(-1, 1), Y.reshape(-1, 1)), "mse of vectors")


SCENARIOS = []
for m in (None, "c", "wc", "ml"):
    c = 3 if m in ("c",) else 2
    SCENARIOS.append(S("elm-%s" % (m or "r"), elm, dict(mode=m, c=c, nmax=3), tparams=dict(nmax=4, c=3), bounds="N=1..3 (4), %d (3) outputs, every T and Y" % c))
    for src in ("h5", "array"):
        SCENARIOS.append(S("hpelm-%s-%s" % (m or "r", src), elm, dict(mode=m, hp=True, src=src, nmax=4 if m in (None, "ml") else 3), tparams=dict(nmax=5 if m in (None, "ml") else 4),
                           bounds="N=1..3 or 4 (5), 2 outputs, every T and Y, any range, any batch"))
    if m:
        SCENARIOS.append(S("upper-%s" % m, elm, dict(mode=m, spelling=m.upper(), nmax=2), bounds="N=1..2"))
for m in ("c", "wc", "ml"):
    for hp in (False, True):
        SCENARIOS.append(S("trained-%s-%s" % (m, "hpelm" if hp else "elm"), trained, dict(mode=m, hp=hp), bounds="N=3"))
SCENARIOS += [S("mc", elm, dict(mode="ml", spelling="mc", nmax=2), bounds="N=1..2"), S("vector-elm", vector, bounds="N=3"), S("vector-hpelm", vector, dict(hp=True), bounds="N=3")]
