"""C06: the confusion matrix counts every sample once, in any batching."""
import numpy as np
from symx.spec import S
from checks.C03 import data
from checks.C05 import largest


def conf(w, mode="c", nmax=4, c=2, hp=False, src="array", trained=False):
    kw = dict(classification=mode)
    if mode == "wc":
        kw["w"] = w.mat("w", (c,), lo=0.1, hi=5)
    e = (w.HPELM if hp else w.ELM)(2, c, **kw)
    N = w.choice("N", range(1, nmax + 1))
    if mode == "ml":
        T = w.mat("T", (N, c))
    else:
        T, lab = w.onehot("T", N, c)
    Y = w.mat("Y", (N, c))
    e.batch = w.int("batch", 1)
    C = e.confusion(data(w, "T", T, src), data(w, "Y", Y, src))
    w.shape(C, (c, c), "confusion")
    tot = 0
    for i in range(c):
        for j in range(c):
            s = 0
            for r in range(N):
                if mode == "ml":
                    s = s + w.ite(w.both(T[r, i] > 0.5, Y[r, j] > 0.5), 1, 0)
                elif lab[r] == i:
                    s = s + w.ite(largest(w, Y[r], j), 1, 0)
            w.eq(C[i, j], s, "confusion element")
            tot = tot + C[i, j]
    if mode != "ml":
        w.eq(tot, N, "sum of the confusion matrix")


def real_targets(w, nmax=3, c=2, hp=False):
    """class of a sample is its largest target"""
    e = (w.HPELM if hp else w.ELM)(2, c, classification="c")
    N = w.choice("N", range(1, nmax + 1))
    T, Y = w.mat("T", (N, c)), w.mat("Y", (N, c))
    e.batch = w.int("batch", 1)
    C = e.confusion(T, Y)
    for i in range(c):
        for j in range(c):
            s = 0
            for r in range(N):
                s = s + w.ite(w.both(largest(w, T[r], i), largest(w, Y[r], j)), 1, 0)
            w.eq(C[i, j], s, "confusion element for real targets")


SCENARIOS = []
for m in ("c", "wc", "ml"):
    for hp, src in ((False, "array"), (True, "h5"), (True, "array"), (False, "h5")):
        SCENARIOS.append(S("%s-%s-%s" % (m, "hpelm" if hp else "elm", src), conf, dict(mode=m, hp=hp, src=src), tparams=dict(nmax=5),
                           bounds="N=1..4 (5), 2 classes, any batch"))
    SCENARIOS.append(S("%s-3" % m, conf, dict(mode=m, c=3, nmax=3), tparams=dict(nmax=4), bounds="N=1..3 (4), 3 classes, any batch"))
SCENARIOS.append(S("real-targets", real_targets, bounds="N=1..3, any real T and Y"))
