"""C04: HPELM predict and project fill row i from input row istart+i."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, hidden, rng, select
from checks.C03 import data


def run(w, what="predict", nmax=5, kind="python", src="h5", out="none", part="all", c=2, extra=0):
    e = w.HPELM(2, c, accelerator=acc(kind))
    ns = neurons(w, e, [("sigm", 1), ("lin", 1)], 2)
    B = w.mat("B", (2, c))
    e.nnet.set_B(B)
    cols = c if what == "predict" else 2
    N = w.choice("N", range(1, nmax + 1))
    X = w.mat("X", (N, 2))
    fX = data(w, "X", X, src)
    e.batch = w.int("batch", 1)
    a, k = rng(w, N)
    kw = {}
    if part in ("all", "start"):
        kw["istart"] = a
    else:
        a = 0
    if part in ("all", "count"):
        kw["icount"] = k
    else:
        k = N
    f = e.predict if what == "predict" else e.project
    if out == "none":
        R = f(fX, **kw)
        i, j = select(w, N, a, k)
    elif out == "file":
        p = w.path("out.h5")
        f(fX, p, **kw)
        R = w.get_h5(p)
        i, j = select(w, N, a, k)
    else:
        i, j = select(w, N, a, k)
        R = w.mat("out", (j - i + extra, cols))
        old = R.copy()
        f(fX, R, **kw)
        w.eq(R[j - i:], old[j - i:], "rows outside the range are left alone")
        R = R[:j - i]
    ref = hidden(ns, X[i:j])
    if what == "predict":
        ref = np.dot(ref, B)
    w.eq(R, ref, "%s row i is input row istart+i" % what)
    if src == "h5":
        w.eq(w.get_h5(fX), X, "input file unchanged")


SCENARIOS = []
for what in ("predict", "project"):
    for src, out in (("h5", "none"), ("h5", "file"), ("array", "array"), ("array", "file")):
        SCENARIOS.append(S("%s-%s-%s" % (what, src, out), run, dict(what=what, src=src, out=out, extra=2 if out == "array" else 0), tparams=dict(nmax=7),
                           bounds="N=1..5 (7), any istart<N, any icount>=1, any batch>=1"))
    for part in ("start", "count", "none"):
        SCENARIOS.append(S("%s-%s" % (what, part), run, dict(what=what, part=part), tparams=dict(nmax=7), bounds="N=1..5 (7), range partly omitted"))
    SCENARIOS.append(S("%s-basic" % what, run, dict(what=what, kind="basic", src="array", out="array", nmax=4), bounds="N=1..4, basic solver"))
