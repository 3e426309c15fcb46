"""C29: rbf_param returns data points as centroids and positive widths."""
import numpy as np
from symx.spec import S


def dist(x, y, kind):
    d = x - y
    if "l1" in kind:
        return np.abs(d).sum()
    if "inf" in kind:
        return np.abs(d).max()
    return (d * d).sum()


class Pairs:
    """pairs of samples whose distance is computed; None if that cannot be seen"""
    def __init__(self, w, mod):
        self.pairs = []
        f = getattr(mod, "cdist", None)
        if f is None:
            self.pairs = None
            return

        def cdist(A, B, *a, **k):
            if self.pairs is not None and A.shape[0] == 1 and B.shape[0] == 1:
                self.pairs.append((A[0].copy(), B[0].copy()))
            else:
                self.pairs = None
            return f(A, B, *a, **k)
        w.patch(mod, "cdist", cdist)


def rbf(w, N=3, d=1, k=2, kind=None, src="array", distinct=True, integer=False):
    X = w.mat("X", (N, d), integer=integer)
    for i in range(N):
        for j in range(i):
            if distinct:
                w.assume(w.any_of(*[X[i, c] - X[j, c] > 0.1 for c in range(d)] + [X[j, c] - X[i, c] > 0.1 for c in range(d)]))
    if not distinct:
        w.assume(w.any_of(*[X[i, 0] - X[0, 0] > 0.1 for i in range(1, N)]))
    mod = w.load("hpelm.modules.rbf_param")
    seen = Pairs(w, mod)
    X0 = w.snap(X)
    a = dict() if kind is None else dict(kind=kind)
    if src == "h5":
        p = w.path("x.h5")
        w.load("hpelm.modules").make_hdf5(X, p)
        arg = p
    else:
        arg = X if src == "array" else [[X[i, c] for c in range(d)] for i in range(N)]
    if distinct:
        W, B = mod.rbf_param(arg, k, **a)
    else:
        r, err = w.attempt(lambda: mod.rbf_param(arg, k, **a))
        if err is not None:
            return          # nothing but equal samples was drawn
        W, B = r
    w.check(w.open_handles() == 0, "file is closed")
    if src == "h5":
        w.eq(w.get_h5(p), X0, "file is unchanged")
    elif src == "array":
        w.eq(X, X0, "data are unchanged")
    w.shape(W, (d, k), "centroids")
    w.shape(B, (k,), "widths")
    for j in range(k):
        if not any(w.same(W[:, j], X0[i]) for i in range(N)):
            w.check(w.any_of(*[w.both(*[W[c, j] == X0[i, c] for c in range(d)]) for i in range(N)]), "a centroid is a row of the data")
        else:
            w.check(True, "a centroid is a row of the data")
        w.check(B[j] > 0, "widths are positive")
    if seen.pairs:
        kd = kind or ""
        ds = [dist(x, y, kd) for x, y in seen.pairs]
        if distinct:
            for x, y in seen.pairs:
                w.check(w.any_of(*[x[c] != y[c] for c in range(d)]), "distances are between different samples")
        D = np.zeros(len(ds)) + ds[0] * 0
        for i, x in enumerate(ds):
            D[i] = x
        m, s = D.mean(), D.std()
        for j in range(k):
            w.check(w.both(B[j] - m <= s * (1 + 1e-9) + 1e-9 * m, m - B[j] <= s * (1 + 1e-9) + 1e-9 * m), "widths are within one deviation of the mean sampled distance")
    else:
        D = [dist(X0[i], X0[j], kind or "") for i in range(N) for j in range(i)]
        for j in range(k):
            w.check(w.any_of(*[B[j] <= 1.21 * x for x in D]), "widths are within one deviation of a mean of distances")


SCENARIOS = []
O = dict(max_draws=4)
for N, d, k in ((2, 1, 1), (2, 2, 2), (3, 1, 1), (3, 1, 2), (3, 2, 1)):
    SCENARIOS.append(S("N%d-d%d-k%d" % (N, d, k), rbf, dict(N=N, d=d, k=k), O, bounds="%d x %d samples, %d neurons, at most 4 draws of widths" % (N, d, k)))
    SCENARIOS.append(S("h5-N%d-d%d-k%d" % (N, d, k), rbf, dict(N=N, d=d, k=k, src="h5"), O, bounds="%d x %d samples in a file, %d neurons" % (N, d, k)))
for kind in ("l1", "rbf_l1", "linf", "rbf_linf", "l2", "rbf_l2"):
    for src in ("array", "h5"):
        SCENARIOS.append(S("%s-%s" % (kind, src), rbf, dict(N=3, d=2 if src == "array" else 1, k=1, kind=kind, src=src), O, bounds="3 samples, 1 neuron"))
SCENARIOS += [
    S("N4", rbf, dict(N=4, d=1, k=1), dict(max_draws=2), bounds="4 samples, 1 neuron, at most 2 draws"), S("N4-k2", rbf, dict(N=4, d=1, k=2), dict(max_draws=3), tier="thorough", bounds="4 samples, 2 neurons, at most 3 draws"),
    S("N3-d2-k2", rbf, dict(N=3, d=2, k=2), dict(max_draws=4, budget_s=2000), tier="thorough", bounds="3 x 2 samples, 2 neurons"), S("h5-N3-d2-k2", rbf, dict(N=3, d=2, k=2, src="h5"), dict(max_draws=4, budget_s=2000), tier="thorough", bounds="3 x 2 samples in a file, 2 neurons"),
    S("k3", rbf, dict(N=2, d=1, k=3), O, bounds="2 samples, 3 neurons"), S("k4", rbf, dict(N=3, d=1, k=4), O, tier="thorough", bounds="3 samples, 4 neurons"),
    S("equal", rbf, dict(N=3, d=1, k=1, distinct=False), O, bounds="3 samples, some of them equal"), S("equal-h5", rbf, dict(N=3, d=1, k=2, distinct=False, src="h5"), O, bounds="3 samples, some of them equal"),
    S("list", rbf, dict(src="list"), O, bounds="list of rows"), S("int", rbf, dict(integer=True), O, bounds="integer values"),
]
