"""C12: the LOO score equals explicit leave-one-out retraining."""
import numpy as np
from symx.spec import S
from checks.common import const, hidden


def explicit(w, H, T, norm):
    """mean squared error of predictions for each sample by a model trained on the others"""
    N, c = T.shape
    s = 0
    for i in range(N):
        rest = [j for j in range(N) if j != i]
        G = np.dot(H[rest].T, H[rest]) + norm * np.eye(H.shape[1])
        y = np.dot(H[i], np.linalg.solve(G, np.dot(H[rest].T, T[rest])))
        for q in range(c):
            s = s + (T[i, q] - y[q]) * (T[i, q] - y[q])
    return s / float(N * c)


def matrix(w, name, shape, free, seed):
    """constant matrix with some rows symbolic"""
    o = const(seed, *shape)
    if free == "all":
        return w.mat(name, shape)
    if free:
        o = o + np.zeros(shape)
        m = w.mat(name, (len(free), shape[1]))
        for k, i in enumerate(free):
            o[i] = m[k]
    return o


def score(w, L=1, N=2, c=1, xfree="all", tfree="all", nfree=True, kind="lin", seed=3):
    norm = w.real("norm", 0.05, 4) if nfree else 0.5
    e = w.ELM(L, c, norm=norm)
    if kind == "lin":
        W, B = np.eye(L), np.zeros(L)
    else:
        W, B = const(seed + 9, L, L), const(seed + 10, L)
    e.add_neurons(L, kind, W, B)
    X = matrix(w, "X", (N, L), xfree, seed)
    T = matrix(w, "T", (N, c), tfree, seed + 1)
    H = hidden([(kind, W, B)], X)
    log = []
    real = e._error

    def spy(T0, Y0, *a, **k):
        r = real(T0, Y0, *a, **k)
        log.append((Y0, r))
        return w.real("err_%d" % len(log), 0, 9)          # the search itself is another property: any order of the scores
    w.patch(e, "_error", spy)
    e.train(X, T, "LOO")
    rk = w.perms()[-1] if w.perms() else list(range(L))
    E = {}
    Y = {}
    for k in range(1, L + 1):
        Hk = H[:, list(rk[:k])]
        E[k] = explicit(w, Hk, T, norm)
        Y[k] = np.dot(Hk, np.linalg.solve(np.dot(Hk.T, Hk) + norm * np.eye(k), np.dot(Hk.T, T)))
    for y, s in log:
        k = [k for k in Y if w.same(y, Y[k])]
        if k:
            w.eq(s, E[k[0]], "LOO score of a model size")
        else:
            w.check(any(w.same(s, E[k]) for k in E), "every score is the LOO score of a model size")
    w.check(len(log) >= 1, "scores are computed") if log else w.check(True, "nothing observed")


O = dict(solve="cramer", cofactor=3, rational=1, polymax=3000000)
SCENARIOS = [
    S("1-2", score, dict(L=1, N=2), O, bounds="1 neuron, 2 samples, all data and norm symbolic"),
    S("1-3", score, dict(L=1, N=3), O, bounds="1 neuron, 3 samples, all data and norm symbolic"),
    S("1-3-2", score, dict(L=1, N=3, c=2), O, bounds="1 neuron, 3 samples, 2 outputs"),
    S("1-4", score, dict(L=1, N=4), O, bounds="1 neuron, 4 samples, all data and norm symbolic"),
    S("1-2-tanh", score, dict(L=1, N=2, kind="tanh"), O, bounds="1 tanh neuron, 2 samples, all data and norm symbolic"),
    S("2-2", score, dict(L=2, N=2), O, bounds="2 neurons, 2 samples, all data and norm symbolic"),
    S("2-2-2", score, dict(L=2, N=2, c=2), O, bounds="2 neurons, 2 samples, 2 outputs, all data and norm symbolic"),
    S("2-3-T", score, dict(L=2, N=3, xfree=(), nfree=False), O, bounds="2 neurons, 3 samples, targets symbolic"),
    S("2-3-norm", score, dict(L=2, N=3, xfree=()), O, bounds="2 neurons, 3 samples, targets and norm symbolic"),
    S("2-3-x", score, dict(L=2, N=3, xfree=(1,), nfree=False), O, bounds="2 neurons, 3 samples, targets and one input row symbolic"),
    S("2-3-xx", score, dict(L=2, N=3, xfree=(0, 2), tfree=(1,), nfree=False), O, tier="thorough", bounds="2 neurons, 3 samples, one target and two input rows symbolic"),
    S("3-4-T", score, dict(L=3, N=4, xfree=(), nfree=False), O, bounds="3 neurons, 4 samples, targets symbolic"),
    S("3-4-norm", score, dict(L=3, N=4, xfree=()), O, tier="thorough", bounds="3 neurons, 4 samples, targets and norm symbolic"),
    S("3-5-2", score, dict(L=3, N=5, c=2, xfree=(), nfree=False), O, bounds="3 neurons, 5 samples, 2 outputs, targets symbolic"),
    S("4-6", score, dict(L=4, N=6, xfree=(), nfree=False), dict(O, shuffle=3), bounds="4 neurons, 6 samples, targets symbolic, one ranking"),
    S("6-9", score, dict(L=6, N=9, c=2, xfree=(), nfree=False), dict(O, shuffle=3), bounds="6 neurons, 9 samples, 2 outputs, targets symbolic, one ranking"),
    S("5-3", score, dict(L=5, N=3, xfree=(), nfree=False), dict(O, shuffle=4), bounds="5 neurons, 3 samples, targets symbolic, one ranking"),
    S("8-12", score, dict(L=8, N=12, c=3, xfree=(), nfree=False), dict(O, shuffle=4), tier="thorough", bounds="8 neurons, 12 samples, 3 outputs, targets symbolic, one ranking"),
]
