"""C14: neuron rankings are valid and respect kmax."""
import numpy as np
from symx.spec import S
from checks.common import const, neurons
from checks.C11 import Free, pick


def part(w, name, shape, free, seed):
    if free == "all":
        return w.mat(name, shape)
    o = const(seed, *shape) + np.zeros(shape)
    if free == "line":      # a line in the space of matrices
        return o + w.real(name + "_t") * const(seed + 50, *shape)
    for n, i in enumerate(np.ndindex(*shape)):
        if n in free:
            o[i] = w.real("%s_%d" % (name, n))
    return o


def valid(w, r, m, need):
    r = [int(i) for i in r]
    w.check(len(r) == need, "as many neurons as requested", "%d instead of %d" % (len(r), need))
    w.check(len(set(r)) == len(r), "distinct neurons", "%r" % (r,))
    w.check(all(0 <= i < m for i in r), "existing neurons", "%r" % (r,))
    return r


def rank(w, alg="mrsr", n=2, m=2, p=1, k=None, xfree="all", tfree="all", zero=None, seed=7, dup=False):
    f = getattr(w.load("hpelm.modules"), alg)
    X, T = part(w, "X", (n, m), xfree, seed), part(w, "T", (n, p), tfree, seed + 1)
    if zero is not None:
        X = X * 1
        X[:, zero] = 0
    if dup:
        X = X * 1
        X[:, 1] = X[:, 0]
    if alg == "mrsr2":      # an LU solver of singular systems is outside of the model
        w.assume(np.abs(X).sum() > 0)
    X0, T0 = w.snap(X), w.snap(T)
    k = m if k is None else k
    r = f(X, T, k)
    need = min(k, m) if alg == "mrsr" else min(k, m, n)
    r = valid(w, r, m, need)
    w.eq(X, X0, "ranked matrix is not changed")
    w.eq(T, T0, "targets are not changed")
    if not r:
        return
    C = np.dot(X0.T, T0)

    def strength(j):
        if alg == "mrsr":
            return np.abs(C[j]).sum()
        return (C[j] * C[j]).sum()
    for j in range(m):
        if j != r[0]:
            w.check(strength(r[0]) >= strength(j) - (0 if w.symbolic else 1e-9), "starts with the neuron most correlated with the targets")


def shuffled(w, L=3):
    """the ranking used without 'OP'"""
    e = w.ELM(1, 1, norm=1)
    ns = neurons(w, e, [("lin", 1), ("tanh", L - 1)], 1)
    X, T = w.mat("X", (2, 1)), w.mat("T", (2, 1))
    w.patch(e, "_error", Free(w))
    e.train(X, T, "V", Xv=X, Tv=T)
    got = pick(w, ns, e.nnet.get_neurons())
    w.check(got is not None and 1 <= len(got) <= L, "random ranking has distinct existing neurons")


def kmax(w, mode="V", L=4, kmax=2, outputs=1, order=("OP",), N=6):
    """with kmax the final model is at most that large; targets symbolic"""
    e = w.ELM(3, outputs, norm=0.5)
    W, B = const(5, 3, L), const(6, L)
    e.add_neurons(L, "lin", W, B)       # different sizes give different predictions
    X = const(1, N, 3)
    T = const(2, N, outputs)
    w.patch(e, "_error", Free(w))
    kw = dict(kmax=kmax)
    if mode == "V":
        kw.update(Xv=X[:5], Tv=T[:5])
    elif mode == "CV":
        kw.update(k=3)
    e.train(X, T, mode, *order, **kw)
    w.check(e.nnet.L <= kmax and e.nnet.L >= 1, "at most kmax neurons", "%d" % e.nnet.L)
    B = e.nnet.get_B()
    w.check(B.shape[0] == e.nnet.L, "output weights of the kept neurons")


MODES = ("V", "LOO", "CV")
SCENARIOS = []
for alg in ("mrsr", "mrsr2"):
    for n, m, p in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 1, 2), (3, 1, 2), (2, 2, 1)):
        SCENARIOS.append(S("%s-%d%d%d" % (alg, n, m, p), rank, dict(alg=alg, n=n, m=m, p=p, k=1 if (n, m, p, alg) == (2, 2, 1, "mrsr2") else None), dict(budget_s=300),
                           bounds="%d x %d matrix, %d targets, all symbolic" % (n, m, p), tier="thorough" if (n, m, p, alg) == (2, 2, 1, "mrsr") else "quick"))
    SCENARIOS.append(S("%s-221-1" % alg, rank, dict(alg=alg, n=2, m=2, p=1, k=1), bounds="2 x 2 matrix, all symbolic, kmax=1"))
    easy = {"mrsr": ((4, 4, 1, 1),), "mrsr2": ((3, 3, 1, 3), (2, 3, 1, 3), (4, 4, 1, 1), (3, 4, 1, 2))}[alg]
    for n, m, p, k in ((3, 3, 1, 3), (3, 3, 2, 3), (4, 4, 1, 4), (4, 3, 1, 5), (3, 4, 1, 2), (2, 3, 1, 3), (4, 4, 1, 1), (4, 4, 2, 3), (5, 5, 1, 5), (4, 6, 1, 6), (3, 6, 1, 6), (8, 6, 3, 4)):
        line = (n, m, p, k) in easy
        big = alg == "mrsr2" and k >= 4 and (n, m) != (4, 4) and (n, m) != (4, 3)
        SCENARIOS.append(S("%s-T-%d%d%d-%d" % (alg, n, m, p, k), rank, dict(alg=alg, n=n, m=m, p=p, k=k, xfree=(), tfree="line" if line else ()), dict(budget_s=900 if big else 300), tier="thorough" if big else "quick",
                           bounds="constant %d x %d matrix, %d targets %s, kmax=%d" % (n, m, p, "on a line (one real parameter)" if line else "constant", k)))
        if not line:
            SCENARIOS.append(S("%s-T-%d%d%d-%d-line" % (alg, n, m, p, k), rank, dict(alg=alg, n=n, m=m, p=p, k=k, xfree=(), tfree="line"), dict(budget_s=600), tier="thorough",
                               bounds="constant %d x %d matrix, %d targets on a line (one real parameter), kmax=%d" % (n, m, p, k)))
    for n, m in ((2, 2), (3, 3), (3, 2)):
        hard = n == 3 if alg == "mrsr" else (n, m) == (3, 3)
        SCENARIOS.append(S("%s-X-%d%d" % (alg, n, m), rank, dict(alg=alg, n=n, m=m, p=1, xfree="line", tfree=()), dict(budget_s=600) if hard else {}, tier="thorough" if hard else "quick",
                           bounds="%d x %d matrix on a line (one real parameter)" % (n, m)))
    SCENARIOS.append(S("%s-zero" % alg, rank, dict(alg=alg, n=3, m=3, p=1, k=3 if alg == "mrsr" else 2, xfree=(), tfree=(0,), zero=2), bounds="a zero column"))
SCENARIOS.append(S("mrsr-dup", rank, dict(n=3, m=3, p=1, k=3, xfree=(), tfree="line", dup=True), bounds="two equal columns"))
SCENARIOS.append(S("mrsr-zeros", rank, dict(n=2, m=3, p=1, k=3, xfree=(), tfree=(0,), zero=[0, 1, 2]), bounds="all columns zero"))
for m in MODES:
    for k in (1, 2, 3, 4, 9):
        SCENARIOS.append(S("kmax%d-%s" % (k, m), kmax, dict(mode=m, kmax=k), bounds="4 neurons, kmax=%d, every error value" % k))
    SCENARIOS.append(S("kmax-many-%s" % m, kmax, dict(mode=m, kmax=2, outputs=11, L=3, N=7), bounds="3 neurons, kmax=2, 11 outputs (the other algorithm), every error value"))
SCENARIOS.append(S("random", shuffled, bounds="3 neurons, every order"))
