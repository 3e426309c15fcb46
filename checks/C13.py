"""C13: cross-validation folds are disjoint and the test error is unbiased."""
import itertools
import numpy as np
from symx.spec import S
from checks.common import hidden, const, order, neurons, acc


def match(w, ns, X, T, norm, L, ranks, parts, A, y):
    """(B, size) such that y are the outputs for part A of a top-ranked model trained on all samples outside of A and B"""
    out = []
    H = hidden(ns, X)
    for B in parts:
        if B == A:
            continue
        tr = [i for i in range(X.shape[0]) if i not in A and i not in B]
        if not tr:
            continue
        G = np.dot(H[tr].T, H[tr]) + norm * np.eye(L)
        F = np.dot(H[tr].T, T[tr])
        seen = []
        for r in list(ranks) + [list(range(L))]:
            for n in range(1, len(r) + 1):
                idx = list(r[:n])
                if (n, idx) in seen:
                    continue
                seen.append((n, idx))
                if w.same(y, np.dot(H[list(A)][:, idx], np.linalg.solve(G[idx, :][:, idx], F[idx, :]))):
                    out.append((B, n))
    return out


def folds(w, L=3, N=7, k=3, c=1, data="const", kmax=None, norm=None, cls=None, vector=False):
    norm = 0.5 if norm is None else w.real("norm", 0.05, 4)
    e = w.ELM(2 if data == "const" else 1, c, norm=norm)
    if data == "const":
        W, B = const(5, 2, L), const(6, L)
        e.add_neurons(L, "lin", W, B)
        ns = [("lin", W, B)]
        X, T = const(1, N, 2), const(2, N, c)
    else:
        ns = neurons(w, e, [("tanh", L)], 1)
        X, T = w.mat("X", (N, 1)), w.mat("T", (N, c))
        for i in range(N):
            for j in range(i):
                w.assume(T[i, 0] - T[j, 0] > 0.01 if i % 2 else T[j, 0] - T[i, 0] > 0.01)
                w.assume(X[i, 0] - X[j, 0] > 0.01 if i % 2 else X[j, 0] - X[i, 0] > 0.01)
    ranks = []
    args, kw = ["CV"], {"k": k}
    if cls:
        args.append(cls)
    if kmax:
        args.append("OP")
        kw["kmax"] = kmax

        def fake(H, Tr, n):
            r = order(40 + len(ranks), L)[:n]
            ranks.append(r)
            return np.array(r)
        w.patch(w.load("hpelm.elm"), "mrsr", fake)
    calls = []

    def stub(T0, Y0, *a, **b):
        rows = []
        for i in range(T0.shape[0]):
            j = [q for q in range(N) if w.same(T0[i], T[q])]
            rows.append(j[0] if len(j) == 1 else None)
        for t, y, v in calls:
            if t == rows and w.same(y, Y0):
                return v
        v = w.real("err_%d" % len(calls), 0, 9)
        calls.append((rows, Y0, v))
        return v
    w.patch(e, "_error", stub)
    res = e.train(X, T[:, 0] if vector else T, *args, **kw)
    if not calls:
        w.check(True, "nothing observed")
        return
    ranks = ranks if kmax else w.perms()
    w.check(all(None not in r for r, _, _ in calls), "errors are computed against samples of the data")
    parts = sorted({tuple(sorted(r)) for r, _, _ in calls if None not in r})
    w.check(all(len(set(r)) == len(r) for r, _, _ in calls), "no sample twice in a part")
    w.check(len(parts) == k and sorted(i for p in parts for i in p) == list(range(N)), "k disjoint parts cover all samples", "%r" % (parts,))
    if len(parts) != k:
        return
    got = e.nnet.L
    keyed = {}
    for r, y, v in calls:
        m = match(w, ns, X, T, norm, L, ranks, parts, tuple(sorted(r)), y if r == sorted(r) else y[np.argsort(r)])
        if not w.check(len(m) > 0, "scored models are trained on the training part only, tested on another part"):
            return
        for B, n in m:
            keyed.setdefault((tuple(sorted(r)), B), {})[n] = v
    # which of the two left-out parts of a split is its test part: any consistent choice
    splits = sorted({tuple(sorted(p)) for p in keyed})
    w.check(len(splits) == k, "k splits", "%r" % (splits,))
    ok = False
    for flip in itertools.product((0, 1), repeat=len(splits)):
        val = [s[f] for s, f in zip(splits, flip)]
        tst = [s[1 - f] for s, f in zip(splits, flip)]
        if sorted(val) != parts or sorted(tst) != parts:
            continue
        vs = [keyed.get((t, v), {}).get(got) for t, v in zip(tst, val)]
        if any(v is None for v in vs):
            continue
        if w.same(res, sum(vs) / float(k)):
            ok = True
            break
    w.check(ok, "result is the average test error of models of the selected size, every sample once in validation and once in test")


SCENARIOS = []
for N in range(3, 12):
    SCENARIOS.append(S("k3-N%d" % N, folds, dict(N=N, L=3), dict(shuffle=N), bounds="N=%d, 3 splits, 3 neurons, every error value" % N))
for k, N in ((4, 4), (4, 5), (4, 9), (5, 5), (5, 7), (5, 12), (6, 6), (6, 8)):
    SCENARIOS.append(S("k%d-N%d" % (k, N), folds, dict(N=N, L=3, k=k), dict(shuffle=N), bounds="N=%d, %d splits, 3 neurons, every error value" % (N, k)))
for L in (1, 2, 4, 5, 7, 9):
    SCENARIOS.append(S("L%d" % L, folds, dict(N=8, L=L), dict(shuffle=L), bounds="N=8, 3 splits, %d neurons, every error value" % L))
for L in (12, 15):
    SCENARIOS.append(S("L%d" % L, folds, dict(N=8, L=L), dict(shuffle=L), tier="thorough", bounds="N=8, 3 splits, %d neurons, every error value" % L))
for kmax in (1, 3, 5, 6):
    SCENARIOS.append(S("kmax%d" % kmax, folds, dict(N=7, L=6, kmax=kmax), bounds="N=7, 3 splits, 6 neurons, kmax=%d" % kmax))
SCENARIOS += [
    S("2out", folds, dict(N=7, L=5, c=2), dict(shuffle=2), bounds="2 outputs"), S("c", folds, dict(N=7, L=5, c=2, cls="c"), dict(shuffle=2), bounds="classification"),
    S("ml", folds, dict(N=7, L=5, c=2, cls="ml"), dict(shuffle=2), bounds="multi-label"), S("vec", folds, dict(N=7, L=5, vector=True), dict(shuffle=2), bounds="1-dimensional targets"),
    S("sym-1", folds, dict(N=3, L=1, data="sym", norm=1), bounds="N=3, 1 neuron, data and norm symbolic"),
    S("sym-2", folds, dict(N=4, L=2, data="sym", norm=1), dict(shuffle=2), bounds="N=4, 2 neurons, data and norm symbolic, one ranking"),
    S("sym-k4", folds, dict(N=5, L=2, k=4, data="sym", norm=1), dict(shuffle=3), bounds="N=5, 4 splits, 2 neurons, data and norm symbolic, one ranking"),
    S("sym-all", folds, dict(N=3, L=2, data="sym", norm=1), bounds="N=3, 2 neurons, data and norm symbolic, every ranking"),
]
