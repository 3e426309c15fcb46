"""C16: pruning keeps exactly the chosen neurons."""
import itertools
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, hidden, corr


def prune(w, spec=(("tanh", 2), ("lin", 2)), kind="python", how="every", hp=False, twice=False, prec="double", arr=False, d=2):
    e = (w.HPELM if hp else w.ELM)(d, 1, norm=1, accelerator=acc(kind), precision=prec)
    tol = 4e-3 if prec == "single" else None
    ns = neurons(w, e, spec, d)
    L = sum(k for f, k in spec)
    flat = [(f, W[:, j], B[j]) for f, W, B in ns for j in range(W.shape[1])]
    X = w.mat("X", (2, d))
    T = w.mat("T", (2, 1))
    state = w.choice("state", ["fresh", "data", "solved", "both"]) if how == "every" else "both"
    if state in ("data", "both"):
        e.add_data(X, T)
    if state in ("solved", "both"):
        e.nnet.set_B(w.mat("B", (L, 1)))
    if how == "every":           # any subset in any order
        idx = w.perm("order", L)[:w.choice("keep", list(range(1, L + 1)))]
    else:
        idx = list(how)
    for step in range(2 if twice else 1):
        e.nnet._prune(np.array(idx) if arr else idx)
        types = []
        for f, W, B in flat:
            if not any(g is f or g == f for g in types):
                types.append(f)
        kept = [[i for i in idx if flat[i][0] is f or flat[i][0] == f] for f in types]
        new = [flat[i] for k in kept for i in k]
        got = [(f, W[:, j], B[j]) for n, f, W, B in e.nnet.get_neurons() for j in range(W.shape[1])]
        w.check(all(n == W.shape[1] == B.shape[0] for n, f, W, B in e.nnet.get_neurons()), "neuron counts fit the weights")
        if not w.check(len(got) == len(new) and e.nnet.L == len(new), "number of kept neurons", "%d, %d instead of %d" % (len(got), e.nnet.L, len(new))):
            return
        for a, b in zip(got, new):
            w.check(a[0] is b[0] or a[0] == b[0], "kept neuron has its function")
            w.eq(a[1], b[1], "kept neuron has its weights", tol)
            w.eq(a[2], b[2], "kept neuron has its bias", tol)
        w.check(e.nnet.get_B() is None, "output weights are discarded")
        w.raises(lambda: e.predict(X), "pruned model does not predict with old output weights")
        ns2 = [(f, np.hstack([W[:, None]]), np.hstack([B])) for f, W, B in new]
        ref = np.hstack([hidden([(f, W[:, None], np.array([1.0]) * B)], X) for f, W, B in new])
        w.eq(e.project(X), ref, "projection of the kept neurons", tol)
        # data collected earlier does not count any more
        e.add_data(X, T)
        HH, HT = e.nnet.get_corr()
        w.eq(HH, np.dot(ref.T, ref) + np.eye(len(new)), "accumulation starts again: HH", tol)
        w.eq(HT, np.dot(ref.T, T), "accumulation starts again: HT", tol)
        if twice and step == 0:
            flat = new
            e.nnet.set_B(np.ones((len(new), 1)))
            idx = list(range(len(new)))[::-1][:max(1, len(new) - 1)]


def then_add(w, kind="python", idx=(2, 0)):
    """neurons of a type that lost all of them, or of another type, can be added after pruning"""
    e = w.ELM(1, 1, norm=1, accelerator=acc(kind))
    ns = neurons(w, e, [("tanh", 2), ("lin", 2)], 1)
    flat = [(f, W[:, j], B[j]) for f, W, B in ns for j in range(W.shape[1])]
    e.nnet._prune(list(idx))
    W, B = w.mat("Wn", (1, 1)), w.mat("Bn", (1,))
    f = w.choice("func", ["tanh", "lin", "sigm"])
    e.add_neurons(1, f, W, B)
    X = w.mat("X", (2, 1))
    cols = []
    for g in ("tanh", "lin", "sigm"):
        for i in idx:
            if flat[i][0] == g:
                cols.append(hidden([(g, flat[i][1][:, None], np.array([1.0]) * flat[i][2])], X))
        if g == f:
            cols.append(hidden([(g, W, B)], X))
    w.eq(e.project(X), np.hstack(cols), "projection after adding to a pruned model")
    w.check(e.nnet.L == len(idx) + 1, "number of neurons")


SCENARIOS = []
for kind in ("python", "basic"):
    SCENARIOS += [
        S("every-4-" + kind, prune, dict(kind=kind, spec=(("tanh", 2), ("lin", 2))), bounds="4 neurons of 2 types, every ordered subset, every state"),
        S("every-3types-" + kind, prune, dict(kind=kind, spec=(("lin", 1), ("rbf_l2", 1), ("sigm", 1))), bounds="3 neurons of 3 types, every ordered subset, every state"),
        S("every-31-" + kind, prune, dict(kind=kind, spec=(("sigm", 1), ("tanh", 3)), d=1), bounds="4 neurons of 2 types, every ordered subset, every state"),
        S("twice-" + kind, prune, dict(kind=kind, spec=(("tanh", 1), ("lin", 2)), twice=True, d=1), bounds="pruned twice"),
        S("hp-" + kind, prune, dict(kind=kind, spec=(("tanh", 1), ("lin", 2)), hp=True), bounds="HPELM"),
        S("single-" + kind, prune, dict(kind=kind, spec=(("tanh", 1), ("lin", 2)), prec="single"), bounds="single precision"),
        S("array-" + kind, prune, dict(kind=kind, spec=(("tanh", 1), ("lin", 2)), arr=True), bounds="indexes as an array"),
        S("ufunc-" + kind, prune, dict(kind=kind, spec=(("lin", 1), ("np.sin", 2)), d=1), bounds="custom neurons"),
        S("merged-" + kind, prune, dict(kind=kind, spec=(("lin", 1), ("tanh", 1), ("lin", 1)), d=1), bounds="types added in turns"),
        S("five-" + kind, prune, dict(kind=kind, spec=(("tanh", 2), ("lin", 1), ("sigm", 2)), d=1), bounds="5 neurons of 3 types, every ordered subset, every state", tier="thorough"),
        S("big-" + kind, prune, dict(kind=kind, spec=(("tanh", 4), ("lin", 3), ("sigm", 5), ("rbf_l2", 2)), how=(13, 2, 0, 11, 5, 9, 4, 7, 8, 12)), bounds="14 neurons of 4 types, one list"),
        S("big2-" + kind, prune, dict(kind=kind, spec=(("tanh", 4), ("lin", 3), ("sigm", 5), ("rbf_l2", 2)), how=(6, 5, 4), twice=True), bounds="14 neurons of 4 types, one type kept"),
    ]
    for i, idx in enumerate(((2, 0), (1,), (3, 2), (3, 0, 1))):
        SCENARIOS.append(S("add%d-%s" % (i, kind), then_add, dict(kind=kind, idx=idx), bounds="keep %r, then add" % (idx,)))
