"""C15: hidden layer applies each neuron's own function, weights and bias."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, hidden, neuron, func as resolve

ALL = ["lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf"]


def layer(w, spec=(("lin", 1),), d=2, n=2, kind="python", hp=False, prec="double", between=False, vec=False):
    """weights given"""
    e = (w.HPELM if hp else w.ELM)(d, 2, accelerator=acc(kind), precision=prec, norm=1)
    tol = 4e-3 if prec == "single" else None
    X = w.mat("X", (n, d))
    if hp:
        e.batch = w.int("batch", 1)
    ns = []
    for q, (f, k) in enumerate(spec):
        f = resolve(f)
        W = w.mat("W%d" % q, (d, k))
        B = w.mat("B%d" % q, (k,), positive=isinstance(f, str) and f.startswith("rbf"))
        e.add_neurons(k, f, W, B)
        for i, (g, W0, B0) in enumerate(ns):
            if g is f or g == f:
                ns[i] = (f, np.hstack((W0, W)), np.hstack((B0, B)))
                break
        else:
            ns.append((f, W, B))
        if between:      # used between additions
            w.eq(e.project(X), hidden(ns, X), "projection between additions", tol)
            e.nnet.set_B(np.ones((sum(x[1].shape[1] for x in ns), 2)))
            e.predict(X)
    L = sum(k for f, k in spec)
    w.check(e.nnet.L == L, "number of neurons", "%r" % e.nnet.L)
    H = e.project(X[:, 0] if vec else X)
    w.eq(H, hidden(ns, X), "one column per neuron, own function, weights and bias", tol)
    nn = e.nnet.get_neurons()
    w.check([(a[0], a[1]) for a in nn] == [(x[1].shape[1], x[0]) for x in ns], "types in order of first use")
    for a, x in zip(nn, ns):
        w.eq(a[2], x[1], "stored weights", tol)
        w.eq(a[3], x[2], "stored biases", tol)
    B = w.mat("B", (L, 2))
    e.nnet.set_B(B)
    w.eq(e.predict(X[:, 0] if vec else X), np.dot(hidden(ns, X), B), "predictions are project() times output weights", tol)
    w.eq(e.predict(X[:, 0] if vec else X), np.dot(e.project(X), B), "predictions match project()", tol)


def default(w, func="tanh", number=2, d=2, kind="python", twice=False, part=None):
    """random weights: the layer uses the weights the model reports"""
    e = w.ELM(d, 1, accelerator=acc(kind), norm=1)
    func = resolve(func)
    kw = {}
    if part == "W":
        kw["W"] = w.mat("W", (d, number))
    elif part == "B":
        kw["B"] = w.mat("B", (number,), positive=isinstance(func, str) and func.startswith("rbf"))
    e.add_neurons(number, func, **kw)
    if twice:
        e.add_neurons(1, "sigm" if func == "lin" else "lin", np.ones((d, 1)), np.ones(1))
        e.add_neurons(number, func, **kw)
    k = min(number, d) if func == "lin" and "W" not in kw else number
    nn = e.nnet.get_neurons()
    w.check(nn[0][0] == (2 * k if twice else k) and nn[0][1] == func, "number of neurons")
    _, _, W, B = nn[0]
    w.check(tuple(W.shape) == (d, nn[0][0]) and tuple(B.shape) == (nn[0][0],), "shape of weights and biases")
    if part == "W":
        w.eq(W[:, :k], kw["W"], "given weights are used")
    if part == "B":
        w.eq(B[:k], kw["B"], "given biases are used")
    if func == "lin" and part is None:
        for q in range(2 if twice else 1):
            w.eq(W[:, q * k:q * k + k], np.eye(d)[:, :k], "linear neurons copy the inputs")
        w.eq(B, np.zeros(nn[0][0]), "linear neurons copy the inputs")
    if isinstance(func, str) and func.startswith("rbf"):
        w.check(B >= 0, "widths are not negative")
        w.assume(B > 0)
    X = w.mat("X", (2, d))
    H = e.project(X)
    ref = [neuron(f, X, V, b) for _, f, V, b in nn]
    w.eq(H, np.hstack(ref), "hidden layer of the reported weights")


SCENARIOS = []
for kind in ("python", "basic"):
    for f in ALL:
        SCENARIOS.append(S("%s-%s" % (f, kind), layer, dict(spec=((f, 2),), kind=kind), bounds="2 neurons, 2 inputs, 2 samples"))
        SCENARIOS.append(S("%s-merge-%s" % (f, kind), layer, dict(spec=((f, 1), ("lin" if f != "lin" else "tanh", 1), (f, 2)), kind=kind), bounds="3 neurons of one type added in two steps, another type between"))
    for i, spec in enumerate(((("tanh", 1), ("lin", 2), ("sigm", 1)), (("rbf_l2", 1), ("rbf_l1", 1), ("rbf_linf", 1)), (("sigm", 1), ("tanh", 1), ("sigm", 1), ("lin", 1), ("tanh", 1)),
                              (("lin", 1), ("lin", 1), ("lin", 1)), tuple((f, 1) for f in ALL), tuple((f, 1) for f in reversed(ALL)),
                              (("tanh", 1), ("rbf_l2", 1), ("tanh", 1), ("rbf_l2", 1)))):
        SCENARIOS.append(S("mix%d-%s" % (i, kind), layer, dict(spec=spec, kind=kind), bounds="%d additions" % len(spec)))
    for nm in ("sin", "exp", "square", "negative", "absolute", "cos"):
        SCENARIOS.append(S("ufunc-%s-%s" % (nm, kind), layer, dict(spec=(("lin", 1), ("np." + nm, 2), ("tanh", 1), ("np." + nm, 1)), kind=kind), bounds="numpy.%s neurons between others" % nm))
    SCENARIOS += [
        S("between-" + kind, layer, dict(spec=(("tanh", 1), ("lin", 1), ("tanh", 2)), kind=kind, between=True), bounds="used after every addition"),
        S("hp-" + kind, layer, dict(spec=(("tanh", 1), ("rbf_l2", 1), ("lin", 1)), kind=kind, hp=True, n=3), bounds="HPELM, every batch"),
        S("single-" + kind, layer, dict(spec=(("tanh", 1), ("lin", 1), ("sigm", 1)), kind=kind, prec="single"), bounds="single precision"),
        S("vector-" + kind, layer, dict(spec=(("tanh", 1), ("lin", 1)), kind=kind, d=1, vec=True), bounds="1-dimensional input"),
        S("wide-" + kind, layer, dict(spec=(("tanh", 1), ("sigm", 3), ("lin", 1), ("sigm", 2)), kind=kind, d=4, n=3), bounds="4 inputs, 3 samples"),
    ]
    for f in ALL + ["np.sin"]:
        nm = f.replace("np.", "")
        SCENARIOS.append(S("default-%s-%s" % (nm, kind), default, dict(func=f, kind=kind), bounds="2 inputs, 2 random neurons"))
        SCENARIOS.append(S("default3-%s-%s" % (nm, kind), default, dict(func=f, kind=kind, number=3, twice=True), bounds="2 inputs, 3 random neurons, twice, another type between"))
        for part in ("W", "B"):
            SCENARIOS.append(S("default-%s-%s-%s" % (part, nm, kind), default, dict(func=f, kind=kind, part=part), bounds="only %s given" % part))
