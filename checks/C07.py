"""C07: saving and loading a model preserves it."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, hidden, corr, residual


def roundtrip(w, skind="python", rkind="python", shp=False, rhp=False, cls=None, prec="double", route="file", used="fresh", sprec="double", weights=True):
    norm = w.real("norm", 0.05, 4)
    kw = {}
    if cls:
        kw["classification"] = cls
    wc = None
    if cls == "wc" and weights:
        wc = w.mat("w", (2,), lo=0.1, hi=4)
        kw["w"] = wc
    a = (w.HPELM if shp else w.ELM)(2, 2, norm=norm, accelerator=acc(skind), precision=sprec, **kw)
    ns = neurons(w, a, [("tanh", 1), ("lin", 1), ("rbf_l2", 1)], 2)
    trained = w.choice("trained", ["no", "set", "train"])
    if trained == "set":
        a.nnet.set_B(w.mat("B", (3, 2)))
    elif trained == "train":
        Xa, Ta = w.mat("Xa", (2, 2)), w.mat("Ta", (2, 2))
        a.add_data(Xa, Ta) if cls != "wc" else None
        if cls == "wc":
            a.nnet.set_B(w.mat("B", (3, 2)))
        else:
            a.nnet.solve()
    b = (w.HPELM if rhp else w.ELM)(1 if used != "fresh" else 2, 3 if used != "fresh" else 2, accelerator=acc(rkind), precision=prec,
                                  **(dict(classification="wc", w=np.array([1., 2., 3.])) if used == "trained" else {}))
    if used != "fresh":
        neurons(w, b, [("tanh", 2), ("lin", 1)], 1, pre="old")
        if used == "trained":
            b.nnet.set_B(w.mat("oldB", (3, 3)))
    if route == "file":
        p = w.path("model.pkl")
        a.save(p)
        b.load(p)
        if w.bool("again"):
            b.load(p)
    else:
        m = a.dumps()
        b.loads(m)
    w.check(type(b.nnet) is w.solver(rkind), "solver type of the receiving object")
    w.check(b.nnet.inputs == 2, "inputs")
    w.check(b.nnet.outputs == 2, "outputs")
    w.check(b.classification == cls, "classification mode", "%r instead of %r" % (b.classification, cls))
    if wc is None:
        w.check(b.wc is None, "no class weights")
    else:
        w.eq(b.wc, wc, "class weights")
    w.eq(b.nnet.norm, norm, "norm")
    w.check(b.nnet.L == 3, "number of neurons")
    na, nb = a.nnet.get_neurons(), b.nnet.get_neurons()
    w.check([(x[0], x[1]) for x in na] == [(x[0], x[1]) for x in nb], "neuron types and their order")
    for x, y in zip(na, nb):
        w.eq(y[2], x[2], "neuron weights")
        w.eq(y[3], x[3], "neuron biases")
    dt = np.float32 if prec == "single" else np.float64
    for y in nb:
        w.check(w.dtype(y[2]) == dt and w.dtype(y[3]) == dt, "neurons in the receiving object's precision")
    X = w.mat("X", (2, 2))
    w.eq(b.project(X), hidden(ns, X), "projection", 4e-3 if prec == "single" or sprec == "single" else None)
    if trained == "no":
        w.check(b.nnet.get_B() is None, "no output weights")
        w.raises(lambda: b.predict(X), "predict refuses")
    else:
        w.eq(b.nnet.get_B(), a.nnet.get_B(), "output weights", 4e-3 if prec == "single" else None)
        w.check(w.dtype(b.nnet.get_B()) == dt, "output weights in the receiving object's precision")
        w.eq(b.predict(X), np.dot(hidden(ns, X), a.nnet.get_B()), "predictions", 4e-3 if prec == "single" or sprec == "single" else None)
    if cls is None and used != "trained":
        T = w.mat("T", (2, 2))
        b.batch = w.int("batch", 1)
        b.add_data(X, T)
        RH, RT = corr(w, ns, X, T, norm)
        HH, HT = b.nnet.get_corr()
        tol = 4e-3 if prec == "single" or sprec == "single" else None
        w.eq(HH, RH, "training after loading: HH", tol)
        w.eq(HT, RT, "training after loading: HT", tol)


def after_train(w, mode="wc", hp=False, route="file"):
    """mode and weights of a model trained with options survive"""
    a = (w.HPELM if hp else w.ELM)(1, 2, norm=1)
    ns = neurons(w, a, [("lin", 1), ("sigm", 1)], 1)
    X = w.mat("X", (3, 1))
    T, lab = w.onehot("T", 3, 2)
    w.assume(sorted(set(lab)) == [0, 1])
    kw = {}
    if mode == "wcw":
        kw["w"] = w.mat("w", (2,), lo=0.1, hi=4)
    a.train(X, T, mode[:2], **kw)
    b = w.ELM(4, 5, classification="ml")
    if route == "file":
        a.save(w.path("m.pkl"))
        b.load(w.path("m.pkl"))
    else:
        b.loads(a.dumps())
    w.check(b.classification == mode[:2], "classification mode of a trained model")
    if a.wc is None:
        w.check(b.wc is None, "no class weights")
    else:
        w.eq(b.wc, a.wc, "class weights of a trained model")
        if mode == "wc":
            n = [lab.count(0), lab.count(1)]
            w.eq(b.wc, np.array([3. / n[0], 3. / n[1]]), "automatic class weights")
    w.eq(b.predict(X), a.predict(X), "predictions of a trained model")


def independent(w, route="bytes"):
    """the loaded model is a copy: changing one leaves the other"""
    a = w.ELM(1, 1, norm=1)
    ns = neurons(w, a, [("lin", 1)], 1)
    a.nnet.set_B(w.mat("B", (1, 1)))
    b = w.ELM(1, 1)
    if route == "file":
        a.save(w.path("m.pkl"))
        b.load(w.path("m.pkl"))
    else:
        b.loads(a.dumps())
    X = w.mat("X", (2, 1))
    Y = a.predict(X)
    neurons(w, b, [("lin", 1)], 1, pre="more")
    b.nnet.set_B(w.mat("B2", (2, 1)))
    w.eq(a.predict(X), Y, "model that was saved is not changed by the loaded one")


def ufunc(w, route="file"):
    """custom neurons survive"""
    a = w.ELM(1, 1, norm=1)
    ns = neurons(w, a, [("lin", 1), (np.sin, 2)], 1)
    a.nnet.set_B(w.mat("B", (3, 1)))
    b = w.HPELM(1, 1)
    if route == "file":
        a.save(w.path("m.pkl"))
        b.load(w.path("m.pkl"))
    else:
        b.loads(a.dumps())
    X = w.mat("X", (2, 1))
    w.eq(b.project(X), hidden(ns, X), "projection with custom neurons")
    w.eq(b.predict(X), a.predict(X), "predictions with custom neurons")


SCENARIOS = []
for sk, rk in (("python", "python"), ("basic", "python"), ("python", "basic"), ("basic", "basic")):
    SCENARIOS.append(S("file-%s-%s" % (sk, rk), roundtrip, dict(skind=sk, rkind=rk), bounds="3 neurons of 3 types, 2 outputs; untrained, set and trained"))
for cls in ("c", "wc", "ml"):
    SCENARIOS.append(S("file-" + cls, roundtrip, dict(cls=cls), bounds="classification " + cls))
    SCENARIOS.append(S("bytes-" + cls, roundtrip, dict(cls=cls, route="bytes"), bounds="classification " + cls))
    SCENARIOS.append(S("used-" + cls, roundtrip, dict(cls=cls, route="bytes", used="trained"), bounds="classification " + cls + ", into a used object"))
for used in ("untrained", "trained"):
    SCENARIOS.append(S("used-" + used, roundtrip, dict(used=used), bounds="into a used object"))
    SCENARIOS.append(S("used-bytes-" + used, roundtrip, dict(used=used, route="bytes", rkind="basic"), bounds="into a used object"))
SCENARIOS += [
    S("hp-hp", roundtrip, dict(shp=True, rhp=True), bounds="HPELM to HPELM"), S("elm-hp", roundtrip, dict(rhp=True, used="trained"), bounds="ELM to HPELM"),
    S("hp-elm-bytes", roundtrip, dict(shp=True, route="bytes"), bounds="HPELM to ELM"),
    S("single", roundtrip, dict(prec="single"), bounds="into single precision"), S("from-single", roundtrip, dict(sprec="single"), bounds="from single precision"),
    S("wc-auto", roundtrip, dict(cls="wc", weights=False), bounds="wc without weights"),
    S("independent-file", independent, dict(route="file")), S("independent-bytes", independent),
    S("ufunc-file", ufunc), S("ufunc-bytes", ufunc, dict(route="bytes")),
]
for mode in ("c", "wc", "wcw", "ml"):
    SCENARIOS.append(S("trained-" + mode, after_train, dict(mode=mode), bounds="N=3, 2 classes"))
SCENARIOS.append(S("trained-hp-wc", after_train, dict(mode="wc", hp=True, route="bytes"), bounds="N=3, 2 classes"))
