"""C31: queries change nothing."""
import numpy as np
from symx.spec import S
from checks.common import acc, hidden, neurons, corr, residual
from checks.C11 import hot
from checks.C30 import make, D, C, NS


def queries(w, hp=False, kind="python", cls="", trained=True, file=False, two=False):
    """asking changes nothing"""
    norm = 1.0
    kw = dict(w=[1.0, 4.0]) if cls == "wc" else {}
    e = make(w, hp, kind, norm, classification=cls, **kw)
    ns = neurons(w, e, NS, D)
    X1, X2 = w.mat("X1", (2, D)), w.mat("X2", (1, D))
    T1, T2 = (hot([0, 1], C) * 1.0, hot([1], C) * 1.0) if cls in ("c", "wc") else (w.mat("T1", (2, C)), w.mat("T2", (1, C)))
    e.add_data(X1, T1)
    if trained:
        e.nnet.solve()
    Xt, Y, Tt = w.mat("Xt", (2, D)), w.mat("Y", (2, C)), hot([0, 1], C) * 1.0
    put = (lambda n, v: w.put_h5(n + ".h5", v)) if file else (lambda n, v: v)
    fX, fY, fT = put("Xt", Xt), put("Y", Y), put("Tt", Tt)
    P1 = e.predict(fX) if trained else None
    ask = {
        "project": lambda i: e.project(fX), "error": lambda i: e.error(fT, fY), "confusion": lambda i: e.confusion(fT, fY) if cls else None,
        "str": lambda i: str(e), "get_neurons": lambda i: e.nnet.get_neurons(), "get_corr": lambda i: e.nnet.get_corr(), "get_B": lambda i: e.nnet.get_B(),
        "save": lambda i: e.save(w.path("m%d.pkl" % i)), "dumps": lambda i: e.dumps(), "fail": lambda i: w.raises(lambda: e.project(np.zeros((2, D + 3))), "malformed data")}
    if trained:
        ask["predict"] = lambda i: e.predict(fX)
    if hp:
        ask["project-file"] = lambda i: e.project(fX, w.path("H%d.h5" % i))
        if trained:
            ask["predict-file"] = lambda i: e.predict(fX, w.path("Y%d.h5" % i))
    kept = []
    for i in range(2 if two else 1):
        q = w.choice("ask%d" % i, sorted(ask))
        r1 = ask[q](2 * i)
        r2 = ask[q](2 * i + 1)
        if q in ("predict", "project", "get_corr", "get_B"):
            for r in ((r2,) if q != "get_corr" else r2):
                if r is not None:
                    kept.append((q, r, w.snap(r)))
        if q in ("predict", "project", "error", "confusion") and r1 is not None:
            w.eq(r1, r2, "asking again gives the same")
    w.check((e.classification or "") == cls, "classification mode unchanged")
    HH, HT = corr(w, ns, X1, T1, norm, None if cls != "wc" else [1.0, 4.0])
    if trained:
        w.eq(e.predict(fX), P1, "predictions unchanged")
        residual(w, HH, e.nnet.get_B(), HT, "output weights unchanged")
    w.eq(e.nnet.get_corr()[0], HH, "accumulated HH unchanged")
    w.eq(e.nnet.get_corr()[1], HT, "accumulated HT unchanged")
    e.add_data(X2, T2)
    RH, RT = corr(w, ns, np.vstack((X1, X2)), np.vstack((T1, T2)), norm, None if cls != "wc" else [1.0, 4.0, 4.0])
    w.eq(e.nnet.get_corr()[0], RH, "further training continues where it was")
    w.eq(e.nnet.get_corr()[1], RT, "further training continues where it was")
    e.nnet.solve()
    residual(w, RH, e.nnet.get_B(), RT, "further training continues where it was")
    later(w, e)
    for q, r, r0 in kept:
        w.eq(r, r0, "what %s returned earlier stays as it was" % q)


def later(w, e):
    """more work with the model"""
    op = w.choice("later", ["train", "predict", "set_B", "prune", "add"])
    X, T = w.mat("Xl", (2, D)), hot([1, 0], C) * 1.0
    if op == "train":
        e.train(X, T)
    elif op == "predict":
        e.predict(X)
        e.project(X)
    elif op == "set_B":
        e.nnet.set_B(w.mat("Bl", (2, C)))
        e.predict(X)
    elif op == "prune":
        e.nnet._prune([0])
    elif op == "add":
        e.add_neurons(1, "lin", w.mat("Wl", (D, 1)), w.mat("bl", (1,)))
        e.add_data(X, T)


SCENARIOS = []
for kind in ("python", "basic"):
    for hp in (False, True):
        nm = ("hp-" if hp else "elm-") + kind
        SCENARIOS += [
            S("queries-" + nm, queries, dict(hp=hp, kind=kind), bounds="any query, twice, between training and further training"),
            S("queries-untrained-" + nm, queries, dict(hp=hp, kind=kind, trained=False), bounds="any query, twice, between additions of data"),
        ]
for cls in ("c", "wc", "ml"):
    for hp in (False, True):
        nm = cls + ("-hp" if hp else "-elm")
        SCENARIOS.append(S("queries-" + nm, queries, dict(cls=cls, hp=hp, file=hp), bounds="classification, any query twice"))
SCENARIOS += [
    S("queries-two", queries, dict(two=True), bounds="any two queries"),
    S("queries-two-hp", queries, dict(two=True, hp=True), bounds="any two queries, HPELM"),
]
