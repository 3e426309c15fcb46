"""C30: model objects are independent of each other."""
import numpy as np
from symx.spec import S
from checks.common import acc, hidden, neurons, corr, residual, on_gpu, on_gpu_fn
from checks.C11 import Free, hot

OPS = ["create", "add-same", "add-other", "train", "train-c", "train-wc", "train-v", "data", "prune", "loads", "set_B", "set_corr", "reset", "predict", "error", "batch", "func", "corr-of-a", "weights-of-a", "neurons-of-a"]
GP = ["create", "add-same", "add-other", "train", "data", "prune", "loads", "set_B", "reset", "predict", "batch"]
D, C = 1, 2
NS = [("tanh", 1), ("lin", 1)]


def make(world, hp, kind, norm, **kw):
    return (world.HPELM if hp else world.ELM)(D, C, norm=norm, accelerator=acc(kind), **kw)


def other(w, b, op, i, share, a, kind, hp):
    """something done with another model; share: neurons and data of the first one"""
    t = "o%d" % i
    X, T = (share["X"], share["T"]) if share else (w.mat("X" + t, (2, D)), w.mat("T" + t, (2, C)))
    if b.classification == "wc":
        T = hot([0, 1], C) * 1.0
    L = sum(n[0] for n in b.nnet.get_neurons())
    if op == "create":
        n = make(w, hp, kind, w.real("norm" + t, 0.05, 4), classification="wc", w=[2.0, 3.0], batch=1, precision="single")
        n.add_neurons(1, "sigm", *((share["W"], share["b"]) if share else (w.mat("W" + t, (D, 1)), w.mat("b" + t, (1,)))))
    elif op in ("add-same", "add-other"):
        b.add_neurons(1, "tanh" if op == "add-same" else "sigm", *((share["W"], share["b"]) if share else (w.mat("W" + t, (D, 1)), w.mat("b" + t, (1,)))))
    elif op == "train":
        b.train(X, T)
    elif op == "train-c":
        b.train(X, hot([0, 1], C) * 1.0, "c")
    elif op == "train-wc":
        b.train(X, hot([0, 1], C) * 1.0, "wc", w=[2.0, 3.0])
    elif op == "train-v":
        if hp:
            b.train(X, T, "ml")
        else:       # any errors of the candidate sizes
            w.patch(b, "_error", Free(w))
            b.train(X, T, "V", Xv=X, Tv=T)
            del b._error
    elif op == "data":
        b.add_data(X, T)
    elif op == "prune":
        b.nnet._prune([L - 1])
    elif op == "loads":
        b.loads(a.dumps())
    elif op == "set_B":
        b.nnet.set_B(share["B"] if share else w.mat("B" + t, (L, C)))
    elif op == "set_corr" and share and "HH" in share and L == 2:
        b.nnet.set_corr(share["HH"], share["HT"])
        b.add_data(X, T)
        b.nnet.solve()
    elif op == "set_corr":
        M = w.mat("M" + t, (L, L))
        b.nnet.set_corr(np.dot(M, M.T), w.mat("F" + t, (L, C)))
    elif op == "reset":
        b.nnet.reset()
    elif op == "predict":
        b.nnet.set_B(w.mat("B" + t, (L, C)))
        b.predict(X)
    elif op == "error":
        b.error(hot([0, 1], C) * 1.0, w.mat("Y" + t, (2, C)))
        if b.classification:
            b.confusion(hot([0, 1], C) * 1.0, w.mat("Z" + t, (2, C)))
    elif op == "batch":
        b.batch = 1
        b.nnet.norm = 7.0
    elif op == "corr-of-a" and L == 2 and i:
        b.nnet.set_corr(*a.nnet.get_corr())
        b.add_data(X, T)
        b.nnet.solve()
    elif op == "weights-of-a" and L == 2 and i == 3:
        b.nnet.set_B(a.nnet.get_B())
        b.train(X, T)
    elif op == "neurons-of-a":
        for k, f, W, B in a.nnet.get_neurons():
            b.add_neurons(k, f, W, B)
        b.train(X, T)
    elif op == "func":       # a custom function
        b.add_neurons(1, np.sin, w.mat("W" + t, (D, 1)), w.mat("b" + t, (1,)))


def twins(w, hp=False, kind="python", shared=False, copy=False, cls="", points=(0, 1, 2, 3), ops=OPS, hp2=None, kind2=None, two=False, given=False):
    """model a, with model b used at any point in between"""
    norm = w.real("norm", 0.05, 4)
    wc = [1.0, 4.0] if cls == "wc" else None
    kw = dict(w=wc) if wc else {}
    hp2, kind2 = hp if hp2 is None else hp2, kind if kind2 is None else kind2
    first = w.bool("other_first")
    norm2 = w.real("norm2", 0.05, 4)
    b = make(w, hp2, kind2, norm2) if first else None
    a = make(w, hp, kind, norm, classification=cls, **kw)
    if b is None:
        b = make(w, hp2, kind2, norm2)
    at = {w.choice("point", list(points)): w.choice("op", list(ops))}
    if two:
        p = w.choice("point2", [q for q in points if q >= min(at)])
        at.setdefault(p, w.choice("op2", list(ops)))
    ns, share = [], None
    X1, X2 = w.mat("X1", (2, D)), w.mat("X2", (1, D))
    T1, T2 = (hot([0, 1], C) * 1.0, hot([1], C) * 1.0) if cls in ("c", "wc") else (w.mat("T1", (2, C)), w.mat("T2", (1, C)))
    W, bb = w.mat("sW", (D, 1)), w.mat("sb", (1,))
    if shared:
        share = dict(X=X1, T=T1, W=W, b=bb, B=w.mat("sB", (2, C)))
        a.add_neurons(1, "tanh", W, bb)
        b.add_neurons(1, "tanh", W, bb)
        V, v = w.mat("sV", (D, 1)), w.mat("sv", (1,))
        a.add_neurons(1, "lin", V, v)
        b.add_neurons(1, "lin", V, v)
        ns = [("tanh", W, bb), ("lin", V, v)]
    else:
        ns = neurons(w, a, NS, D)
        neurons(w, b, [("sigm", 1), ("tanh", 1)], D, pre="other")
    if copy:
        b.loads(a.dumps())
    H0, F0 = None, None
    if given:
        M = w.mat("sM", (2, 2))
        H0, F0 = np.dot(M, M.T), w.mat("sF", (2, C))
        if shared:
            share.update(HH=H0, HT=F0)
        K0, G0 = w.snap(H0), w.snap(F0)
        a.nnet.set_corr(H0, F0)

    def between(i):
        if i in at:
            other(w, b, at[i], i, share if at[i] != "set_B" or not (two or copy) else None, a, kind2, hp2)
    between(0)
    a.add_data(X1, T1)
    between(1)
    a.add_data(X2, T2)
    between(2)
    X, T = np.vstack((X1, X2)), np.vstack((T1, T2))
    if cls != "wc":
        RH, RT = corr(w, ns, X, T, norm)
    else:
        RH, RT = corr(w, ns, X, T, norm, [wc[0] if t[0] else wc[1] for t in (T if cls else [])])
    if given:
        RH, RT = RH - norm * np.eye(2) + K0, RT + G0
    HH, HT = a.nnet.get_corr()
    w.eq(HH, RH, "accumulated HH of this model's data only")
    w.eq(HT, RT, "accumulated HT of this model's data only")
    a.nnet.solve()
    between(3)
    got = a.nnet.get_neurons()
    w.check([(q[0], q[1]) for q in got] == [(1, "tanh"), (1, "lin")], "neurons of this model only")
    for q, (f, V, v) in zip(got, ns):
        w.eq(q[2], V, "own weights")
        w.eq(q[3], v, "own biases")
    Xt = w.mat("Xt", (2, D))
    w.eq(a.project(Xt), hidden(ns, Xt), "own projection")
    w.check(a.nnet.get_B() is not None, "stays trained")
    residual(w, RH, a.nnet.get_B(), RT, "own output weights")
    w.eq(a.predict(Xt), np.dot(hidden(ns, Xt), a.nnet.get_B()), "own predictions")
    w.check((a.classification or "") == cls, "own classification mode")
    w.check(a.precision == np.float64 and a.nnet.inputs == D and a.nnet.outputs == C, "own options")
    w.eq(a.nnet.norm, norm, "own norm")
    Y = w.mat("Y", (2, C))
    if not cls:
        w.eq(a.error(hot([0, 1], C) * 1.0, Y), np.mean((Y - hot([0, 1], C)) ** 2), "own error measure")


SCENARIOS = []
for kind in ("python", "basic"):
    for hp in (False, True):
        nm = ("hp-" if hp else "elm-") + kind
        SCENARIOS += [
            S("twins-" + nm, twins, dict(hp=hp, kind=kind), bounds="two models, one operation on the other one at any point"),
            S("shared-" + nm, twins, dict(hp=hp, kind=kind, shared=True), bounds="both models get the same arrays"),
            S("given-" + nm, twins, dict(hp=hp, kind=kind, shared=True, given=True), bounds="both models get the same arrays, also precomputed matrices"),
            S("copy-" + nm, twins, dict(hp=hp, kind=kind, copy=True), bounds="the other model was loaded from this one's dump"),
        ]
for cls in ("c", "wc", "ml"):
    for hp in (False, True):
        nm = cls + ("-hp" if hp else "-elm")
        SCENARIOS.append(S("twins-" + nm, twins, dict(cls=cls, hp=hp), bounds="classification"))
SCENARIOS += [
    S("mixed-elm-hp", twins, dict(hp2=True), bounds="the other model is a HPELM"),
    S("mixed-hp-elm", twins, dict(hp=True, hp2=False, kind2="basic"), bounds="the other model is an ELM with the basic solver"),
    S("twins-two", twins, dict(two=True, ops=["add-same", "train-c", "prune", "loads", "set_B", "reset"]), bounds="two operations on the other model"),
    S("gpu-twins", on_gpu_fn, dict(mod="C30", fn="twins", ops=GP), bounds="two models of the GPU solver"),
    S("gpu-copy", on_gpu_fn, dict(mod="C30", fn="twins", copy=True, ops=GP), bounds="two models of the GPU solver, one loaded from the other"),
    S("gpu-hp", on_gpu_fn, dict(mod="C30", fn="twins", hp=True, shared=True, given=True, ops=GP + ["set_corr"]), bounds="two HPELM models of the GPU solver, shared arrays"),
    S("twins-two-more", twins, dict(two=True), opts=dict(max_paths=40000), tier="thorough", bounds="any two operations on the other model"),
    S("copy-two-more", twins, dict(two=True, copy=True), opts=dict(max_paths=40000), tier="thorough", bounds="any two operations on a loaded copy"),
    S("shared-two-more", twins, dict(two=True, shared=True, hp=True), opts=dict(max_paths=40000), tier="thorough", bounds="any two operations on a HPELM sharing arrays"),
]
