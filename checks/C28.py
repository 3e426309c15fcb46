"""C28: computation uses the requested precision."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, corr, hidden, residual, anybatch, const

SPELL = {"single": np.float32, "32": np.float32, "np.float32": np.float32,
         "double": np.float64, "64": np.float64, "np.float64": np.float64, None: np.float64, "half": np.float64, "quad": np.float64, "": np.float64}
XD = {"f64": np.float64, "f32": np.float32, "i64": np.int64, "i32": np.int32}


def spelled(p):
    return {} if p is None else dict(precision=getattr(np, p[3:]) if p.startswith("np.") else p)


def isdt(w, a, dt, what):
    w.check(w.dtype(a) == np.dtype(dt), what + " has the requested precision", "%s instead of %s" % (w.dtype(a), np.dtype(dt)))


def stored(w, e, dt):
    ns = e.nnet.get_neurons()
    for n in ns:
        isdt(w, n[2], dt, "neuron weights")
        isdt(w, n[3], dt, "neuron biases")


def data(w, name, shape, dt, src="array"):
    X = w.mat(name, shape, dtype=XD[dt], integer=dt[0] == "i")
    return X, w.put_h5(name + ".h5", X) if src == "h5" else X


def model(w, hp, p, kind, d=2, c=2, cls="", given=True, norm=None, ndt=np.float64):
    e = (w.HPELM if hp else w.ELM)(d, c, cls, norm=norm, accelerator=acc(kind), **spelled(p))
    if given:
        ns = neurons(w, e, [("tanh", 1), ("lin", 1)], d, dtype=ndt)
        neurons(w, e, [("tanh", 1)], d, pre="more", dtype=ndt)
    else:
        e.add_neurons(1, "tanh")
        e.add_neurons(1, "lin")
        e.add_neurons(1, "tanh")
    return e


def ways(w, p, hp=False, kind="python", wide=False):
    """every way to ask, every entry point"""
    dt = SPELL[p]
    e = model(w, hp, p, kind, given=w.bool("given"), ndt=XD[w.choice("ndt", ["f64", "f32"])])
    w.check(e.nnet.norm == 50 * np.finfo(dt).eps, "default norm is 50 machine epsilons", repr(e.nnet.norm))
    stored(w, e, dt)
    L = sum(n[0] for n in e.nnet.get_neurons())
    src = w.choice("src", ["array", "h5"]) if hp else "array"
    xd = w.choice("xdt", ["f64", "f32", "i64", "i32"] if wide else ["f64", "f32"])
    td = w.choice("tdt", ["f64", "f32", "i64"]) if wide else "f64"
    call = w.choice("call", (["add_data", "train", "wc", "set_corr", "set_B"] + (["files", "solve_corr", "train_async"] if hp else [])))
    if src == "array" and call == "train_async":
        call = "train"
    X, fX = data(w, "X", (2, 2), xd, src)
    if call == "wc":
        T = w.onehot("T", 2, 2, dtype=XD[td])[0]
        fT = w.put_h5("T.h5", T) if src == "h5" else T
    else:
        T, fT = data(w, "T", (2, 2), td, src)
    e.batch = w.choice("batch", [1, 2])
    if call == "add_data":
        e.add_data(fX, fT)
    elif call == "files":
        e.add_data(fX, fT, fHH=w.path("HH.h5"), fHT=w.path("HT.h5"))
        isdt(w, w.get_h5(w.path("HH.h5")), dt, "HH file")
        isdt(w, w.get_h5(w.path("HT.h5")), dt, "HT file")
    elif call in ("train", "wc", "train_async"):
        a = ["wc"] if call == "wc" else []
        kw = dict(w=[1, 2]) if a and w.bool("w") else {}
        getattr(e, "train_async" if call == "train_async" else "train")(fX, fT, *a, **kw)
    elif call == "set_corr":
        e.nnet.set_corr(np.eye(L) * 2, np.ones((L, 2)))
        if w.bool("more"):
            e.add_data(fX, fT)
        e.nnet.solve()
    elif call == "set_B":
        e.nnet.set_B(w.mat("B", (L, 2), dtype=XD[w.choice("bdt", ["f64", "f32"])]))
    elif call == "solve_corr":
        e.solve_corr(w.put_h5("HH.h5", np.eye(L) * 2), w.put_h5("HT.h5", np.ones((L, 2))))
    if call not in ("set_B", "solve_corr"):
        HH, HT = e.nnet.get_corr()
        isdt(w, HH, dt, "HH")
        isdt(w, HT, dt, "HT")
    if call in ("train", "wc", "train_async", "set_corr", "set_B", "solve_corr"):
        isdt(w, e.nnet.get_B(), dt, "B")
        if hp:
            e.predict(fX, w.path("y.h5"))
            isdt(w, w.get_h5(w.path("y.h5")), dt, "predicted file")
            isdt(w, e.predict(fX), dt, "predicted matrix")
            if src == "h5":
                e.predict_async(fX, w.path("z.h5"))
                isdt(w, w.get_h5(w.path("z.h5")), dt, "asynchronously predicted file")
    if hp:
        e.project(fX, w.path("h.h5"))
        isdt(w, w.get_h5(w.path("h.h5")), dt, "projected file")
        isdt(w, e.project(fX), dt, "projected matrix")
    stored(w, e, dt)


def random(w, p, hp=False, kind="python"):
    """neurons of every type with weights from the random generator, or partly given"""
    e = (w.HPELM if hp else w.ELM)(2, 1, accelerator=acc(kind), **spelled(p))
    for i, f in enumerate(("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf", np.sin)):
        W = w.mat("W%d" % i, (2, 1), dtype=np.float32) if w.choice("given", [0, 1]) else None
        e.add_neurons(1, f, W)
        e.add_neurons(1, f, None, w.mat("B%d" % i, (1,)))
    stored(w, e, SPELL[p])


def selection(w, p, kind="python", mode="LOO"):
    """after model structure selection"""
    dt = SPELL[p]
    e = w.ELM(1, 1, norm=0.5, accelerator=acc(kind), **spelled(p))
    e.add_neurons(2, "tanh", const(5, 1, 2), const(6, 2))
    e.add_neurons(1, "lin", const(7, 1, 1), const(8, 1))
    a = mode.split("-")
    N = 4 if "CV" in a else 3
    X, T = const(1, N, 1), const(2, N, 1)
    kw = dict(k=3) if "CV" in a else dict(Xv=const(3, 2, 1), Tv=const(4, 2, 1)) if "V" in a else {}
    e.train(X.astype(XD[w.choice("xdt", ["f64", "f32"])]), T, *a, **kw)
    stored(w, e, dt)
    isdt(w, e.nnet.get_B(), dt, "B")


def loaded(w, p, q, hp=False, kind="python", kind2="python", via="file", trained=True):
    """a model saved in precision p, loaded in precision q"""
    dt = SPELL[q]
    e = model(w, hp, p, kind)
    if trained:
        e.nnet.set_B(w.mat("B", (3, 2)))
    g = (w.HPELM if hp else w.ELM)(2, 2, accelerator=acc(kind2), **spelled(q))
    if via == "file":
        e.save(w.path("model.pkl"))
        g.load(w.path("model.pkl"))
    else:
        g.loads(e.dumps())
    stored(w, g, dt)
    if trained:
        isdt(w, g.nnet.get_B(), dt, "loaded B")
    X, T = w.mat("X", (2, 2)), w.mat("T", (2, 2))
    if w.bool("more"):
        g.add_neurons(1, "tanh", w.mat("W2", (2, 1)), w.mat("B2", (1,)))
        stored(w, g, dt)
    g.add_data(X, T)
    HH, HT = g.nnet.get_corr()
    isdt(w, HH, dt, "HH of the loaded model")
    isdt(w, HT, dt, "HT of the loaded model")
    g.nnet.solve()
    isdt(w, g.nnet.get_B(), dt, "B of the loaded model")
    if hp:
        g.predict(X, w.path("y.h5"))
        isdt(w, w.get_h5(w.path("y.h5")), dt, "predicted file")


def pruned(w, p, kind="python"):
    dt = SPELL[p]
    e = model(w, False, p, kind)
    e.nnet._prune(w.choice("idx", [[0], [1], [0, 2], [0, 1, 2]]))
    stored(w, e, dt)
    e.add_data(w.mat("X", (2, 2)), w.mat("T", (2, 2)))
    HH, HT = e.nnet.get_corr()
    isdt(w, HH, dt, "HH")
    e.nnet.solve()
    isdt(w, e.nnet.get_B(), dt, "B")


def exact(w, hp=False, kind="python", p=None, call="corr"):
    """nothing is rounded to 32 bits on the way in double precision"""
    n = 2
    e = (w.HPELM if hp else w.ELM)(2, 1, norm=w.real("norm", 0.05, 4), accelerator=acc(kind), **spelled(p))
    ns = neurons(w, e, [("lin", 1), ("sigm", 1)], 2)
    X, T = w.mat("X", (n, 2)), w.mat("T", (n, 1))
    fX, fT = (w.put_h5("x.h5", X), w.put_h5("t.h5", T)) if hp else (X, T)
    got = e.nnet.get_neurons()
    for g, m in zip(got, ns):
        w.eq(g[2], m[1], "weights are not rounded", 1e-11)
        w.eq(g[3], m[2], "biases are not rounded", 1e-11)
    e.batch = anybatch(w, n)
    RH, RT = corr(w, ns, X, T, e.nnet.norm)
    if call == "corr":
        wt = None
        e.add_data(fX, fT)
    elif call == "set":
        e.nnet.set_corr(RH, RT)
    elif call == "files":
        e.add_data(fX, fT, fHH=w.path("HH.h5"), fHT=w.path("HT.h5"))
        w.eq(w.get_h5(w.path("HH.h5")), RH, "HH file is not rounded", 1e-11)
        w.eq(w.get_h5(w.path("HT.h5")), RT, "HT file is not rounded", 1e-11)
    if call != "B":
        HH, HT = e.nnet.get_corr()
        w.eq(HH, RH, "HH is not rounded", 1e-11)
        w.eq(HT, RT, "HT is not rounded", 1e-11)
    else:
        B = w.mat("B", (2, 1))
        e.nnet.set_B(B)
        w.eq(e.nnet.get_B(), B, "B is not rounded", 1e-11)
        Y, H = np.dot(hidden(ns, X), B), hidden(ns, X)
        if hp:
            e.predict(fX, w.path("y.h5"))
            e.project(fX, w.path("h.h5"))
            gY, gH = w.get_h5(w.path("y.h5")), w.get_h5(w.path("h.h5"))
        else:
            gY, gH = e.predict(fX), e.project(fX)
        w.eq(gY, Y, "predictions are not rounded", 1e-11)
        w.eq(gH, H, "projections are not rounded", 1e-11)


SCENARIOS = []
for p in SPELL:
    for hp in (0, 1):
        for kind in ("python", "basic"):
            SCENARIOS.append(S("%s-%s-%s" % (p or ("default" if p is None else "empty"), "hp" if hp else "elm", kind), ways, dict(p=p, hp=bool(hp), kind=kind), tparams=dict(wide=True), bounds="every entry point, 2 samples, 64- and 32-bit (and integer) data"))
for p in ("single", "double"):
    for kind in ("python", "basic"):
        SCENARIOS.append(S("random-%s-%s" % (p, kind), random, dict(p=p, kind=kind, hp=kind == "basic"), bounds="every type of neurons"))
        SCENARIOS.append(S("prune-%s-%s" % (p, kind), pruned, dict(p=p, kind=kind)))
        for mode in ("LOO", "V", "CV", "OP-LOO", "OP-V"):
            SCENARIOS.append(S("%s-%s-%s" % (mode, p, kind), selection, dict(p=p, kind=kind, mode=mode), bounds="constant data, every outcome of the random generator"))
    for q in ("32", "np.float64", None):
        for hp in (0, 1):
            for via in ("file", "bytes"):
                SCENARIOS.append(S("load-%s-%s-%s-%s" % (p, q or "default", "hp" if hp else "elm", via), loaded, dict(p=p, q=q, hp=bool(hp), via=via)))
        SCENARIOS.append(S("load-%s-%s-basic" % (p, q or "default"), loaded, dict(p=p, q=q, kind2="basic")))
        SCENARIOS.append(S("load-%s-%s-untrained" % (p, q or "default"), loaded, dict(p=p, q=q, trained=False)))
R = dict(round32=1)
for hp in (0, 1):
    for call in ("corr", "set", "B") + (("files",) if hp else ()):
        for kind in ("python", "basic"):
            SCENARIOS.append(S("exact-%s-%s-%s" % (call, "hp" if hp else "elm", kind), exact, dict(hp=bool(hp), kind=kind, call=call), R, bounds="2 samples, 2 neurons, any batch"))
