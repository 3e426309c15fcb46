"""C22: training does not depend on what the object did before."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, corr, residual, order, on_gpu, on_gpu_fn
from checks.C11 import Free, hot

NS = [("tanh", 1), ("lin", 1)]


def data(w, tag, n, c, lab=False, src="array"):
    X = w.mat("X" + tag, (n, 1))
    T = hot([i % c for i in range(n)], c) * 1.0 if lab else w.mat("T" + tag, (n, c))
    return X, T


def put(w, name, a, file):
    return w.put_h5(name + ".h5", a) if file else a


HIST = ["nothing", "train", "train-c", "train-ml", "train-wc", "train-wcw", "add", "add-twice", "corr", "set_B", "reset", "error", "predict", "batch", "op", "fail-wc", "fail-options", "fail-data", "loo", "save"]


def earlier(w, e, h, c, hp, file, tag=""):
    """something done with the model earlier, not adding or removing neurons"""
    lab = h in ("train-wc", "train-wcw", "fail-wc", "train-c") or e.classification == "wc"
    X, T = data(w, "h" + tag, 3, c, lab)
    fX, fT = put(w, "hx" + tag, X, file), put(w, "ht" + tag, T, file)
    if h == "train":
        e.train(fX, fT)
    elif h in ("train-c", "train-ml", "train-wc"):
        e.train(fX, fT, h[6:])
    elif h == "train-wcw":
        e.train(fX, fT, "wc", w=w.mat("wh" + tag, (c,), lo=0.1, hi=4))
    elif h == "add":
        e.add_data(fX, fT)
    elif h == "add-twice":
        e.add_data(fX, fT)
        e.add_data(fX, fT)
    elif h == "corr":
        M = w.mat("Mh" + tag, (2, 2))
        e.nnet.set_corr(np.dot(M, M.T), w.mat("Fh" + tag, (2, c)))
    elif h == "set_B":
        e.nnet.set_B(w.mat("Bh" + tag, (2, c)))
    elif h == "reset":
        e.add_data(fX, fT)
        e.nnet.reset()
    elif h == "error":
        e.error(T, w.mat("Yh" + tag, (3, c)))
    elif h == "predict":
        e.nnet.set_B(w.mat("Bh" + tag, (2, c)))
        e.predict(fX)
    elif h == "batch":
        e.train(fX, fT, batch=2)
    elif h == "op":       # ranking options
        w.attempt(lambda: e.train(fX, fT, "op", kmax=1))
    elif h == "fail-wc":
        w.raises(lambda: e.train(fX, fT, "wc", w=[1.0] * (c + 1)), "wrong weights")
    elif h == "fail-options":
        w.raises(lambda: e.train(fX, fT, "op", "c", "wc", w=[2.0] * c, kmax=1), "contradicting options")
    elif h == "fail-data":
        w.raises(lambda: e.train(X, np.zeros((2, c)), "wc", w=[2.0] * c), "malformed data")
    elif h == "loo" and not hp:
        w.patch(e, "_error", Free(w))
        e.train(X, T, "LOO")
        del e._error
    elif h == "save":
        e.loads(e.dumps())


def weights(w, cls, lab, c, kw):
    if cls != "wc":
        return None
    if "w" in kw:
        return np.array([kw["w"][q] for q in lab])
    n = len(lab)
    return np.array([float(n) / lab.count(q) for q in lab])


def again(w, hp=False, kind="python", cls=None, given=False, file=False, c=2, n=3, hist=HIST, twice=False, init="", call="train", prec="double"):
    """train() after anything: the system of this call alone"""
    norm = w.real("norm", 0.05, 4)
    kw0 = dict(w=[3.0] * c) if init == "wcw" else {}
    e = (w.HPELM if hp else w.ELM)(1, c, init[:2], norm=norm, accelerator=acc(kind), **kw0)
    ns = neurons(w, e, NS, 1)
    h = w.choice("history", list(hist))
    if call == "train_async" and h == "op":
        return
    earlier(w, e, h, c, hp, file)
    if twice:
        earlier(w, e, w.choice("history2", list(hist)), c, hp, file, "2")
    if len(e.nnet.get_neurons()[0][2][0]) + sum(q[0] for q in e.nnet.get_neurons()[1:]) != 2:
        ns = [(f, W, B) for _, f, W, B in e.nnet.get_neurons() if W.shape[1]]      # a selected model
    lab = [i % c for i in range(n)]
    X, T = w.mat("X", (n, 1)), (hot(lab, c) * 1.0 if cls in ("c", "wc") else w.mat("T", (n, c)))
    kw = dict(w=w.mat("w", (c,), lo=0.1, hi=4)) if given else {}
    wt = weights(w, cls, lab, c, kw)
    if w.bool("setbatch"):
        kw["batch"] = w.int("batch", 1)
    a = [cls] if cls else []
    if cls and w.bool("upper"):
        a = [cls.upper()]
    if not cls and w.bool("r"):
        a = [w.choice("R", ["r", "R"])]
    getattr(e, call)(put(w, "x", X, file), put(w, "t", T, file), *a, **kw)
    RH, RT = corr(w, ns, X, T, norm, wt)
    HH, HT = e.nnet.get_corr()
    w.eq(HH, RH, "HH of this call's data only")
    w.eq(HT, RT, "HT of this call's data only")
    residual(w, RH, e.nnet.get_B(), RT, "output weights of this call's data and options only")
    # options of this call decide how errors are counted
    Y = w.mat("Y", (2, c))
    T2 = hot([0, 1], c) * 1.0
    if cls is None:
        w.eq(e.error(T2, Y), np.mean((Y - T2) ** 2), "regression error")
    w.check((e.classification or "") == (cls or "").lower().replace("mc", "ml"), "classification mode of this call")


def selection(w, mode="V", cls=None, c=1, k=3, op=False, hist=("nothing", "train", "add", "corr", "train-wcw", "op", "loo")):
    """model selection after anything = model selection of a fresh object with the same neurons, data, ranking and errors"""
    norm = 1.0
    spec = (("lin", 1), ("tanh", 1)) if mode != "CV" else (("lin", 2), ("tanh", 2))
    L = sum(q for f, q in spec)
    N = 4 if mode != "CV" else 5
    Ws = [w.mat("W%d" % i, (1, q)) for i, (f, q) in enumerate(spec)]
    Bs = [w.mat("B%d" % i, (q,)) for i, (f, q) in enumerate(spec)]
    lab = [i % c for i in range(N)]
    X, T = w.mat("X", (N, 1)), hot(lab, c) * 1.0 if cls else w.mat("T", (N, c))
    kw = dict(k=k) if mode == "CV" else dict(Xv=w.mat("Xv", (2, 1)), Tv=hot([0, 1], c) * 1.0 if cls else w.mat("Tv", (2, c))) if mode == "V" else {}
    a = [mode, "OP"] + ([cls] if cls else [])
    err = Free(w)
    R = [order(3 + i, L) for i in range(k)]
    out = []
    h = w.choice("history", list(hist))
    up = "lower" if mode == "CV" else w.choice("case", ["upper", "lower"])
    for which in ("fresh", "used"):
        e = w.ELM(1, c, norm=norm)
        for (f, q), W, B in zip(spec, Ws, Bs):
            e.add_neurons(q, f, W, B)
        ranks = []

        def fake(H, Tr, n):
            ranks.append(n)
            return np.array(R[(len(ranks) - 1) % k][:n])
        if which == "used":
            if h == "op":
                w.patch(w.load("hpelm.elm"), "mrsr", lambda H, Tr, n: np.array(order(1, L)[:n]))
                w.patch(e, "_error", lambda *a, **b: 0.5)
                w.attempt(lambda: e.train(X, T, "CV", "OP", k=3, kmax=1))
                del e._error
            elif h == "loo":
                w.patch(e, "_error", lambda *a, **b: 0.5)
                w.attempt(lambda: e.train(X, T, "LOO"))
                del e._error
            else:
                hist_small(w, e, h, c, L)
            if h in ("op", "loo"):       # put the neurons back
                e2 = e
                e2.nnet.neurons = []
                for (f, q), W, B in zip(spec, Ws, Bs):
                    e2.add_neurons(q, f, W, B)
        w.patch(w.load("hpelm.elm"), "mrsr", fake)
        w.patch(e, "_error", err)
        r = e.train(X, T, *([x.lower() for x in a] if which == "used" and up == "lower" else a), **kw)
        out.append((r, e.nnet.L, e.nnet.get_B(), [(f, W, B) for _, f, W, B in e.nnet.get_neurons()], list(ranks)))
    f, u = out
    w.check(f[4] == u[4], "same number of ranked neurons")
    if w.check(f[1] == u[1] and len(f[3]) == len(u[3]), "same size selected", "%s instead of %s" % (u[1], f[1])):
        for p, q in zip(f[3], u[3]):
            w.eq(q[1], p[1], "same neurons selected")
        w.eq(u[2], f[2], "same output weights")
    if mode == "CV":
        w.eq(u[0], f[0], "same test error")


def hist_small(w, e, h, c, L):
    X, T = w.mat("Xh", (3, 1)), hot([0, 1, 0], c) * 1.0 if h == "train-wcw" and c > 1 else w.mat("Th", (3, c))
    if h == "train":
        e.train(X, T)
    elif h == "add":
        e.add_data(X, T)
    elif h == "corr":
        M = w.mat("Mh", (L, L))
        e.nnet.set_corr(np.dot(M, M.T), w.mat("Fh", (L, c)))
    elif h == "train-wcw" and c > 1:
        e.train(X, T, "wc", w=[2.0] * c)


def case(w, cls="wc", hp=False, c=2):
    """classification options in any letter case"""
    e = (w.HPELM if hp else w.ELM)(1, c, norm=1)
    ns = neurons(w, e, NS, 1)
    name = w.choice("name", {"c": ["c", "C"], "wc": ["wc", "WC", "Wc", "wC"], "ml": ["ml", "ML", "mc", "MC", "Mc", "mL"], "": ["r", "R"]}[cls])
    lab = [0, 1, 1]
    X, T = w.mat("X", (3, 1)), hot(lab, c) * 1.0
    wt = weights(w, cls, lab, c, {})
    e.train(X, T, name)
    RH, RT = corr(w, ns, X, T, 1, wt)
    residual(w, RH, e.nnet.get_B(), RT, "option recognised: output weights")
    Y = w.mat("Y", (2, c))
    T2 = hot([0, 1], c) * 1.0
    wrong = [w.ite(Y[i, 1 - i] > Y[i, i] if i else Y[i, 1 - i] > Y[i, i], 1, 0) for i in range(2)]
    for i in range(2):
        w.assume(w.any_of(Y[i, 0] - Y[i, 1] > 0.01, Y[i, 1] - Y[i, 0] > 0.01))
        for j in range(2):
            w.assume(w.any_of(Y[i, j] > 0.51, Y[i, j] < 0.49))
    if cls == "c":
        ref = (wrong[0] + wrong[1]) / 2.0
    elif cls == "wc":
        a, b = 3.0, 1.5
        ref = (wrong[0] * a + wrong[1] * b) / (a + b)
    elif cls == "ml":
        ref = 0
        for i in range(2):
            for j in range(2):
                ref = ref + (w.ite(Y[i, j] > 0.5, 0 if i == j else 1, 1 if i == j else 0))
        ref = ref / 4.0
    else:
        ref = np.mean((Y - T2) ** 2)
    w.eq(e.error(T2, Y), ref, "option recognised: error")


SCENARIOS = []
for kind in ("python", "basic"):
    for nm, kw in (("r", {}), ("c", dict(cls="c")), ("ml", dict(cls="ml")), ("wc", dict(cls="wc")), ("wcw", dict(cls="wc", given=True))):
        SCENARIOS.append(S("again-%s-%s" % (nm, kind), again, dict(dict(kind=kind), **kw), bounds="one of 20 histories, 3 samples, any norm and batch"))
        SCENARIOS.append(S("hp-%s-%s" % (nm, kind), again, dict(dict(kind=kind, hp=True, file=True), **kw), bounds="HPELM on files, one of 20 histories, 3 samples, any norm and batch"))
for nm, kw in (("r", {}), ("c", dict(cls="c")), ("ml", dict(cls="ml")), ("wc", dict(cls="wc")), ("wcw", dict(cls="wc", given=True))):
    SCENARIOS.append(S("async-" + nm, again, dict(dict(hp=True, file=True, call="train_async"), **kw), bounds="HPELM.train_async, one of 20 histories"))
    for init in ("c", "wc", "wcw", "ml"):
        SCENARIOS.append(S("init-%s-%s" % (init, nm), again, dict(dict(init=init, hist=["nothing", "train-wcw", "add"] if init == "c" or init == "wcw" else ["nothing", "train-ml"]), **kw), bounds="classification mode given at construction"))
    SCENARIOS.append(S("two-" + nm, again, dict(dict(twice=True, hist=["train-c", "train-wcw", "add", "op", "fail-options", "batch"]), **kw), bounds="two earlier actions", tier="quick" if nm in ("r", "wc") else "thorough"))
for mode in ("V", "LOO", "CV"):
    SCENARIOS.append(S("select-" + mode, selection, dict(dict(mode=mode), **(dict(hist=("add", "op", "loo")) if mode == "CV" else {})), dict(cofactor=0), bounds="2 neurons (CV: 4), any errors, upper and lower case (CV: lower)"))
    SCENARIOS.append(S("select-c-" + mode, selection, dict(dict(mode=mode, cls="c", c=2), **(dict(hist=("train-wcw", "corr")) if mode == "CV" else {})), dict(cofactor=0), bounds="2 neurons (CV: 4), any errors"))
    SCENARIOS.append(S("select-wc-" + mode, selection, dict(mode=mode, cls="wc", c=2, hist=("nothing", "train-wcw", "op")), dict(cofactor=0), bounds="2 neurons (CV: 4), any errors"))
for hp in (False, True):
    for cls in ("c", "wc", "ml", ""):
        SCENARIOS.append(S("case-%s%s" % (cls or "r", "-hp" if hp else ""), case, dict(cls=cls, hp=hp), bounds="every spelling"))
SCENARIOS += on_gpu("C22", SCENARIOS, ["again-r-python", "again-wcw-python", "hp-r-python", "select-c-LOO"])
