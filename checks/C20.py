"""C20: malformed input is rejected before it changes the model."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, hidden, corr, residual, on_gpu, on_gpu_fn

NS = [("tanh", 1), ("lin", 2)]


def model(w, hp, kind, state=None, d=2, c=2, cls=""):
    """model in any state: neurons only, with collected data, solved, both"""
    e = (w.HPELM if hp else w.ELM)(d, c, cls, norm=1, accelerator=acc(kind))
    ns = neurons(w, e, NS, d)
    L = sum(k for f, k in NS)
    st = state or w.choice("state", ["fresh", "data", "solved", "both"])
    if st in ("data", "both"):
        e.nnet.set_corr(*sym_corr(w, L, c))
    B = None
    if st in ("solved", "both"):
        B = w.mat("B", (L, c))
        e.nnet.set_B(B)
    return e, ns, B


def sym_corr(w, L, c):
    M = w.mat("HH", (L, L))
    return M + M.T, w.mat("HT", (L, c))


def unchanged(w, e, ns, B, X):
    """neurons and output weights are what they were"""
    got = e.nnet.get_neurons()
    w.check(len(got) == len(ns) and all(g[0] == n[1].shape[1] and g[1] == n[0] for g, n in zip(got, ns)), "neurons are kept")
    for g, n in zip(got, ns):
        w.eq(g[2], n[1], "neuron weights are kept")
        w.eq(g[3], n[2], "biases are kept")
    b = e.nnet.get_B()
    if B is None:
        w.check(b is None, "no output weights appear")
    elif w.check(b is not None, "output weights are kept"):
        w.eq(b, B, "output weights are kept")
        H = hidden(ns, X)
        w.eq(e.nnet._predict(X), np.dot(H, B), "model predicts as before")


def text(n, m, kind="str"):
    return np.array([["a"] * m] * n, dtype=object if kind == "object" else None)


def bad_data(w, what, d, c, N=3):
    """malformed (X, T)"""
    X, T = w.mat("X", (N, d)), w.mat("T", (N, c))
    if what == "x-columns":
        X = w.mat("Xw", (N, w.choice("cols", [k for k in (1, 2, 3, 4) if k != d])))
    elif what == "x-transposed":
        X = w.mat("Xw", (d, d + 1))
    elif what == "x-1d":
        X = w.mat("Xw", (N,))
    elif what == "x-3d":
        X = w.mat("Xw", w.choice("shape", [(N, d, 1), (1, N, d), (N, 1, d)]))
    elif what == "x-text":
        X = text(N, d)
    elif what == "x-object":
        X = text(N, d, "object")
    elif what == "t-columns":
        T = w.mat("Tw", (N, w.choice("cols", [k for k in (1, 2, 3, 4) if k != c])))
    elif what == "t-1d":
        T = w.mat("Tw", (N,))
    elif what == "t-3d":
        T = w.mat("Tw", w.choice("shape", [(N, c, 1), (1, N, c), (N, 1, c)]))
    elif what == "t-text":
        T = text(N, c)
    elif what == "t-object":
        T = text(N, c, "object")
    elif what == "rows":
        T = w.mat("Tw", (w.choice("rows", [1, 2, 4, 6]), c))
    elif what == "swapped":
        X, T = w.mat("Xw", (N, c)), w.mat("Tw", (N, d))
    return X, T


BADX = ["x-columns", "x-transposed", "x-1d", "x-3d", "x-text", "x-object"]
BADT = ["t-columns", "t-1d", "t-3d", "t-text", "t-object"]
BADXT = BADX + BADT + ["rows", "swapped"]


def good(w, d=2):
    return w.mat("Xg", (2, d))


def train_data(w, hp=False, kind="python", modes=((),), file=False, d=3, c=2, bad=BADXT, call="train", cls=""):
    e, ns, B = model(w, hp, kind, d=d, c=c, cls=cls)
    what = w.choice("what", list(bad))
    X, T = bad_data(w, what, d, c)
    Xg = w.mat("Xg", (2, d))
    if file:
        X, T = w.put_h5("x.h5", X), w.put_h5("t.h5", T)
    mode = w.choice("mode", list(modes))
    if call == "train":
        kw = dict(k=3) if "CV" in mode else {}
        if "V" in mode:
            kw = dict(Xv=w.mat("Xv", (2, d)), Tv=w.mat("Tv", (2, c)))
        w.raises(lambda: e.train(X, T, *mode, **kw), "training with malformed data: " + what)
    elif call == "train_async":
        w.raises(lambda: e.train_async(X, T), "asynchronous training with malformed data: " + what)
    elif call == "add_data":
        H0, kw = e.nnet.HH is not None and [w.snap(a) for a in e.nnet.get_corr()], {}
        if hp and w.bool("files"):
            kw = dict(fHH=w.path("HH.h5"), fHT=w.path("HT.h5"))
        w.raises(lambda: e.add_data(X, T, **kw), "adding malformed data: " + what)
        if H0:
            H1 = e.nnet.get_corr() if e.nnet.HH is not None else None
            if w.check(H1 is not None, "collected data is kept"):
                w.eq(H1[0], H0[0], "collected HH is kept")
                w.eq(H1[1], H0[1], "collected HT is kept")
    elif call == "validate":
        Xt, Tt = w.mat("Xt", (3, d)), w.mat("Tt", (3, c))
        w.raises(lambda: e.train(Xt, Tt, *mode, Xv=X, Tv=T), "malformed validation data: " + what)
    unchanged(w, e, ns, B, Xg)


def use_data(w, hp=False, kind="python", file=False, call="predict", d=3, c=2):
    """predict, project, error, confusion"""
    cls = "c" if call == "confusion" else w.choice("cls", ["", "c", "ml"]) if call == "error" else ""
    e, ns, B = model(w, hp, kind, "both", d=d, c=c, cls=cls)
    Xg = w.mat("Xg", (2, d))
    put = (lambda n, a: w.put_h5(n, a)) if file else (lambda n, a: a)
    if call in ("predict", "project"):
        what = w.choice("what", BADX)
        X, T = bad_data(w, what, d, c)
        X = put("x.h5", X)
        if hp and w.bool("out"):
            w.raises(lambda: getattr(e, call)(X, w.path("out.h5")), "%s of malformed data into a file: %s" % (call, what))
            w.check(not w.exists(w.path("out.h5")), "no output file appears")
        else:
            w.raises(lambda: getattr(e, call)(X), "%s of malformed data: %s" % (call, what))
    else:
        what = w.choice("what", BADT)
        X, T = bad_data(w, what, d, c)
        Y = w.mat("Y", (3, c))
        T, Y = put("t.h5", T), put("y.h5", Y)
        a = (T, Y) if w.bool("first") else (Y, T)
        w.raises(lambda: getattr(e, call)(*a), "%s of malformed data: %s" % (call, what))
    unchanged(w, e, ns, B, Xg)


def bad_neurons(w, hp=False, kind="python", d=2):
    e, ns, B = model(w, hp, kind, d=d)
    Xg = w.mat("Xg", (2, d))
    k = 2
    f = w.choice("func", ["tanh", "lin", "rbf_l2", "np.sin"])
    from checks.common import func
    f = func(f)
    W, b = w.mat("Wn", (d, k)), w.mat("bn", (k,), positive=True)
    what = w.choice("what", ["w-rows", "w-columns", "w-1d", "w-3d", "b-long", "b-short", "b-column", "b-row", "b-2d", "type", "callable"])
    n = k
    if what == "w-rows":
        W = w.mat("Ww", (w.choice("rows", [1, 3]), k))
    elif what == "w-columns":
        W = w.mat("Ww", (d, w.choice("cols", [1, 3])))
    elif what == "w-1d":
        W = w.mat("Ww", (d * k,))
    elif what == "w-3d":
        W = w.mat("Ww", (d, k, 1))
    elif what == "b-long":
        b = w.mat("bw", (k + 1,))
    elif what == "b-short":
        b = w.mat("bw", (k - 1,))
    elif what == "b-column":
        b = w.mat("bw", (k, 1))
    elif what == "b-row":
        b = w.mat("bw", (1, k))
    elif what == "b-2d":
        b = w.mat("bw", (k, k))
    elif what == "type":
        f = w.choice("name", ["sigmoid", "RBF", "", "rbf_", "Tanh", None, 1])
    elif what == "callable":
        f = len
    w.raises(lambda: e.add_neurons(n, f, W, b), "malformed neurons: " + what)
    unchanged(w, e, ns, B, Xg)


def partial_neurons(w, kind="python", d=2):
    """only one of W, B given, and wrong"""
    e, ns, B = model(w, False, kind, d=d)
    Xg = w.mat("Xg", (2, d))
    f = w.choice("func", ["tanh", "lin", "rbf_linf"])
    what = w.choice("what", ["w", "b"])
    if what == "w":
        W = w.mat("Ww", w.choice("shape", [(d + 1, 2), (d, 3), (2,)]))
        w.raises(lambda: e.add_neurons(2, f, W), "wrong weights alone")
    else:
        b = w.mat("bw", w.choice("shape", [(3,), (2, 1), (1,)]))
        w.raises(lambda: e.add_neurons(2, f, None, b), "wrong biases alone")
    unchanged(w, e, ns, B, Xg)


def no_neurons(w, hp=False, kind="python", call="train", file=False):
    """training a model without neurons"""
    e = (w.HPELM if hp else w.ELM)(2, 1, accelerator=acc(kind))
    X, T = w.mat("X", (3, 2)), w.mat("T", (3, 1))
    if file:
        X, T = w.put_h5("x.h5", X), w.put_h5("t.h5", T)
    if call == "train":
        mode = w.choice("mode", [()] if hp else [(), ("LOO",), ("CV",), ("OP", "LOO"), ("V",)])
        kw = dict(k=3) if "CV" in mode else dict(Xv=X, Tv=T) if "V" in mode else {}
        w.raises(lambda: e.train(X, T, *mode, **kw), "training without neurons")
    elif call == "files":
        w.raises(lambda: e.add_data(X, T, fHH=w.path("HH.h5"), fHT=w.path("HT.h5")), "adding data without neurons")
        w.check(not w.exists(w.path("HH.h5")) and not w.exists(w.path("HT.h5")), "no matrix file appears")
    else:
        w.raises(lambda: getattr(e, call)(X, T), call + " without neurons")
    w.check(len(e.nnet.get_neurons()) == 0 and e.nnet.get_B() is None, "model stays empty")
    w.raises(lambda: e.predict(X), "predicting without neurons")


def options(w, hp=False, kind="python", case="exclusive", file=False, call="train"):
    """contradicting or incomplete training options"""
    c = 1 if case == "one-output" else 2
    e, ns, B = model(w, hp, kind, d=1, c=c)
    X, T = w.mat("X", (6, 1)), w.mat("T", (6, c))
    Xg = w.mat("Xg", (2, 1))
    kw = {}
    if case == "exclusive":
        a = w.choice("a", ["c", "wc", "ml", "mc", "C", "WC", "ML", "MC"])
        b = w.choice("b", ["c", "Wc", "ml", "MC"])
        if b.upper() == a.upper() or {a.upper(), b.upper()} == {"ML", "MC"}:
            return
        args = (a, b)
        kw = dict(w=[1, 2]) if w.bool("weights") else {}
    elif case == "selection":
        args = w.choice("args", [("V", "CV"), ("CV", "LOO"), ("LOO", "V"), ("v", "cv", "loo"), ("loo", "OP", "cv"), ("CV", "c", "v")])
        kw = dict(k=3, Xv=X, Tv=T)
    elif case == "missing":
        args, kw = w.choice("args", [(("V",), dict(Xv=1)), (("V",), dict(Tv=1)), (("V",), {}), (("CV",), {}), (("OP", "CV"), {}), (("v", "op"), {})])
        kw = {k: (X if k == "Xv" else T) for k in kw}
    elif case == "folds":
        args, kw = ("CV",) + w.choice("op", [(), ("OP",)]), dict(k=w.int("k", None, 2))
    elif case == "one-output":
        args = (w.choice("cls", ["c", "wc", "ml", "mc", "C", "WC", "ML", "MC"]),)
    elif case == "weights":
        args, kw = ("wc",), dict(w=w.mat("w", (w.choice("len", [1, 3, 4]),), positive=True))
        if w.bool("list"):
            kw["w"] = list(kw["w"])
    if file:
        X, T = w.put_h5("x.h5", X), w.put_h5("t.h5", T)
    w.raises(lambda: getattr(e, call)(X, T, *args, **kw), "training with options %s" % (args,))
    unchanged(w, e, ns, B, Xg)


def init_weights(w, hp=False):
    n = w.choice("len", [1, 2, 4])
    v = w.mat("w", (n,), positive=True)
    cls = w.choice("cls", ["wc", "WC", "c", ""])
    w.raises(lambda: (w.HPELM if hp else w.ELM)(2, 3, cls, w=list(v) if w.bool("list") else v), "class weights of wrong length at construction")


def weights_B(w, hp=False, kind="python", d=2, c=2):
    """set_B, set_corr, solve_corr with wrong shapes"""
    e, ns, B = model(w, hp, kind, d=d, c=c)
    L = e.nnet.L
    Xg = w.mat("Xg", (2, d))
    what = w.choice("what", ["B", "corr", "file"] if hp else ["B", "corr"])
    if what == "B":
        shape = w.choice("shape", [(L - 1, c), (L + 1, c), (L, c + 1), (L, 1), (c, L), (L,), ()])
        w.raises(lambda: e.nnet.set_B(w.mat("Bw", shape)), "output weights of wrong shape")
    else:
        a, b = w.choice("shape", [((L - 1, L - 1), (L, c)), ((L, L - 1), (L, c)), ((L + 1, L + 1), (L + 1, c)), ((L, L), (L, c + 1)), ((L, L), (L - 1, c)), ((L - 1, L), (L, c)), ((L - 1, L - 1), (L - 1, c))])
        HH, HT = w.mat("HHw", a), w.mat("HTw", b)
        if what == "corr":
            w.raises(lambda: e.nnet.set_corr(HH, HT), "matrices of wrong shape")
        else:
            fHH, fHT = w.put_h5("HH.h5", HH), w.put_h5("HT.h5", HT)
            if w.bool("validate"):
                fX, fT = w.put_h5("x.h5", w.mat("Xv", (2, d))), w.put_h5("t.h5", w.mat("Tv", (2, c)))
                w.raises(lambda: e.validation_corr(fHH, fHT, fX, fT), "validation over matrices of wrong shape")
            else:
                w.raises(lambda: e.solve_corr(fHH, fHT), "solving matrices of wrong shape")
    unchanged(w, e, ns, B, Xg)


def stored(w, bad=("x-columns", "t-columns", "rows")):
    """malformed data given with matrix files: files unchanged, or not created"""
    e, ns, B = model(w, True, "python", d=3, c=2)
    X, T = bad_data(w, w.choice("what", list(bad)), 3, 2)
    Xg = w.mat("Xg", (2, 3))
    fHH, fHT = w.path("HH.h5"), w.path("HT.h5")
    there = w.bool("there")
    if there:
        HH, HT = w.mat("HHf", (3, 3)), w.mat("HTf", (3, 2))
        w.put_h5("HH.h5", HH), w.put_h5("HT.h5", HT)
    call = w.choice("call", ["add_data", "add_data_async"])
    w.raises(lambda: getattr(e, call)(w.put_h5("x.h5", X), w.put_h5("t.h5", T), fHH=fHH, fHT=fHT), call + " with malformed data")
    if there:
        w.eq(w.get_h5(fHH), HH, "stored HH is unchanged")
        w.eq(w.get_h5(fHT), HT, "stored HT is unchanged")
    unchanged(w, e, ns, B, Xg)


def missing(w, call="train"):
    """input files that do not exist or are empty"""
    e, ns, B = model(w, True, "python", d=2, c=2)
    Xg = w.mat("Xg", (2, 2))
    ok = w.put_h5("ok.h5", w.mat("X", (3, 2)))
    no = w.path("none.h5")
    if call in ("train", "train_async", "add_data", "add_data_async"):
        a = (no, ok) if w.bool("first") else (ok, no)
        w.raises(lambda: getattr(e, call)(*a), call + " with a missing file")
    elif call in ("predict", "project"):
        w.raises(lambda: getattr(e, call)(no), call + " of a missing file")
    elif call == "predict_async":
        w.raises(lambda: e.predict_async(no, w.path("y.h5")), "asynchronous prediction of a missing file")
        w.check(not w.exists(w.path("y.h5")), "no output file appears")
    elif call == "solve_corr":
        a = (no, ok) if w.bool("first") else (ok, no)
        w.raises(lambda: e.solve_corr(*a), "solving with a missing file")
    unchanged(w, e, ns, B, Xg)


def one_dim(w, hp=False, kind="python", use="train", file=False):
    """1-D data is one column"""
    f = w.HPELM if hp else w.ELM
    e = f(1, 1, norm=1, accelerator=acc(kind))
    ns = neurons(w, e, [("tanh", 1), ("lin", 1)], 1)
    n = w.choice("N", [1, 2, 3, 4])
    x, t = w.mat("X", (n,)), w.mat("T", (n,))
    X, T = x.reshape(-1, 1), t.reshape(-1, 1)
    e.batch = w.int("batch", 1)
    if use == "train":
        a, b = w.choice("which", [(x, t), (X, t), (x, T)])
        e.train(a, b)
        RH, RT = corr(w, ns, X, T, 1)
        residual(w, RH, e.nnet.get_B(), RT, "trained on one-dimensional data")
    elif use == "add_data":
        e.add_data(x, t) if hp else e.train(x, t)
        HH, HT = e.nnet.get_corr()
        RH, RT = corr(w, ns, X, T, 1)
        w.eq(HH, RH, "HH of one-dimensional data")
        w.eq(HT, RT, "HT of one-dimensional data")
    else:
        B = w.mat("B", (2, 1))
        e.nnet.set_B(B)
        H = hidden(ns, X)
        w.eq(e.project(x), H, "projection of one-dimensional data")
        w.eq(e.predict(x), np.dot(H, B), "prediction of one-dimensional data")
        y = w.mat("Y", (n,))
        s = 0
        for i in range(n):
            s = s + (y[i] - t[i]) * (y[i] - t[i])
        a, b = w.choice("which", [(t, y), (T, y), (t, y.reshape(-1, 1))])
        w.eq(e.error(a, b), s / n, "error of one-dimensional data")


SCENARIOS = []
M = [(), ("LOO",), ("CV",), ("OP", "LOO"), ("V",), ("OP", "V")]
for kind in ("python", "basic"):
    SCENARIOS += [
        S("train-" + kind, train_data, dict(kind=kind, modes=M), bounds="13 kinds of malformed data (any values), 6 training modes, 4 model states"),
        S("train-swap-" + kind, train_data, dict(kind=kind, modes=M[:3], d=1, c=2, bad=["x-columns", "t-columns", "t-1d", "rows", "x-3d"]), bounds="one input"),
        S("train-one-" + kind, train_data, dict(kind=kind, modes=M[:2], d=2, c=1, bad=["x-columns", "x-1d", "t-columns", "rows", "t-3d"]), bounds="one output"),
        S("valid-" + kind, train_data, dict(kind=kind, modes=M[4:], call="validate"), bounds="malformed validation data"),
        S("hp-train-" + kind, train_data, dict(kind=kind, hp=True), bounds="HPELM.train on arrays"),
        S("hp-add-" + kind, train_data, dict(kind=kind, hp=True, call="add_data"), bounds="HPELM.add_data on arrays"),
        S("neurons-" + kind, bad_neurons, dict(kind=kind), bounds="11 kinds of malformed neurons, 4 functions, 4 model states"),
        S("neurons-part-" + kind, partial_neurons, dict(kind=kind)),
        S("setters-" + kind, weights_B, dict(kind=kind), bounds="set_B, set_corr of wrong shapes"),
        S("hp-setters-" + kind, weights_B, dict(kind=kind, hp=True), bounds="solve_corr, validation_corr with files of wrong shapes"),
        S("empty-" + kind, no_neurons, dict(kind=kind)),
        S("1d-train-" + kind, one_dim, dict(kind=kind), bounds="1 to 4 samples, any batch"),
        S("1d-use-" + kind, one_dim, dict(kind=kind, use="predict"), bounds="1 to 4 samples"),
        S("1d-hp-train-" + kind, one_dim, dict(kind=kind, hp=True), bounds="1 to 4 samples, any batch"),
        S("1d-hp-add-" + kind, one_dim, dict(kind=kind, hp=True, use="add_data"), bounds="1 to 4 samples, any batch"),
        S("1d-hp-use-" + kind, one_dim, dict(kind=kind, hp=True, use="predict"), bounds="1 to 4 samples"),
    ]
    for case in ("exclusive", "selection", "missing", "folds", "one-output", "weights"):
        SCENARIOS.append(S("opt-%s-%s" % (case, kind), options, dict(kind=kind, case=case), bounds="contradicting options, 4 model states"))
FB = ["x-columns", "x-transposed", "x-3d", "t-columns", "t-3d", "rows", "swapped"]
SCENARIOS += [
    S("file-train", train_data, dict(hp=True, file=True, bad=FB), bounds="HDF5 files"),
    S("file-add", train_data, dict(hp=True, file=True, call="add_data", bad=FB), bounds="HDF5 files"),
    S("file-async", train_data, dict(hp=True, file=True, call="train_async", bad=FB), bounds="HDF5 files"),
    S("stored", stored, bounds="matrix files there or not"),
    S("init-weights", init_weights), S("init-weights-hp", init_weights, dict(hp=True)),
]
for call in ("add_data", "train_async", "add_data_async", "files", "train"):
    SCENARIOS.append(S("empty-hp-" + call, no_neurons, dict(hp=True, call=call, file=True)))
for case in ("exclusive", "one-output", "weights"):
    SCENARIOS.append(S("opt-%s-hp" % case, options, dict(hp=True, case=case, file=True)))
    SCENARIOS.append(S("opt-%s-async" % case, options, dict(hp=True, case=case, file=True, call="train_async")))
for call in ("predict", "project", "error", "confusion"):
    SCENARIOS.append(S(call, use_data, dict(call=call), bounds="malformed arrays"))
    SCENARIOS.append(S("hp-" + call, use_data, dict(call=call, hp=True), bounds="malformed arrays"))
for call in ("train", "train_async", "add_data", "add_data_async", "predict", "project", "predict_async", "solve_corr"):
    SCENARIOS.append(S("missing-" + call, missing, dict(call=call), bounds="missing input file"))
SCENARIOS += on_gpu("C20", SCENARIOS, ["train-python", "hp-train-python", "neurons*", "setters*", "1d-train-python", "1d-use-python", "opt-*-python"])
