"""C27: out-of-core processing never loads more than a batch."""
import numpy as np
from symx.spec import S
from checks.common import acc, neurons, rng, anybatch, const


class Watch:
    """rows handed to the solver in one call"""
    def __init__(self, w, e):
        self.rows = []
        for m in ("add_batch", "_project", "_predict"):
            o = getattr(e.nnet, m, None)
            if o is not None:
                w.patch(e.nnet, m, self.wrap(o))

    def wrap(self, o):
        def f(X, *a, **k):
            self.rows.append(X.shape[0])
            return o(X, *a, **k)
        return f


def bounded(w, watch, batch):
    for kind, n in w.rows_log():
        w.check(kind != "textall", "text is not read at once")
        w.check(n <= batch, "rows of one read or write", "%s of %s rows" % (kind, n))
    for n in watch.rows if watch else ():
        w.check(n <= batch, "rows of one solver call", "%s rows" % n)


def hpelm(w, call="train", nmax=5, kind="python", cls="", src="h5", c=2, part="all", out="none"):
    e = w.HPELM(2, c, cls, norm=1, accelerator=acc(kind))
    ns = neurons(w, e, [("tanh", 1)], 2)
    e.nnet.set_B(w.mat("B", (1, c)))
    N = w.choice("N", range(2, nmax + 1))
    X = w.mat("X", (N, 2))
    T = w.onehot("T", N, c)[0] if cls == "wc" else w.mat("T", (N, c))
    Y = w.mat("Y", (N, c))
    wt = dict(w=[1., 2., 3.][:c]) if cls == "wc" and w.bool("given") else {}
    if cls == "wc" and call in ("error", "confusion"):
        e.wc = np.array([1., 2., 3.][:c])
    if src == "h5":
        X, T, Y = w.put_h5("x.h5", X), w.put_h5("t.h5", T), w.put_h5("y.h5", Y)
    batch = w.int("batch", 1)
    if call in ("train", "train_async") and w.bool("opt"):
        opt = dict(batch=batch)
    else:
        e.batch, opt = batch, {}
    r = {}
    if part == "all":
        a, k = rng(w, N)
        r = dict(istart=a, icount=k)
    watch = Watch(w, e)
    w.clear_log()
    o = {"file": w.path("out.h5"), "array": np.zeros((N, c)), "none": None}[out]
    if call in ("train", "train_async"):
        getattr(e, call)(X, T, *([cls] if cls else []), **dict(r, **dict(opt, **wt)))
    elif call in ("add_data", "add_data_async"):
        f = dict(fHH=w.path("HH.h5"), fHT=w.path("HT.h5")) if w.bool("files") else {}
        getattr(e, call)(X, T, **dict(r, **f))
    elif call == "predict_async":
        e.predict_async(X, w.path("out.h5"), **r)
    elif call == "predict":
        e.predict(X, o, **r)
    elif call == "project":
        e.project(X, o if out != "array" else np.zeros((N, 1)), **r)
    elif call == "error":
        e.error(T, Y, **r)
    elif call == "confusion":
        e.confusion(T, Y)
    elif call == "validation":
        H = w.real("hh", 1, 4)
        e.validation_corr(w.put_h5("HH.h5", np.ones((1, 1)) * 2), w.put_h5("HT.h5", np.ones((1, c))), X, T, steps=[1])
    bounded(w, watch, batch)


def long(w, call="train", N=1000, batch=7, kind="python"):
    """many batches"""
    e = w.HPELM(1, 2, "c" if call == "confusion" else "", norm=1, accelerator=acc(kind))
    e.add_neurons(1, "lin", np.ones((1, 1)), np.ones(1))
    e.nnet.set_B(np.ones((1, 2)))
    X, T, Y = (w.put_h5("%s.h5" % n, const(i, N, 1 if n == "x" else 2)) for i, n in enumerate("xty"))
    e.batch = batch
    k = w.choice("istart", [0, 3, N - 2 * batch])
    watch = Watch(w, e)
    w.clear_log()
    if call == "train":
        e.train(X, T, istart=k)
    elif call == "add_data":
        e.add_data(X, T, istart=k)
    elif call in ("predict", "project"):
        getattr(e, call)(X, w.path("out.h5"), istart=k)
    elif call == "error":
        e.error(T, Y, istart=k)
    elif call == "confusion":
        e.confusion(T, Y)
    bounded(w, watch, batch)


def text(w, N=3000, ext="csv", skip=0):
    """rows are written as they are read: no part that grows with the file is kept"""
    f = w.put_text("in." + ext, const(1, N, 1), ",", skip)
    w.clear_log()
    w.load("hpelm.modules").make_hdf5(f, w.path("out.h5"), delimiter=",", skiprows=skip)
    kept, most, rows = 0, 0, 0
    for kind, m in w.rows_log():
        rows = max(rows, m)
        kept = kept + 1 if kind == "textline" else 0
        most = max(most, kept)
    w.check(rows <= N // 2 and most <= N // 2, "text is imported in parts", "%d rows, %d lines of %d at a time" % (rows, most, N))


def normalize(w, n=4, batch="sym", given=False, dtype="f64"):
    X = w.mat("X", (n, 2))
    w.assume(X[0, 0] - X[n - 1, 0] > 0.2)
    w.assume(X[0, 1] - X[n - 1, 1] > 0.2)
    p = w.path("data.h5")
    w.load("hpelm.modules").make_hdf5(X, p, dtype=np.float32 if dtype == "f32" else np.float64)
    b = anybatch(w, n)
    w.clear_log()
    a = (np.array([1., 2.]), np.array([1., 2.])) if given else (None, None)
    w.load("hpelm.modules").normalize_hdf5(p, *a, batch=b)
    bounded(w, None, b)
    if w.bool("again"):
        w.load("hpelm.modules").normalize_hdf5(p, batch=b)
        bounded(w, None, b)


SCENARIOS = []
for call in ("train", "add_data", "predict", "project", "error"):
    SCENARIOS.append(S(call, hpelm, dict(call=call), tparams=dict(nmax=8), bounds="N=2..5 (8), any batch, any range, HDF5 files"))
    SCENARIOS.append(S(call + "-all", hpelm, dict(call=call, part="none"), tparams=dict(nmax=8), bounds="N=2..5 (8), any batch, all rows"))
    SCENARIOS.append(S(call + "-basic", hpelm, dict(call=call, kind="basic", nmax=4), tparams=dict(nmax=6), bounds="N=2..4 (6), basic solver"))
    if call != "error":
        SCENARIOS.append(S(call + "-array", hpelm, dict(call=call, src="array", nmax=4), tparams=dict(nmax=6), bounds="N=2..4 (6), arrays"))
for call in ("predict", "project"):
    for out in ("file", "array"):
        SCENARIOS.append(S("%s-to-%s" % (call, out), hpelm, dict(call=call, out=out, part="none"), tparams=dict(nmax=8), bounds="N=2..5 (8), any batch"))
for cls in ("c", "ml", "wc"):
    n = 3 if cls == "wc" else 4
    SCENARIOS.append(S("train-" + cls, hpelm, dict(call="train", cls=cls, nmax=n), tparams=dict(nmax=n + 1), bounds="N=2..%d, any batch, any range" % n))
    SCENARIOS.append(S("error-" + cls, hpelm, dict(call="error", cls=cls, nmax=3, part="none"), bounds="N=2..3, any batch"))
    SCENARIOS.append(S("confusion-" + cls, hpelm, dict(call="confusion", cls=cls, nmax=3), bounds="N=2..3, any batch"))
SCENARIOS += [
    S("train_async", hpelm, dict(call="train_async", nmax=4), bounds="N=2..4, any batch, any range"),
    S("train_async-wc", hpelm, dict(call="train_async", nmax=3, cls="wc"), bounds="N=2..3, any batch, any range"),
    S("add_async", hpelm, dict(call="add_data_async", nmax=4), bounds="N=2..4, any batch, any range"),
    S("predict_async", hpelm, dict(call="predict_async", nmax=4), bounds="N=2..4, any batch, any range"),
    S("validation", hpelm, dict(call="validation", part="none"), bounds="N=2..5, any batch"),
    S("validation-c", hpelm, dict(call="validation", part="none", cls="c", nmax=3), bounds="N=2..3, any batch"),
]
for call in ("train", "predict", "project", "error", "confusion"):
    SCENARIOS.append(S("long-" + call, long, dict(call=call, N=100), tparams=dict(N=1000), bounds="100 (1000) rows, batch 7"))
for ext in ("txt", "csv"):
    SCENARIOS.append(S("text-" + ext, text, dict(ext=ext), bounds="3000 rows"))
    SCENARIOS.append(S("text-skip-" + ext, text, dict(ext=ext, skip=2), bounds="3000 rows, header"))
SCENARIOS += [
    S("normalize2", normalize, dict(n=2), bounds="2 rows, any batch"), S("normalize4", normalize, bounds="4 rows, any batch"),
    S("normalize5", normalize, dict(n=5), bounds="5 rows, any batch"), S("normalize-given", normalize, dict(given=True), bounds="4 rows, any batch, given parameters"),
    S("normalize-single", normalize, dict(dtype="f32"), dict(f32=1), bounds="4 rows, 32-bit file"),
]
